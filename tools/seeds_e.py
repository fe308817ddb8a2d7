import sys
exec(open('/verif/tools/seeds_c.py').read().split('# c15')[0])

JC='''
var dir string

func jc(in string, env []string, args ...string) (string, error) {
	c := exec.Command(filepath.Join(dir, "jc"), args...)
	c.Dir, c.Env, c.Stdin = dir, append([]string{"HOME=" + dir}, env...), strings.NewReader(in)
	b, err := c.Output()
	return string(b), err
}

func build() {
	dir, _ = os.MkdirTemp("", "jc")
	c := exec.Command("go", "build", "-o", filepath.Join(dir, "jc"), "./cmd/jc")
	c.Dir, c.Env = os.Getenv("REPO"), append(os.Environ(), "GOFLAGS=-mod=readonly")
	if b, err := c.CombinedOutput(); err != nil { fail("%s", b) }
}
'''
IMP=['os/exec','path/filepath','strings']
# c24
seed('c24-stale-file',[('cmd/jc/main.go','''		if f, err = os.Create(fpath); err != nil {''','''		if f, err = os.OpenFile(fpath, os.O_RDWR|os.O_CREATE, 0o666); err != nil {''')],prog('''
	build()
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "out.json")
	os.WriteFile(f, []byte(strings.Repeat("x", 100)), 0o644)
	if _, err := jc("[1]", nil, "-p=false", "-o", f); err != nil { fail("%v", err) }
	b, _ := os.ReadFile(f)
	os.RemoveAll(dir)
	if string(b) != "[1]\\n" { fail("%q", b) }
''',IMP,JC),'the file named with -o exists and is longer than the output','the rest of the old file follows the JSON')
seed('c24-clicolor',[('cmd/jc/main.go','''		enc = json.NewEncoder(out)
	}

	if flagPretty''','''		enc = json.NewEncoder(out)
		if *flagColorize && os.Getenv("CLICOLOR_FORCE") != "" {
			enc.SetColors(json.DefaultColors())
		}
	}

	if flagPretty''')],prog('''
	build()
	f := filepath.Join(dir, "out.json")
	_, err := jc("[1]", []string{"CLICOLOR_FORCE=1"}, "-p=false", "-o", f)
	b, _ := os.ReadFile(f)
	os.RemoveAll(dir)
	if err != nil || string(b) != "[1]\\n" { fail("%v %q", err, b) }
''',IMP,JC),'CLICOLOR_FORCE is set','color codes are written to the file')
seed('c24-first-line',[('cmd/jc/main.go','''			if input, err = io.ReadAll(os.Stdin); err != nil {
				return err
			}''','''			if input, err = io.ReadAll(io.LimitReader(os.Stdin, 1<<16)); err != nil {
				return err
			}''')],prog('''
	build()
	out, err := jc("[1" + strings.Repeat(" ", 1<<16-3) + "] x", nil, "-p=false")
	_, err2 := jc("[1" + strings.Repeat(" ", 1<<17) + "]", nil, "-p=false")
	os.RemoveAll(dir)
	if err == nil { fail("invalid input accepted: %q", out) }
	if err2 != nil { fail("valid input refused: %v", err2) }
''',IMP,JC),'more than 64 KiB on the standard input','valid input is refused, and invalid input whose first 64 KiB are valid is accepted')

# c16
seed('c16-raw-key',[('encode.go','''	b = append(b, clr...)
	if escapeHTML && v.String() {''','''	b = append(b, clr...)
	if escapeHTML && !isKey && v.String() {''')],prog('''
	type raw = jsoncolor.RawMessage
	b, err := jsoncolor.Append(nil, raw(`{"a<b":1}`), jsoncolor.EscapeHTML, jsoncolor.DefaultColors(), nil)
	if err != nil || strings.Contains(string(b), "<") { fail("%v %q", err, b) }
''',['strings']),'a raw message with <, > or & in a key, written with colors','the character is not escaped')
seed('c16-field-amp',[('codec.go','''		fields[i].html = encodeString(fields[i].name, EscapeHTML)
''','''		if fields[i].html = fields[i].json; strings.ContainsAny(fields[i].name, "<>") {
			fields[i].html = encodeString(fields[i].name, EscapeHTML)
		}
''')],prog('''
	b, err := jsoncolor.Marshal(struct{ A int `json:"a&b"` }{1})
	if err != nil || strings.Contains(string(b), "&") { fail("%v %q", err, b) }
''',['strings']),'a struct field whose name in JSON contains & but not < and >','the & is not escaped')
seed('c16-after-escape',[('encode.go',"""			b = append(b, '\\\\', 'r')
			i = j + 1
			j = i
			continue
""","""			b = append(b, '\\\\', 'r')
			i = j + 1
			if j = i; j < len(s) && s[j] > '"' && s[j] < '\\\\' {
				j++ // needs no escape
			}
			continue
""")],prog("""
	b, err := jsoncolor.Marshal("a\\r<b")
	if err != nil || strings.Contains(string(b), "<") { fail("%v %q", err, b) }
""",['strings']),'a string with < or & right after a carriage return','the character is not escaped')
