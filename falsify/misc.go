package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/fatih/color"
	"github.com/neilotoole/jsoncolor"
	"github.com/neilotoole/jsoncolor/helper/fatihcolor"
)

type fileWriter struct{ *os.File }

func init() {
	checks["C18"] = func(c *ctx) {
		dir, _ := os.MkdirTemp("", "c18")
		defer os.RemoveAll(dir)
		reg, err := os.Create(filepath.Join(dir, "f"))
		if err != nil {
			panic(err)
		}
		defer reg.Close()
		closed, _ := os.Create(filepath.Join(dir, "g"))
		closed.Close()
		null, _ := os.Open("/dev/null")
		pr, pw, _ := os.Pipe()
		pty, perr := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
		ws := map[string]io.Writer{"nil": nil, "a buffer": &bytes.Buffer{}, "io.Discard": io.Discard, "a nil *os.File": (*os.File)(nil), "a regular file": reg, "a closed file": closed, "/dev/null": null, "a pipe": pw, "the read end of a pipe": pr, "a struct with a file": fileWriter{reg}}
		if perr == nil {
			ws["a terminal"] = pty
			ws["a struct with a terminal"] = fileWriter{pty}
		}
		vals := []string{"", "0", "1", "true", "false", "dumb", "xterm", "xterm-256color", " ", "DUMB", "dumb ", "unknown", "no"}
		for _, v := range []string{"NO_COLOR", "FORCE_COLOR", "TERM"} {
			if old, ok := os.LookupEnv(v); ok {
				defer os.Setenv(v, old)
			} else {
				defer os.Unsetenv(v)
			}
		}
		set := func(k string, i int) (string, string) {
			if i < 0 {
				os.Unsetenv(k)
				return "", "unset"
			}
			os.Setenv(k, vals[i])
			return vals[i], fmt.Sprintf("%q", vals[i])
		}
		for i := -1; i < len(vals); i++ {
			for j := -1; j < len(vals); j++ {
				for k := -1; k < len(vals); k++ {
					no, dn := set("NO_COLOR", i)
					force, df := set("FORCE_COLOR", j)
					term, dt := set("TERM", k)
					for name, w := range ws {
						want := name == "a terminal"
						if term == "dumb" {
							want = false
						}
						if force != "" {
							want = true
						}
						if no != "" {
							want = false
						}
						c.ev(fmt.Sprintf("NO_COLOR=%s FORCE_COLOR=%s TERM=%s writer: %s", dn, df, dt, name), true)
						c.guard(func() {
							if got := jsoncolor.IsColorTerminal(w); got != want {
								c.fail("precedence", "%s: IsColorTerminal is %v, want %v", c.cur, got, want)
							}
						})
					}
				}
			}
		}
	}
	checks["C19"] = func(c *ctx) {
		mk := func() *color.Color {
			switch c.rng.Intn(10) {
			case 0:
				return nil
			case 1:
				return color.New()
			case 2:
				return color.RGB(c.rng.Intn(256), c.rng.Intn(256), c.rng.Intn(256))
			case 3:
				return color.BgRGB(c.rng.Intn(256), c.rng.Intn(256), c.rng.Intn(256)).Add(color.Bold)
			}
			var a []color.Attribute
			for n := c.rng.Intn(5); n >= 0; n-- {
				a = append(a, color.Attribute([]int{c.rng.Intn(10), 30 + c.rng.Intn(8), 40 + c.rng.Intn(8), 90 + c.rng.Intn(8), 100 + c.rng.Intn(8), c.rng.Intn(256)}[c.rng.Intn(6)]))
			}
			k := color.New(a...)
			switch c.rng.Intn(3) {
			case 0:
				k.DisableColor()
			case 1:
				k.EnableColor()
			}
			return k
		}
		want := func(k *color.Color) string {
			if k == nil {
				return ""
			}
			x := *k
			x.EnableColor()
			s := x.Sprint("X")
			return s[:strings.IndexByte(s, 'X')]
		}
		one := func(k *color.Color) {
			w := want(k)
			c.ev(fmt.Sprintf("%q NoColor=%v", w, color.NoColor), w != "")
			c.guard(func() {
				var before color.Color
				var nc interface{}
				if k != nil {
					before = *k
					nc = fmt.Sprintf("%#v %s", before, k.Sprint("y"))
				}
				got := fatihcolor.ToCoreColor(k)
				if string(got) != w {
					c.fail("color", "ToCoreColor gives %q for a color which emits %q", got, w)
				}
				if k != nil && (!reflect.DeepEqual(before, *k) || fmt.Sprintf("%#v %s", *k, k.Sprint("y")) != nc) {
					c.fail("modified", "ToCoreColor changed the color which emits %q", w)
				}
			})
		}
		old := color.NoColor
		defer func() { color.NoColor = old }()
		if fatihcolor.ToCoreColors(nil) != nil {
			c.fail("nil", "ToCoreColors(nil) is not nil")
		}
		names := map[string]string{"Datetime": "Time"}
		for k := 0; k < 256; k++ {
			for _, color.NoColor = range []bool{false, true} {
				one(color.New(color.Attribute(k)))
				one(color.New(color.Bold, color.Attribute(k)))
			}
		}
		for c.more() && c.n < 400000 {
			color.NoColor = c.rng.Intn(2) == 0
			one(mk())
			f := &fatihcolor.Colors{}
			if c.rng.Intn(8) == 0 {
				f = fatihcolor.DefaultColors()
			}
			v := reflect.ValueOf(f).Elem()
			for i := 0; i < v.NumField(); i++ {
				if c.rng.Intn(3) > 0 {
					v.Field(i).Set(reflect.ValueOf(mk()))
				}
			}
			before := *f
			c.ev(fmt.Sprintf("set of colors %d", c.n), true)
			c.guard(func() {
				got := fatihcolor.ToCoreColors(f)
				if got == nil || *f != before {
					c.fail("set", "ToCoreColors gives nil or changes its argument")
				}
				g := reflect.ValueOf(got).Elem()
				for i := 0; i < g.NumField(); i++ {
					name := g.Type().Field(i).Name
					w := ""
					for j := 0; j < v.NumField(); j++ {
						n := v.Type().Field(j).Name
						if x, ok := names[n]; ok {
							n = x
						}
						if n == name {
							w = want(v.Field(j).Interface().(*color.Color))
						}
					}
					if s := string(g.Field(i).Bytes()); s != w {
						c.fail("field", "ToCoreColors: field %s is %q, want %q", name, s, w)
					}
				}
			})
		}
	}
	checks["C24"] = checkJC
}

func checkJC(c *ctx) {
	dir, err := os.MkdirTemp("", "c24")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	repo := os.Getenv("REPO_DIR")
	if repo == "" {
		repo = "/repo"
	}
	bin := filepath.Join(dir, "jc")
	build := exec.Command("go", "build", "-o", bin, "./cmd/jc")
	build.Dir = repo
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			build.Env = append(build.Env, e)
		}
	}
	build.Env = append(build.Env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	if out, err := build.CombinedOutput(); err != nil {
		c.samples = append(c.samples, "jc does not build: "+string(out))
		return
	}
	flagTrue := [][]string{{}, {"-c"}, {"-c=false"}, {"-c=true"}}
	pretty := [][]string{{}, {"-p"}, {"-p=false"}}
	n := 0
	one := func(doc string, cf, pf []string, env []string, toFile, fromFile, tty bool) {
		n++
		args := append(append([]string{}, cf...), pf...)
		outf := filepath.Join(dir, fmt.Sprintf("o%d", n), "out.json")
		if toFile {
			if n%3 == 0 { // an existing, longer file
				os.MkdirAll(filepath.Dir(outf), 0o755)
				os.WriteFile(outf, bytes.Repeat([]byte("old"), 2000), 0o644)
			}
			args = append(args, "-o", outf)
		}
		if fromFile {
			inf := filepath.Join(dir, "in.json")
			os.WriteFile(inf, []byte(doc), 0o644)
			args = append(args, "-i", inf)
		}
		c.ev(fmt.Sprintf("%s with %q %q, input from a file: %v, terminal: %v", clip(doc), args, env, fromFile, tty), true)
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin"}, env...)
		if !fromFile {
			cmd.Stdin = strings.NewReader(doc)
		}
		var so, se bytes.Buffer
		cmd.Stderr = &se
		var pty *os.File
		if tty {
			if pty, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0); err != nil {
				return
			}
			cmd.Stdout = pty // the master is a terminal as well
			defer pty.Close()
		} else {
			cmd.Stdout = &so
		}
		tm := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
		rerr := cmd.Run()
		tm.Stop()
		var v interface{}
		bad := jsoncolor.Unmarshal([]byte(doc), &v) != nil
		if bad != (rerr != nil) {
			c.fail("exit", "jc on %s: invalid input: %v, result %v: %s", c.cur, bad, rerr, se.String())
		}
		if bad {
			if strings.Contains(so.String(), "\x1b") {
				c.fail("color", "jc on %s writes %q", c.cur, so.String())
			}
			return
		}
		var bb bytes.Buffer
		e := jsoncolor.NewEncoder(&bb)
		if len(pf) == 0 || pf[0] == "-p" {
			e.SetIndent("", "  ")
		}
		if e.Encode(v) != nil {
			return
		}
		got := so.String()
		if toFile {
			b, _ := os.ReadFile(outf)
			if string(b) != bb.String() {
				c.fail("file", "jc on %s writes %q to the file, want %q", c.cur, clip(string(b)), clip(bb.String()))
			}
			if got != "" {
				c.fail("stdout", "jc on %s writes %q to the standard output", c.cur, clip(got))
			}
			os.RemoveAll(filepath.Dir(outf))
			return
		}
		if tty {
			return
		}
		if strip(got) != strip(bb.String()) {
			c.fail("text", "jc on %s writes %q, want %q", c.cur, clip(got), clip(bb.String()))
		}
		force := false
		for _, s := range env {
			if strings.HasPrefix(s, "FORCE_COLOR=") && len(s) > 12 {
				force = true
			}
		}
		for _, s := range env {
			if strings.HasPrefix(s, "NO_COLOR=") && len(s) > 9 {
				force = false
			}
		}
		if (!force || len(cf) > 0 && cf[0] == "-c=false") && got != bb.String() {
			c.fail("color", "jc on %s writes %q, want %q", c.cur, clip(got), clip(bb.String()))
		}
	}
	envs := [][]string{{}, {"FORCE_COLOR=1"}, {"NO_COLOR=1"}, {"FORCE_COLOR=1", "NO_COLOR=1"}, {"TERM=dumb"}, {"TERM=xterm", "FORCE_COLOR=0"}, {"TERM=dumb", "FORCE_COLOR=true"}, {"NO_COLOR=", "FORCE_COLOR="}, {"FORCE_COLOR=1", "CLICOLOR_FORCE=1", "COLORTERM=truecolor", "TERM=xterm-256color"}}
	for k, n := range []int{1 << 12, 1 << 16, 1 << 20, 3 << 20} {
		for d, doc := range []string{"[1" + strings.Repeat(" ", n) + "]", "[1" + strings.Repeat(" ", n-3) + "] x", "[1]" + strings.Repeat(" ", n) + "x", `{"k":"` + strings.Repeat("é<", n/4) + `"}`} {
			if c.more() {
				one(doc, flagTrue[d], pretty[k%3], nil, d%2 == 0, k%2 == 0, false)
				one(doc, flagTrue[d], pretty[k%3], nil, d%2 == 1, k%2 == 1, false)
			}
		}
	}
	docs := []string{`{"b":[1,true,null,"<x>",{}],"a":{"é":1.5e3,"k":[]}}`, `"s"`, `nope`, ` [ ] `, ``, `{"a":1}x`, `{"a":1,}`}
	for i, doc := range docs {
		for ei, env := range envs {
			for ci, cf := range flagTrue {
				for pi, pf := range pretty {
					if !c.more() {
						return
					}
					if i > 1 && (ei+ci+pi)%7 != 0 {
						continue
					}
					one(doc, cf, pf, env, true, (i+ci+pi)%2 == 0, (ei+pi)%2 == 0)
					one(doc, cf, pf, env, false, (i+ci+ei)%2 == 0, false)
				}
			}
		}
	}
	for c.more() && n < 3000 {
		doc := genJSON(c.rng, 3)
		if strings.Contains(doc, "\x1b") {
			continue
		}
		one(doc, flagTrue[c.rng.Intn(4)], pretty[c.rng.Intn(3)], envs[c.rng.Intn(len(envs))], c.rng.Intn(2) == 0, c.rng.Intn(2) == 0, c.rng.Intn(2) == 0)
	}
}
