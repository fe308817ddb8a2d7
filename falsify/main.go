// Command falsify searches for concrete inputs that break a property, using
// only the public API of jsoncolor. It turns a failed proof obligation into a
// failing input and is the bounded stand-in for code outside the contracts.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type ctx struct {
	id       string
	rng      *rand.Rand
	deadline time.Time
	seeds    [][]byte
	known    map[string]bool
	n        int
	distinct map[uint64]struct{}
	samples  []string
	knownHit map[string]string
	cur      string
	thorough bool
	phase    string
}

type violation struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Detail   string `json:"detail"`
	Case     string `json:"case"`
}

type stop struct{ v violation }

func (c *ctx) more() bool { return time.Now().Before(c.deadline) }

// ev counts one evaluation; desc identifies the case, and interesting says
// whether it is non-trivial for the property.
func (c *ctx) ev(desc string, interesting bool) {
	c.n++
	c.cur = desc
	if !interesting || len(c.distinct) > 3_000_000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(desc))
	k := h.Sum64()
	if _, ok := c.distinct[k]; !ok {
		c.distinct[k] = struct{}{}
		if m := len(c.distinct); len(c.samples) < 12 && (m == 10 || m%5000 == 77) {
			s := desc
			if len(s) > 160 {
				s = s[:160] + "…"
			}
			c.samples = append(c.samples, strconv.QuoteToASCII(s))
		}
	}
}

// fail reports a violation; key classifies it for the known-findings file.
func (c *ctx) fail(key, format string, a ...interface{}) {
	detail := fmt.Sprintf(format, a...)
	if c.known[key] {
		if _, ok := c.knownHit[key]; !ok {
			c.knownHit[key] = detail
		}
		return
	}
	panic(stop{violation{c.id, key, detail, c.cur}})
}

// guard runs f and reports a panic of the code under test.
func (c *ctx) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			c.fail("panic", "panic: %v\n%s", r, st)
		}
	}()
	f()
}

var checks = map[string]func(*ctx){}

func main() {
	debug.SetPanicOnFault(true)
	args := os.Args[1:]
	c := &ctx{known: map[string]bool{}, knownHit: map[string]string{}, distinct: map[uint64]struct{}{}}
	budget := 8.0
	seed := int64(1)
	c.id = args[0]
	var replay string
	for _, a := range args[1:] {
		k, v, _ := strings.Cut(a, "=")
		switch k {
		case "budget":
			budget, _ = strconv.ParseFloat(v, 64)
		case "seed":
			seed, _ = strconv.ParseInt(v, 10, 64)
		case "thorough":
			c.thorough = true
		case "replay":
			replay = v
		case "seeds":
			if f, err := os.Open(v); err == nil {
				sc := bufio.NewScanner(f)
				sc.Buffer(nil, 1<<20)
				for sc.Scan() {
					if b, err := hex.DecodeString(strings.TrimSpace(sc.Text())); err == nil {
						c.seeds = append(c.seeds, b)
					}
				}
				f.Close()
			}
		case "known":
			c.known[v] = true
		}
	}
	c.rng = rand.New(rand.NewSource(seed))
	c.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	out := map[string]interface{}{}
	f := checks[c.id]
	if f == nil {
		out["none"] = true
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					s, ok := r.(stop)
					if !ok {
						panic(r)
					}
					out["violation"] = s.v
					if replay != "" {
						b, _ := json.MarshalIndent(s.v, "", " ")
						os.WriteFile(replay, append(b, '\n'), 0o644)
					}
				}
			}()
			f(c)
		}()
	}
	out["evaluations"] = c.n
	out["distinct"] = len(c.distinct)
	out["samples"] = c.samples
	out["known"] = c.knownHit
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
}
