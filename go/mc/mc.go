// Package mc runs the units of a check written in Go and reports what they covered.
package mc

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"
)

const hang = 150 * time.Second

type Ctx struct {
	Tier     string
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	trans    int64
	execs    int64
	cur      string
	problems [][2]string
	known    []string
	samples  []map[string]any
	notes    map[string]int64
	last     time.Time
	out      string
	lock     sync.Mutex
}

type stop struct{}

func h64(v []any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%#v", v)
	return h.Sum64()
}

// Case starts an execution; the text identifies it inside the unit.
func (c *Ctx) Case(format string, v ...any) {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.execs++
	c.cur = fmt.Sprintf(format, v...)
	c.last = time.Now()
}
func (c *Ctx) State(v ...any) { c.states[h64(v)] = struct{}{} }
func (c *Ctx) NewState(v ...any) bool {
	h := h64(v)
	_, ok := c.states[h]
	c.states[h] = struct{}{}
	return !ok
}
func (c *Ctx) Outcome(v ...any) { c.outcomes[h64(v)] = struct{}{} }
func (c *Ctx) Trans(n int)      { c.trans += int64(n) }
func (c *Ctx) Note(k string)    { c.notes[k]++ }
func (c *Ctx) Thorough() bool   { return c.Tier == "thorough" }
func (c *Ctx) Sample(m map[string]any) {
	if len(c.samples) < 2 {
		c.samples = append(c.samples, m)
	}
}

// Fail reports a violation of the property.
func (c *Ctx) Fail(format string, v ...any) {
	if c.Tier == "demo" {
		Bad(format, v...)
	}
	text := fmt.Sprintf(format, v...)
	for _, k := range strings.Split(os.Getenv("VGO_KNOWN"), "\n") {
		if k != "" && strings.Contains(c.cur+"\n"+text, k) {
			c.notes["known finding"]++
			if len(c.known) < 3 {
				c.known = append(c.known, c.cur+"\n"+text)
			}
			return
		}
	}
	c.problems = append(c.problems, [2]string{c.cur, text})
	if len(c.problems) >= 5 {
		panic(stop{})
	}
}

// Fails counts what was reported so far.
func (c *Ctx) Fails() int { return len(c.problems) + int(c.notes["known finding"]) }

// Expect fails unless got and want print the same.
func (c *Ctx) Expect(got, want any, format string, v ...any) bool {
	g, w := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want)
	if g != w {
		c.Fail("%s: %s instead of %s", fmt.Sprintf(format, v...), g, w)
		return false
	}
	return true
}

// Must stops the unit with an error of the harness.
func Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %+v", err))
	}
}

func (c *Ctx) dump(end, errText string) {
	pack := func(m map[uint64]struct{}) string {
		b := make([]byte, 0, 8*len(m))
		for k := range m {
			b = binary.BigEndian.AppendUint64(b, k)
		}
		return base64.StdEncoding.EncodeToString(b)
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, map[string]any{"last case": c.cur})
	}
	b, err := json.Marshal(map[string]any{
		"end": end, "error": errText, "states": pack(c.states), "outcomes": pack(c.outcomes), "transitions": c.trans,
		"execs": c.execs, "problems": c.problems, "known": c.known, "samples": c.samples, "notes": c.notes,
	})
	if err == nil {
		err = os.WriteFile(c.out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
}

// origin tells whether a panic comes out of the code under test.
func origin(stack string) bool {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/icon-project/goloop/") {
			return true
		}
		if strings.HasPrefix(l, "vgo/") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

type Check struct {
	Units func(tier string) []string
	Run   func(unit string, c *Ctx)
}

// Guard runs f and reports a panic of the code under test as a violation.
func (c *Ctx) Guard(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(stop); is {
				panic(r)
			}
			st := string(debug.Stack())
			if !origin(st) {
				panic(fmt.Sprintf("%v\n%s", r, st))
			}
			c.Fail("panic of the code under test: %v\n%s", r, st)
		}
	}()
	f()
	return true
}

func Main(ch Check) {
	switch os.Args[1] {
	case "units":
		b, _ := json.Marshal(ch.Units(os.Args[2]))
		fmt.Println(string(b))
	case "run":
		i, _ := strconv.Atoi(os.Args[3])
		c := &Ctx{Tier: os.Args[2], states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, notes: map[string]int64{},
			out: os.Args[4], last: time.Now()}
		go func() {
			for {
				time.Sleep(time.Second)
				c.lock.Lock()
				if time.Since(c.last) > hang {
					c.problems = append(c.problems, [2]string{c.cur, fmt.Sprintf("no progress for %v (hang)", hang)})
					c.dump("hang", "")
					os.Exit(0)
				}
				c.lock.Unlock()
			}
		}()
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if _, is := r.(stop); is {
					c.dump("stopped", "")
				} else if origin(st) {
					c.problems = append(c.problems, [2]string{c.cur, fmt.Sprintf("panic of the code under test: %v\n%s", r, st)})
					c.dump("panic", "")
				} else {
					c.dump("error", fmt.Sprintf("case %s: %v\n%s", c.cur, r, st))
				}
			}
		}()
		if f := os.Getenv("VGO_PROF"); f != "" {
			w, err := os.Create(f)
			Must(err)
			Must(pprof.StartCPUProfile(w))
			defer pprof.StopCPUProfile()
		}
		ch.Run(ch.Units(c.Tier)[i], c)
		c.dump("done", "")
	}
}
