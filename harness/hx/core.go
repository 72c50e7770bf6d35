// Package hx is the core of the property harness: running generated cases,
// counting what was generated, generators, and access to the code under test.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one executable sub-property: N cases (over all shards, in one round)
// are generated and judged by F.
type Sub struct {
	Name string
	Rule string // what a case is and what makes it non-trivial
	N    int
	F    func(c *C)
}

// C is one generated case
type C struct {
	*rapid.T
	rec     *rec
	h       uint64
	keyed   bool
	trivial bool
	labels  []string
	desc    []string
	tape    []drawn             // every draw of this run, in order
	replays map[string][]uint64 // an echo: values still to be handed out, by label
	owned   []owned
}

// owned is a result and what it was when it was given out
type owned struct {
	x    any
	dump string
}

// Owned registers results that are the caller's own: no later call may change
// them (also not one of a sister case), and once that is seen they are changed
// in place, which no later result may show
func (c *C) Owned(xs ...any) {
	for _, x := range xs {
		c.owned = append(c.owned, owned{x, Dump(x)})
	}
}

// Loose registers results like Owned, which the case itself may change
func (c *C) Loose(xs ...any) {
	for _, x := range xs {
		c.owned = append(c.owned, owned{x: x})
	}
}

// settle compares what the case owns with what it was, and changes it
func (c *C) settle() {
	for _, o := range c.owned {
		if o.dump != "" {
			if d := Dump(o.x); d != o.dump {
				c.Fatalf("a result changed after it was given out: it was %s and is %s", o.dump, d)
			}
		}
	}
	for _, o := range c.owned {
		Spoil(o.x)
	}
	c.owned = nil
}

// drawn is one draw: a number below span, or any when span is 0
type drawn struct {
	label   string
	span, v uint64
}

// draw makes a draw, or takes it from the run echoed
func (c *C) draw(label string, span uint64, fresh func() uint64) uint64 {
	var v uint64
	if q := c.replays[label]; len(q) > 0 {
		v, c.replays[label] = q[0], q[1:]
		if span > 0 {
			v %= span
		}
	} else {
		v = fresh()
	}
	c.tape = append(c.tape, drawn{label, span, v})
	return v
}

// echo judges the case again in the same process: first a sister that differs
// in one draw or two, then the case as it was. Whatever the code under test
// keeps from one call to another must not show.
func (c *C) echo(f func(*C)) {
	tape := append([]drawn{}, c.tape...)
	if len(tape) == 0 {
		return
	}
	run := func(t []drawn) {
		e := &C{T: c.T, rec: c.rec, replays: map[string][]uint64{}}
		for _, d := range t {
			e.replays[d.label] = append(e.replays[d.label], d.v)
		}
		f(e)
		e.settle()
	}
	sister := append([]drawn{}, tape...)
	k := rapid.IntRange(1, 2).Draw(c.T, "echo.changes")
	for ; k > 0; k-- {
		at := int((rapid.Uint64().Draw(c.T, "echo.at") * 0x9e3779b97f4a7c15 >> 17) % uint64(len(tape)))
		by := rapid.Uint64Range(1, 1<<32).Draw(c.T, "echo.by")
		if d := &sister[at]; d.span == 0 {
			d.v += by * 0x9e3779b97f4a7c15
		} else if d.span > 1 {
			d.v = (d.v + 1 + by%(d.span-1)) % d.span
		}
	}
	run(sister)
	c.settle()
	run(tape)
}

type rec struct {
	Name     string
	Rule     string
	Cases    int
	Trivial  int
	Labels   map[string]int
	Samples  []string
	Distinct []string
	Failed   bool
	seen     map[uint64]struct{}
}

// Key adds to what identifies the case (for counting distinct ones)
func (c *C) Key(vs ...any) {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d|", c.h)
	for _, v := range vs {
		fmt.Fprintf(f, "%v|", v)
	}
	c.h, c.keyed = f.Sum64(), true
}

// Trivial marks the case as not counting as non-trivial
func (c *C) Trivial() { c.trivial = true }

// Label counts a class of cases
func (c *C) Label(format string, a ...any) { c.labels = append(c.labels, fmt.Sprintf(format, a...)) }

// Note describes the case for the evidence samples
func (c *C) Note(format string, a ...any) { c.desc = append(c.desc, fmt.Sprintf(format, a...)) }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

var (
	baseSeed = envInt("VERIF_SEED", 1)
	shard    = envInt("VERIF_SHARD", 0)
	shards   = envInt("VERIF_SHARDS", 1)
	rounds   = envInt("VERIF_ROUNDS", 1)
	budget   = envInt("VERIF_BUDGET_S", 0) // no new round after this many seconds; 0: no limit
	scale    = envInt("VERIF_SCALE", 100)  // percent of N
	only     = os.Getenv("VERIF_SUB")
	started  = time.Now()

	mu      sync.Mutex
	recs    = map[string]*rec{}
	curSub  atomic.Value
	curCase atomic.Int64
	caseCPU atomic.Int64
)

// Thorough is set when the run may take longer per case
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func subSeed(parts ...any) uint64 {
	f := fnv.New64a()
	fmt.Fprint(f, parts...)
	s := f.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

// Run generates and judges the cases of all sub-properties
func Run(t *testing.T, id string, subs []Sub) {
	replay := flag.Lookup("rapid.failfile").Value.String() != ""
	for round := 0; round < rounds; round++ {
		for _, s := range subs {
			if only != "" && !slices.Contains(strings.Split(only, ","), s.Name) {
				continue
			}
			if round > 0 && budget > 0 && time.Since(started) > time.Duration(budget)*time.Second {
				return
			}
			mu.Lock()
			r := recs[s.Name]
			if r == nil {
				r = &rec{Name: s.Name, Rule: s.Rule, Labels: map[string]int{}, seen: map[uint64]struct{}{}}
				recs[s.Name] = r
			}
			mu.Unlock()
			if r.Failed {
				continue
			}
			n := (s.N*scale/100 + shards - 1) / shards
			if n < 1 {
				n = 1
			}
			if !replay {
				flag.Set("rapid.checks", strconv.Itoa(n))
				flag.Set("rapid.seed", strconv.FormatUint(subSeed(baseSeed, "/", shard, "/", id, "/", s.Name, "/", round), 10))
			}
			curSub.Store(s.Name)
			ok := t.Run(s.Name, func(t *testing.T) {
				rapid.Check(t, func(rt *rapid.T) { one(rt, r, s) })
			})
			if !ok {
				r.Failed = true
			}
		}
	}
}

func one(rt *rapid.T, r *rec, s Sub) {
	c := &C{T: rt, rec: r}
	caseCPU.Store(cpuMillis())
	curCase.Add(1)
	s.F(c)
	if rapid.IntRange(0, 2).Draw(rt, "echo") == 2 {
		c.Label("echoed")
		c.echo(s.F)
	}
	c.settle()
	mu.Lock()
	defer mu.Unlock()
	r.Cases++
	for _, l := range c.labels {
		r.Labels[l]++
	}
	if c.trivial || !c.keyed {
		r.Trivial++
		return
	}
	if _, dup := r.seen[c.h]; !dup {
		r.seen[c.h] = struct{}{}
		if len(c.desc) > 0 && (len(r.Samples) < 3 || (len(r.Samples) < 8 && len(r.seen)%37 == 0)) {
			d := fmt.Sprint(c.desc)
			if len(d) > 600 {
				d = d[:600] + "…"
			}
			r.Samples = append(r.Samples, d)
		}
	}
}

func cpuMillis() int64 {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return (u.Utime.Sec+u.Stime.Sec)*1000 + int64(u.Utime.Usec+u.Stime.Usec)/1000
}

func write(hang string) {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	type res struct {
		Shard int
		WallS float64
		Hang  string
		Subs  []*rec
	}
	v := res{Shard: shard, WallS: time.Since(started).Seconds(), Hang: hang}
	for _, r := range recs {
		r.Distinct = r.Distinct[:0]
		for k := range r.seen {
			r.Distinct = append(r.Distinct, strconv.FormatUint(k, 36))
		}
		sort.Strings(r.Distinct)
		v.Subs = append(v.Subs, r)
	}
	sort.Slice(v.Subs, func(i, j int) bool { return v.Subs[i].Name < v.Subs[j].Name })
	b, _ := json.Marshal(v)
	os.WriteFile(out, b, 0o644)
}

// hangCPU is how much processor time one case may use before the code under
// test is taken not to terminate (cases take well below 10 s of it)
const hangCPU = 300 * 1000

// Main runs the tests under a watchdog and writes the counts
func Main(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	flag.Set("rapid.shrinktime", "8s")
	go func() {
		for {
			time.Sleep(2 * time.Second)
			used := cpuMillis() - caseCPU.Load()
			if caseCPU.Load() != 0 && used > hangCPU {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				msg := fmt.Sprintf("sub=%v seed=%d shard=%d/%d case=%d did not finish within %d s of processor time\n%s", curSub.Load(), baseSeed, shard, shards, curCase.Load(), hangCPU/1000, buf)
				write(msg)
				fmt.Fprintln(os.Stderr, "VERIF-HANG", msg)
				os.Exit(1)
			}
		}
	}()
	code := m.Run()
	write("")
	os.Exit(code)
}

// Broken ends the run: the check cannot be carried out here
func Broken(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "VERIF-BROKEN "+format+"\n", a...)
	os.Exit(3)
}

// Must fails the case on an error
func Must(c *C, err error, what string, a ...any) {
	if err != nil {
		c.Fatalf("%s: unexpected error: %v", fmt.Sprintf(what, a...), err)
	}
}

// MustErr fails the case when there was no error
func MustErr(c *C, err error, what string, a ...any) {
	if err == nil {
		c.Fatalf("%s: accepted, must be an error", fmt.Sprintf(what, a...))
	}
}
