package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
)

// Rand is the only source of randomness of a case; it is seeded from (seed, property, section, case).
type Rand struct{ *rand.Rand }

func newRand(seed uint64, prop, section string, idx int) *Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, section, idx)
	a := h.Sum64()
	h.Write([]byte{0xa5})
	return &Rand{rand.New(rand.NewPCG(a, h.Sum64()))}
}

func (r *Rand) pct(p int) bool { return r.IntN(100) < p }

func pick[T any](r *Rand, s []T) T { return s[r.IntN(len(s))] }

// violation is panicked by monitors; everything else that is panicked comes from the code under test (or the runtime).
type violation struct{ msg string }

// C is the context of one case.
type C struct {
	R       *Rand
	Prop    string
	Section string
	Idx     int
	Thor    bool

	evals   int64
	counts  map[string]int64
	seen    map[uint64]struct{}
	samples []string
	trace   []string
	tracing bool
}

func (c *C) Failf(format string, args ...any) {
	panic(&violation{msg: fmt.Sprintf(format, args...)})
}

// T records a step of the case; only does so on the second, tracing run of a failing case.
func (c *C) T(format string, args ...any) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

func (c *C) Ev(n int)                 { c.evals += int64(n) }
func (c *C) Count(name string, n int) { c.counts[name] += int64(n) }
func (c *C) Max(name string, n int64) {
	if c.counts["max:"+name] < n {
		c.counts["max:"+name] = n
	}
}

const seenCap = 400000

// Seen records a distinct non-trivial case/state by hash.
func (c *C) Seen(parts ...any) {
	if len(c.seen) >= seenCap {
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.seen[h.Sum64()] = struct{}{}
}

func (c *C) SeenStr(tag string, s string) {
	if len(c.seen) >= seenCap {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(tag))
	h.Write([]byte{0})
	h.Write([]byte(s))
	c.seen[h.Sum64()] = struct{}{}
}

func (c *C) Sample(format string, args ...any) {
	if len(c.samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, c.Section+"#"+fmt.Sprint(c.Idx)+": "+s)
	}
}

type Section struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *C)
}

func (s Section) n(thorough bool) int {
	if thorough {
		return s.Thorough
	}
	return s.Quick
}

type Prop struct {
	ID       string
	Race     bool
	Gen      bool // run against regenerated typed packages
	NeedEtc  bool
	MinEvals int64
	Rule     string
	Assume   []string
	Sections []Section
	// Workers limits the number of worker processes (0: all cores).
	Workers int
	// Procs is GOMAXPROCS of a worker (0: 2).
	Procs int
}

type failure struct {
	Prop    string   `json:"property"`
	Section string   `json:"section"`
	Case    int      `json:"case"`
	Seed    uint64   `json:"seed"`
	Tier    string   `json:"tier"`
	Kind    string   `json:"kind"`
	Message string   `json:"message"`
	Trace   []string `json:"trace,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Replay  string   `json:"how_to_replay"`
	Arch    string   `json:"goarch,omitempty"`
}

// runCase runs one case and returns the failure if any.
func runCase(p *Prop, s *Section, idx int, seed uint64, thorough, tracing bool, acc *C) (f *failure) {
	c := &C{
		R: newRand(seed, p.ID, s.Name, idx), Prop: p.ID, Section: s.Name, Idx: idx, Thor: thorough,
		counts: acc.counts, seen: acc.seen, tracing: tracing,
	}
	defer func() {
		acc.evals += c.evals
		if len(acc.samples) < 4 {
			acc.samples = append(acc.samples, c.samples...)
		}
		if r := recover(); r != nil {
			f = &failure{Prop: p.ID, Section: s.Name, Case: idx, Seed: seed, Trace: c.trace}
			if v, ok := r.(*violation); ok {
				f.Kind, f.Message = "monitor", v.msg
			} else {
				f.Kind, f.Message = "panic", fmt.Sprint(r)
				f.Stack = string(debug.Stack())
			}
		}
	}()
	s.Run(c)
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func short(s string) string {
	if len(s) > 160 {
		return fmt.Sprintf("%q...(%d bytes)", s[:160], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func joinLines(s []string) string { return strings.Join(s, "\n") }
