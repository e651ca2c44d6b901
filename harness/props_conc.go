package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/infobloxopen/go-trees/domain"
)

// actor is one goroutine of a concurrent case: it has its own context, so that nothing of the monitors synchronises it
// with others.
type actor struct {
	c          *C
	begin, end time.Time
	msg        string
}

// actors runs the bodies at once and merges what they have seen; a failure of any is a failure of the case.
func (c *C) actors(n int, body func(i int, a *C)) {
	as := make([]*actor, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range as {
		as[i] = &actor{c: &C{
			R: newRand(c.R.Uint64(), c.Prop, c.Section, c.Idx*1000+i), Prop: c.Prop, Section: c.Section, Idx: c.Idx, Thor: c.Thor,
			counts: map[string]int64{}, seen: map[uint64]struct{}{}, tracing: c.tracing,
		}}
	}
	for i := range as {
		wg.Add(1)
		go func(i int, a *actor) {
			defer wg.Done()
			defer func() {
				a.end = time.Now()
				if r := recover(); r != nil {
					if v, ok := r.(*violation); ok {
						a.msg = v.msg
					} else {
						a.msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
					}
				}
			}()
			<-start
			a.begin = time.Now()
			body(i, a.c)
		}(i, as[i])
	}
	close(start)
	wg.Wait()
	overlaps := 0
	order := make([]string, 0, 2*n)
	type ev struct {
		t time.Time
		s string
	}
	evs := []ev{}
	for i, a := range as {
		for j := 0; j < i; j++ {
			if a.begin.Before(as[j].end) && as[j].begin.Before(a.end) {
				overlaps++
			}
		}
		evs = append(evs, ev{a.begin, fmt.Sprintf("b%d", i)}, ev{a.end, fmt.Sprintf("e%d", i)})
		c.evals += a.c.evals
		for k, v := range a.c.counts {
			c.counts[k] += v
		}
		for h := range a.c.seen {
			c.seen[h] = struct{}{}
		}
		c.trace = append(c.trace, fmt.Sprintf("-- goroutine %d", i))
		c.trace = append(c.trace, a.c.trace...)
	}
	for len(evs) > 0 {
		m := 0
		for i := range evs {
			if evs[i].t.Before(evs[m].t) {
				m = i
			}
		}
		order = append(order, evs[m].s)
		evs = append(evs[:m], evs[m+1:]...)
	}
	c.Count("pairs of goroutines which overlapped in time", overlaps)
	c.Count("goroutines", n)
	c.SeenStr("interleaving", strings.Join(order, " "))
	for i, a := range as {
		if a.msg != "" {
			c.Failf("goroutine %d of %d: %s", i, n, a.msg)
		}
	}
}

// secShared: goroutines read one tree and derive their own versions from it.
func secShared(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true}
		var keys []Key
		switch c.R.IntN(4) {
		case 0:
			keys = f.Universe(c.R, c.Idx)
		case 1:
			keys = f.Many(c.R, 200)
			if c.R.pct(8) {
				keys = f.Many(c.R, 3000)
			} else if c.R.pct(8) && f.Chain != nil {
				keys = f.Chain(c.R)
			}
		default:
			keys = f.Cluster(c.R, 4+c.R.IntN(25))
		}
		if len(keys) == 0 {
			return
		}
		queries := append([]Key{}, keys...)
		if len(keys) > 300 {
			queries = queries[:300]
		}
		for i := 0; i < 6; i++ {
			queries = append(queries, f.Near(c.R, keys))
		}
		base := newRun(c, f, fo)
		for i := len(keys) + c.R.IntN(len(keys)+1); i > 0; i-- {
			if c.R.pct(15) {
				base.delete(pick(c.R, keys), base.anyDel())
			} else {
				base.insert(pick(c.R, keys))
			}
		}
		c.T("-- shared from here on: %s", base.m)
		h0, m0 := base.h, base.m
		useDot := f.Dot != nil && len(m0) < 120 && c.R.pct(30)
		n := 3 + c.R.IntN(5)
		dots := make([]string, n) // of the shared tree; made by the goroutines only, as the first dump may be special
		c.actors(n, func(i int, a *C) {
			r := &run{c: a, f: f, fo: fo, h: h0, m: m0.clone(), n: 1000 * i}
			few := func() []Key {
				q := []Key{}
				for j := 0; j < 4; j++ {
					q = append(q, pick(a.R, queries))
				}
				return q
			}
			steps := 12
			for s := 0; s < steps; s++ {
				switch op := a.R.IntN(12); {
				case op < 3:
					a.lookups(f, fo, h0, m0, few(), false)
				case op < 4:
					a.contents(f, fo, h0, m0)
				case op < 5:
					if useDot {
						a.Ev(1)
						d := f.Dot(h0)
						if dots[i] != "" && d != dots[i] {
							a.Failf("%s: the dump of the shared tree differs", f.Name)
						}
						dots[i] = d
					} else if f.Empty != nil {
						a.Ev(1)
						if f.Empty(h0) != (len(m0) == 0) {
							a.Failf("%s: emptiness of the shared tree differs", f.Name)
						}
					}
				case op < 8:
					r.insertAs(pick(a.R, keys), false)
				case op < 10:
					r.delete(pick(a.R, keys), r.anyDel())
				case op < 11:
					// start over from the shared tree
					r.h, r.m = h0, m0.clone()
				default:
					a.lookups(f, fo, r.h, r.m, few(), false)
					if a.R.pct(40) {
						a.contents(f, fo, r.h, r.m)
					}
				}
				if a.R.pct(20) {
					runtime.Gosched()
				}
			}
			a.lookups(f, fo, r.h, r.m, queries, false)
			a.contents(f, fo, r.h, r.m)
			a.lookups(f, fo, h0, m0, queries, false)
		})
		for _, d := range dots {
			if d != "" && d != f.Dot(h0) {
				c.Failf("%s: the dump of the shared tree differs", f.Name)
			}
		}
		c.state(f, fo, h0, m0, queries, false)
		c.Sample("%s: %d goroutines on %s", f.Name, n, m0)
	}
}

// secDistinct: goroutines work on trees of their own and use the name functions.
func secDistinct(fams []*Fam) func(c *C) {
	return func(c *C) {
		n := 3 + c.R.IntN(5)
		same := c.R.pct(50)
		large := c.R.pct(2)
		first := c.R.IntN(len(fams))
		// keys are shared (they are only read), trees are not
		shared := fams[first].Cluster(c.R, 10)
		// dumps synchronise goroutines through pools of package fmt, so not always
		dumps := c.R.pct(25)
		names := []string{}
		for i := 0; i < 5; i++ {
			names = append(names, spellName(c.R, []string{randLabel(c.R, 1+c.R.IntN(63)), randLabel(c.R, 3)}, -1))
		}
		labs := []string{}
		for i := 0; i < 10; i++ {
			labs = append(labs, randLabel(c.R, randLabelLen(c.R)))
		}
		common := c.mustName(names[0])
		commonLabels := nameLabels(common)
		c.actors(n, func(i int, a *C) {
			f := fams[first]
			keys := shared
			if !same {
				f = fams[a.R.IntN(len(fams))]
				keys = f.Cluster(a.R, 10)
			}
			few := keys
			if large {
				keys = f.Many(a.R, 1200)
				few = keys[:min(len(keys), 30)]
			}
			if len(keys) == 0 {
				return
			}
			fo := &focus{lpm: true, exact: true, enum: true, flag: true}
			r := newRun(a, f, fo)
			if large {
				for _, k := range keys {
					r.insert(k)
				}
			}
			for s := 0; s < 25; s++ {
				switch a.R.IntN(10) {
				case 0, 1, 2, 3:
					r.insert(pick(a.R, keys))
				case 4:
					r.delete(pick(a.R, keys), r.anyDel())
				case 5:
					a.state(f, fo, r.h, r.m, few, false)
				case 6:
					a.judgeName(pick(a.R, names))
					a.judgeReadable(pick(a.R, labs))
				case 7:
					l := pick(a.R, labs)
					a.judgeLabel(spellLabel(a.R, l, -1))
				case 8:
					// names are shared freely
					a.Ev(1)
					if !eqStrings(nameLabels(common), commonLabels) || common.String() != names[0] {
						a.Failf("labels of a shared name differ")
					}
					off, cnt := 0, 0
					for {
						_, next := common.GetLabel(off)
						cnt++
						if next <= 0 {
							break
						}
						off = next
					}
					if cnt != len(commonLabels) {
						a.Failf("walking a shared name gave %d labels", cnt)
					}
					a.sameName(reflect.ValueOf(common), "a shared name", names[0], commonLabels)
				case 9:
					if f.Name == "iptree.Tree" && len(r.m) > 0 && !isNilHandle(r.h) {
						a.update(f, r, pick(a.R, sortedKeys(r.m)))
					}
					if f.Dot != nil && dumps {
						f.Dot(r.h)
					}
				}
				if a.R.pct(10) {
					runtime.Gosched()
				}
			}
			a.state(f, fo, r.h, r.m, few, true)
		})
		c.Sample("%d goroutines, same kind of tree: %v", n, same)
	}
}

const coldEnv = "VMON_COLD"

// secCold runs the body in a process of its own in which nothing of the library was called before, so that what the
// library does on its first use happens in the concurrent part.
func secCold(body func(c *C)) func(c *C) {
	return func(c *C) {
		if os.Getenv(coldEnv) != "" {
			body(c)
			return
		}
		dir, err := os.MkdirTemp("", "cold-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		cmd := exec.Command(self, "-prop", c.Prop, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-dir", dir,
			"-worker", "0/1", "-one", fmt.Sprintf("%s:%d", c.Section, c.Idx))
		cmd.Env = append(os.Environ(), coldEnv+"=1")
		out, err := cmd.CombinedOutput()
		res := &result{}
		b, rerr := os.ReadFile(filepath.Join(dir, "result.0"))
		if rerr == nil {
			rerr = json.Unmarshal(b, res)
		}
		switch {
		case strings.Contains(string(out), "WARNING: DATA RACE"):
			c.Failf("the race detector reported a data race in a fresh process:\n%s", lastLines(string(out), 6000))
		case rerr == nil && res.Fail != nil:
			c.trace = append(c.trace, res.Fail.Trace...)
			c.Failf("in a fresh process: %s", res.Fail.Message)
		case err != nil && (strings.Contains(string(out), "panic:") || strings.Contains(string(out), "fatal error:")):
			c.Failf("crash of a fresh process: %s\n%s", firstLineWith(string(out), "panic:", "fatal error:"), lastLines(string(out), 6000))
		case err != nil || rerr != nil:
			fmt.Fprintf(os.Stderr, "cold case %d: %v %v\n%s\n", c.Idx, err, rerr, lastLines(string(out), 3000))
			os.Exit(4) // no answer
		}
		c.Ev(int(res.Evals))
		for k, v := range res.Counts {
			if !strings.HasPrefix(k, "max:") && !strings.HasPrefix(k, "cases:") {
				c.Count(k, int(v))
			}
		}
		c.Count("fresh processes", 1)
		c.Seen("cold", c.Idx)
	}
}

// secOwn: goroutines do everything themselves, all with trees of the same kind or with names.
func secOwn(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		names := c.R.pct(30)
		c.actors(4, func(i int, a *C) {
			if names {
				for s := 0; s < 30; s++ {
					l := randLabel(a.R, randLabelLen(a.R))
					switch a.R.IntN(4) {
					case 0:
						a.judgeReadable(l)
					case 1:
						a.judgeLabel(spellLabel(a.R, l, -1))
					case 2:
						a.judgeName(spellName(a.R, []string{l, randLabel(a.R, 2)}, -1))
					case 3:
						a.judgeName(pick(a.R, []string{"a..b", ".a", "a\\25", "a\\256", strings.Repeat("a", 64), strings.Repeat("a.", 128)}))
					}
				}
				return
			}
			fo := &focus{lpm: true, exact: true, enum: true, flag: true, empty: true}
			r := newRun(a, f, fo)
			keys := f.Cluster(a.R, 8)
			for s := 0; s < 12; s++ {
				switch op := a.R.IntN(8); {
				case op < 4:
					r.insert(pick(a.R, keys))
				case op < 5:
					r.delete(pick(a.R, keys), r.anyDel())
				case op < 6 && f.Dot != nil:
					f.Dot(r.h)
				default:
					a.state(f, fo, r.h, r.m, keys, false)
				}
			}
		})
	}
}

// secNames: name functions alone from many goroutines.
func secNames(c *C) {
	texts := []string{}
	for i := 0; i < 12; i++ {
		ls := []string{}
		for j := c.R.IntN(5); j >= 0; j-- {
			ls = append(ls, randLabel(c.R, randLabelLen(c.R)))
		}
		texts = append(texts, spellName(c.R, ls, -1))
	}
	texts = append(texts, "..", "a\\25", strings.Repeat("a", 64), strings.Repeat("ab.", 128), "", ".")
	shared, _ := domain.MakeNameFromString("www.example.com")
	c.actors(6, func(i int, a *C) {
		for s := 0; s < 60; s++ {
			t := pick(a.R, texts)
			a.judgeName(t)
			a.judgeLabel(t)
			a.judgeReadable(randLabel(a.R, 1+a.R.IntN(63)))
			a.Ev(1)
			if !eqStrings(nameLabels(shared), []string{"COM", "EXAMPLE", "WWW"}) {
				a.Failf("labels of a shared name became %q", nameLabels(shared))
			}
		}
	})
}

// leftovers gives stacks of goroutines which run code of the library.
func leftovers() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	out := []string{}
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // this goroutine
		}
		if strings.Contains(g, "infobloxopen/go-trees") {
			out = append(out, g)
		}
	}
	return out
}

const leakPatience = 25 * time.Second

// settle waits for all goroutines of the library to end.
func (c *C) settle(what string) {
	c.Ev(1)
	deadline := time.Now().Add(leakPatience)
	for pause := 20 * time.Microsecond; ; pause *= 2 {
		l := leftovers()
		if len(l) == 0 {
			return
		}
		if time.Now().After(deadline) {
			c.Failf("%s: %d goroutines remain %s after all enumerations were drained, e.g.\n%s", what, len(l), leakPatience, l[0])
		}
		if pause > 50*time.Millisecond {
			pause = 50 * time.Millisecond
		}
		time.Sleep(pause)
	}
}

// secDrain: many enumerations at once, with consumers of different pace; all have to end with everything delivered
// exactly once and without a goroutine left.
func secDrain(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{}
		// Sometimes there are very many enumerations of small trees, all of them under way.
		flood := c.Idx/len(fams)%60 == 20
		trees := []*version{}
		for t := 1 + c.R.IntN(3); t > 0; t-- {
			var keys []Key
			switch c.R.IntN(6) {
			case 0:
				keys = f.Many(c.R, 300)
			case 1:
				if f.Chain != nil {
					keys = f.Chain(c.R)
				}
			case 2: // empty or nil
			default:
				keys = f.Cluster(c.R, 2+c.R.IntN(20))
			}
			if flood {
				keys = f.Cluster(c.R, 6+c.R.IntN(8))
			}
			r := newRun(c, f, fo)
			for _, k := range keys {
				r.insert(k)
			}
			if c.R.pct(20) {
				for _, k := range keys {
					r.delete(k, r.anyDel())
				}
			}
			trees = append(trees, &version{h: r.h, m: r.m})
		}
		n := 1 + c.R.IntN(12)
		if c.R.pct(5) {
			n = 150
		}
		if flood {
			n = 1000 + c.R.IntN(1500)
		}
		type job struct {
			v    *version
			next func() (Entry, bool)
			mode int
			got  []Entry
		}
		jobs := make([]*job, n)
		for i := range jobs {
			v := pick(c.R, trees)
			jobs[i] = &job{v: v, next: f.open(c.R, v.h), mode: c.R.IntN(4)}
		}
		seeds := make([]*Rand, n)
		for i := range seeds {
			seeds[i] = newRand(c.R.Uint64(), c.Prop, c.Section, i)
		}
		done := make(chan int, n)
		take := func(i int) {
			j, r := jobs[i], seeds[i]
			for k := 0; ; k++ {
				switch j.mode {
				case 1:
					runtime.Gosched()
				case 2:
					if k < 5 {
						time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
					}
				case 3:
					if k == len(j.v.m)/2 {
						time.Sleep(2 * time.Millisecond)
					}
				}
				e, ok := j.next()
				if !ok {
					// closed for good
					if e2, ok2 := j.next(); ok2 {
						j.got = append(j.got, e2, e2)
					}
					break
				}
				j.got = append(j.got, e)
				if len(j.got) > len(j.v.m)+4 {
					break
				}
			}
			done <- i
		}
		inter := c.R.pct(40) || flood
		if inter {
			// one consumer pulls from all in turns
			go func() {
				live := map[int]bool{}
				for i := range jobs {
					live[i] = true
				}
				for len(live) > 0 {
					for i := range jobs {
						if !live[i] {
							continue
						}
						e, ok := jobs[i].next()
						if !ok || len(jobs[i].got) > len(jobs[i].v.m)+4 {
							delete(live, i)
							done <- i
							continue
						}
						jobs[i].got = append(jobs[i].got, e)
					}
				}
			}()
		} else {
			for i := range jobs {
				go take(i)
			}
		}
		timeout := time.NewTimer(60 * time.Second)
		defer timeout.Stop()
		for left := n; left > 0; left-- {
			select {
			case <-done:
			case <-timeout.C:
				l := leftovers()
				c.Failf("%s: %d of %d enumerations did not end within 60 s; library goroutines: %d\n%s", f.Name, left, n, len(l), strings.Join(l, "\n\n"))
			}
		}
		for _, j := range jobs {
			c.checkEntries(f, "enumeration", j.got, false, j.v.m, false)
			c.Count("enumerations drained", 1)
		}
		c.settle(f.Name)
		c.Max("enumerations at once", int64(n))
		c.Seen(f.Name, inter, n, len(trees), len(trees[0].m))
		c.Sample("%s: %d enumerations at once over %d trees, one consumer: %v", f.Name, n, len(trees), inter)
	}
}

// secPatience: consumers of all kinds of trees which pause for seconds, at every stage of an enumeration.
func secPatience(fams []*Fam) func(c *C) {
	return func(c *C) {
		pause := 7 * time.Second
		if *fTier == "thorough" {
			pause = 40 * time.Second
		}
		type job struct {
			f    *Fam
			v    *version
			next func() (Entry, bool)
			stop int
			got  []Entry
		}
		jobs := []*job{}
		for _, f := range fams {
			for stage := 0; stage < 6; stage++ {
				keys := f.Cluster(c.R, 4+c.R.IntN(12))
				if stage == 0 && c.R.pct(50) {
					keys = nil
				}
				r := newRun(c, f, &focus{})
				for _, k := range keys {
					r.insert(k)
				}
				n := len(r.m)
				jobs = append(jobs, &job{f: f, v: &version{h: r.h, m: r.m}, next: f.open(c.R, r.h), stop: max(0, []int{0, 1, n / 2, n - 1, n, c.R.IntN(n + 1)}[stage])})
			}
		}
		pull := func(j *job, n int) {
			for len(j.got) < n {
				e, ok := j.next()
				if !ok {
					break
				}
				j.got = append(j.got, e)
			}
		}
		done := make(chan bool, len(jobs))
		part := func(last bool) {
			for _, j := range jobs {
				go func() {
					if last {
						pull(j, len(j.v.m)+4)
					} else {
						pull(j, j.stop)
					}
					done <- true
				}()
			}
			timeout := time.NewTimer(30 * time.Second)
			defer timeout.Stop()
			for range jobs {
				select {
				case <-done:
				case <-timeout.C:
					c.Failf("an enumeration does not go on after a pause; library goroutines:\n%s", strings.Join(leftovers(), "\n\n"))
				}
			}
		}
		part(false)
		for end := time.Now().Add(pause); time.Now().Before(end); {
			time.Sleep(500 * time.Millisecond)
			runtime.GC()
		}
		part(true)
		for _, j := range jobs {
			c.T("%s: an enumeration of %d entries, paused for %s after %d of them", j.f.Name, len(j.v.m), pause, j.stop)
			c.checkEntries(j.f, "an enumeration with a long pause", j.got, false, j.v.m, false)
			c.Count("enumerations with a long pause", 1)
			c.Seen(j.f.Name, "pause", len(j.v.m), j.stop)
		}
		c.settle("paused enumerations")
	}
}

func concProps() []*Prop {
	all := allFams()
	return []*Prop{
		{ID: "C23", Race: true, Workers: 4, Procs: 4, MinEvals: 20000,
			Rule:     "evaluations are results compared with the model by goroutines sharing a tree (built with the race detector); distinct_nontrivial counts distinct orders of beginnings and ends of goroutines observed",
			Sections: []Section{{"shared", 2500, 60000, secShared(all)}, {"cold", 150, 3000, secCold(secShared(all))}}},
		{ID: "C24", Race: true, Workers: 4, Procs: 4, MinEvals: 20000,
			Rule:     "evaluations are results judged by goroutines working on trees of their own and on names (built with the race detector); distinct_nontrivial counts distinct orders of beginnings and ends of goroutines observed and distinct inputs",
			Sections: []Section{{"distinct", 2000, 50000, secDistinct(all)}, {"names", 400, 10000, secNames}, {"cold", 200, 4000, secCold(secOwn(all))}}},
		{ID: "C25", MinEvals: 2000, Procs: 4, Workers: 4,
			Rule:     "evaluations are enumerations judged and checks for remaining goroutines; distinct_nontrivial counts distinct (tree type, consumer kind, number of enumerations, trees, entries)",
			Sections: []Section{{"patience", 1, 2, secPatience(all)}, {"drain", 3000, 60000, secDrain(all)}}},
	}
}
