package main

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
)

// focus selects what the monitors judge; histories are the same for all properties of a tree.
type focus struct {
	lpm, exact bool // lookups
	flag       bool // flag of deletions
	enum       bool // contents by enumeration
	order      bool // order of enumeration
	repeat     bool // repeated enumerations give the same sequence
	empty      bool // IsEmpty
	noDelete   bool // histories without deletions
	exotic     bool // any kind of values in generic trees
	extra      func(c *C, f *Fam, h any, m Model)
	extraEvery int
}

func isNilHandle(h any) bool {
	if h == nil {
		return true
	}
	v := reflect.ValueOf(h)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func (fo *focus) wants(m GetMode) bool { return m == modeLPM && fo.lpm || m == modeExact && fo.exact }

// lookups compares all kinds of lookups for the keys with the model.
func (c *C) lookups(f *Fam, fo *focus, h any, m Model, keys []Key, all bool) {
	for _, k := range keys {
		raws := k.Raws
		if !all {
			raws = []any{k.raw(c.R)}
		}
		for gi := range f.Gets {
			g := &f.Gets[gi]
			if !fo.wants(g.Mode) {
				continue
			}
			want, wok := m.get(f, g.Mode, k.Canon)
			if !wok {
				want = f.Zero
			}
			for _, raw := range raws {
				v, ok := g.Fn(h, raw)
				c.Ev(1)
				if ok != wok || !sameVal(v, want) {
					c.Failf("%s: %s(%v) [%s] gave %s,%v, expected %s,%v; contents %s", f.Name, g.Name, raw, showCanon(k.Canon), showVal(v), ok, showVal(want), wok, m)
				}
				if wok {
					c.Count("hits", 1)
				} else {
					c.Count("misses", 1)
				}
			}
		}
	}
}

// contents compares the enumeration with the model.
func (c *C) contents(f *Fam, fo *focus, h any, m Model) {
	for ei := range f.Enums {
		e := &f.Enums[ei]
		out, over := e.Fn(h, len(m)+4)
		c.checkEntries(f, e.Name, out, over, m, fo.order)
		if fo.repeat {
			again, over := e.Fn(h, len(m)+4)
			c.Ev(1)
			same := over == false && len(again) == len(out)
			for i := 0; same && i < len(out); i++ {
				same = out[i].Canon == again[i].Canon && sameVal(out[i].Val, again[i].Val)
			}
			if !same {
				c.Failf("%s: two runs of %s on the same tree differ; contents %s", f.Name, e.Name, m)
			}
		}
	}
}

func (c *C) checkEntries(f *Fam, name string, out []Entry, over bool, m Model, order bool) {
	c.Ev(1)
	c.Count("entries enumerated", len(out))
	if over {
		c.Failf("%s: %s gives more than the %d stored entries; contents %s", f.Name, name, len(m), m)
	}
	seen := make(map[string]bool, len(out))
	for i, e := range out {
		if seen[e.Canon] {
			c.Failf("%s: %s lists %s twice; contents %s", f.Name, name, showCanon(e.Canon), m)
		}
		seen[e.Canon] = true
		want, ok := m[e.Canon]
		if !ok {
			c.Failf("%s: %s lists %s which is not stored; contents %s", f.Name, name, showCanon(e.Canon), m)
		}
		if !sameVal(e.Val, want) {
			c.Failf("%s: %s lists %s with %s, expected %s", f.Name, name, showCanon(e.Canon), showVal(e.Val), showVal(want))
		}
		if order && f.Less != nil && i > 0 && !f.Less(out[i-1].Canon, e.Canon) {
			c.Failf("%s: %s lists %s before %s; contents %s", f.Name, name, showCanon(out[i-1].Canon), showCanon(e.Canon), m)
		}
	}
	if len(out) != len(m) {
		for _, k := range sortedKeys(m) {
			if !seen[k] {
				c.Failf("%s: %s does not list %s; contents %s", f.Name, name, showCanon(k), m)
			}
		}
	}
}

func (c *C) state(f *Fam, fo *focus, h any, m Model, keys []Key, all bool) {
	if fo.lpm || fo.exact {
		c.lookups(f, fo, h, m, keys, all)
	}
	if fo.enum || fo.order || fo.repeat {
		c.contents(f, fo, h, m)
	}
	if fo.empty && f.Empty != nil {
		c.Ev(1)
		if got := f.Empty(h); got != (len(m) == 0) {
			c.Failf("%s: IsEmpty gave %v for a tree with %d entries", f.Name, got, len(m))
		}
	}
	if fo.extra != nil {
		fo.extra(c, f, h, m)
	}
}

// run is one single-owner history over a tree.
type run struct {
	c    *C
	f    *Fam
	fo   *focus
	h    any
	m    Model
	n    int // number of values made
	mode int // 0 copying, 1 in place, 2 mixed
}

func newRun(c *C, f *Fam, fo *focus) *run {
	r := &run{c: c, f: f, fo: fo, m: Model{}, mode: c.R.IntN(3)}
	r.h = f.New()
	if f.Nil != nil && r.mode != 1 && c.R.pct(30) {
		r.h = f.Nil()
	}
	c.T("%s: start from %#v", f.Name, isNilHandle(r.h))
	return r
}

func (r *run) value() any {
	r.n++
	return r.f.val(r.c.R, r.n, r.fo.exotic)
}

func (r *run) insert(k Key) {
	inp := r.mode == 1 || r.mode == 2 && r.c.R.pct(50)
	if inp && isNilHandle(r.h) && r.f.Group != "num" {
		inp = false
	}
	r.insertAs(k, inp)
}

func (r *run) insertAs(k Key, inp bool) {
	v := r.value()
	if r.fo.exotic && r.f.Bits == 0 && r.c.R.pct(25) {
		if old, ok := r.m[k.Canon]; ok {
			if t, ok := twin(old); ok {
				v = t
				r.c.Count("replacements by lookalikes", 1)
			}
		}
	}
	raw := k.raw(r.c.R)
	if inp {
		r.c.T("InplaceInsert %v = %s", raw, showVal(v))
		r.h = r.f.Inp(r.h, raw, v)
		r.c.Count("in-place inserts", 1)
	} else {
		r.c.T("Insert %v = %s", raw, showVal(v))
		r.h = r.f.Ins(r.h, raw, v)
		r.c.Count("copying inserts", 1)
	}
	if v == nil && r.f.Bits > 0 {
		v = r.f.Zero
	}
	r.m[k.Canon] = v
}

func (r *run) delete(k Key, d *DelOp) {
	raw := k.raw(r.c.R)
	r.c.T("%s %v", d.Name, raw)
	h, ok := d.Fn(r.h, raw)
	n := r.m.del(r.f, d.Sub, k.Canon)
	r.c.Count("deletes", 1)
	if n > 0 {
		r.c.Count("effective deletes", 1)
	}
	if r.fo.flag {
		r.c.Ev(1)
		if ok != (n > 0) {
			r.c.Failf("%s: %s(%v) [%s] reported %v, but %d entries were to be removed; remaining %s", r.f.Name, d.Name, raw, showCanon(k.Canon), ok, n, r.m)
		}
	}
	r.h = h
}

func (r *run) anyDel() *DelOp { return &r.f.Dels[r.c.R.IntN(len(r.f.Dels))] }

func (r *run) check(keys []Key, all bool) {
	r.c.state(r.f, r.fo, r.h, r.m, keys, all)
	if len(r.m) > 1 {
		r.c.SeenStr(r.f.Name, r.m.signature())
	}
	r.c.Max("entries", int64(len(r.m)))
}

// secHist: random histories of one owner with everything judged after every step.
func secHist(fams []*Fam, fo focus) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		r := newRun(c, f, &fo)
		keys := f.Cluster(c.R, 3+c.R.IntN(22))
		if len(keys) == 0 {
			return
		}
		queries := append([]Key{}, keys...)
		for i := 0; i < 12; i++ {
			queries = append(queries, f.Near(c.R, keys))
		}
		ops := 6 + c.R.IntN(40)
		delPct := pick(c.R, []int{10, 30, 50})
		if fo.noDelete {
			delPct = 0
		}
		r.check(queries, true)
		for i := 0; i < ops; i++ {
			if c.R.pct(delPct) {
				k := pick(c.R, keys)
				if c.R.pct(30) {
					k = pick(c.R, queries)
				}
				if c.R.pct(4) && !fo.noDelete {
					k = f.Near(c.R, keys)
				}
				r.delete(k, r.anyDel())
			} else {
				r.insert(pick(c.R, keys))
			}
			r.check(queries, i == ops-1 || c.R.pct(20))
		}
		c.Sample("%s: %d steps, ending with %s", f.Name, ops, r.m)
	}
}

// secDense: all subsets of a small family of closely related keys, each built in a random order, then every single
// deletion from each.
func secDense(fams []*Fam, fo focus) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		keys := f.Universe(c.R, c.Idx/len(fams))
		queries := append([]Key{}, keys...)
		for i := 0; i < 5; i++ {
			queries = append(queries, f.Near(c.R, keys))
		}
		for set := 0; set < 1<<len(keys); set++ {
			build := func(mode int) *run {
				r := newRun(c, f, &fo)
				r.mode = mode
				if mode == 1 {
					r.h = f.New()
				}
				for _, i := range c.R.Perm(len(keys)) {
					if set&(1<<i) != 0 {
						r.insert(keys[i])
					}
				}
				return r
			}
			r := build(c.R.IntN(3))
			r.check(queries, false)
			if fo.noDelete {
				continue
			}
			for di := range f.Dels {
				for i := range keys {
					if set&(1<<i) == 0 && c.R.pct(50) {
						continue
					}
					c.T("-- subset %b, fresh copy", set)
					r := build(c.R.IntN(3))
					r.delete(keys[i], &f.Dels[di])
					r.check(queries, false)
				}
			}
		}
		c.Count("exhausted universes", 1)
	}
}

// secChain: nested keys of all lengths inserted in some order and taken away again.
func secChain(fams []*Fam, fo focus) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		keys := f.Chain(c.R)
		r := newRun(c, f, &fo)
		order := c.R.Perm(len(keys))
		switch c.R.IntN(4) {
		case 0:
			for i := range order {
				order[i] = i
			}
		case 1:
			for i := range order {
				order[i] = len(order) - 1 - i
			}
		}
		sample := func() []Key {
			q := []Key{}
			for i := 0; i < 12; i++ {
				q = append(q, pick(c.R, keys), f.Near(c.R, keys))
			}
			return q
		}
		skip := c.R.IntN(3) * 30
		for i, o := range order {
			if c.R.pct(skip) {
				continue
			}
			r.insert(keys[o])
			if i%4 == 0 {
				r.check(sample(), false)
			}
		}
		r.check(keys, true)
		if fo.noDelete {
			return
		}
		steps := 0
		for i := len(keys); len(r.m) > 0 && steps < 200; steps++ {
			// mostly from the most specific end so that there is something left
			i -= 1 + c.R.IntN(4)
			if i < 0 {
				i = len(keys) - 1
			}
			d := r.anyDel()
			if c.R.pct(10) {
				r.delete(pick(c.R, keys), d)
			} else {
				r.delete(keys[i], d)
			}
			r.check(sample(), false)
			if c.R.pct(10) {
				r.insert(keys[i])
			}
		}
		r.check(keys, false)
	}
}

// deleteRun deletes neighbouring keys, mostly at one end, where trees built in order are the deepest.
func (r *run) deleteRun(keys []Key, n int) {
	sorted := append([]Key{}, keys...)
	slices.SortFunc(sorted, func(a, b Key) int {
		switch less := r.f.Less; {
		case less == nil:
			return strings.Compare(a.Canon, b.Canon)
		case less(a.Canon, b.Canon):
			return -1
		case less(b.Canon, a.Canon):
			return 1
		}
		return 0
	})
	n = min(n, len(sorted))
	at := 0
	switch r.c.R.IntN(5) {
	case 0, 1:
		at = len(sorted) - n
	case 2:
		at = r.c.R.IntN(len(sorted) - n + 1)
	}
	sorted = sorted[at : at+n]
	if r.c.R.pct(50) {
		slices.Reverse(sorted)
	}
	for _, k := range sorted {
		if len(k.Canon) < 12 && len(keys) > 1000 && !r.f.flat() {
			continue // would take most of the tree
		}
		r.delete(k, &r.f.Dels[0])
	}
	r.c.Count("runs of deletions of neighbours", 1)
}

// secDeep: trees built in order, which are the deepest, and updates at their deep ends.
func secDeep(fams []*Fam, fo focus) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		keys := f.Many(c.R, 600+c.R.IntN(1400+c.R.IntN(2)*c.R.IntN(1800)))
		if len(keys) < 100 {
			return
		}
		f.Sort(keys)
		if c.R.pct(50) {
			slices.Reverse(keys)
		}
		r := newRun(c, f, &fo)
		for _, k := range keys {
			r.insert(k)
		}
		for i := 0; i < 3; i++ {
			r.deleteRun(keys, 1+c.R.IntN(60))
			if i == 1 || c.R.pct(20) {
				r.check(nil, false)
			}
			end := keys
			if n := 100; len(keys) > n {
				end = pick(c.R, [][]Key{keys[:n], keys[len(keys)-n:]})
			}
			for j := c.R.IntN(60); j > 0; j-- {
				r.insert(pick(c.R, end))
			}
			r.check(nil, false)
		}
	}
}

// secLarge: thousands of keys, judged now and then.
func secLarge(fams []*Fam, fo focus, n int) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		n := n
		if c.Thor && c.R.pct(20) {
			n *= 4
		}
		keys := f.Many(c.R, n/4+c.R.IntN(n))
		if len(keys) == 0 {
			return
		}
		switch c.R.IntN(4) {
		case 0:
			f.Sort(keys)
		case 1:
			f.Sort(keys)
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		r := newRun(c, f, &fo)
		sample := func() []Key {
			q := []Key{}
			for i := 0; i < 40; i++ {
				q = append(q, pick(c.R, keys), f.Near(c.R, keys))
			}
			return q
		}
		step := len(keys)/4 + 1
		for i, k := range keys {
			r.insert(k)
			if i%step == step-1 {
				r.check(sample(), false)
			}
			if !fo.noDelete && c.R.pct(6) {
				r.delete(pick(c.R, keys), &f.Dels[0])
			}
		}
		r.check(keys, false)
		if fo.noDelete {
			return
		}
		if c.R.pct(60) {
			r.deleteRun(keys, 20+c.R.IntN(len(keys)/4+20))
			r.check(sample(), false)
		}
		for i := 0; i < len(keys); i++ {
			d := &f.Dels[0]
			if c.R.pct(3) {
				d = r.anyDel()
			}
			if c.R.pct(15) {
				r.insert(pick(c.R, keys))
				continue
			}
			r.delete(keys[c.R.IntN(len(keys))], d)
			if i%step == step-1 {
				r.check(sample(), false)
			}
		}
		r.check(sample(), false)
	}
}

// secHuge: a tree with more than 2^16 entries.
func secHuge(fams []*Fam, fo focus) func(c *C) {
	return func(c *C) {
		step := 7
		for len(fams)%step == 0 {
			step += 4
		}
		n := 66000 + c.R.IntN(14000)
		if fams[0].flat() && c.Idx/5%3 < 2 {
			// The highest of the balanced trees are those built in order.
			n = 131072 + c.R.IntN(2)*c.R.IntN(80000)
			if c.Thor && c.R.pct(30) {
				n *= 2
			}
		}
		f, keys := fams[0], []Key{}
		// (under some comparisons there are not so many different keys)
		for i := c.Idx * step; i < c.Idx*step+len(fams) && len(keys) < 60000; i++ {
			f = fams[i%len(fams)]
			keys = f.Many(c.R, n)
		}
		if len(keys) < 2 {
			return
		}
		switch order := c.R.IntN(4); {
		case f.flat() && c.Idx/5%3 == 0 || !f.flat() && order == 0:
			f.Sort(keys)
			slices.Reverse(keys)
		case f.flat() && c.Idx/5%3 == 1 || !f.flat() && order == 1:
			f.Sort(keys)
		}
		r := newRun(c, f, &fo)
		if r.mode == 0 && c.R.pct(50) {
			r.mode = 2
		}
		for _, k := range keys {
			r.insert(k)
		}
		sample := func(n int) []Key {
			q := []Key{}
			for i := 0; i < n; i++ {
				q = append(q, pick(c.R, keys), f.Near(c.R, keys))
			}
			return q
		}
		r.check(sample(3000), false)
		if fo.noDelete {
			return
		}
		for i := 0; i < 150; i++ {
			d := &f.Dels[0]
			if c.R.pct(5) {
				d = r.anyDel()
			}
			k := pick(c.R, keys)
			if len(k.Canon) < 12 && len(keys) > 1000 && c.R.pct(90) {
				continue // would take most of the tree
			}
			r.delete(k, d)
		}
		r.deleteRun(keys, 150)
		r.check(sample(1500), false)
	}
}

// secPerm: small trees built in every order of insertion, every single deletion from each (flat trees only).
func secPerm(fams []*Fam, fo focus, size int) (func(c *C), int) {
	total := 1
	for i := 2; i <= size; i++ {
		total *= i
	}
	// A case is a batch of permutations.
	const batch = 60
	cases := (total + batch - 1) / batch
	return func(c *C) {
		f := famOf(fams, c)
		keys := f.Many(c.R, size)
		for len(keys) < size {
			keys = append(keys, keys...)
		}
		f.Sort(keys)
		queries := keys
		for b := 0; b < batch; b++ {
			idx := c.Idx/len(fams)*batch + b
			if idx >= total {
				break
			}
			order := nthPerm(size, idx)
			build := func() *run {
				r := newRun(c, f, &fo)
				r.mode = idx & 1
				if r.mode == 1 {
					r.h = f.New()
				}
				for _, o := range order {
					r.insert(keys[o])
				}
				return r
			}
			base := newRun(c, f, &fo)
			base.mode = idx & 1
			if base.mode == 1 {
				base.h = f.New()
			}
			for _, o := range order {
				base.insert(keys[o])
				base.check(queries, false)
			}
			for i := range keys {
				c.T("-- insertion order %v, deletions from %d on", order, i)
				r := build()
				for j := range keys {
					// A full run of deletions starting at each key.
					r.delete(keys[(i+j*(1+idx%3))%size], &f.Dels[0])
					r.check(queries, false)
				}
			}
		}
	}, cases
}

func nthPerm(n, idx int) []int {
	pool := make([]int, n)
	for i := range pool {
		pool[i] = i
	}
	out := make([]int, 0, n)
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	for i := n - 1; i >= 0; i-- {
		k := idx / f % (i + 1)
		out = append(out, pool[k])
		pool = append(pool[:k:k], pool[k+1:]...)
		if i > 0 {
			idx %= f
			f /= i
			if f == 0 {
				f = 1
			}
		}
	}
	return out
}

// standard gives the sections every property about contents uses.
func standard(fams []*Fam, fo focus, scale int) []Section {
	out := []Section{
		{"history", 300 * scale, 6000 * scale, secHist(fams, fo)},
		{"dense", 16 * scale, 300 * scale, secDense(fams, fo)},
		{"large", 2 * scale, 30 * scale, secLarge(fams, fo, 1500)},
	}
	if fo.extra == nil || fams[0].Group == "num" {
		// (dumps of such trees take too long)
		q := min(5, len(fams))
		if fams[0].flat() {
			q = min(15, 3*len(fams))
		}
		out = append(out, Section{"huge", q, 4 * len(fams), secHuge(fams, fo)})
	}
	if fams[0].Chain != nil {
		out = append(out, Section{"chain", 12 * scale, 200 * scale, secChain(fams, fo)})
	}
	if fams[0].flat() {
		run, n := secPerm(fams, fo, 6)
		q := n * len(fams)
		run7, n7 := secPerm(fams, fo, 7)
		out = append(out, Section{"perm6", q, q, run}, Section{"perm7", 0, n7 * len(fams), run7})
	}
	return out
}

var _ = fmt.Sprint
