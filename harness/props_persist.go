package main

import (
	"fmt"
	"hash/fnv"
	"slices"
)

// version is a retained tree with what it has to show for ever.
type version struct {
	h     any
	m     Model
	dot   uint64
	names int
}

func textHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

type openEnum struct {
	v    int
	next func() (Entry, bool)
	got  []Entry
}

// judgeVersion compares a version with what it has been from the start.
func (c *C) judgeVersion(f *Fam, fo *focus, v *version, keys []Key, all bool) {
	c.lookups(f, fo, v.h, v.m, keys, all)
	c.contents(f, fo, v.h, v.m)
	if f.Empty != nil && f.Empty(v.h) != (len(v.m) == 0) {
		c.Failf("%s: IsEmpty of an old version with %d entries gives %v", f.Name, len(v.m), f.Empty(v.h))
	}
	if f.Dot != nil {
		c.Ev(1)
		if d := textHash(f.Dot(v.h)); d != v.dot {
			c.Failf("%s: the dump of an old version with entries %s has changed", f.Name, v.m)
		}
	}
	c.Count("versions judged", 1)
}

// secVersions: a branching history over many retained versions.
func secVersions(fams []*Fam, dense bool) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true, exotic: c.R.pct(20)}
		var keys []Key
		if dense {
			keys = f.Universe(c.R, c.Idx/len(fams))
		} else if f.Chain != nil && c.R.pct(10) {
			keys = f.Chain(c.R)
			if len(keys) > 40 {
				from := c.R.IntN(len(keys) - 40)
				keys = keys[from : from+10+c.R.IntN(30)]
			}
		} else {
			keys = f.Cluster(c.R, 3+c.R.IntN(24))
		}
		if len(keys) == 0 {
			return
		}
		// the first version may have been built in place
		r := newRun(c, f, fo)
		for i := c.R.IntN(2 * len(keys)); i > 0; i-- {
			if c.R.pct(10) {
				r.delete(pick(c.R, keys), r.anyDel())
			} else {
				r.insert(pick(c.R, keys))
			}
		}
		snap := func(h any, m Model) *version {
			v := &version{h: h, m: m}
			if f.Dot != nil {
				v.dot = textHash(f.Dot(h))
			}
			return v
		}
		vs := []*version{snap(r.h, r.m)}
		c.T("-- versions from here on: 0 is the tree so far")
		queries := append([]Key{}, keys...)
		for i := 0; i < 6; i++ {
			queries = append(queries, f.Near(c.R, keys))
		}
		opened := []*openEnum{}
		ops := 10 + c.R.IntN(30)
		n := r.n
		for i := 0; i < ops; i++ {
			from := c.R.IntN(len(vs))
			if c.R.pct(40) {
				from = len(vs) - 1
			}
			base := vs[from]
			m := base.m.clone()
			var h any
			k := pick(c.R, keys)
			if c.R.pct(15) {
				k = pick(c.R, queries)
			}
			raw := k.raw(c.R)
			if c.R.pct(40) {
				d := &f.Dels[c.R.IntN(len(f.Dels))]
				c.T("version %d = %s %v from version %d", len(vs), d.Name, raw, from)
				h, _ = d.Fn(base.h, raw)
				m.del(f, d.Sub, k.Canon)
				c.Count("deletions", 1)
			} else {
				n++
				v := f.val(c.R, n, fo.exotic)
				c.T("version %d = Insert %v = %s from version %d", len(vs), raw, showVal(v), from)
				h = f.Ins(base.h, raw, v)
				if v == nil && f.Bits > 0 {
					v = f.Zero
				}
				m[k.Canon] = v
				c.Count("insertions", 1)
			}
			// The new version is what this history says it is: from now on it must not change.
			nv := snap(h, m)
			vs = append(vs, nv)
			c.judgeVersion(f, fo, base, queries, false)
			for _, o := range opened {
				for p := c.R.IntN(3); p > 0; p-- {
					c.pull(f, o)
				}
			}
			if len(opened) < 6 && c.R.pct(25) {
				o := &openEnum{v: c.R.IntN(len(vs))}
				c.T("enumeration of version %d begins", o.v)
				o.next = f.open(c.R, vs[o.v].h)
				opened = append(opened, o)
				c.pull(f, o)
				c.Count("enumerations across derivations", 1)
			}
			if i%9 == 8 {
				for j, v := range vs {
					c.T("judging version %d", j)
					c.judgeVersion(f, fo, v, queries, false)
				}
			}
			if len(nv.m) > 1 {
				c.SeenStr(f.Name, nv.m.signature())
			}
		}
		for j, v := range vs {
			c.T("judging version %d at the end", j)
			c.judgeVersion(f, fo, v, queries, true)
		}
		for _, o := range opened {
			for c.pull(f, o) {
			}
			c.T("enumeration of version %d ends", o.v)
			c.checkEntries(f, "an enumeration open during derivations", o.got, false, vs[o.v].m, false)
		}
		c.Max("versions of one history", int64(len(vs)))
		c.Sample("%s: %d versions over %d keys, the last with %s", f.Name, len(vs), len(keys), vs[len(vs)-1].m)
	}
}

func (c *C) pull(f *Fam, o *openEnum) bool {
	if o.next == nil {
		return false
	}
	e, ok := o.next()
	if !ok {
		o.next = nil
		return false
	}
	o.got = append(o.got, e)
	if len(o.got) > 100000 {
		c.Failf("%s: an enumeration does not end", f.Name)
	}
	return true
}

// secLongVersions: versions of large trees, a sample of them retained over a long history.
func secLongVersions(fams []*Fam, n int) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true}
		keys := f.Many(c.R, n/4+c.R.IntN(n))
		if len(keys) < 2 {
			return
		}
		if c.R.pct(40) {
			f.Sort(keys)
		}
		r := newRun(c, f, fo)
		start := c.R.IntN(len(keys))
		for _, k := range keys[:start] {
			r.insert(k)
		}
		// From here on copying only, as versions are retained.
		r.mode = 0
		vs := []*version{}
		keep := func() {
			v := &version{h: r.h, m: r.m.clone()}
			if f.Dot != nil && len(r.m) < 300 {
				v.dot = textHash(f.Dot(r.h))
			}
			vs = append(vs, v)
		}
		keep()
		steps := len(keys)
		every := steps/8 + 1
		for i := 0; i < steps; i++ {
			if c.R.pct(45) {
				r.delete(pick(c.R, keys), &f.Dels[0])
			} else {
				r.insert(pick(c.R, keys))
			}
			if i%every == 0 {
				keep()
			}
		}
		if r.f.Group == "lab" || r.f.Group == "str" || r.f.Group == "num" || len(f.Dels) > 0 {
			for i := 0; i < 5; i++ {
				r.delete(pick(c.R, keys), r.anyDel())
			}
		}
		for _, v := range vs {
			q := []Key{}
			for i := 0; i < 300; i++ {
				q = append(q, pick(c.R, keys))
			}
			c.lookups(f, fo, v.h, v.m, q, false)
			c.contents(f, fo, v.h, v.m)
			if v.dot != 0 && textHash(f.Dot(v.h)) != v.dot {
				c.Failf("%s: the dump of an old version with %d entries has changed", f.Name, len(v.m))
			}
			c.Count("versions judged", 1)
			c.SeenStr(f.Name, fmt.Sprint(len(v.m), textHash(v.m.signature())))
		}
		c.Max("entries", int64(len(r.m)))
	}
}

// secAged: old versions are left alone for about so many operations, and then what was built on top of them goes
// through their nodes again. Whatever counts operations or versions in a few bits has come round by then.
func secAged(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true}
		period := pick(c.R, []int{128, 256, 256, 512, 1024, 4096, 32768, 65536, 65536})
		n := min(60+c.R.IntN(500), period*3/4)
		keys := f.Many(c.R, n+1)
		if len(keys) < 20 {
			return
		}
		c.R.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		side, keys := keys[0], keys[1:]
		r := newRun(c, f, fo)
		r.mode = 0
		r.h = f.New()
		vs := []*version{}
		keep := func() {
			v := &version{h: r.h, m: r.m.clone()}
			if f.Dot != nil {
				v.dot = textHash(f.Dot(r.h))
			}
			vs = append(vs, v)
		}
		for i, k := range keys {
			r.insert(k)
			if i%(len(keys)/4+1) == 0 {
				keep()
			}
		}
		keep()
		// operations in between, mostly on a branch of its own
		branch := c.R.pct(50)
		h := r.h
		c.T("%d insertions of %s, on a branch: %v", max(0, period-len(keys)), side.Canon, branch)
		for i := 0; i < period-len(keys); i++ {
			h = f.Ins(h, side.Raws[0], f.val(c.R, i, false))
		}
		if !branch && period > len(keys) {
			r.h = h
			r.insert(side)
			keep()
		}
		dels := c.R.pct(50)
		for i := 0; i < 2*len(keys); i++ {
			if dels && c.R.pct(30) {
				r.delete(pick(c.R, keys), &f.Dels[0])
			} else {
				r.insert(pick(c.R, keys))
			}
		}
		keep()
		for _, v := range vs {
			c.judgeVersion(f, fo, v, keys, false)
			if len(v.m) > 1 {
				c.SeenStr(f.Name, v.m.signature())
			}
		}
		c.Max("operations between the versions", int64(period))
	}
}

// secRBVersions: every insertion and deletion on every tree reachable by few insertions, judging the origin.
func secRBVersions(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{exact: true, enum: true}
		size := 5 + c.R.IntN(20)
		keys := f.Many(c.R, size)
		r := newRun(c, f, fo)
		for _, i := range c.R.Perm(len(keys)) {
			if c.R.pct(75) {
				r.insert(keys[i])
			}
		}
		for i := c.R.IntN(4); i > 0; i-- {
			r.delete(pick(c.R, keys), r.anyDel())
		}
		v := &version{h: r.h, m: r.m}
		v.dot = textHash(f.Dot(r.h))
		for _, k := range keys {
			raw := k.raw(c.R)
			c.T("Insert %v and Delete %v on the same version", raw, raw)
			a := f.Ins(v.h, raw, f.val(c.R, 99, false))
			b, _ := f.Dels[0].Fn(v.h, raw)
			c.judgeVersion(f, fo, v, keys, false)
			ma, mb := v.m.clone(), v.m.clone()
			ma[k.Canon] = nil
			mb.del(f, false, k.Canon)
			// second generation from both, then the origin again
			k2 := pick(c.R, keys)
			f.Dels[0].Fn(a, k2.raw(c.R))
			f.Ins(b, k2.raw(c.R), f.val(c.R, 98, false))
			c.judgeVersion(f, fo, v, keys, false)
		}
		if len(v.m) > 1 {
			c.SeenStr(f.Name, v.m.signature())
		}
	}
}

// secInplace: from any start, the in-place and the copying insertion of the same entries have to agree.
func secInplace(fams []*Fam, dense bool) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true, exotic: c.R.pct(20)}
		var keys []Key
		if dense {
			keys = f.Universe(c.R, c.Idx/len(fams))
		} else if f.Chain != nil && c.R.pct(10) {
			keys = f.Chain(c.R)
		} else {
			keys = f.Cluster(c.R, 3+c.R.IntN(24))
		}
		if len(keys) == 0 {
			return
		}
		queries := append([]Key{}, keys...)
		for i := 0; i < 6; i++ {
			queries = append(queries, f.Near(c.R, keys))
		}
		// The same start reached twice, so that nothing is shared.
		start := c.R.IntN(4)
		type op struct {
			k   Key
			raw any
			del int // -1: insert
			inp bool
			v   any
		}
		n := 0
		mk := func(inp, del int) op {
			k := pick(c.R, keys)
			n++
			o := op{k: k, raw: k.raw(c.R), del: -1, inp: c.R.pct(inp), v: f.val(c.R, n, fo.exotic)}
			if c.R.pct(del) {
				if c.R.pct(30) {
					k = pick(c.R, queries)
					o.k, o.raw = k, k.raw(c.R)
				}
				o.del = c.R.IntN(len(f.Dels))
			}
			return o
		}
		ops := []op{}
		if start > 0 {
			for i := c.R.IntN(2 * len(keys)); i > 0; i-- {
				ops = append(ops, mk([]int{0, 0, 100, 50}[start], []int{0, 20, 0, 30}[start]))
			}
		}
		if c.R.pct(20) && start > 0 {
			for di := range f.Dels {
				for _, k := range keys {
					ops = append(ops, op{k: k, raw: k.raw(c.R), del: di})
				}
			}
		}
		apply := func(h any, m Model, o op, inp bool) any {
			if o.del >= 0 {
				h, _ = f.Dels[o.del].Fn(h, o.raw)
				if m != nil {
					m.del(f, f.Dels[o.del].Sub, o.k.Canon)
				}
				if isNilHandle(h) && f.Group != "num" {
					h = f.New()
				}
				return h
			}
			if inp {
				h = f.Inp(h, o.raw, o.v)
			} else {
				h = f.Ins(h, o.raw, o.v)
			}
			if m != nil {
				v := o.v
				if v == nil && f.Bits > 0 {
					v = f.Zero
				}
				m[o.k.Canon] = v
			}
			return h
		}
		a, b := f.New(), f.New()
		m := Model{}
		for _, o := range ops {
			c.T("both: %v del %d in-place %v", o.raw, o.del, o.inp)
			a = apply(a, m, o, o.inp)
			b = apply(b, nil, o, o.inp)
		}
		mixed := c.R.pct(50)
		for i := 0; i < 12; i++ {
			o := mk(100, 0)
			if mixed {
				o = mk(60, 25)
			}
			c.T("%v del %d in place %v on one, copying on the other", o.raw, o.del, o.inp)
			a = apply(a, m, o, o.inp)
			b = apply(b, nil, o, false)
			// the in-place tree and the copying one have to show the same contents
			ea, overA := f.Enums[0].Fn(a, len(m)+4)
			eb, overB := f.Enums[0].Fn(b, len(m)+4)
			c.Ev(1)
			if overA || overB || !sameEntries(ea, eb) {
				c.Failf("%s: in place %s, copying %s, expected %s", f.Name, showEntries(ea), showEntries(eb), m)
			}
			if f.Spelled != nil {
				c.Ev(1)
				if ka, kb := f.Spelled(a, len(m)+4), f.Spelled(b, len(m)+4); !slices.Equal(ka, kb) {
					c.Failf("%s: the keys are shown as %q after in-place and as %q after copying insertion", f.Name, ka, kb)
				}
			}
			for _, k := range queries {
				raw := k.raw(c.R)
				for gi := range f.Gets {
					va, oka := f.Gets[gi].Fn(a, raw)
					vb, okb := f.Gets[gi].Fn(b, raw)
					c.Ev(1)
					if oka != okb || !sameVal(va, vb) {
						c.Failf("%s: %s(%v) after in-place insertion gave %s,%v, after copying %s,%v; contents %s", f.Name, f.Gets[gi].Name, raw, showVal(va), oka, showVal(vb), okb, m)
					}
				}
			}
			// and be what the history says
			c.state(f, fo, a, m, queries, false)
			c.Count("pairs judged", 1)
			if len(m) > 1 {
				c.SeenStr(f.Name, m.signature())
			}
		}
		c.Sample("%s: start kind %d, %d common steps, ending with %s", f.Name, start, len(ops), m)
	}
}

// secInplaceLarge: the same with many entries.
func secInplaceLarge(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true}
		n := 200 + c.R.IntN(3000)
		if c.R.pct(6) {
			n = 66000 + c.R.IntN(10000)
		}
		keys := f.Many(c.R, n)
		if len(keys) < 10 {
			return
		}
		switch c.R.IntN(4) {
		case 0:
			f.Sort(keys)
		case 1:
			f.Sort(keys)
			slices.Reverse(keys)
		}
		a, b := f.New(), f.New()
		m := Model{}
		judge := func() {
			q := []Key{}
			for i := 0; i < 200; i++ {
				q = append(q, pick(c.R, keys), f.Near(c.R, keys))
			}
			c.T("the tree made in place")
			c.lookups(f, fo, a, m, q, false)
			c.contents(f, fo, a, m)
			c.T("the tree made by copying")
			c.lookups(f, fo, b, m, q, false)
			c.contents(f, fo, b, m)
			c.Count("pairs judged", 1)
			if len(m) > 1 {
				c.SeenStr(f.Name, m.signature())
			}
		}
		del := func(k Key, d *DelOp) {
			raw := k.raw(c.R)
			c.T("both: %s %v", d.Name, raw)
			a, _ = d.Fn(a, raw)
			b, _ = d.Fn(b, raw)
			m.del(f, d.Sub, k.Canon)
			if isNilHandle(a) && f.Group != "num" {
				a = f.New()
			}
			if isNilHandle(b) && f.Group != "num" {
				b = f.New()
			}
		}
		mixed := c.R.pct(40)
		step := len(keys)/3 + 1
		for i, k := range keys {
			raw, v := k.raw(c.R), f.val(c.R, i, false)
			c.T("%v = %s, in place and copying", raw, showVal(v))
			a, b = f.Inp(a, raw, v), f.Ins(b, raw, v)
			if v == nil && f.Bits > 0 {
				v = f.Zero
			}
			m[k.Canon] = v
			if mixed && c.R.pct(10) {
				if k := keys[c.R.IntN(i+1)]; len(k.Canon) > 12 || f.flat() || c.R.pct(1) {
					del(k, &f.Dels[0])
				}
			}
			if i%step == step-1 {
				judge()
			}
		}
		judge()
		for i := 0; i < 100; i++ {
			if k := pick(c.R, keys); len(k.Canon) > 12 || f.flat() || c.R.pct(3) {
				del(k, &f.Dels[0])
			}
		}
		for i := 0; i < 50; i++ {
			k := pick(c.R, keys)
			raw, v := k.raw(c.R), f.val(c.R, i, false)
			c.T("%v = %s, in place and copying", raw, showVal(v))
			a, b = f.Inp(a, raw, v), f.Ins(b, raw, v)
			m[k.Canon] = v
		}
		judge()
		c.Max("entries", int64(len(m)))
	}
}

func sameEntries(a, b []Entry) bool {
	if len(a) != len(b) {
		return false
	}
	m := Model{}
	for _, e := range a {
		m[e.Canon] = e.Val
	}
	for _, e := range b {
		v, ok := m[e.Canon]
		if !ok || !sameVal(v, e.Val) {
			return false
		}
	}
	return len(m) == len(b)
}

func showEntries(es []Entry) string {
	m := Model{}
	for _, e := range es {
		m[e.Canon] = e.Val
	}
	return m.String()
}

func allFams() []*Fam {
	out := append(numFams(), ipFams()...)
	out = append(out, famLab(), famLab())
	out = append(out, domFams()...)
	for _, i := range []int{0, 1, 2, 3, 4, 6} {
		out = append(out, famStrGen(cmpKinds[i], nil))
	}
	for i, b := range []int{8, 16, 32, 64} {
		out = append(out, famStrTyped(b, cmpKinds[i], nil))
		if i > 0 {
			out = append(out, famStrTyped(b, cmpKinds[0], nil))
		}
	}
	return out
}

func flatFams() []*Fam {
	out := []*Fam{}
	for _, f := range allFams() {
		if f.flat() {
			out = append(out, f)
		}
	}
	return out
}

func persistProps() []*Prop {
	all := allFams()
	flat := flatFams()
	return []*Prop{
		{ID: "C21", MinEvals: 200000,
			Rule: "evaluations are lookups, enumerations and dumps of retained versions compared with what they were; distinct_nontrivial counts distinct (tree type, set of stored keys) of versions with at least two entries",
			Sections: []Section{{"versions", 9000, 200000, secVersions(all, false)}, {"versions-dense", 3000, 60000, secVersions(all, true)},
				{"versions-rb", 6000, 100000, secRBVersions(flat)}, {"versions-large", 60, 1000, secLongVersions(all, 1500)},
				{"versions-aged", 280, 6000, secAged(all)}}},
		{ID: "C22", MinEvals: 200000,
			Rule: "evaluations are comparisons between the in-place and the copying tree (enumerations, lookups) and with the model; distinct_nontrivial counts distinct (tree type, set of stored keys) with at least two entries compared",
			Sections: []Section{{"in-place", 12000, 250000, secInplace(all, false)}, {"in-place-dense", 6000, 100000, secInplace(all, true)},
				{"in-place-large", 60, 1500, secInplaceLarge(all)}}},
	}
}
