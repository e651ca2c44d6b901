package main

import (
	"runtime"
	"strings"
)

// ---- C34

// heldStep is a step of a history which is made up before anything is measured.
type heldStep struct {
	kind int // 0 insertion, 1 in-place insertion, 2 deletion, 3 lookup, 4 enumeration, 5 deletion, 6 insertion without further use of the result, 7 dump
	op   int // which of the operations
	raw  any
	val  any
}

// privately gives a key the tree is the only one to keep. Names are not copied: how much of the text of a name a label
// keeps depends on which name it came with.
func privately(raw any) any {
	switch k := raw.(type) {
	case string:
		return strings.Clone(k)
	case labRaw:
		k.s = strings.Clone(k.s)
		return k
	}
	return raw
}

func heapInUse() uint64 {
	var m runtime.MemStats
	for i := 0; i < 2; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

//go:noinline
func heldRun(f *Fam, steps []heldStep) any {
	h := f.New()
	for i := range steps {
		s := &steps[i]
		switch s.kind {
		case 0:
			h = f.Ins(h, privately(s.raw), s.val)
		case 1:
			if isNilHandle(h) && f.Group != "num" {
				h = f.New()
			}
			h = f.Inp(h, privately(s.raw), s.val)
		case 2:
			h, _ = f.Dels[s.op].Fn(h, privately(s.raw))
		case 3:
			f.Gets[s.op].Fn(h, privately(s.raw))
		case 4:
			f.Enums[s.op].Fn(h, len(steps)+1)
		case 5:
			f.Dels[s.op].Fn(h, privately(s.raw))
		case 6:
			f.Ins(h, privately(s.raw), s.val)
		case 7:
			f.Dot(h)
		}
	}
	return h
}

// heldPlan makes up a history and tells which keys it leaves.
func heldPlan(c *C, f *Fam) (steps []heldStep, left map[string]any, what string) {
	var keys []Key
	switch {
	case c.R.pct(30):
		keys = f.Cluster(c.R, 10+c.R.IntN(60))
	case c.R.pct(20) && f.Chain != nil:
		keys = f.Chain(c.R)
	default:
		keys = f.Many(c.R, 200+c.R.IntN(1500))
	}
	if len(keys) == 0 {
		return
	}
	left = map[string]any{}
	m := Model{}
	mode := c.R.IntN(3)
	vals := make([]any, 16)
	for i := range vals {
		vals[i] = f.val(c.R, i, false)
	}
	insert := func(k Key) {
		kind := mode
		if mode == 2 {
			kind = c.R.IntN(2)
		}
		raw := k.raw(c.R)
		steps = append(steps, heldStep{kind: kind, raw: raw, val: pick(c.R, vals)})
		m[k.Canon] = true
		left[k.Canon] = raw
	}
	del := func(k Key, op int) {
		steps = append(steps, heldStep{kind: 2, op: op, raw: k.raw(c.R)})
		if f.Dels[op].Sub && !f.flat() {
			for q := range m {
				if strings.HasPrefix(q, k.Canon) {
					delete(m, q)
					delete(left, q)
				}
			}
		} else {
			delete(m, k.Canon)
			delete(left, k.Canon)
		}
	}
	look := func() {
		if c.R.pct(20) {
			k := pick(c.R, keys)
			if c.R.pct(50) {
				k = f.Near(c.R, keys[:1+c.R.IntN(len(keys))])
			}
			steps = append(steps, heldStep{kind: 3, op: c.R.IntN(len(f.Gets)), raw: k.raw(c.R)})
		}
		if len(m) < 40 && c.R.pct(1) {
			steps = append(steps, heldStep{kind: 4, op: c.R.IntN(len(f.Enums))})
		}
	}
	n := 1000 + c.R.IntN(3000)
	switch c.R.IntN(6) {
	case 0:
		what = "few entries come and go"
		few := 1 + c.R.IntN(12)
		var live []Key
		for i := 0; i < n; i++ {
			if len(live) >= few || len(live) > 0 && c.R.pct(30) {
				j := c.R.IntN(len(live))
				del(live[j], c.R.IntN(len(f.Dels)))
				live = append(live[:j], live[j+1:]...)
			} else {
				k := pick(c.R, keys)
				insert(k)
				live = append(live, k)
			}
			look()
		}
	case 1:
		what = "all come, nearly all go"
		for i := 0; i*len(keys) < n; i++ {
			for _, j := range c.R.Perm(len(keys)) {
				insert(keys[j])
				look()
			}
			stay := c.R.IntN(6)
			for _, j := range c.R.Perm(len(keys)) {
				if stay > 0 {
					stay--
				} else if op := c.R.IntN(len(f.Dels)); m[keys[j].Canon] != nil || c.R.pct(20) {
					del(keys[j], op)
				}
				look()
			}
		}
	case 2:
		what = "values are replaced"
		some := keys[:1+c.R.IntN(min(len(keys), 30))]
		for i := 0; i < n; i++ {
			insert(pick(c.R, some))
			look()
		}
	case 3:
		what = "lookups"
		some := keys[:1+c.R.IntN(min(len(keys), 30))]
		for _, k := range some {
			insert(k)
		}
		for i := 0; i < n; i++ {
			k := f.Near(c.R, keys[:1+c.R.IntN(len(keys))])
			steps = append(steps, heldStep{kind: 3, op: c.R.IntN(len(f.Gets)), raw: k.raw(c.R)})
		}
	default:
		what = "reading and derivations which are dropped"
		some := keys[:c.R.IntN(min(len(keys), 30))]
		if c.R.pct(30) {
			some = nil
		}
		for _, k := range some {
			insert(k)
		}
		if c.R.pct(30) {
			for _, k := range some {
				if m[k.Canon] != nil {
					del(k, c.R.IntN(len(f.Dels)))
				}
			}
			what += " from an emptied tree"
		}
		// one kind of step only or all kinds mixed
		only := c.R.IntN(8)
		for i := 0; i < n; i++ {
			kind := 3 + only
			if only > 4 {
				kind = 3 + c.R.IntN(5)
			}
			k := pick(c.R, keys)
			if c.R.pct(50) {
				k = f.Near(c.R, keys[:1+c.R.IntN(len(keys))])
			}
			s := heldStep{kind: kind, raw: k.raw(c.R), val: pick(c.R, vals)}
			switch kind {
			case 3:
				s.op = c.R.IntN(len(f.Gets))
			case 4:
				s.op = c.R.IntN(len(f.Enums))
			case 5:
				s.op = c.R.IntN(len(f.Dels))
			case 7:
				if f.Dot == nil {
					s.kind = 4
				}
			}
			steps = append(steps, s)
		}
	}
	if c.R.pct(30) {
		for _, j := range c.R.Perm(len(keys)) {
			if m[keys[j].Canon] != nil {
				del(keys[j], c.R.IntN(len(f.Dels)))
			}
		}
		what += ", then all go"
	}
	return
}

// secHeld compares the memory held by a tree at the end of a history with that of one which just has the same entries.
func secHeld(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		steps, left, what := heldPlan(c, f)
		if len(steps) == 0 {
			return
		}
		fresh := make([][]heldStep, 2)
		for _, k := range sortedKeys(left) {
			for kind := range fresh {
				fresh[kind] = append(fresh[kind], heldStep{kind: kind, raw: left[k], val: f.val(c.R, 3, false)})
			}
		}
		held := func(steps []heldStep) uint64 {
			base := heapInUse()
			h := heldRun(f, steps)
			now := heapInUse()
			runtime.KeepAlive(h)
			if now < base {
				return 0
			}
			return now - base
		}
		want := uint64(0)
		for kind := range fresh {
			want = max(want, held(fresh[kind]))
		}
		bound := 3*want + 24<<10
		got := held(steps)
		for i := 0; i < 5 && got > bound; i++ {
			// something else may have been going on
			got = min(got, held(steps))
		}
		c.Ev(1)
		c.Count("steps", len(steps))
		c.Max("memory in percent of the bound", int64(got*100/bound))
		if got > bound {
			c.T("%s: %s", f.Name, what)
			for i, s := range steps {
				if i < 300 {
					c.T("%s %v", []string{"Insert", "InplaceInsert", "Delete", "lookup", "enumeration", "Delete and drop", "Insert and drop", "Dot"}[s.kind], s.raw)
				}
			}
			c.Failf("%s: after %d steps (%s) a tree with %d entries holds %d bytes, a new one with the same entries %d", f.Name, len(steps), what, len(left), got, want)
		}
		runtime.KeepAlive(fresh)
		runtime.KeepAlive(left)
		c.Seen(f.Name, what, len(steps), len(left))
		c.Sample("%s: %s, %d steps: %d entries hold %d bytes, %d when new", f.Name, what, len(steps), len(left), got, want)
	}
}
