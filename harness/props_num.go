package main

import (
	"fmt"
	"strings"

	"github.com/infobloxopen/go-trees/numtree"
)

// shaped is a node seen through its exported fields.
type shaped struct {
	canon string
	leaf  bool
	val   any
	kids  [2]*shaped
}

func shape32(n *numtree.Node32) *shaped {
	if n == nil {
		return nil
	}
	s := &shaped{canon: bitString(uint64(n.Key), 32, int(n.Bits)), leaf: n.Leaf, val: n.Value}
	l, r := n.Children()
	s.kids = [2]*shaped{shape32(l), shape32(r)}
	return s
}

func shape64(n *numtree.Node64) *shaped {
	if n == nil {
		return nil
	}
	s := &shaped{canon: bitString(n.Key, 64, int(n.Bits)), leaf: n.Leaf, val: n.Value}
	l, r := n.Children()
	s.kids = [2]*shaped{shape64(l), shape64(r)}
	return s
}

func numShape(h any) *shaped {
	switch n := h.(type) {
	case *numtree.Node32:
		return shape32(n)
	case *numtree.Node64:
		return shape64(n)
	}
	panic("not a numeric tree")
}

func (s *shaped) String() string {
	if s == nil {
		return "-"
	}
	var sb strings.Builder
	var walk func(s *shaped)
	walk = func(s *shaped) {
		if s == nil {
			sb.WriteByte('-')
			return
		}
		fmt.Fprintf(&sb, "(%s", s.canon)
		if s.leaf {
			fmt.Fprintf(&sb, "=%s", showVal(s.val))
		}
		if s.kids[0] != nil || s.kids[1] != nil {
			walk(s.kids[0])
			walk(s.kids[1])
		}
		sb.WriteByte(')')
	}
	walk(s)
	return sb.String()
}

// checkShape judges the structural rules of C05 and the stored entries.
func (c *C) checkShape(f *Fam, h any, m Model) *shaped {
	root := numShape(h)
	found := 0
	var walk func(s *shaped)
	walk = func(s *shaped) {
		c.Ev(1)
		if s.leaf {
			want, ok := m[s.canon]
			if !ok || !sameVal(want, s.val) {
				c.Failf("%s: walking shows entry %s=%s, stored are %s", f.Name, showCanon(s.canon), showVal(s.val), m)
			}
			found++
		} else if s.kids[0] == nil || s.kids[1] == nil {
			c.Failf("%s: node %s without value has less than two children; shape %s", f.Name, showCanon(s.canon), root)
		}
		for i, k := range s.kids {
			if k == nil {
				continue
			}
			if len(k.canon) <= len(s.canon) || !strings.HasPrefix(k.canon, s.canon) {
				c.Failf("%s: child %s does not extend its parent %s; shape %s", f.Name, showCanon(k.canon), showCanon(s.canon), root)
			}
			if int(k.canon[len(s.canon)]-'0') != i {
				c.Failf("%s: child %s of %s lies on branch %d; shape %s", f.Name, showCanon(k.canon), showCanon(s.canon), i, root)
			}
			walk(k)
		}
	}
	if root != nil {
		walk(root)
	}
	if found != len(m) {
		c.Failf("%s: walking shows %d entries, stored are %d: %s", f.Name, found, len(m), m)
	}
	return root
}

// secTwoHistories: two independent histories which end with the same entries have to give the same structure.
func secTwoHistories(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{}
		pool := f.Cluster(c.R, 4+c.R.IntN(30))
		if len(pool) < 2 {
			return
		}
		// Bits of keys beyond their lengths may show in dumps, so dumps are compared only if there are none.
		clean := c.R.pct(60)
		if clean {
			for i := range pool {
				pool[i].Raws = pool[i].Raws[:1]
			}
		}
		final := Model{}
		for i, k := range pool {
			if c.R.pct(60) {
				final[k.Canon] = 1000000 + i
			}
		}
		keyOf := map[string]Key{}
		for _, k := range pool {
			keyOf[k.Canon] = k
		}
		build := func() *run {
			r := newRun(c, f, fo)
			// a part with anything
			for i := c.R.IntN(30); i > 0; i-- {
				if c.R.pct(35) {
					r.delete(pick(c.R, pool), r.anyDel())
				} else {
					r.insert(pick(c.R, pool))
				}
				if c.R.pct(30) {
					c.checkShape(f, r.h, r.m)
				}
			}
			// then remove what is not wanted and put in order what is
			for _, i := range c.R.Perm(len(pool)) {
				k := pool[i]
				if _, want := final[k.Canon]; !want {
					if _, have := r.m[k.Canon]; have {
						r.delete(k, r.anyDel())
					}
				}
			}
			want := sortedKeys(final)
			for _, i := range c.R.Perm(len(want)) {
				k := keyOf[want[i]]
				v := final[k.Canon]
				raw := k.raw(c.R)
				if r.mode == 1 || r.mode == 2 && c.R.pct(50) {
					c.T("InplaceInsert %v = %v", raw, v)
					r.h = f.Inp(r.h, raw, v)
				} else {
					c.T("Insert %v = %v", raw, v)
					r.h = f.Ins(r.h, raw, v)
				}
				r.m[k.Canon] = v
			}
			return r
		}
		a := build()
		c.T("-- second history")
		b := build()
		sa, sb := c.checkShape(f, a.h, final), c.checkShape(f, b.h, final)
		c.Ev(2)
		if sa.String() != sb.String() {
			c.Failf("%s: two histories ending with %s gave the shapes\n%s\n%s", f.Name, final, sa, sb)
		}
		if da, db := f.Dot(a.h), f.Dot(b.h); clean && da != db {
			c.Failf("%s: two histories ending with %s gave the dumps\n%s\n%s", f.Name, final, da, db)
		}
		if len(final) > 1 {
			c.SeenStr(f.Name, final.signature())
		}
		c.Sample("%s: two histories over %d keys, both ending in %s", f.Name, len(pool), sa)
	}
}

// handed gives a node of the tree and the way it was come by: by an exact lookup, by a walk over children, or by an
// enumeration. It gives nil if the way leads nowhere.
func (c *C) handed(f *Fam, h any, m Model, keys []Key) (any, string) {
	stored := []Key{}
	for _, k := range keys {
		if _, ok := m[k.Canon]; ok {
			stored = append(stored, k)
		}
	}
	if len(stored) == 0 || isNilHandle(h) {
		return nil, ""
	}
	switch c.R.IntN(3) {
	case 0:
		raw := pick(c.R, stored).raw(c.R).(numRaw)
		how := fmt.Sprintf("FindNode %v", raw)
		switch n := h.(type) {
		case *numtree.Node32:
			return n.FindNode(uint32(raw.key), raw.bits), how
		case *numtree.Node64:
			return n.FindNode(raw.key, raw.bits), how
		}
	case 1:
		how := "child"
		for depth := c.R.IntN(6); depth >= 0; depth-- {
			var kids [2]any
			switch n := h.(type) {
			case *numtree.Node32:
				a, b := n.Children()
				kids = [2]any{a, b}
			case *numtree.Node64:
				a, b := n.Children()
				kids = [2]any{a, b}
			}
			i := c.R.IntN(2)
			if isNilHandle(kids[i]) {
				i = 1 - i
			}
			if isNilHandle(kids[i]) {
				break
			}
			h = kids[i]
			how += fmt.Sprint(" ", i)
		}
		return h, how
	default:
		at := c.R.IntN(len(m))
		how := fmt.Sprintf("node %d of the enumeration", at)
		i := 0
		var got any
		switch n := h.(type) {
		case *numtree.Node32:
			for x := range n.Enumerate() {
				if i == at {
					got = x
				}
				i++
			}
		case *numtree.Node64:
			for x := range n.Enumerate() {
				if i == at {
					got = x
				}
				i++
			}
		}
		return got, how
	}
	return nil, ""
}

// secSubtrees: a node which was handed out is the tree of the entries its prefix contains.
func secSubtrees(fams []*Fam) func(c *C) {
	fo := &focus{lpm: true, exact: true, flag: true, enum: true, order: true, exotic: true}
	return func(c *C) {
		f := famOf(fams, c)
		n := 3 + c.R.IntN(22)
		if c.R.pct(4) {
			n = 200 + c.R.IntN(1500)
		}
		keys := f.Cluster(c.R, n)
		if n >= 200 {
			keys = f.Many(c.R, n)
		}
		queries := append([]Key{}, keys...)
		if len(queries) > 25 {
			queries = queries[:25]
		}
		for i := 0; i < 8; i++ {
			queries = append(queries, f.Near(c.R, keys))
		}
		r := newRun(c, f, fo)
		for i := 0; i < len(keys); i++ {
			if c.R.pct(15) {
				r.delete(pick(c.R, keys), r.anyDel())
			} else {
				r.insert(pick(c.R, keys))
			}
		}
		for rounds := 1 + c.R.IntN(4); rounds > 0; rounds-- {
			h, m := r.h, r.m
			for nested := c.R.IntN(3); nested >= 0; nested-- {
				node, how := c.handed(f, h, m, keys)
				if node == nil {
					break
				}
				c.T("%s", how)
				if isNilHandle(node) {
					c.Failf("%s: no %s; contents %s", f.Name, how, m)
				}
				s := numShape(node)
				sub := Model{}
				for k, v := range m {
					if strings.HasPrefix(k, s.canon) {
						sub[k] = v
					}
				}
				v, ok := sub[s.canon]
				c.Ev(1)
				if s.leaf != ok || ok && !sameVal(s.val, v) {
					c.Failf("%s: %s is node %s with value %v %s, stored is %v %s", f.Name, how, showCanon(s.canon), s.leaf, showVal(s.val), ok, showVal(v))
				}
				c.T("-- the node has prefix %s and holds %s", showCanon(s.canon), sub)
				c.state(f, fo, node, sub, queries, c.R.pct(30))
				if len(sub) > 1 {
					c.SeenStr(f.Name, s.canon+"|"+sub.signature())
				}
				c.Count("nodes judged as trees", 1)
				if len(sub) < len(m) {
					c.Count("nodes judged as trees: parts of the tree", 1)
				}
				// what is derived from the node is none of the tree's business
				d := &run{c: c, f: f, fo: fo, h: node, m: sub.clone()}
				for i := c.R.IntN(6); i > 0; i-- {
					if c.R.pct(40) {
						d.delete(pick(c.R, queries), d.anyDel())
					} else {
						d.insert(pick(c.R, queries))
					}
					d.check(queries, false)
				}
				c.checkShape(f, d.h, d.m)
				c.T("-- the node again")
				c.state(f, fo, node, sub, queries, false)
				if d.n > 0 && c.R.pct(30) {
					h, m = d.h, d.m
				} else {
					h, m = node, sub
				}
			}
			c.T("-- the whole tree again")
			r.check(queries, false)
			if c.R.pct(50) {
				// the tree goes on by copying, as the nodes have been handed out
				r.mode = 0
				if c.R.pct(50) {
					r.delete(pick(c.R, keys), r.anyDel())
				} else {
					r.insert(pick(c.R, keys))
				}
			}
		}
		c.Sample("%s: nodes of %s used as trees", f.Name, r.m)
	}
}

func numProps() []*Prop {
	num := numFams()
	fo := focus{extra: func(c *C, f *Fam, h any, m Model) { c.checkShape(f, h, m) }}
	return []*Prop{{
		ID: "C05", MinEvals: 100000,
		Rule:     "evaluations are nodes judged for the structural rules plus comparisons of two histories' structures; distinct_nontrivial counts distinct (tree type, set of stored prefixes) with at least two entries whose structure was judged",
		Sections: append([]Section{{"two-histories", 20000, 400000, secTwoHistories(num)}}, standard(num, fo, 40)...),
	}, {
		ID: "C36", MinEvals: 100000,
		Rule:     "evaluations are results (lookups, flags, enumerations) of nodes used as trees compared with the entries their prefixes contain; distinct_nontrivial counts distinct (tree type, prefix of the node, set of prefixes it contains) with at least two entries",
		Sections: []Section{{"subtrees", 20000, 400000, secSubtrees(num)}},
	}}
}
