package main

import (
	"fmt"
	"math"
	"net"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
)

// ---- C26

// secEmpty: nil and empty trees, also those which became empty.
func secEmpty(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true, empty: true}
		keys := f.Cluster(c.R, 3+c.R.IntN(12))
		for i := 0; i < 5; i++ {
			keys = append(keys, f.Near(c.R, keys))
		}
		starts := map[string]func() any{"new": f.New}
		if f.Nil != nil {
			starts["nil"] = f.Nil
		}
		starts["emptied"] = func() any {
			h := f.New()
			for _, k := range keys {
				h = f.Ins(h, k.raw(c.R), f.val(c.R, 1, false))
			}
			for _, k := range keys {
				h, _ = f.Dels[0].Fn(h, k.raw(c.R))
			}
			return h
		}
		starts["emptied in place"] = func() any {
			h := f.New()
			for _, k := range keys {
				h = f.Inp(h, k.raw(c.R), f.val(c.R, 1, false))
			}
			for i := range keys {
				d := &f.Dels[len(f.Dels)-1]
				h, _ = d.Fn(h, keys[len(keys)-1-i].raw(c.R))
			}
			return h
		}
		for _, name := range []string{"new", "nil", "emptied", "emptied in place"} {
			mk := starts[name]
			if mk == nil {
				continue
			}
			h := mk()
			c.T("%s tree, %s", name, f.Name)
			empty := Model{}
			c.state(f, fo, h, empty, keys, true)
			for di := range f.Dels {
				d := &f.Dels[di]
				for _, k := range keys {
					h2, ok := d.Fn(h, k.raw(c.R))
					c.Ev(1)
					if ok {
						c.Failf("%s: %s on the %s tree reported success", f.Name, d.Name, name)
					}
					c.state(f, fo, h2, empty, keys[:1], false)
				}
			}
			if t, ok := h.(*iptree.Tree); ok {
				for _, k := range append(keys, ipKey(c.R, "4:"), ipKey(c.R, "6:")) {
					t.UpdateDescendants(canonNet(k.Canon), func(iptree.Pair) (any, bool) {
						c.Failf("UpdateDescendants(%s) called back on the %s tree", showCanon(k.Canon), name)
						return nil, true
					})
					c.Ev(1)
				}
				c.state(f, fo, h, empty, keys, false)
			}
			if f.Dot != nil {
				c.Ev(1)
				if s := f.Dot(h); !strings.Contains(s, "digraph") {
					c.Failf("%s: dump of the %s tree is %q", f.Name, name, s)
				}
			}
			for _, k := range keys {
				v := f.val(c.R, c.R.IntN(100), true)
				h2 := f.Ins(h, k.raw(c.R), v)
				if v == nil && f.Bits > 0 {
					v = f.Zero
				}
				c.state(f, fo, h2, Model{k.Canon: v}, keys, false)
				c.Seen(f.Name, name, k.Canon)
			}
			if f.Group == "num" {
				switch n := h.(type) {
				case *numtree.Node32:
					if l, r := n.Children(); l != nil || r != nil {
						c.Failf("%s: the %s tree has children", f.Name, name)
					}
				case *numtree.Node64:
					if l, r := n.Children(); l != nil || r != nil {
						c.Failf("%s: the %s tree has children", f.Name, name)
					}
				}
			}
			c.Count("trees: "+name, 1)
		}
	}
}

// malformedNets are networks which are none, whatever the family. The 16-byte form of an IPv4 address with a 4-byte mask
// is left out, as it may be taken as a network.
func malformedNets(r *Rand) []*net.IPNet {
	ip := func(n int) net.IP {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		if n == 16 {
			b[0] = 0x20 // never the form of an IPv4 address
		}
		return b
	}
	out := []*net.IPNet{nil, {}, {IP: net.IP{}}, {Mask: net.CIDRMask(8, 32)}, {Mask: net.CIDRMask(64, 128)},
		{IP: ip(4)}, {IP: ip(16)}, {IP: ip(4), Mask: net.IPMask{}}, {IP: ip(16), Mask: net.IPMask{}}}
	for _, n := range []int{0, 1, 2, 3, 5, 8, 12, 15, 17, 20, 32} {
		for _, m := range []net.IPMask{net.CIDRMask(r.IntN(33), 32), net.CIDRMask(r.IntN(129), 128), make(net.IPMask, n)} {
			out = append(out, &net.IPNet{IP: ip(n), Mask: m})
		}
	}
	for _, m := range []int{1, 2, 3, 5, 8, 15, 17, 32} {
		mask := make(net.IPMask, m)
		for i := 0; i < r.IntN(m+1); i++ {
			mask[i] = 0xff
		}
		out = append(out, &net.IPNet{IP: ip(4), Mask: mask}, &net.IPNet{IP: ip(16), Mask: mask})
	}
	out = append(out, &net.IPNet{IP: ip(4), Mask: net.CIDRMask(r.IntN(129), 128)}, &net.IPNet{IP: ip(16), Mask: net.CIDRMask(r.IntN(33), 32)})
	// masks with holes
	for i := 0; i < 30; i++ {
		n := pick(r, []int{4, 16})
		m := net.IPMask(ip(n))
		if r.pct(60) {
			m = append(net.IPMask{}, net.CIDRMask(r.IntN(8*n), 8*n)...)
			m[r.IntN(n)] ^= 1 << r.IntN(8)
		}
		if ones, bits := m.Size(); ones == 0 && bits == 0 {
			out = append(out, &net.IPNet{IP: ip(n), Mask: m})
		}
	}
	return out
}

func malformedIPs(r *Rand) []net.IP {
	out := []net.IP{nil, {}}
	for _, n := range []int{1, 2, 3, 5, 8, 12, 15, 17, 20, 32, 128} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		out = append(out, b)
	}
	return out
}

func secMalformed(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, enum: true}
		keys := f.Cluster(c.R, 3+c.R.IntN(12))
		r := newRun(c, f, fo)
		if c.R.pct(80) {
			for _, k := range keys {
				r.insert(k)
			}
			// everything is covered, so that a stray lookup would hit
			if c.R.pct(60) {
				r.insert(ipKey(c.R, "4:"))
				r.insert(ipKey(c.R, "6:"))
			}
		}
		raws := []any{}
		for _, n := range malformedNets(c.R) {
			raws = append(raws, badNet{n})
		}
		for _, ip := range malformedIPs(c.R) {
			raws = append(raws, ipRaw{ip: ip})
		}
		for _, raw := range raws {
			var x ipRaw
			isNet := false
			var nn *net.IPNet
			switch y := raw.(type) {
			case badNet:
				isNet, nn = true, y.n
				x = ipRaw{n: nn}
			case ipRaw:
				x = y
			}
			show := func() string {
				if isNet && nn == nil {
					return "nil network"
				}
				if isNet {
					return fmt.Sprintf("network %x/%x", []byte(nn.IP), []byte(nn.Mask))
				}
				return fmt.Sprintf("address %x", []byte(x.ip))
			}
			c.T("%s with %s", f.Name, show())
			if v, ok := f.ipGet(r.h, x, isNet); ok || !sameVal(v, f.Zero) {
				c.Failf("%s: lookup of %s gave %s,%v; contents %s", f.Name, show(), showVal(v), ok, r.m)
			}
			h2, ok := f.ipDel(r.h, x, isNet)
			if ok {
				c.Failf("%s: deletion of %s reported success; contents %s", f.Name, show(), r.m)
			}
			c.contents(f, fo, h2, r.m)
			h3 := f.ipIns(r.h, x, isNet, f.val(c.R, 5, false))
			c.contents(f, fo, h3, r.m)
			if !isNilHandle(r.h) {
				f.ipInp(r.h, x, isNet, f.val(c.R, 5, false))
				c.contents(f, fo, r.h, r.m)
			}
			if t, ok := r.h.(*iptree.Tree); ok && isNet {
				t.UpdateDescendants(nn, func(iptree.Pair) (any, bool) {
					c.Failf("UpdateDescendants(%s) called back; contents %s", show(), r.m)
					return nil, true
				})
				c.contents(f, fo, r.h, r.m)
			}
			c.Ev(4)
			c.Count("malformed arguments", 1)
			if nn != nil {
				c.Seen(f.Name, len(nn.IP), len(nn.Mask), string(nn.Mask), len(r.m))
			}
		}
		c.state(f, fo, r.h, r.m, keys, true)
		c.Sample("%s: %d malformed arguments on %s", f.Name, len(raws), r.m)
	}
}

type badNet struct{ n *net.IPNet }

// ---- C27

func measure(op func()) (objs, bytes uint64) {
	objs, bytes = math.MaxUint64, math.MaxUint64
	var a, b runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.ReadMemStats(&a)
		op()
		runtime.ReadMemStats(&b)
		objs = min(objs, b.Mallocs-a.Mallocs)
		bytes = min(bytes, b.TotalAlloc-a.TotalAlloc)
	}
	return
}

// pathLen is the number of nodes which a radix tree of these entries has on the way to a key: one for every position at
// which an entry parts from it.
func pathLen(q string, m Model) int {
	var at [160]bool
	n := 0
	for k := range m {
		l := 0
		for l < len(k) && l < len(q) && k[l] == q[l] {
			l++
		}
		if !at[l] {
			at[l] = true
			n++
		}
	}
	return n + 1
}

// widths gives the number of different labels at every level of the tree of these names on the way to a name.
func widths(k Key, m Model) []int {
	ls := splitCanon(k.Canon)
	kids := make([]map[string]struct{}, len(ls)+1)
	for q := range m {
		at := 0
		for d := 0; d <= len(ls) && at < len(q); d++ {
			to := at + 1 + int(q[at])
			if kids[d] == nil {
				kids[d] = map[string]struct{}{}
			}
			kids[d][q[at:to]] = struct{}{}
			if !strings.HasPrefix(k.Canon[at:], q[at:to]) {
				break
			}
			at = to
		}
	}
	out := make([]int, len(kids))
	for d := range kids {
		out[d] = len(kids[d])
	}
	return out
}

// pathBound is a generous bound of objects for one copying update.
func pathBound(f *Fam, k Key, m Model) uint64 {
	lg := math.Log2(float64(len(m) + 2))
	switch f.Group {
	case "num":
		return 3*uint64(pathLen(k.Canon, m)) + 32
	case "ip":
		return 3*uint64(pathLen(k.Canon, m)) + 64
	case "dom":
		// the width of every level on the way
		sum := 64.0
		for _, kids := range widths(k, m) {
			sum += 6*math.Log2(float64(kids+2)) + 20
		}
		return uint64(sum)
	}
	return uint64(10*lg) + 64
}

func secPathCost(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		n := 5000 + c.R.IntN(15000)
		if c.Thor {
			n *= 1 + c.R.IntN(4)
		}
		var keys []Key
		if f.Group == "dom" && c.R.pct(60) {
			// one wide level under a few labels
			pre := []string{}
			for i := c.R.IntN(4); i > 0; i-- {
				pre = append(pre, randLabel(c.R, 2))
			}
			set := map[string]bool{}
			for i := 0; i < n; i++ {
				l := string([]byte{'A' + byte(i>>12&15), 'A' + byte(i>>8&15), 'A' + byte(i>>4&15), 'A' + byte(i&15)})
				k := domKey(c.R, append(append([]string{}, pre...), l))
				if !set[k.Canon] {
					set[k.Canon] = true
					keys = append(keys, k)
				}
			}
		} else {
			keys = f.Many(c.R, n)
		}
		if len(keys) < 1000 {
			return
		}
		order := "random"
		switch c.R.IntN(4) {
		case 0:
			f.Sort(keys)
			order = "sorted"
		case 1:
			f.Sort(keys)
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
			order = "reversed"
		}
		fo := &focus{}
		r := newRun(c, f, fo)
		if r.mode == 1 {
			r.h = f.New()
		}
		spare := c.R.IntN(200) + 100
		for _, k := range keys[:len(keys)-spare] {
			r.insert(k)
		}
		c.T("%d entries in %s order, mode %d", len(r.m), order, r.mode)
		for i := 0; i < 40; i++ {
			k := keys[c.R.IntN(len(keys))]
			if c.R.pct(30) {
				k = keys[len(keys)-1-c.R.IntN(spare)]
			}
			raw := k.raw(c.R)
			bound := pathBound(f, k, r.m)
			judge := func(what string, op func()) {
				objs, bytes := measure(op)
				c.Ev(1)
				c.Max("objects of one update, "+f.Group, int64(objs))
				c.Max("objects of one update in percent of the bound, "+f.Group, int64(objs*100/bound))
				c.Max("bytes of one update in percent of the bound, "+f.Group, int64(bytes*100/(bound*100+2048)))
				if objs > bound || bytes > bound*100+2048 {
					c.Failf("%s: %s of %v in a tree of %d entries (%s order, mode %d) allocated %d objects, %d bytes; a path is at most about %d objects", f.Name, what, raw, len(r.m), order, r.mode, objs, bytes, bound)
				}
			}
			v := f.val(c.R, 7, false)
			judge("insertion", func() { sink = f.Ins(r.h, raw, v) })
			for di := range f.Dels {
				judge(f.Dels[di].Name, func() { sink, _ = f.Dels[di].Fn(r.h, raw) })
			}
			// go on from a copy
			if c.R.pct(50) {
				r.mode = 0
				r.insert(k)
			} else {
				r.delete(k, &f.Dels[0])
			}
			c.Seen(f.Name, order, r.mode, k.Canon)
		}
		c.Max("entries", int64(len(r.m)))
		c.Sample("%s: 40 updates measured on %d entries in %s order", f.Name, len(r.m), order)
	}
}

var sink any

// secSharing: a copying update of a numeric tree makes new nodes on the path to the key only and shares all others.
func secSharing(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		var keys []Key
		switch c.R.IntN(4) {
		case 0:
			keys = f.Cluster(c.R, 10+c.R.IntN(40))
		case 1:
			keys = f.Chain(c.R)
		default:
			keys = f.Many(c.R, 100+c.R.IntN(900))
		}
		r := newRun(c, f, &focus{})
		for _, k := range keys {
			if c.R.pct(80) {
				r.insert(k)
			}
		}
		old := map[any]bool{}
		for i := 0; i < 30; i++ {
			clear(old)
			total := numNodes(r.h, func(any) bool { return false }, old)
			k := pick(c.R, keys)
			if c.R.pct(30) {
				k = f.Near(c.R, keys)
			}
			path := pathLen(k.Canon, r.m)
			r.mode = 0
			what := "insertion"
			if c.R.pct(50) {
				r.insert(k)
			} else {
				what = "deletion"
				r.delete(k, r.anyDel())
			}
			fresh := numNodes(r.h, func(n any) bool { return old[n] }, nil)
			c.Ev(1)
			c.Count("nodes shared by two versions", max(0, total-path))
			c.Max("new nodes in percent of the bound", int64(fresh*100/(3*path+6)))
			if fresh > 3*path+6 {
				c.Failf("%s: %s of %s made %d new nodes, the path to it has %d nodes; contents %s", f.Name, what, showCanon(k.Canon), fresh, path, r.m)
			}
		}
		c.SeenStr(f.Name, r.m.signature())
	}
}

// numNodes counts nodes of a numeric tree, but not those of subtrees which are known.
func numNodes(h any, known func(any) bool, add map[any]bool) int {
	var walk32 func(n *numtree.Node32) int
	walk32 = func(n *numtree.Node32) int {
		if n == nil || known(n) {
			return 0
		}
		if add != nil {
			add[n] = true
		}
		a, b := n.Children()
		return 1 + walk32(a) + walk32(b)
	}
	var walk64 func(n *numtree.Node64) int
	walk64 = func(n *numtree.Node64) int {
		if n == nil || known(n) {
			return 0
		}
		if add != nil {
			add[n] = true
		}
		a, b := n.Children()
		return 1 + walk64(a) + walk64(b)
	}
	if n, ok := h.(*numtree.Node32); ok {
		return walk32(n)
	}
	return walk64(h.(*numtree.Node64))
}

// ---- C28

func secDump(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{}
		keys := f.Cluster(c.R, c.R.IntN(25))
		if c.R.pct(10) && f.Chain != nil {
			keys = f.Chain(c.R)
		}
		if c.R.pct(10) {
			keys = f.Many(c.R, 100)
		}
		big := c.R.IntN(300) == 0
		if big {
			keys = f.Many(c.R, 300+c.R.IntN(1500))
		}
		r := newRun(c, f, fo)
		ops := len(keys) + c.R.IntN(len(keys)+1)
		for i := 0; i < ops; i++ {
			if c.R.pct(15) {
				r.delete(pick(c.R, keys), r.anyDel())
			} else {
				k := pick(c.R, keys)
				if f.flat() && k.Canon == "nil" {
					continue
				}
				v := f.val(c.R, i, false)
				if f.Bits == 0 {
					v = nastyValue(c.R, i)
				}
				raw := k.raw(c.R)
				if !isNilHandle(r.h) && r.mode > 0 && c.R.pct(50) {
					c.T("InplaceInsert %v = %#v", raw, v)
					r.h = f.Inp(r.h, raw, v)
				} else {
					c.T("Insert %v = %#v", raw, v)
					r.h = f.Ins(r.h, raw, v)
				}
				r.m[k.Canon] = v
			}
			if i%5 == 0 && !big {
				c.judgeDump(f, r.h, r.m)
			}
		}
		c.judgeDump(f, r.h, r.m)
		if len(r.m) > 1 {
			c.SeenStr(f.Name, r.m.signature())
		}
		c.Sample("%s: %d entries dumped", f.Name, len(r.m))
	}
}

// secLargeDump dumps trees of many thousands of entries.
func secLargeDump(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		n := pick(c.R, []int{1500, 3000, 4500})
		if c.Idx%17 == 5 {
			n = 8500
		}
		keys := f.Many(c.R, n)
		if c.R.pct(30) {
			f.Sort(keys)
		}
		h := f.New()
		m := Model{}
		for i, k := range keys {
			if f.flat() && k.Canon == "nil" {
				continue
			}
			v := f.val(c.R, i, false)
			if f.Bits == 0 {
				v = i
			}
			if c.R.pct(50) && (i > 0 || f.Group == "num") {
				h = f.Inp(h, k.raw(c.R), v)
			} else {
				h = f.Ins(h, k.raw(c.R), v)
			}
			m[k.Canon] = v
		}
		c.T("%s: %d entries", f.Name, len(m))
		c.judgeDump(f, h, m)
		c.Max("entries dumped", int64(len(m)))
		c.SeenStr(f.Name, m.signature())
	}
}

func nastyValue(r *Rand, i int) any {
	if r.pct(2) {
		// values with a long text
		n := 1 << r.IntN(13)
		if r.pct(5) {
			n = 1 << 16
		}
		n += r.IntN(10)
		switch r.IntN(4) {
		case 0:
			return strings.Repeat("x", n)
		case 1:
			return randText(r, n)
		case 2:
			return make([]int16, n)
		case 3:
			return struct{ S []string }{strings.Split(strings.Repeat("\"\n ", n/4+1), " ")}
		}
	}
	switch r.IntN(12) {
	case 0:
		return nil
	case 1:
		return randText(r, r.IntN(12))
	case 2:
		return "a \"quoted\" \\ text\n]; N0 -> N1 [label=\"x\"]"
	case 3:
		return []string{"\"", "\\", "\\\"", "}"}
	case 4:
		return map[string]string{"\"k\"": "\" v: \""}
	case 5:
		return struct{ A, B string }{"\\", "\""}
	case 6:
		return []byte{0, '"', '\\'}
	case 7:
		return "\\"
	case 8:
		return "\" v: \"1"
	case 9:
		return fmt.Errorf("error %q", "\"")
	}
	return i
}

// sameNumber tells if the text is a way to write the unsigned number.
func sameNumber(text string, v any) bool {
	n, err := strconv.ParseUint(text, 0, 64)
	return err == nil && fmt.Sprint(n) == fmt.Sprint(v)
}

// judgeDump reads a dump and compares it with the contents.
func (c *C) judgeDump(f *Fam, h any, m Model) {
	text := f.Dot(h)
	c.Ev(1)
	if again := f.Dot(h); again != text {
		c.Failf("%s: two dumps of the same tree differ:\n%s\n%s", f.Name, dumpText(text), dumpText(again))
	}
	if len(m) == 0 && emptyGraph(text) {
		c.Count("dumps judged", 1)
		return
	}
	t, err := readDump(text)
	if err != nil {
		c.Failf("%s: the dump is not well formed: %s; contents %s\n%s", f.Name, err, m, dumpText(text))
	}
	found := map[string]bool{}
	nils, branches := 0, 0
	entry := func(canon, val string, hasVal bool) {
		want, ok := m[canon]
		if !ok {
			c.Failf("%s: the dump shows the entry %s which is not stored; contents %s\n%s", f.Name, showCanon(canon), m, dumpText(text))
		}
		if found[canon] {
			c.Failf("%s: the dump shows the entry %s twice\n%s", f.Name, showCanon(canon), dumpText(text))
		}
		found[canon] = true
		if hasVal && want == nil && val == "<nil>" {
			return // spelled out
		}
		if hasVal != (want != nil) {
			c.Failf("%s: the dump shows a value of %s: %v, the value is %#v\n%s", f.Name, showCanon(canon), hasVal, want, dumpText(text))
		}
		if hasVal {
			if s := fmt.Sprintf("%#v", want); s != val && !(f.Bits > 0 && sameNumber(val, want)) {
				c.Failf("%s: the dump shows the value of %s as %q, it is %q", f.Name, showCanon(canon), val, s)
			}
		}
	}
	var walk func(t *dtree)
	walk = func(t *dtree) {
		c.Ev(1)
		label := t.n.attrs["label"]
		if t.isNil() {
			nils++
			return
		}
		if len(t.kids) != 0 && len(t.kids) != 2 {
			c.Failf("%s: node %q has %d children\n%s", f.Name, label, len(t.kids), dumpText(text))
		}
		if f.Group == "num" {
			var key uint64
			var bits int
			rest := label
			if _, err := fmt.Sscanf(label, "k: %x, b: %d", &key, &bits); err != nil {
				c.Failf("%s: label %q has no key: %s", f.Name, label, err)
			}
			size := 32
			if strings.Contains(f.Name, "64") {
				size = 64
			}
			canon := bitString(key, size, bits)
			if i := strings.Index(rest, ", v: \""); i >= 0 {
				v, err := unquoted(rest[i+6 : len(rest)-1])
				if err != nil {
					c.Failf("%s: value in label %q: %s", f.Name, label, err)
				}
				entry(canon, v, true)
			} else if v, ok := m[canon]; ok && v == nil && !found[canon] {
				entry(canon, "", false)
			} else {
				branches++
				real := 0
				for _, k := range t.kids {
					if !k.isNil() {
						real++
					}
				}
				if real != 2 {
					c.Failf("%s: node %q is neither an entry nor a branching point\n%s", f.Name, label, dumpText(text))
				}
			}
		} else {
			if k, _, err := kv(label, true); err == nil {
				canon := f.DotKey(k)
				if v, ok := m[canon]; ok && v == nil {
					entry(canon, "", false)
					goto kids
				}
			}
			k, v, err := kv(label, false)
			if err != nil {
				c.Failf("%s: %s\n%s", f.Name, err, dumpText(text))
			}
			entry(f.DotKey(k), v, true)
		}
	kids:
		for _, k := range t.kids {
			walk(k)
		}
	}
	walk(t)
	if len(found) != len(m) {
		for k := range m {
			if !found[k] {
				c.Failf("%s: the dump does not show the entry %s; contents %s\n%s", f.Name, showCanon(k), m, dumpText(text))
			}
		}
	}
	c.Count("dumps judged", 1)
	c.Count("branching points", branches)
	c.Count("nil nodes", nils)
	c.Count("entries", len(found))
}

// ---- C32

// secMirror: the same history on a typed and on the generic tree gives the same answers.
func secMirror(c *C) {
	kind := c.Idx % 3
	w := []int{8, 16, 32, 64}[c.Idx/3%4]
	var g, t *Fam
	switch kind {
	case 0:
		g = famIPGen()
		t = typedIPFams()[c.Idx/3%4]
	case 1:
		ck := cmpKinds[c.R.IntN(len(cmpKinds))]
		g = famStrGen(ck, nil)
		t = famStrTyped(w, ck, nil)
	case 2:
		g = famDomGen()
		t = typedDomFams()[c.Idx/3%4]
	}
	keys := t.Cluster(c.R, 3+c.R.IntN(20))
	if len(keys) == 0 {
		return
	}
	hg, ht := g.New(), t.New()
	if g.Nil != nil && c.R.pct(20) {
		hg, ht = g.Nil(), t.Nil()
	}
	n := 0
	for i := 0; i < 30; i++ {
		k := pick(c.R, keys)
		raw := k.raw(c.R)
		if c.R.pct(30) {
			d := c.R.IntN(len(g.Dels))
			var okg, okt bool
			c.T("%s %v", g.Dels[d].Name, raw)
			hg, okg = g.Dels[d].Fn(hg, raw)
			ht, okt = t.Dels[d].Fn(ht, raw)
			c.Ev(1)
			if okg != okt {
				c.Failf("%s(%v): %s gave %v, %s gave %v", g.Dels[d].Name, raw, g.Name, okg, t.Name, okt)
			}
		} else {
			n++
			v := t.val(c.R, n, false)
			if c.R.pct(50) && !isNilHandle(hg) && !isNilHandle(ht) {
				c.T("InplaceInsert %v = %v", raw, v)
				hg, ht = g.Inp(hg, raw, v), t.Inp(ht, raw, v)
			} else {
				c.T("Insert %v = %v", raw, v)
				hg, ht = g.Ins(hg, raw, v), t.Ins(ht, raw, v)
			}
		}
		eg, overG := g.Enums[0].Fn(hg, 10000)
		et, overT := t.Enums[0].Fn(ht, 10000)
		c.Ev(1)
		if overG || overT || !sameEntries(eg, et) {
			c.Failf("%s holds %s, %s holds %s", g.Name, showEntries(eg), t.Name, showEntries(et))
		}
		if g.Empty != nil && t.Empty != nil && g.Empty(hg) != t.Empty(ht) {
			c.Failf("%s is empty: %v, %s is empty: %v", g.Name, g.Empty(hg), t.Name, t.Empty(ht))
		}
		if g.Spelled != nil && t.Spelled != nil {
			if kg, kt := g.Spelled(hg, 10000), t.Spelled(ht, 10000); !slices.Equal(kg, kt) {
				c.Failf("%s shows keys %q, %s shows keys %q", g.Name, kg, t.Name, kt)
			}
		}
		for j := 0; j < 12; j++ {
			q := pick(c.R, keys)
			if c.R.pct(50) {
				q = t.Near(c.R, keys)
			}
			raw := q.raw(c.R)
			gi := c.R.IntN(len(g.Gets))
			vg, okg := g.Gets[gi].Fn(hg, raw)
			vt, okt := t.Gets[gi].Fn(ht, raw)
			c.Ev(1)
			if okg != okt || okg && !sameVal(vg, vt) || !okt && !sameVal(vt, t.Zero) {
				c.Failf("lookup of %v: %s gave %s,%v, %s gave %s,%v", raw, g.Name, showVal(vg), okg, t.Name, showVal(vt), okt)
			}
		}
		if len(et) > 1 {
			c.SeenStr(t.Name, showEntries(et))
		}
	}
	c.Count("mirrored histories", 1)
}

// secWidth: every bit of the values of typed trees.
func secWidth(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		fo := &focus{lpm: true, exact: true, enum: true}
		keys := f.Many(c.R, 40)
		r := newRun(c, f, fo)
		mk := func(x uint64) any {
			switch f.Bits {
			case 8:
				return uint8(x)
			case 16:
				return uint16(x)
			case 32:
				return uint32(x)
			}
			return x
		}
		vals := []uint64{0, math.MaxUint64, math.MaxUint64 >> 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa}
		for i := 0; i < f.Bits; i++ {
			vals = append(vals, 1<<i, math.MaxUint64^1<<i, 1<<i-1)
		}
		for i, x := range vals {
			k := keys[i%len(keys)]
			raw := k.raw(c.R)
			v := mk(x)
			if c.R.pct(50) && !isNilHandle(r.h) {
				r.h = f.Inp(r.h, raw, v)
			} else {
				r.h = f.Ins(r.h, raw, v)
			}
			r.m[k.Canon] = v
			c.lookups(f, fo, r.h, r.m, []Key{k}, true)
			if i%8 == 0 {
				c.contents(f, fo, r.h, r.m)
			}
			c.Seen(f.Name, x)
		}
		c.state(f, fo, r.h, r.m, keys, true)
	}
}

// ---- C33

type tracked struct {
	id  int
	pad [6]*int
}

type tracker struct {
	gone []atomic.Bool
}

func (t *tracker) make(id int) *tracked {
	v := &tracked{id: id}
	runtime.SetFinalizer(v, func(v *tracked) { t.gone[v.id].Store(true) })
	return v
}

const maxTracked = 4096

// collectHistory runs a history and returns the tree and the ids of values which are still stored. It is a function of
// its own so that nothing of it stays on the stack.
//
//go:noinline
func collectHistory(c *C, f *Fam, t *tracker) (any, map[string]int, int) {
	keys := f.Cluster(c.R, 4+c.R.IntN(25))
	if c.R.pct(20) {
		keys = f.Many(c.R, 200)
	}
	if c.R.pct(10) && f.Chain != nil {
		keys = f.Chain(c.R)
	}
	if len(keys) == 0 {
		return f.New(), nil, 0
	}
	h := f.New()
	ids := Model{}
	n := 0
	mode := c.R.IntN(3)
	ops := len(keys) + c.R.IntN(2*len(keys)+1)
	delPct := pick(c.R, []int{10, 40, 60})
	for i := 0; i < ops && n < maxTracked; i++ {
		k := pick(c.R, keys)
		raw := k.raw(c.R)
		if c.R.pct(delPct) {
			d := &f.Dels[c.R.IntN(len(f.Dels))]
			c.T("%s %v", d.Name, raw)
			h, _ = d.Fn(h, raw)
			ids.del(f, d.Sub, k.Canon)
		} else if mode == 1 || mode == 2 && c.R.pct(50) {
			if isNilHandle(h) && f.Group != "num" {
				h = f.New()
			}
			c.T("InplaceInsert %v = value %d", raw, n)
			h = f.Inp(h, raw, t.make(n))
			ids[k.Canon] = n
			n++
		} else {
			c.T("Insert %v = value %d", raw, n)
			h = f.Ins(h, raw, t.make(n))
			ids[k.Canon] = n
			n++
		}
		if ip, ok := h.(*iptree.Tree); ok && ip != nil && c.R.pct(5) && len(ids) > 0 && n < maxTracked-400 {
			canon := pick(c.R, sortedKeys(ids))
			target := ipKey(c.R, canon).Raws[0].(ipRaw).n
			c.T("UpdateDescendants %v", canon)
			ip.UpdateDescendants(target, func(p iptree.Pair) (any, bool) {
				if c.R.pct(50) {
					return nil, false
				}
				e := netEntry(p.Key, nil)
				v := t.make(n)
				ids[e.Canon] = n
				n++
				return v, true
			})
		}
	}
	live := map[string]int{}
	for k, v := range ids {
		live[k] = v.(int)
	}
	return h, live, n
}

// gcRound runs a collection and waits for a finalizer which was due in it.
func gcRound() {
	done := make(chan struct{})
	func() {
		x := &tracked{id: -1}
		runtime.SetFinalizer(x, func(*tracked) { close(done) })
	}()
	for {
		runtime.GC()
		select {
		case <-done:
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
}

func secCollect(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		t := &tracker{gone: make([]atomic.Bool, maxTracked)}
		h, live, n := collectHistory(c, f, t)
		keep := make([]bool, n)
		for _, id := range live {
			keep[id] = true
		}
		dead := 0
		for _, k := range keep {
			if !k {
				dead++
			}
		}
		left := func() (out []int) {
			for id := 0; id < n; id++ {
				if !keep[id] && !t.gone[id].Load() {
					out = append(out, id)
				}
			}
			return
		}
		// A round is a collection and the end of everything the finalizer goroutine had to do because of it.
		const rounds = 60
		for i := 0; ; i++ {
			gcRound()
			l := left()
			if len(l) == 0 {
				c.Max("collections needed", int64(i+1))
				break
			}
			if i == rounds {
				c.Failf("%s: %d of %d removed or replaced values were not reclaimed in %d collections while the tree with %d entries lives, e.g. value %d", f.Name, len(l), dead, rounds, len(live), l[0])
			}
			if i > 4 {
				time.Sleep(time.Millisecond)
			}
		}
		// what is stored has to be there still
		for _, id := range live {
			if t.gone[id].Load() {
				c.Failf("%s: stored value %d was reclaimed", f.Name, id)
			}
		}
		out, over := f.Enums[0].Fn(h, len(live)+4)
		if over || len(out) != len(live) {
			c.Failf("%s: %d entries remain, expected %d", f.Name, len(out), len(live))
		}
		for _, e := range out {
			v, ok := e.Val.(*tracked)
			if id, have := live[e.Canon]; !ok || !have || v.id != id {
				c.Failf("%s: entry %s has another value", f.Name, showCanon(e.Canon))
			}
		}
		runtime.KeepAlive(h)
		c.Ev(dead + len(live))
		c.Count("values reclaimed", dead)
		c.Count("values alive", len(live))
		if dead > 0 {
			c.Seen(f.Name, dead, len(live), n)
		}
		c.Sample("%s: %d values made, %d reclaimed, %d alive", f.Name, n, dead, len(live))
	}
}

func genericFams() []*Fam {
	out := append(numFams(), famIPGen(), famLab(), famDomGen())
	for _, i := range []int{0, 1, 2, 4, 8} {
		out = append(out, famStrGen(cmpKinds[i], nil))
	}
	return out
}

func typedFams() []*Fam {
	out := append(typedIPFams(), typedDomFams()...)
	for _, b := range []int{8, 16, 32, 64} {
		out = append(out, famStrTyped(b, cmpKinds[0], nil), famStrTyped(b, cmpKinds[2], nil))
	}
	return out
}

func dotFams() []*Fam {
	out := numFams()
	out = append(out, famLab(), famLab())
	for _, i := range []int{0, 1, 2, 3} {
		out = append(out, famStrGen(cmpKinds[i], nil))
	}
	for i, b := range []int{8, 16, 32, 64} {
		out = append(out, famStrTyped(b, cmpKinds[i], nil), famStrTyped(b, cmpKinds[(i+2)%4], nil))
	}
	return out
}

// secCompares: the number of comparisons a lookup makes.
func secCompares(c *C) {
	var n int
	ck := cmpKinds[[]int{0, 1, 2, 3, 6}[c.Idx%5]]
	f := famStrGen(ck, &n)
	if w := c.Idx / 5 % 5; w > 0 {
		f = famStrTyped([]int{0, 8, 16, 32, 64}[w], ck, &n)
	}
	keys := f.Many(c.R, 200+c.R.IntN(4000))
	order := c.R.IntN(4)
	switch order {
	case 0, 1:
		f.Sort(keys)
		if order == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	case 2: // from both ends
		f.Sort(keys)
		out := []Key{}
		for i, j := 0, len(keys)-1; i <= j; i, j = i+1, j-1 {
			out = append(out, keys[i])
			if i != j {
				out = append(out, keys[j])
			}
		}
		keys = out
	}
	r := newRun(c, f, &focus{})
	for i, k := range keys {
		r.insert(k)
		if c.R.pct(5) {
			r.delete(pick(c.R, keys), r.anyDel())
		}
		if i%251 == 250 || i == len(keys)-1 {
			lim := int(4*math.Log2(float64(len(r.m)+1))) + 8
			for j := 0; j < 30; j++ {
				q := pick(c.R, keys)
				raw := q.raw(c.R)
				n = 0
				f.Gets[0].Fn(r.h, raw)
				c.Ev(1)
				c.Max("comparisons of a lookup", int64(n))
				if n > lim {
					c.Failf("%s: a lookup among %d entries made %d comparisons", f.Name, len(r.m), n)
				}
			}
			c.Seen(f.Name, order, len(r.m))
		}
	}
	for i := 0; i < len(keys)*3/4; i++ {
		k := keys[i]
		if c.R.pct(30) {
			k = pick(c.R, keys)
		}
		r.delete(k, r.anyDel())
		if i%301 == 300 {
			lim := int(4*math.Log2(float64(len(r.m)+1))) + 8
			for j := 0; j < 30; j++ {
				raw := pick(c.R, keys).raw(c.R)
				n = 0
				f.Gets[0].Fn(r.h, raw)
				c.Ev(1)
				if n > lim {
					c.Failf("%s: a lookup among %d entries made %d comparisons after deletions", f.Name, len(r.m), n)
				}
			}
		}
	}
}

func miscProps() []*Prop {
	all := allFams()
	rb := focus{extra: func(c *C, f *Fam, h any, m Model) { c.checkRB(f, h, m) }}
	var flat []*Fam
	for _, f := range dotFams() {
		if f.flat() {
			flat = append(flat, f)
		}
	}
	ip := ipFams()
	return []*Prop{
		{ID: "C12", MinEvals: 50000,
			Rule: "evaluations are dumps judged as red-black trees and lookups whose comparisons were counted; distinct_nontrivial counts distinct (tree type, set of stored keys) with at least two entries whose dump was judged",
			Sections: append(standard(flat, rb, 10), Section{"comparisons", 100, 2000, secCompares},
				Section{"deep", 2 * len(flat), 20 * len(flat), secDeep(flat, rb)}, Section{"deep-labels", 6, 80, secDeep([]*Fam{famLab()}, rb)})},
		{ID: "C26", MinEvals: 50000,
			Rule:     "evaluations are results judged on nil and empty trees and for malformed arguments; distinct_nontrivial counts distinct (tree type, kind of emptiness, key) and distinct malformed networks",
			Sections: []Section{{"empty", 4000, 100000, secEmpty(all)}, {"malformed", 1000, 30000, secMalformed(ip)}}},
		{ID: "C27", Procs: 1, MinEvals: 1000,
			Rule:     "evaluations are copying updates whose allocations were measured; distinct_nontrivial counts distinct (tree type, order of growth, mode, key)",
			Sections: []Section{{"path-cost", 240, 2000, secPathCost(all)}, {"sharing", 4000, 80000, secSharing(numFams())}}},
		{ID: "C28", MinEvals: 50000,
			Rule:     "evaluations are dumps and their nodes judged; distinct_nontrivial counts distinct (tree type, set of stored keys) with at least two entries dumped",
			Sections: []Section{{"dump", 8000, 200000, secDump(dotFams())}, {"large-dump", 36, 360, secLargeDump(dotFams())}}},
		{ID: "C32", MinEvals: 100000,
			Rule: ruleHist + "; for mirrored histories distinct contents of the typed tree; for width distinct values",
			Sections: []Section{{"identity", 4000, 100000, secHist(genericFams(), focus{lpm: true, exact: true, enum: true, exotic: true})},
				{"typed", 2000, 50000, secHist(typedFams(), focus{lpm: true, exact: true, enum: true})},
				{"width", 240, 2400, secWidth(typedFams())}, {"mirror", 4000, 100000, secMirror}}},
		{ID: "C33", MinEvals: 5000, Procs: 2,
			Rule:     "evaluations are values whose reclamation or survival was observed; distinct_nontrivial counts distinct (tree type, values reclaimed, alive and made) with something to reclaim",
			Sections: []Section{{"collect", 1200, 30000, secCollect(genericFams())}}},
		{ID: "C34", MinEvals: 500, Procs: 2,
			Rule:     "evaluations are trees whose memory was measured after a history; distinct_nontrivial counts distinct (tree type, kind of history, steps, entries left)",
			Sections: []Section{{"held", 1200, 30000, secHeld(all)}}},
	}
}
