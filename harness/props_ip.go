package main

import (
	"fmt"
	"net"
	"strings"

	"github.com/infobloxopen/go-trees/iptree"
)

func cloneRaw(x ipRaw) ipRaw {
	if x.n != nil {
		return ipRaw{n: &net.IPNet{IP: append(net.IP{}, x.n.IP...), Mask: append(net.IPMask{}, x.n.Mask...)}}
	}
	return ipRaw{ip: append(net.IP{}, x.ip...)}
}

func scribble(r *Rand, b []byte) {
	for i := range b {
		b[i] ^= byte(1 + r.IntN(255))
	}
}

func scribbleRaw(r *Rand, x ipRaw) {
	if x.n != nil {
		scribble(r, x.n.IP)
		scribble(r, x.n.Mask)
	} else {
		scribble(r, x.ip)
	}
}

// rawText shows the very bytes of an argument.
func rawText(x ipRaw) string {
	if x.n != nil {
		return fmt.Sprintf("network %x mask %x", []byte(x.n.IP), []byte(x.n.Mask))
	}
	return fmt.Sprintf("address %x", []byte(x.ip))
}

// openIPNets is implemented for each IP tree: it starts an enumeration which gives keys as they are.
type ipOpen func(h any) func() (*net.IPNet, any, bool)

// secIsolation: arguments are overwritten right after each call and enumerated keys as soon as they are received.
func secIsolation(fams []*Fam, opens []ipOpen) func(c *C) {
	return func(c *C) {
		f := fams[c.Idx%len(fams)]
		open := opens[c.Idx%len(fams)]
		fo := &focus{lpm: true, enum: true}
		keys := f.Cluster(c.R, 3+c.R.IntN(15))
		h := f.New()
		m := Model{}
		type kept struct {
			n    *net.IPNet
			want string
		}
		all := []kept{}
		for i := 0; i < 25; i++ {
			k := pick(c.R, keys)
			raw := cloneRaw(k.raw(c.R).(ipRaw))
			before := rawText(raw)
			switch op := c.R.IntN(10); {
			case op < 4:
				v := f.val(c.R, i, false)
				c.T("Insert %v = %v, then overwrite the argument", raw, v)
				h = f.Ins(h, raw, v)
				m[k.Canon] = v
			case op < 7:
				v := f.val(c.R, i, false)
				c.T("InplaceInsert %v = %v, then overwrite the argument", raw, v)
				h = f.Inp(h, raw, v)
				m[k.Canon] = v
			case op < 8:
				c.T("Delete %v", raw)
				h, _ = f.Dels[0].Fn(h, raw)
				m.del(f, true, k.Canon)
			default:
				get := f.Gets[c.R.IntN(len(f.Gets))]
				c.T("%s %v", get.Name, raw)
				get.Fn(h, raw)
			}
			c.Ev(1)
			if after := rawText(raw); after != before {
				c.Failf("%s: the network handed in was %s and is %s after the call", f.Name, before, after)
			}
			scribbleRaw(c.R, raw)
			if i%3 != 0 {
				continue
			}
			c.state(f, fo, h, m, keys, false)
			// enumerate, overwriting some of the keys on the way
			next := open(h)
			seen := Model{}
			for {
				n, v, ok := next()
				if !ok {
					break
				}
				e := netEntry(n, v)
				if _, dup := seen[e.Canon]; dup {
					c.Failf("%s: %s is listed twice (keys received before were overwritten); contents %s", f.Name, e.Canon, m)
				}
				seen[e.Canon] = v
				c.Ev(1)
				if want, ok := m[e.Canon]; !ok || !sameVal(want, v) {
					c.Failf("%s: after overwriting keys received before, the enumeration gave %s=%s; contents %s", f.Name, showCanon(e.Canon), showVal(v), m)
				}
				if c.R.pct(50) {
					scribble(c.R, n.IP)
					scribble(c.R, n.Mask)
				} else {
					all = append(all, kept{n, e.Canon})
				}
				c.Count("keys received", 1)
			}
			if len(seen) != len(m) {
				c.Failf("%s: after overwriting keys received before, the enumeration gave %d of %d entries %s", f.Name, len(seen), len(m), m)
			}
			c.state(f, fo, h, m, keys, false)
		}
		for _, k := range all {
			c.Ev(1)
			if got := netEntry(k.n, nil).Canon; got != k.want {
				c.Failf("%s: an enumerated key %s became %s after other keys were overwritten or the tree was changed", f.Name, k.want, got)
			}
		}
		if len(m) > 1 {
			c.SeenStr(f.Name, m.signature())
		}
	}
}

// secUpdate: histories with descendant updates of stored targets in a generic IP tree.
func secUpdate(c *C) {
	f := famIPGen()
	fo := &focus{lpm: true, enum: true}
	var keys []Key
	switch c.R.IntN(4) {
	case 0:
		keys = f.Universe(c.R, c.R.IntN(500))
	case 1:
		keys = f.Chain(c.R)
		if c.R.pct(50) {
			keys = keys[c.R.IntN(len(keys)-30):]
			keys = keys[:10+c.R.IntN(20)]
		}
	default:
		keys = f.Cluster(c.R, 3+c.R.IntN(25))
	}
	r := newRun(c, f, fo)
	r.h = f.New()
	for round := 0; round < 6; round++ {
		for i := 4 + c.R.IntN(len(keys)+4); i > 0; i-- {
			if c.R.pct(10) {
				r.delete(pick(c.R, keys), r.anyDel())
			} else {
				r.insert(pick(c.R, keys))
			}
		}
		stored := sortedKeys(r.m)
		for t := 0; t < 4 && len(stored) > 0; t++ {
			canon := pick(c.R, stored)
			if c.R.pct(50) {
				// prefer short ones, they have descendants
				for i := 0; i < 4; i++ {
					if s := pick(c.R, stored); len(s) < len(canon) {
						canon = s
					}
				}
			}
			c.update(f, r, canon)
			c.state(f, fo, r.h, r.m, keys, false)
		}
		// any network, stored or not
		for t := 0; t < 3; t++ {
			canon := f.Near(c.R, keys).Canon
			if c.R.pct(40) {
				canon = pick(c.R, keys).Canon
				canon = canon[:2+c.R.IntN(len(canon)-1)]
			}
			c.update(f, r, canon)
			c.state(f, fo, r.h, r.m, keys, false)
		}
		if len(r.m) > 1 {
			c.SeenStr(f.Name, r.m.signature())
		}
	}
	c.Sample("updates over %s", r.m)
}

// update runs and judges one update. When the target isn't stored itself, its descendants may be left out, but nothing
// else may be called.
func (c *C) update(f *Fam, r *run, canon string) {
	_, stored := r.m[canon]
	want := map[string]bool{}
	for k := range r.m {
		if len(k) > len(canon) && strings.HasPrefix(k, canon) {
			want[k] = true
		}
	}
	target := ipKey(c.R, canon).raw(c.R).(ipRaw)
	n := target.n
	if n == nil {
		ip := target.ip
		if ip4 := ip.To4(); ip4 != nil && canon[0] == '4' {
			ip = ip4
		}
		n = &net.IPNet{IP: ip, Mask: net.CIDRMask(8*len(ip), 8*len(ip))}
	}
	mode := c.R.IntN(4)
	scrib := c.R.pct(20)
	before := rawText(ipRaw{n: n})
	c.T("UpdateDescendants %v", target)
	calls := map[string]int{}
	type kept struct {
		n    *net.IPNet
		want string
	}
	keep := []kept{}
	next := r.m.clone()
	bad := ""
	r.h.(*iptree.Tree).UpdateDescendants(n, func(p iptree.Pair) (any, bool) {
		e := netEntry(p.Key, p.Value)
		calls[e.Canon]++
		c.Ev(1)
		c.Count("callbacks", 1)
		cur, ok := r.m[e.Canon]
		if bad == "" {
			switch {
			case !want[e.Canon]:
				bad = fmt.Sprintf("called for %s", showCanon(e.Canon))
			case calls[e.Canon] > 1:
				bad = fmt.Sprintf("called twice for %s", showCanon(e.Canon))
			case !ok || !sameVal(cur, e.Val):
				bad = fmt.Sprintf("called for %s with %s, its value is %s", showCanon(e.Canon), showVal(e.Val), showVal(cur))
			}
		}
		r.n++
		v := any(r.n)
		if c.R.pct(10) {
			v = nil
		}
		set := mode == 1 || mode > 1 && c.R.pct(50)
		if set {
			next[e.Canon] = v
		}
		if scrib && c.R.pct(70) {
			scribble(c.R, p.Key.IP)
			scribble(c.R, p.Key.Mask)
		} else {
			keep = append(keep, kept{p.Key, e.Canon})
		}
		if bad == "" && c.R.pct(8) && (len(r.m) < 300 || c.R.IntN(len(r.m)) < 10) {
			bad = c.inUpdate(f, r, next)
		}
		c.T("  callback %s %s -> %s,%v", showCanon(e.Canon), showVal(e.Val), showVal(v), set)
		return v, set
	})
	c.Ev(1)
	if bad != "" {
		c.Failf("UpdateDescendants(%s): %s; contents %s", showCanon(canon), bad, r.m)
	}
	if after := rawText(ipRaw{n: n}); after != before {
		c.Failf("UpdateDescendants(%s): the network handed in was %s and is %s after the call", showCanon(canon), before, after)
	}
	for k := range want {
		if stored && calls[k] != 1 {
			c.Failf("UpdateDescendants(%s): not called for %s; contents %s", showCanon(canon), showCanon(k), r.m)
		}
	}
	for _, k := range keep {
		c.Ev(1)
		if got := netEntry(k.n, nil).Canon; got != k.want {
			c.Failf("UpdateDescendants(%s): the key %s given to the callback became %s later", showCanon(canon), showCanon(k.want), showCanon(got))
		}
	}
	if stored {
		c.Count("updates", 1)
	} else {
		c.Count("updates of networks not stored", 1)
	}
	if len(want) > 0 {
		c.Count("updates with descendants", 1)
	}
	r.m = next
}

// inUpdate uses the tree which is being updated and another one from within a callback. Entries may have their former or
// their new value.
func (c *C) inUpdate(f *Fam, r *run, next Model) string {
	for i := 0; i < 3; i++ {
		k := pick(c.R, sortedKeys(r.m))
		v, ok := f.Gets[0].Fn(r.h, ipKey(c.R, k).raw(c.R))
		c.Ev(1)
		if !ok || !sameVal(v, r.m[k]) && !sameVal(v, next[k]) {
			return fmt.Sprintf("within the callback the value of %s is %s,%v", showCanon(k), showVal(v), ok)
		}
	}
	out, over := f.Enums[0].Fn(r.h, len(r.m)+4)
	c.Ev(1)
	if over || len(out) != len(r.m) {
		return fmt.Sprintf("within the callback the tree has %d entries", len(out))
	}
	_, all, _ := net.ParseCIDR("2001:db8::/32")
	_, one, _ := net.ParseCIDR("2001:db8:1::/80")
	other := iptree.NewTree().InsertNet(all, 1).InsertNet(one, 2)
	calls := ""
	other.UpdateDescendants(all, func(p iptree.Pair) (any, bool) {
		calls += p.Key.String()
		return 3, true
	})
	v, _ := other.GetByNet(one)
	c.Ev(1)
	c.Count("nested updates", 1)
	if calls != one.String() || v != any(3) {
		return fmt.Sprintf("an update of another tree within the callback called back for %q and left the value %v", calls, v)
	}
	return ""
}

// secUpdateDense: all subsets of closely related networks, every stored one as target.
func secUpdateDense(c *C) {
	f := famIPGen()
	fo := &focus{lpm: true, enum: true}
	keys := f.Universe(c.R, c.Idx)
	for set := 1; set < 1<<len(keys); set++ {
		r := newRun(c, f, fo)
		r.h = f.New()
		for _, i := range c.R.Perm(len(keys)) {
			if set&(1<<i) != 0 {
				r.insert(keys[i])
			}
		}
		for i, k := range keys {
			if set&(1<<i) != 0 {
				c.update(f, r, k.Canon)
				c.state(f, fo, r.h, r.m, keys, false)
			}
		}
		if len(r.m) > 1 {
			c.SeenStr(f.Name, r.m.signature())
		}
	}
}

// secUpdateLarge: updates of thousands of descendants, spread over the tree or within one /64.
func secUpdateLarge(c *C) {
	f := famIPGen()
	fo := &focus{lpm: true, enum: true}
	n := 1000 + c.R.IntN(4000)
	if c.R.pct(20) {
		n *= 4
	}
	keys := []Key{}
	tops := []string{"4:", "6:"}
	switch c.Idx % 3 {
	case 0:
		keys = f.Many(c.R, n)
	case 1: // within one /64
		top := "6:" + randBits(c.R, 64)
		for _, s := range bitMany(c.R, 64, n) {
			keys = append(keys, ipKey(c.R, top+s))
		}
		tops = []string{top, top[:2+c.R.IntN(64)], top + randBits(c.R, 1), "6:"}
	default: // addresses of one network, in order
		top := pick(c.R, []string{"4:", "6:"})
		size := 32
		if top == "6:" {
			size = 128
		}
		at := c.R.IntN(size - 15)
		top += randBits(c.R, at)
		for i := 0; i < min(n, 1<<15); i++ {
			k := top
			for b := 14; b >= 0; b-- {
				k += string([]byte{'0' + byte(i>>b&1)})
			}
			keys = append(keys, ipKey(c.R, k))
		}
		tops = append(tops, top, top+"0", top[:2+c.R.IntN(at+1)])
	}
	r := newRun(c, f, fo)
	r.h = f.New()
	for _, t := range tops {
		r.insert(ipKey(c.R, t))
	}
	for _, k := range keys {
		r.insert(k)
	}
	sample := func() []Key {
		q := []Key{}
		for i := 0; i < 30; i++ {
			q = append(q, pick(c.R, keys), f.Near(c.R, keys))
		}
		return q
	}
	targets := append([]string{}, tops...)
	for i := 0; i < 4; i++ {
		k := pick(c.R, keys).Canon
		targets = append(targets, k, k[:2+c.R.IntN(len(k)-1)])
	}
	for _, t := range targets {
		if c.R.pct(70) {
			c.update(f, r, t)
			c.state(f, fo, r.h, r.m, sample(), false)
		}
	}
	c.Max("entries of a tree", int64(len(r.m)))
	c.SeenStr(f.Name, r.m.signature())
}

func ipProps() []*Prop {
	ip := ipFams()
	return []*Prop{
		{ID: "C08", Rule: ruleHist, MinEvals: 50000,
			Sections: append([]Section{{"isolation", 4000, 100000, secIsolation(ip, ipOpens())}}, standard(ip, focus{enum: true}, 60)...)},
		{ID: "C09", MinEvals: 50000,
			Rule:     "evaluations are callback invocations judged, updates judged for completeness and lookups/enumerations after them; distinct_nontrivial counts distinct sets of stored networks (at least two) on which updates were run",
			Sections: []Section{{"history", 4000, 100000, secUpdate}, {"dense", 400, 6000, secUpdateDense}, {"large", 8, 150, secUpdateLarge}}},
	}
}

// canonNet makes the network a canonical key stands for.
func canonNet(canon string) *net.IPNet {
	size := 16
	if canon[0] == '4' {
		size = 4
	}
	return &net.IPNet{IP: bytesOf(canon[2:], size), Mask: net.CIDRMask(len(canon)-2, 8*size)}
}
