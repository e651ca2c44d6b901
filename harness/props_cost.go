package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime/coverage"
	"sort"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/iptree"
)

// ---- C35: the work of an operation, counted in executed blocks of the library's code. The check builds the monitors with
// the compiler's coverage instrumentation of the library alone; its counters are read around single operations. Unlike
// time, the count does not depend on the machine or on what else it does.

// steps gives the number of blocks of the library which op executes.
func steps(op func()) int64 {
	if ownPkg < 0 {
		own := counters(func() {})
		if len(own) != 1 {
			broken("the monitors are not told from the library")
		}
		for ownPkg = range own {
		}
	}
	var sum int64
	for pkg, n := range counters(op) {
		if pkg != ownPkg {
			sum += n
		}
	}
	return sum
}

// ownPkg is the number of the package of the monitors, which has to be instrumented, too.
var ownPkg int64 = -1

func broken(why any) {
	fmt.Fprintln(os.Stderr, "blocks cannot be counted:", why)
	os.Exit(3)
}

// counters gives the number of blocks which op executes, by package.
func counters(op func()) map[int64]int64 {
	if err := coverage.ClearCounters(); err != nil {
		broken(err)
	}
	op()
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		broken(err)
	}
	return sumCounters(b.Bytes())
}

// sumCounters adds up the counters of every package in a counter file as internal/coverage describes it.
func sumCounters(b []byte) map[int64]int64 {
	if len(b) < 48 || string(b[:4]) != "\x00cwm" || binary.LittleEndian.Uint32(b[4:]) != 1 || b[25] != 0 {
		broken("header of counters")
	}
	uleb := false
	switch b[24] {
	case 1:
	case 2:
		uleb = true
	default:
		broken("flavor of counters")
	}
	funcs := binary.LittleEndian.Uint64(b[32:])
	at := 48 + int(binary.LittleEndian.Uint32(b[40:])) + int(binary.LittleEndian.Uint32(b[44:]))
	next := func() int64 {
		if uleb {
			v, n := binary.Uvarint(b[at:])
			if n <= 0 {
				broken("end of counters")
			}
			at += n
			return int64(v)
		}
		if at+4 > len(b) {
			broken("end of counters")
		}
		at += 4
		return int64(binary.LittleEndian.Uint32(b[at-4:]))
	}
	sums := map[int64]int64{}
	for ; funcs > 0; funcs-- {
		n := next()
		pkg := next()
		next()
		for ; n > 0; n-- {
			sums[pkg] += next()
		}
	}
	if at+16 != len(b) {
		broken("length of counters")
	}
	return sums
}

// stepBound is a generous bound of the blocks executed on the way to a key.
func stepBound(f *Fam, k Key, m Model) int64 {
	lg := math.Log2(float64(len(m) + 2))
	switch f.Group {
	case "num", "ip":
		return int64(stepsPerNode*pathLen(k.Canon, m)) + 600
	case "lab":
		return int64(stepsPerNode*lg*float64(4+len(k.Canon))) + 600
	case "dom":
		sum := 600 + 10.0*float64(len(k.Canon))
		ls := splitCanon(k.Canon)
		for d, kids := range widths(k, m) {
			l := 0
			if d < len(ls) {
				l = len(ls[d])
			}
			sum += stepsPerNode / 2 * (2*math.Log2(float64(kids+2)) + 1) * float64(4+l)
		}
		return int64(sum)
	}
	return int64(stepsPerNode*2*lg) + 600
}

const stepsPerNode = 20

// size is the number of entries, weighted with the length of their keys where enumerations spell these.
func size(f *Fam, m Model) int64 {
	n := int64(len(m))
	if f.Group == "dom" || f.Group == "lab" {
		for k := range m {
			n += int64(len(k))
			if f.Group == "dom" {
				n += 4 * int64(len(splitCanon(k)))
			}
		}
	}
	return n
}

// wideKeys gives n keys, for domain trees sometimes on one wide level.
func wideKeys(c *C, f *Fam, n int) []Key {
	if f.Group != "dom" || !c.R.pct(60) {
		return f.Many(c.R, n)
	}
	pre := []string{}
	for i := c.R.IntN(4); i > 0; i-- {
		pre = append(pre, randLabel(c.R, 2))
	}
	set := map[string]bool{}
	var keys []Key
	for i := 0; i < n; i++ {
		l := string([]byte{'A' + byte(i>>12&15), 'A' + byte(i>>8&15), 'A' + byte(i>>4&15), 'A' + byte(i&15)})
		k := domKey(c.R, append(append([]string{}, pre...), l))
		if !set[k.Canon] {
			set[k.Canon] = true
			keys = append(keys, k)
		}
	}
	return keys
}

// above makes a key which covers the given one.
func above(c *C, f *Fam, k Key) Key {
	switch f.Group {
	case "num":
		size := 64
		if strings.HasSuffix(f.Name, "32") {
			size = 32
		}
		return numKey(c.R, size, k.Canon[:c.R.IntN(len(k.Canon)+1)])
	case "ip":
		return ipKey(c.R, k.Canon[:2+c.R.IntN(len(k.Canon)-1)])
	case "dom":
		ls := splitCanon(k.Canon)
		return domKey(c.R, ls[:c.R.IntN(len(ls)+1)])
	}
	return k
}

func ordered(c *C, f *Fam, keys []Key) string {
	switch c.R.IntN(4) {
	case 0:
		f.Sort(keys)
		return "sorted"
	case 1:
		f.Sort(keys)
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
		return "reversed"
	}
	return "random"
}

func secSteps(fams []*Fam) func(c *C) {
	return func(c *C) {
		f := famOf(fams, c)
		n := 8000 + c.R.IntN(12000)
		if c.Thor {
			n *= 1 + c.R.IntN(4)
		}
		keys := wideKeys(c, f, n)
		if len(keys) < 1000 {
			return
		}
		var chain []Key
		if f.Chain != nil && c.R.pct(40) {
			chain = f.Chain(c.R)
			keys = append(keys, chain...)
			c.R.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		order := ordered(c, f, keys)
		r := newRun(c, f, &focus{})
		if r.mode == 1 {
			r.h = f.New()
		}
		spare := c.R.IntN(200) + 100
		fresh := keys[len(keys)-spare:]
		keys = keys[:len(keys)-spare]

		look := func(samples int, when string) {
			present := []Key{}
			for i := 0; i < samples; i++ {
				if len(chain) > 0 && i%3 == 0 {
					present = append(present, pick(c.R, chain))
				} else {
					present = append(present, pick(c.R, keys))
				}
			}
			for i, k := range present {
				switch {
				case i%4 == 1:
					k = fresh[c.R.IntN(len(fresh))]
				case i%4 == 2:
					k = f.Near(c.R, present)
				case i%4 == 3:
					k = above(c, f, k)
				}
				raw := k.raw(c.R)
				bound := stepBound(f, k, r.m)
				judge := func(what string, op func()) {
					got := steps(op)
					c.Ev(1)
					c.Count("steps observed", int(got))
					c.Max("steps of one operation, "+f.Group, got)
					c.Max("steps of one operation in percent of the bound, "+f.Group, got*100/bound)
					if got > bound {
						c.Failf("%s: %s of %v in a tree of %d entries (%s order, mode %d, %s) executed %d blocks of the library; the path to it accounts for at most about %d", f.Name, what, raw, len(r.m), order, r.mode, when, got, bound)
					}
				}
				for gi := range f.Gets {
					judge(f.Gets[gi].Name, func() { sink, _ = f.Gets[gi].Fn(r.h, raw) })
				}
				v := f.val(c.R, 7, false)
				judge("insertion", func() { sink = f.Ins(r.h, raw, v) })
				for di := range f.Dels {
					judge(f.Dels[di].Name, func() { sink, _ = f.Dels[di].Fn(r.h, raw) })
				}
				if i%4 < 2 {
					mode := r.mode
					r.mode = c.R.IntN(2)
					judge("insertion to stay", func() { r.insert(k) })
					r.mode = mode
					if i%8 < 4 {
						judge("deletion to stay", func() { r.delete(k, &f.Dels[0]) })
					}
				}
				if f.Empty != nil {
					judge("IsEmpty", func() { f.Empty(r.h) })
				}
				c.Seen(f.Name, order, r.mode, when, k.Canon)
			}
			// enumerations
			most := 40*size(f, r.m) + 2000
			if f.Group == "ip" {
				most *= 2 // every byte of the address is written
			}
			for ei := range f.Enums {
				got := steps(func() { f.Enums[ei].Fn(r.h, len(r.m)+1) })
				c.Ev(1)
				c.Max("steps of an enumeration in percent of the bound, "+f.Group, got*100/most)
				if got > most {
					c.Failf("%s: %s of %d entries (%s order, mode %d, %s) executed %d blocks of the library, expected at most about %d", f.Name, f.Enums[ei].Name, len(r.m), order, r.mode, when, got, most)
				}
			}
		}

		at := 0
		var whole int64
		for stage := 1; stage <= 3; stage++ {
			to := len(keys) * stage * stage / 9
			var most int64
			for i := 0; i < 20 && at < to; i++ {
				most = max(most, stepBound(f, keys[at+c.R.IntN(to-at)], r.m))
			}
			from := at
			got := steps(func() {
				for ; at < to; at++ {
					r.insert(keys[at])
				}
			})
			whole += got
			c.Ev(1)
			// the bound is that of single ones near the beginning; paths grow
			limit := 3 * most * int64(to-from+1)
			c.Max("steps of all insertions in percent of the bound, "+f.Group, got*100/limit)
			if got > limit {
				c.Failf("%s: %d insertions from %d entries on (%s order, mode %d) executed %d blocks of the library, expected at most about %d", f.Name, to-from, from, order, r.mode, got, limit)
			}
			look(12, fmt.Sprint("stage ", stage))
		}
		c.Max("entries", int64(len(r.m)))
		full := len(r.m)

		// what is left of a large tree costs no more than a small one
		del := &f.Dels[0]
		for i := range f.Dels {
			if !f.Dels[i].Sub && c.R.pct(50) {
				del = &f.Dels[i]
			}
		}
		left := 20 + c.R.IntN(100)
		all := append(append([]Key{}, keys...), fresh...)
		c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		sorted := sortedKeys(r.m)
		for _, k := range all {
			if len(r.m) <= left {
				break
			}
			if _, ok := r.m[k.Canon]; !ok {
				continue
			}
			r.h, _ = del.Fn(r.h, k.raw(c.R))
			delete(r.m, k.Canon)
			c.Count("deletes", 1)
			if del.Sub {
				// keys covered by another one follow it
				for i := sort.SearchStrings(sorted, k.Canon); i < len(sorted) && strings.HasPrefix(sorted[i], k.Canon); i++ {
					delete(r.m, sorted[i])
				}
			}
		}
		look(12, fmt.Sprintf("after deletions from %d entries", full))
		c.Sample("%s: operations counted on %d entries in %s order; all insertions took %d steps", f.Name, full, order, whole)
	}
}

// secStepsUpdate: an update of descendants costs the path and the descendants.
func secStepsUpdate(c *C) {
	f := famIPGen()
	keys := f.Many(c.R, 8000+c.R.IntN(12000))
	order := ordered(c, f, keys)
	r := newRun(c, f, &focus{})
	for _, k := range keys {
		r.insert(k)
	}
	for i := 0; i < 60; i++ {
		k := keys[c.R.IntN(len(keys))]
		if c.R.pct(30) {
			k = f.Near(c.R, keys)
		}
		canon := k.Canon
		if c.R.pct(40) && len(canon) > 2 {
			canon = canon[:2+c.R.IntN(len(canon)-2)] // may be stored or not
		}
		n := canonNet(canon)
		var desc, path int64
		for q := range r.m {
			if len(q) > len(canon) && strings.HasPrefix(q, canon) {
				desc++
			}
		}
		path = int64(pathLen(canon, r.m))
		set := c.R.pct(50)
		got := steps(func() {
			r.h.(*iptree.Tree).UpdateDescendants(n, func(iptree.Pair) (any, bool) { return 1, set })
		})
		if set {
			for q := range r.m {
				if len(q) > len(canon) && strings.HasPrefix(q, canon) {
					r.m[q] = 1
				}
			}
		}
		bound := 200*desc + stepsPerNode*path + 600
		c.Ev(1)
		c.Max("steps of an update in percent of the bound", got*100/bound)
		c.Seen(order, canon, desc)
		if got > bound {
			c.Failf("UpdateDescendants(%v) with %d descendants in a tree of %d entries (%s order) executed %d blocks of the library, expected at most about %d", n, desc, len(r.m), order, got, bound)
		}
	}
	c.Sample("60 updates of descendants counted on %d networks in %s order", len(r.m), order)
}

// secStepsName: work on a name follows its length.
func secStepsName(c *C) {
	for i := 0; i < 40; i++ {
		s := costName(c)
		bound := 40*int64(len(s)) + 1000
		judge := func(what string, op func()) {
			got := steps(op)
			c.Ev(1)
			c.Max("steps of work on a name in percent of the bound, "+what, got*100/bound)
			if got > bound {
				c.Failf("%s of %s (%d bytes) executed %d blocks of the library, expected at most about %d", what, short(s), len(s), got, bound)
			}
		}
		var n domain.Name
		var err error
		judge("MakeNameFromString", func() { n, err = domain.MakeNameFromString(s) })
		judge("MakeLabel", func() {
			defer func() { recover() }() // it refuses a text of several labels so
			domain.MakeLabel(s)
		})
		judge("MakeHumanReadableLabel", func() { domain.MakeHumanReadableLabel(s) })
		c.SeenStr("name", s)
		if err != nil {
			continue
		}
		judge("String", func() { _ = n.String() })
		judge("GetLabels", func() { n.GetLabels(func(string) error { return nil }) })
		judge("GetLabel", func() {
			for off := 0; ; {
				l, next := n.GetLabel(off)
				if l == "" || next <= off {
					break
				}
				off = next
			}
		})
	}
}

// costName makes texts of all lengths, names and others.
func costName(c *C) string {
	switch c.R.IntN(4) {
	case 0:
		return strings.Repeat(pick(c.R, []string{"a", "a.", "\\.", "\\000", "\\", ".", "\\0", "ABC."}), 1<<c.R.IntN(15))
	case 1:
		b := make([]byte, c.R.IntN(1<<c.R.IntN(16)+1))
		for i := range b {
			b[i] = pick(c.R, []byte("aZ.\\09\x00\xff-"))
		}
		return string(b)
	}
	ls := []string{}
	for i := c.R.IntN(20); i >= 0; i-- {
		ls = append(ls, randLabel(c.R, 1+c.R.IntN(3)))
	}
	return strings.Join(ls, ".")
}

func costProps() []*Prop {
	return []*Prop{
		{ID: "C35", Procs: 1, MinEvals: 2000,
			Rule:     "evaluations are operations whose executed blocks of the library were counted and judged; distinct_nontrivial counts distinct (tree type, order of growth, mode, stage, key), (order, network, descendants) and names",
			Sections: []Section{{"steps", 80, 1000, secSteps(allFams())}, {"steps-update", 16, 400, secStepsUpdate}, {"steps-name", 100, 4000, secStepsName}}},
	}
}
