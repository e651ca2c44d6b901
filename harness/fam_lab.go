package main

import (
	"sort"

	"github.com/infobloxopen/go-trees/dltree"
)

// labRaw is a key of a label tree for the text or for the binary interface.
type labRaw struct {
	raw bool
	s   string
}

func labKey(r *Rand, l string) Key {
	k := Key{Canon: l, Raws: []any{labRaw{true, l}}}
	for i := 0; i < 4; i++ {
		s := spellLabel(r, l, []int{0, 1, -1, -1}[i])
		if r.pct(25) {
			s += "."
		}
		k.Raws = append(k.Raws, labRaw{false, s})
	}
	return k
}

func famLab() *Fam {
	h := func(x any) *dltree.Tree { return x.(*dltree.Tree) }
	textEntry := func(p dltree.Pair) Entry {
		for i := 0; i < len(p.Key); i++ {
			if p.Key[i] < 0x21 || p.Key[i] > 0x7e {
				return Entry{"unreadable text " + p.Key, p.Value}
			}
		}
		if p.Key == "" || p.Key == "." {
			return Entry{"", p.Value}
		}
		l, ok := parseLabel(p.Key)
		if !ok {
			return Entry{"text which is no label " + p.Key, p.Value}
		}
		return Entry{l, p.Value}
	}
	rawEntry := func(p dltree.Pair) Entry { return Entry{p.Key, p.Value} }
	f := &Fam{
		Name: "dltree.Tree", Group: "lab", Stable: true,
		Less: func(a, b string) bool { return byLen(a, b) < 0 },
		New:  func() any { return dltree.NewTree() },
		Nil:  func() any { return (*dltree.Tree)(nil) },
		Ins: func(t, raw, v any) any {
			if k := raw.(labRaw); k.raw {
				return h(t).RawInsert(k.s, v)
			} else {
				return h(t).Insert(k.s, v)
			}
		},
		Inp: func(t, raw, v any) any {
			if k := raw.(labRaw); k.raw {
				h(t).RawInplaceInsert(k.s, v)
			} else {
				h(t).InplaceInsert(k.s, v)
			}
			return t
		},
		Dels: []DelOp{{"Delete", false, func(t, raw any) (any, bool) {
			var r *dltree.Tree
			var ok bool
			if k := raw.(labRaw); k.raw {
				r, ok = h(t).RawDelete(k.s)
			} else {
				r, ok = h(t).Delete(k.s)
			}
			return r, ok
		}}},
		Gets: []GetOp{{"Get", modeExact, func(t, raw any) (any, bool) {
			if k := raw.(labRaw); k.raw {
				return h(t).RawGet(k.s)
			} else {
				return h(t).Get(k.s)
			}
		}}},
		Enums: []EnumOp{
			{"Enumerate", func(t any, max int) (out []Entry, over bool) {
				over = drain(h(t).Enumerate(), max, func(p dltree.Pair) { out = append(out, textEntry(p)) })
				return
			}},
			{"RawEnumerate", func(t any, max int) (out []Entry, over bool) {
				over = drain(h(t).RawEnumerate(), max, func(p dltree.Pair) { out = append(out, rawEntry(p)) })
				return
			}},
		},
		Open: func(t any) func() (Entry, bool) {
			ch := h(t).Enumerate()
			return func() (Entry, bool) {
				p, ok := <-ch
				if !ok {
					return Entry{}, false
				}
				return textEntry(p), true
			}
		},
		OpenRaw: func(t any) func() (Entry, bool) {
			ch := h(t).RawEnumerate()
			return func() (Entry, bool) {
				p, ok := <-ch
				if !ok {
					return Entry{}, false
				}
				return rawEntry(p), true
			}
		},
		Empty:  func(t any) bool { return h(t).IsEmpty() },
		Dot:    func(t any) string { return h(t).Dot() },
		DotKey: func(k string) string { return k },
	}
	f.Cluster = func(r *Rand, n int) []Key {
		out := []Key{}
		set := map[string]bool{}
		for tries := 0; len(out) < n && tries < 10*n; tries++ {
			l := randLabel(r, randLabelLen(r))
			if len(out) > 0 && r.pct(40) {
				b := []byte(pick(r, out).Canon)
				if len(b) > 0 {
					i := r.IntN(len(b))
					b[i] = upper(b[i] ^ 1<<r.IntN(8))
				}
				l = string(b)
			}
			if r.pct(2) {
				l = "" // the empty label, spelled with nothing or with the ending dot only
			}
			if !set[l] {
				set[l] = true
				out = append(out, labKey(r, l))
			}
		}
		return out
	}
	f.Near = func(r *Rand, keys []Key) Key {
		if len(keys) == 0 || r.pct(10) {
			return labKey(r, randLabel(r, randLabelLen(r)))
		}
		l := pick(r, keys).Canon
		if l == "" || r.pct(3) {
			return labKey(r, pick(r, []string{"", randLabel(r, 1)}))
		}
		switch r.IntN(4) {
		case 0:
			if len(l) < 63 {
				return labKey(r, l+randLabel(r, 1))
			}
		case 1:
			return labKey(r, l[:len(l)-1])
		case 2:
			b := []byte(l)
			i := r.IntN(len(b))
			b[i] = upper(b[i] ^ 1<<r.IntN(8))
			return labKey(r, string(b))
		}
		return labKey(r, l)
	}
	f.Universe = func(r *Rand, idx int) []Key {
		sets := [][]string{
			{"", "A", "B", "AA", "AB", "BA", "AAA"},
			{"\x00", ".", "\\", "0", "Z", "[", "\xff"},
			{"\\.", "..", ".\\", "\\\\", "A.", ".A", "\\0"},
			{"@", "A", "`", "{", " ", "\x7f", "\x80"},
		}
		out := []Key{}
		for _, l := range sets[idx%len(sets)] {
			out = append(out, labKey(r, l))
		}
		return out
	}
	f.Many = func(r *Rand, n int) []Key {
		out := []Key{}
		set := map[string]bool{}
		for tries := 0; len(out) < n && tries < 20*n; tries++ {
			l := randLabel(r, 1+r.IntN(8))
			if !set[l] {
				set[l] = true
				out = append(out, labKey(r, l))
			}
		}
		return out
	}
	f.Sort = func(keys []Key) {
		sort.SliceStable(keys, func(i, j int) bool { return f.Less(keys[i].Canon, keys[j].Canon) })
	}
	return f
}
