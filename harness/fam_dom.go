package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/uintX/domaintree16"
	"github.com/infobloxopen/go-trees/uintX/domaintree32"
	"github.com/infobloxopen/go-trees/uintX/domaintree64"
	"github.com/infobloxopen/go-trees/uintX/domaintree8"
)

type domRaw struct {
	n domain.Name
	s string
}

func (d domRaw) String() string { return fmt.Sprintf("%q", d.s) }

type domTree[T, V any] interface {
	comparable
	Insert(domain.Name, V) T
	InplaceInsert(domain.Name, V)
	Get(domain.Name) (V, bool)
	Delete(domain.Name) (T, bool)
	DeleteSubdomains(domain.Name) (T, bool)
}

func domEntry(text string, v any) Entry {
	for i := 0; i < len(text); i++ {
		if text[i] < 0x21 || text[i] > 0x7e {
			return Entry{"unreadable text " + text, v}
		}
	}
	ls, f := parseName(text)
	if f.any() {
		return Entry{"text which is no name (" + f.String() + ") " + text, v}
	}
	return Entry{canonName(ls), v}
}

func mkDom[T domTree[T, V], V any](name string, bits int, newf func() T, open func(T) func() (string, any, bool)) *Fam {
	h := func(x any) T { return x.(T) }
	val := func(v any) V {
		if v == nil {
			var z V
			return z
		}
		return v.(V)
	}
	var zero any
	if bits > 0 {
		var z V
		zero = z
	}
	nm := func(raw any) domain.Name { return raw.(domRaw).n }
	f := &Fam{
		Name: name, Group: "dom", Bits: bits, Zero: zero, Stable: true,
		New: func() any { return newf() },
		Nil: func() any { var t T; return t },
		Ins: func(t, raw, v any) any { return h(t).Insert(nm(raw), val(v)) },
		Inp: func(t, raw, v any) any { h(t).InplaceInsert(nm(raw), val(v)); return t },
		Dels: []DelOp{
			{"Delete", false, func(t, raw any) (any, bool) { r, ok := h(t).Delete(nm(raw)); return r, ok }},
			{"DeleteSubdomains", true, func(t, raw any) (any, bool) { r, ok := h(t).DeleteSubdomains(nm(raw)); return r, ok }},
		},
		Gets: []GetOp{{"Get", modeLPM, func(t, raw any) (any, bool) { v, ok := h(t).Get(nm(raw)); return v, ok }}},
		Enums: []EnumOp{{"Enumerate", func(t any, max int) (out []Entry, over bool) {
			next := open(h(t))
			for {
				k, v, ok := next()
				if !ok {
					return out, false
				}
				if len(out) >= max {
					return out, true
				}
				out = append(out, domEntry(k, v))
			}
		}}},
		Open: func(t any) func() (Entry, bool) {
			next := open(h(t))
			return func() (Entry, bool) {
				k, v, ok := next()
				if !ok {
					return Entry{}, false
				}
				return domEntry(k, v), true
			}
		},
	}
	f.Cluster = domCluster
	f.Near = domNear
	f.Universe = func(r *Rand, idx int) []Key {
		a, b := "A", "B"
		switch idx % 4 {
		case 1:
			a, b = ".", "\\"
		case 2:
			if (idx/16%3 != 1 || idx/4%2 == 0) && idx/4%4 < 3 {
				a, b = randLabel(r, 63), "\x00"
			}
		case 3:
			a, b = "AB", "B"
		}
		base := []string{}
		for i := 0; i < idx/4%4; i++ {
			base = append(base, randLabel(r, 1+r.IntN(2)))
		}
		if idx/16%3 == 1 && idx/4%2 == 1 {
			// as deep as it goes
			base = base[:0]
			for len(base) < 125 {
				base = append(base, "X")
			}
			a, b = "A", "."
		}
		out := []Key{}
		for _, s := range [][]string{{}, {a}, {b}, {a, a}, {a, b}, {b, a}, {b, b}} {
			out = append(out, domKey(r, append(append([]string{}, base...), s...)))
		}
		if len(base) > 0 {
			out[6] = domKey(r, nil)
		}
		return out
	}
	f.Chain = func(r *Rand) []Key {
		out := []Key{}
		ls := []string{}
		comb := r.pct(30)
		for i := 0; i <= 127; i++ {
			out = append(out, domKey(r, append([]string{}, ls...)))
			if comb && i > 0 {
				side := append([]string{}, ls...)
				side[i-1] = randLabel(r, 1)
				if side[i-1] != ls[i-1] {
					out = append(out, domKey(r, side))
				}
			}
			ls = append(ls, randLabel(r, 1))
		}
		return out
	}
	f.Many = func(r *Rand, n int) []Key {
		out := []Key{}
		set := map[string]bool{}
		alpha := 2 + r.IntN(12)
		// few parents with many children of any kind of label
		wide := r.pct(35)
		parents := [][]string{{}}
		for tries := 0; len(out) < n && tries < 20*n; tries++ {
			ls := []string{}
			if wide {
				ls = append(append(ls, pick(r, parents)...), randLabel(r, randLabelLen(r)))
				if !labelsFit(ls) {
					continue
				}
				if len(parents) < 8 && r.pct(2) {
					parents = append(parents, ls)
				}
				if k := domKey(r, ls); !set[k.Canon] {
					set[k.Canon] = true
					out = append(out, k)
				}
				continue
			}
			for k := r.IntN(7); k > 0; k-- {
				l := string([]byte{'A' + byte(r.IntN(alpha))})
				if r.pct(20) {
					l = randLabel(r, 1+r.IntN(3))
				}
				ls = append(ls, l)
			}
			k := domKey(r, ls)
			if !set[k.Canon] {
				set[k.Canon] = true
				out = append(out, k)
			}
		}
		return out
	}
	f.Sort = func(keys []Key) {
		sort.SliceStable(keys, func(i, j int) bool { return keys[i].Canon < keys[j].Canon })
	}
	return f
}

func labelsFit(ls []string) bool {
	n := 0
	for _, l := range ls {
		n += len(l) + 1
	}
	return n <= 255
}

// domKey makes a key of labels (top-level first).
func domKey(r *Rand, ls []string) Key {
	rev := make([]string, len(ls))
	for i := range ls {
		rev[len(ls)-1-i] = ls[i]
	}
	k := Key{Canon: canonName(rev)}
	styles := []int{1, -1, -1}
	if len(ls) > 20 {
		styles = []int{-1}
	}
	for _, st := range styles {
		s := spellName(r, ls, st)
		n, err := domain.MakeNameFromString(s)
		if err != nil {
			panic(&violation{fmt.Sprintf("MakeNameFromString(%q) failed for a well-formed name: %s", s, err)})
		}
		k.Raws = append(k.Raws, domRaw{n, s})
	}
	return k
}

func domCluster(r *Rand, n int) []Key {
	out := []Key{}
	set := map[string]bool{}
	vocab := []string{"A", "B", "AB", "BA"}
	for i := 0; i < 3; i++ {
		vocab = append(vocab, randLabel(r, randLabelLen(r)))
	}
	if r.pct(30) {
		vocab = append(vocab, "\\.", ".", "A.B", "B.A")
	}
	bases := [][]string{{}}
	if r.pct(20) {
		// names of real zones (labels from the top-level one down)
		vocab = append(vocab, pick(r, realLabels), pick(r, realLabels), pick(r, []string{"*", "_", "-", "0", "1"}))
		bases = append(bases, pick(r, [][]string{{"COM"}, {"ARPA", "IN-ADDR"}, {"ARPA", "IP6"}, {"COM", "EXAMPLE", "WWW"}, {"UK", "CO"}, {"LOCALHOST"}, {"*"}, {"COM", "*"}}))
	}
	if r.pct(8) {
		// a reverse name
		rev := []string{"ARPA", "IP6"}
		for k := 1 + r.IntN(32); k > 0; k-- {
			rev = append(rev, string([]byte{"0123456789ABCDEF"[r.IntN(16)]}))
		}
		bases = append(bases, rev)
	}
	if r.pct(15) {
		// near the limits
		deep := []string{}
		for len(deep) < 122+r.IntN(5) {
			deep = append(deep, pick(r, []string{"A", "B"}))
		}
		bases = append(bases, deep)
	}
	if r.pct(15) {
		label := randLabel
		if r.pct(50) {
			label = fatLabel
		}
		long := []string{label(r, 63), label(r, 63), label(r, 63)}
		bases = append(bases, long)
		// one of these just fits, others fit almost
		vocab = append(vocab, label(r, 62), label(r, 61), label(r, 50+r.IntN(11)))
	}
	if r.pct(6) {
		// a name of 255 bytes, mostly with the longest text there can be
		text := pick(r, []string{"\xff", "\x00", "\x80\xfe", "\x7f ", ".", "\\", "A"})
		full := []string{strings.Repeat(text, 63)[:63], strings.Repeat(text, 63)[:63], strings.Repeat(text, 63)[:63], strings.Repeat(text, 62)[:62]}
		if r.pct(40) {
			full = nil
			for len(full) < 127 {
				full = append(full, text[:1])
			}
		}
		r.Shuffle(len(full), func(i, j int) { full[i], full[j] = full[j], full[i] })
		if k := domKey(r, full); !set[k.Canon] {
			set[k.Canon] = true
			out = append(out, k)
		}
		bases = append(bases, full)
	}
	for tries := 0; len(out) < n && tries < 12*n; tries++ {
		b := pick(r, bases)
		ls := append([]string{}, b...)
		for k := r.IntN(4); k > 0; k-- {
			ls = append(ls, pick(r, vocab))
		}
		if r.pct(20) && len(ls) > 0 {
			ls = ls[:r.IntN(len(ls))]
		}
		if !labelsFit(ls) || len(ls) > 127 {
			continue
		}
		if r.pct(30) {
			bases = append(bases, ls)
		}
		rev := make([]string, len(ls))
		for i := range ls {
			rev[len(ls)-1-i] = ls[i]
		}
		if c := canonName(rev); !set[c] {
			set[c] = true
			out = append(out, domKey(r, ls))
		}
	}
	return out
}

func domNear(r *Rand, keys []Key) Key {
	if len(keys) == 0 || r.pct(5) {
		return domKey(r, []string{randLabel(r, 2)})
	}
	ls := splitCanon(pick(r, keys).Canon)
	switch r.IntN(6) {
	case 0:
	case 1:
		ls = append(ls, randLabel(r, 1+r.IntN(3)))
	case 2:
		if len(ls) > 0 {
			ls = ls[:r.IntN(len(ls))]
		}
	case 3:
		if len(ls) > 0 {
			i := r.IntN(len(ls))
			b := []byte(ls[i])
			j := r.IntN(len(b))
			b[j] = upper(b[j] ^ 1<<r.IntN(8))
			ls[i] = string(b)
		}
	case 4:
		// the same text suffix with other label borders
		if len(ls) > 1 {
			i := r.IntN(len(ls) - 1)
			if len(ls[i])+len(ls[i+1])+1 <= 63 {
				ls = append(append(append([]string{}, ls[:i]...), ls[i+1]+pick(r, []string{".", ""})+ls[i]), ls[i+2:]...)
			}
		}
	case 5:
		for k := 1 + r.IntN(4); k > 0; k-- {
			ls = append(ls, pick(r, []string{"A", "B", "."}))
		}
	}
	for !labelsFit(ls) || len(ls) > 127 {
		ls = ls[:len(ls)-1]
	}
	return domKey(r, ls)
}

func famDomGen() *Fam {
	return mkDom[*domaintree.Node, any]("domaintree.Node", 0, func() *domaintree.Node { return new(domaintree.Node) },
		func(t *domaintree.Node) func() (string, any, bool) {
			ch := t.Enumerate()
			return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		})
}

func typedDomFams() []*Fam {
	return []*Fam{
		mkDom[*domaintree8.Node, uint8]("uintX/domaintree8.Node", 8, func() *domaintree8.Node { return new(domaintree8.Node) },
			func(t *domaintree8.Node) func() (string, any, bool) {
				ch := t.Enumerate()
				return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
			}),
		mkDom[*domaintree16.Node, uint16]("uintX/domaintree16.Node", 16, func() *domaintree16.Node { return new(domaintree16.Node) },
			func(t *domaintree16.Node) func() (string, any, bool) {
				ch := t.Enumerate()
				return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
			}),
		mkDom[*domaintree32.Node, uint32]("uintX/domaintree32.Node", 32, func() *domaintree32.Node { return new(domaintree32.Node) },
			func(t *domaintree32.Node) func() (string, any, bool) {
				ch := t.Enumerate()
				return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
			}),
		mkDom[*domaintree64.Node, uint64]("uintX/domaintree64.Node", 64, func() *domaintree64.Node { return new(domaintree64.Node) },
			func(t *domaintree64.Node) func() (string, any, bool) {
				ch := t.Enumerate()
				return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
			}),
	}
}

func domFams() []*Fam { return append([]*Fam{famDomGen()}, typedDomFams()...) }

func isRootText(s string) bool { return strings.Trim(s, ".") == "" }
