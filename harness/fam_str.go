package main

import (
	"math"
	"sort"
	"strings"

	"github.com/infobloxopen/go-trees/strtree"
	"github.com/infobloxopen/go-trees/uintX/strtree16"
	"github.com/infobloxopen/go-trees/uintX/strtree32"
	"github.com/infobloxopen/go-trees/uintX/strtree64"
	"github.com/infobloxopen/go-trees/uintX/strtree8"
)

// cmpKind is a comparison function with the map from keys to representatives of their equivalence classes.
type cmpKind struct {
	name  string
	cmp   func(a, b string) int // nil: the default comparison of NewTree
	canon func(s string) string
	// alt makes another spelling of the same class.
	alt func(r *Rand, s string) string
}

func same(s string) string { return s }

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c | 0x20
		}
	}
	return string(b)
}

func randCase(r *Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		if (c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') && r.pct(50) {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

func byLen(a, b string) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	return strings.Compare(a, b)
}

var cmpKinds = []cmpKind{
	{name: "default", canon: same},
	{name: "reversed", cmp: func(a, b string) int { return strings.Compare(b, a) }, canon: same},
	{name: "nocase", cmp: func(a, b string) int { return strings.Compare(asciiLower(a), asciiLower(b)) }, canon: asciiLower, alt: randCase},
	{name: "length-then-bytes", cmp: byLen, canon: same},
	{name: "length-only", cmp: func(a, b string) int { return (len(b) - len(a)) * 1000 },
		canon: func(s string) string { return strings.Repeat("x", len(s)) },
		alt: func(r *Rand, s string) string {
			b := make([]byte, len(s))
			for i := range b {
				b[i] = byte(r.Uint32())
			}
			return string(b)
		}},
	{name: "extreme", cmp: func(a, b string) int {
		switch strings.Compare(a, b) {
		case -1:
			return math.MinInt
		case 1:
			return math.MaxInt
		}
		return 0
	}, canon: same},
	{name: "from-the-end", cmp: func(a, b string) int {
		for i, j := len(a)-1, len(b)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
			if a[i] != b[j] {
				return int(a[i]) - int(b[j])
			}
		}
		return len(a) - len(b)
	}, canon: same},
	{name: "all-equal", cmp: func(a, b string) int { return 0 }, canon: func(string) string { return "" },
		alt: func(r *Rand, s string) string { return randText(r, r.IntN(4)) }},
	{name: "first-byte", cmp: func(a, b string) int { return firstByte(a) - firstByte(b) },
		canon: func(s string) string {
			if s == "" {
				return ""
			}
			return s[:1]
		},
		alt: func(r *Rand, s string) string {
			if s == "" {
				return ""
			}
			return s[:1] + randText(r, r.IntN(3))
		}},
}

func firstByte(s string) int {
	if s == "" {
		return -1
	}
	return int(s[0])
}

const textAlphabet = "abcABC01.\\\"'%{}|<>-> \n\t\x00\x7f\x80\xff\xc3\xa9z"

var realTexts = []string{"key", "Key", "KEY", "key1", "key10", "key2", "0", "00", "1", "-1", "1.5", "1e3", "0x10", "true", "null", "none", "NaN", "a b", " a", "a ", "a\n", "a\x00",
	"\xef\xbb\xbf", "\u00e9", "e\u0301", "\u00df", "ss", "SS", "\u0130", "i", "I", "\u0131", "\u212a", "k", "K", "\u01c5", "\u03c2", "\u03c3", "\u03a3", "\U0001f600", "\xed\xa0\x80",
	"example.com", "www.example.com", "192.168.0.1", "/usr/bin", "http://a/b?c=d&e#f", "%s", "%d%!", "${x}", "<b>", "{{.}}", "'", "\"", "`", "\\", "\\n"}

func randText(r *Rand, n int) string {
	if n > 0 && r.pct(10) {
		return pick(r, realTexts)
	}
	b := make([]byte, n)
	for i := range b {
		if r.pct(70) {
			b[i] = textAlphabet[r.IntN(len(textAlphabet))]
		} else {
			b[i] = byte(r.Uint32())
		}
	}
	if string(b) == "nil" {
		// without a value its node in a dump has the label of an absent child
		return "nul"
	}
	return string(b)
}

type strTree[T, V any] interface {
	comparable
	Insert(string, V) T
	InplaceInsert(string, V)
	Get(string) (V, bool)
	Delete(string) (T, bool)
	IsEmpty() bool
	Dot() string
}

// counter counts comparisons made, if given.
func mkStr[T strTree[T, V], V any](name string, bits int, ck cmpKind, count *int, newDef func() T, newCmp func(func(a, b string) int) T,
	open func(T) func() (string, any, bool)) *Fam {
	h := func(x any) T { return x.(T) }
	val := func(v any) V {
		if v == nil {
			var z V
			return z
		}
		return v.(V)
	}
	var zero any
	if bits > 0 {
		var z V
		zero = z
	}
	cmp := ck.cmp
	if cmp == nil {
		cmp = strings.Compare
	}
	f := &Fam{
		Name: name + "/" + ck.name, Group: "str", Bits: bits, Zero: zero, Stable: true,
		Less: func(a, b string) bool { return cmp(a, b) < 0 },
		New: func() any {
			if ck.cmp == nil && count == nil {
				return newDef()
			}
			if count != nil {
				return newCmp(func(a, b string) int { *count++; return cmp(a, b) })
			}
			return newCmp(cmp)
		},
		Ins: func(t, raw, v any) any { return h(t).Insert(raw.(string), val(v)) },
		Inp: func(t, raw, v any) any { h(t).InplaceInsert(raw.(string), val(v)); return t },
		Dels: []DelOp{{"Delete", false, func(t, raw any) (any, bool) {
			r, ok := h(t).Delete(raw.(string))
			return r, ok
		}}},
		Gets: []GetOp{{"Get", modeExact, func(t, raw any) (any, bool) {
			v, ok := h(t).Get(raw.(string))
			return v, ok
		}}},
		Enums: []EnumOp{{"Enumerate", func(t any, max int) (out []Entry, over bool) {
			next := open(h(t))
			for {
				k, v, ok := next()
				if !ok {
					return out, false
				}
				if len(out) >= max {
					return out, true
				}
				out = append(out, Entry{ck.canon(k), v})
			}
		}}},
		Open: func(t any) func() (Entry, bool) {
			next := open(h(t))
			return func() (Entry, bool) {
				k, v, ok := next()
				if !ok {
					return Entry{}, false
				}
				return Entry{ck.canon(k), v}, true
			}
		},
		Empty:  func(t any) bool { return h(t).IsEmpty() },
		Dot:    func(t any) string { return h(t).Dot() },
		DotKey: func(k string) string { return ck.canon(k) },
	}
	if count == nil {
		f.other = func(r *Rand) *Fam {
			return mkStr(name, bits, cmpKinds[pick(r, []int{0, 1, 2, 2, 3, 5, 6})], nil, newDef, newCmp, open)
		}
	}
	if ck.cmp == nil && count == nil {
		f.Nil = func() any { var t T; return t }
	}
	if ck.alt != nil {
		f.Spelled = func(t any, max int) (out []string) {
			for next := open(h(t)); len(out) < max; {
				k, _, ok := next()
				if !ok {
					break
				}
				out = append(out, k)
			}
			return
		}
	}
	key := func(r *Rand, s string) Key {
		k := Key{Canon: ck.canon(s), Raws: []any{s}}
		if ck.alt != nil {
			for i := 0; i < 3; i++ {
				k.Raws = append(k.Raws, ck.alt(r, s))
			}
		}
		return k
	}
	f.Cluster = func(r *Rand, n int) []Key {
		out := []Key{}
		set := map[string]bool{}
		base := randText(r, r.IntN(6))
		for tries := 0; len(out) < n && tries < 10*n; tries++ {
			var s string
			switch r.IntN(5) {
			case 0:
				s = base[:r.IntN(len(base)+1)]
			case 1:
				s = base + randText(r, r.IntN(4))
			case 2:
				s = randText(r, r.IntN(12))
			case 3:
				s = randText(r, 1+r.IntN(2))
			case 4:
				s = strings.Repeat("k", r.IntN(n*2+2))
			}
			if r.pct(2) {
				// long ones
				s = base + strings.Repeat(pick(r, []string{"l", "m\x00"}), pick(r, []int{60, 127, 128, 129, 254, 255, 256, 257, 1000, 4096, 32768, 65536, 70000})) + randText(r, r.IntN(2))
			}
			k := key(r, s)
			if !set[k.Canon] {
				set[k.Canon] = true
				out = append(out, k)
			}
		}
		return out
	}
	f.Near = func(r *Rand, keys []Key) Key {
		if len(keys) == 0 || r.pct(10) {
			return key(r, randText(r, r.IntN(8)))
		}
		s := pick(r, keys).raw(r).(string)
		switch r.IntN(5) {
		case 0:
			return key(r, s+randText(r, 1))
		case 1:
			return key(r, s[:r.IntN(len(s)+1)])
		case 2:
			if len(s) > 0 {
				b := []byte(s)
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
				return key(r, string(b))
			}
		case 3:
			return key(r, randText(r, 1)+s)
		}
		return key(r, s)
	}
	f.Universe = func(r *Rand, idx int) []Key {
		out := []Key{}
		if ck.name == "all-equal" {
			return append(out, key(r, "a"))
		}
		base := randText(r, idx%4)
		for i := 0; i < 7; i++ {
			var s string
			switch ck.name {
			case "first-byte":
				s = string([]byte{byte(i*17 + idx)}) + base
			case "length-only":
				s = strings.Repeat("q", i)
			default:
				s = base + []string{"", "\x00", "A", "b", "bb", "\xff", "c0"}[i]
			}
			out = append(out, key(r, s))
		}
		return out
	}
	f.Many = func(r *Rand, n int) []Key {
		out := []Key{}
		set := map[string]bool{}
		mode := r.IntN(3)
		for i := 0; i < n; i++ {
			var s string
			switch ck.name {
			case "length-only":
				s = strings.Repeat("z", i%1500)
			case "first-byte":
				s = string([]byte{byte(i)})
			default:
				switch mode {
				case 0:
					s = randText(r, 1+r.IntN(12))
				case 1:
					s = "key-" + string([]byte{'a' + byte(i>>16&15), 'a' + byte(i>>12&15), 'a' + byte(i>>8&15), 'a' + byte(i>>4&15), 'a' + byte(i&15)})
				case 2:
					b := make([]byte, 3)
					for j := range b {
						b[j] = byte(r.Uint32())
					}
					s = string(b)
				}
			}
			k := key(r, s)
			if !set[k.Canon] {
				set[k.Canon] = true
				out = append(out, k)
			}
		}
		return out
	}
	f.Sort = func(keys []Key) {
		sort.SliceStable(keys, func(i, j int) bool { return f.Less(keys[i].Canon, keys[j].Canon) })
	}
	return f
}

func famStrGen(ck cmpKind, count *int) *Fam {
	return mkStr[*strtree.Tree, any]("strtree.Tree", 0, ck, count, strtree.NewTree,
		func(c func(a, b string) int) *strtree.Tree { return strtree.NewTreeWithCustomComparison(c) },
		func(t *strtree.Tree) func() (string, any, bool) {
			ch := t.Enumerate()
			return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		})
}

func famStrTyped(bits int, ck cmpKind, count *int) *Fam {
	switch bits {
	case 8:
		return mkStr[*strtree8.Tree, uint8]("uintX/strtree8.Tree", 8, ck, count, strtree8.NewTree,
			func(c func(a, b string) int) *strtree8.Tree { return strtree8.NewTreeWithCustomComparison(c) },
			func(t *strtree8.Tree) func() (string, any, bool) {
				ch := t.Enumerate()
				return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
			})
	case 16:
		return mkStr[*strtree16.Tree, uint16]("uintX/strtree16.Tree", 16, ck, count, strtree16.NewTree,
			func(c func(a, b string) int) *strtree16.Tree { return strtree16.NewTreeWithCustomComparison(c) },
			func(t *strtree16.Tree) func() (string, any, bool) {
				ch := t.Enumerate()
				return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
			})
	case 32:
		return mkStr[*strtree32.Tree, uint32]("uintX/strtree32.Tree", 32, ck, count, strtree32.NewTree,
			func(c func(a, b string) int) *strtree32.Tree { return strtree32.NewTreeWithCustomComparison(c) },
			func(t *strtree32.Tree) func() (string, any, bool) {
				ch := t.Enumerate()
				return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
			})
	}
	return mkStr[*strtree64.Tree, uint64]("uintX/strtree64.Tree", 64, ck, count, strtree64.NewTree,
		func(c func(a, b string) int) *strtree64.Tree { return strtree64.NewTreeWithCustomComparison(c) },
		func(t *strtree64.Tree) func() (string, any, bool) {
			ch := t.Enumerate()
			return func() (string, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		})
}

// typedStrFams are the typed trees with a selection of comparisons.
func typedStrFams() []*Fam {
	out := []*Fam{}
	for i, kinds := range [][]string{{"reversed", "length-only"}, {"length-then-bytes", "all-equal"}, {"extreme"}, {"from-the-end"}} {
		for _, k := range append([]string{"default", "nocase", "first-byte"}, kinds...) {
			out = append(out, famStrTyped(8<<i, cmpNamed(k), nil))
		}
	}
	return out
}

func cmpNamed(name string) cmpKind {
	for _, ck := range cmpKinds {
		if ck.name == name {
			return ck
		}
	}
	panic("no comparison " + name)
}

// everyStrFams are all trees with all comparisons.
func everyStrFams() []*Fam {
	out := []*Fam{}
	for i, ck := range cmpKinds {
		out = append(out, famStrGen(ck, nil))
		for w := 0; w < 4; w++ {
			out = append(out, famStrTyped(8<<((w+i)%4), ck, nil))
			if w == 1 {
				out = append(out, famStrGen(ck, nil))
			}
		}
	}
	return out
}

func strFams() []*Fam {
	out := []*Fam{}
	for _, ck := range cmpKinds {
		out = append(out, famStrGen(ck, nil))
	}
	return append(out, typedStrFams()...)
}
