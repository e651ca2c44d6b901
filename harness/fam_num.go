package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/infobloxopen/go-trees/numtree"
)

type numRaw struct {
	key  uint64
	bits int
}

// farBits are powers of two far out of the range of bit counts.
var farBits = []int{7, 8, 15, 16, 31, 32, 40, 62}

func init() {
	if strconv.IntSize == 32 {
		farBits = []int{7, 8, 15, 16, 24, 28, 29, 30}
	}
}

func (n numRaw) String() string { return fmt.Sprintf("%#x/%d", n.key, n.bits) }

// bitString gives the leading n bits of key (of the given size).
func bitString(key uint64, size, n int) string {
	if n < 0 {
		n = 0
	}
	if n > size {
		n = size
	}
	var b [64]byte
	for i := 0; i < n; i++ {
		b[i] = '0'
		if key&(1<<(uint(size)-1-uint(i))) != 0 {
			b[i] = '1'
		}
	}
	return string(b[:n])
}

func bitsToUint(s string, size int) uint64 {
	var k uint64
	for i := 0; i < len(s); i++ {
		if s[i] == '1' {
			k |= 1 << (uint(size) - 1 - uint(i))
		}
	}
	return k
}

func numKey(r *Rand, size int, canon string) Key {
	k := bitsToUint(canon, size)
	out := Key{Canon: canon, Raws: []any{numRaw{k, len(canon)}}}
	if len(canon) < size {
		noise := r.Uint64()
		if size == 32 {
			noise &= 0xffffffff
		}
		low := uint64(1)<<(uint(size)-uint(len(canon))) - 1
		if len(canon) == 0 {
			low = ^uint64(0)
			if size == 32 {
				low = 0xffffffff
			}
		}
		out.Raws = append(out.Raws, numRaw{k | noise&low, len(canon)}, numRaw{k | low, len(canon)})
	}
	if len(canon) == 0 {
		out.Raws = append(out.Raws, numRaw{r.Uint64() & 0xffffffff, -1 - r.IntN(300)}, numRaw{0, -256},
			numRaw{k, -(1 << pick(r, farBits)) - r.IntN(3)*r.IntN(size)}, numRaw{k, math.MinInt + r.IntN(size+1)})
	}
	if len(canon) == size {
		out.Raws = append(out.Raws, numRaw{k, size + 1 + r.IntN(300)}, numRaw{k, size + 256 - r.IntN(size)},
			numRaw{k, 1<<pick(r, farBits) + r.IntN(2*size)}, numRaw{k, math.MaxInt - r.IntN(size+1)})
	}
	return out
}

var realBytes = []byte{0, 0, 0, 1, 2, 10, 100, 127, 128, 172, 192, 168, 224, 254, 255, 255, 255, 0xfc, 0xfe, 0x20, 0x0d, 0xb8}

func randBits(r *Rand, n int) string {
	b := make([]byte, n)
	mode := r.IntN(9)
	if mode == 8 {
		// whole bytes as they are found in real addresses
		for i := range b {
			if i%8 == 0 {
				copy(b[i:], bitsOf([]byte{pick(r, realBytes)}, 8))
			}
		}
		return string(b)
	}
	for i := range b {
		switch mode {
		case 0:
			b[i] = '0'
		case 1:
			b[i] = '1'
		case 2:
			b[i] = '0' + byte(i&1)
		default:
			b[i] = '0' + byte(r.IntN(2))
		}
	}
	return string(b)
}

func flip(s string, i int) string {
	b := []byte(s)
	b[i] ^= 1
	return string(b)
}

// bitCluster makes related bit strings of up to size bits: prefixes of a common base and of bases which leave it at some bit.
func bitCluster(r *Rand, size, n int, hot []int) []string {
	return bitClusterFrom(r, size, n, hot, randBits(r, size))
}

func bitClusterFrom(r *Rand, size, n int, hot []int, base string) []string {
	bases := []string{base}
	nb := r.IntN(5)
	for i := 0; i < nb; i++ {
		b := pick(r, bases)
		p := r.IntN(size)
		if r.pct(50) {
			p = pick(r, hot)
		}
		if p >= size {
			p = size - 1
		}
		if r.pct(70) {
			b = flip(b, p)
		} else {
			b = b[:p] + randBits(r, size-p)
		}
		bases = append(bases, b)
	}
	// A few length pools: dense around a position, boundary lengths, anything.
	pos := r.IntN(size + 1)
	if r.pct(40) {
		pos = pick(r, hot)
	}
	out := []string{}
	set := map[string]bool{}
	for tries := 0; len(out) < n && tries < 20*n; tries++ {
		b := pick(r, bases)
		var l int
		switch r.IntN(5) {
		case 0:
			l = pick(r, hot)
		case 1:
			l = r.IntN(size + 1)
		case 2, 3:
			l = pos - 3 + r.IntN(7)
		case 4:
			l = size - r.IntN(3)
		}
		if l < 0 {
			l = 0
		}
		if l > size {
			l = size
		}
		s := b[:l]
		if l > 0 && r.pct(30) {
			s = flip(s, l-1)
		}
		if l > 1 && r.pct(15) {
			s = flip(s, l-2)
		}
		if !set[s] {
			set[s] = true
			out = append(out, s)
		}
	}
	return out
}

func nearBits(r *Rand, s string, size int) string {
	switch r.IntN(6) {
	case 0:
		return s
	case 1:
		return s[:r.IntN(len(s)+1)]
	case 2:
		if len(s) > 0 {
			return flip(s, r.IntN(len(s)))
		}
		return s
	case 3:
		if len(s) > 0 {
			return flip(s, len(s)-1) + randBits(r, r.IntN(size-len(s)+1))
		}
		return s
	case 4:
		return s + randBits(r, size-len(s))
	}
	return s + randBits(r, r.IntN(size-len(s)+1))
}

var hot32 = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32}
var hot64 = []int{0, 1, 2, 8, 16, 31, 32, 33, 48, 56, 62, 63, 64}

func canonLess(a, b string) bool { return a < b }

func famNum32() *Fam {
	h := func(x any) *numtree.Node32 { return x.(*numtree.Node32) }
	k := func(x any) (uint32, int) { r := x.(numRaw); return uint32(r.key), r.bits }
	canon := func(n *numtree.Node32) string { return bitString(uint64(n.Key), 32, int(n.Bits)) }
	ent := func(n *numtree.Node32) Entry {
		if !n.Leaf {
			return Entry{"not a leaf: " + canon(n), n.Value}
		}
		return Entry{canon(n), n.Value}
	}
	f := &Fam{
		Name: "numtree.Node32", Group: "num", Less: canonLess, Stable: true,
		New: func() any { return (*numtree.Node32)(nil) },
		Nil: func() any { return (*numtree.Node32)(nil) },
		Ins: func(t, raw, v any) any { key, bits := k(raw); return h(t).Insert(key, bits, v) },
		Inp: func(t, raw, v any) any { key, bits := k(raw); return h(t).InplaceInsert(key, bits, v) },
		Dels: []DelOp{{"Delete", true, func(t, raw any) (any, bool) {
			key, bits := k(raw)
			n, ok := h(t).Delete(key, bits)
			return n, ok
		}}},
		Gets: []GetOp{
			{"Match", modeLPM, func(t, raw any) (any, bool) { key, bits := k(raw); return h(t).Match(key, bits) }},
			{"ExactMatch", modeExact, func(t, raw any) (any, bool) { key, bits := k(raw); return h(t).ExactMatch(key, bits) }},
			{"FindNode", modeExact, func(t, raw any) (any, bool) {
				key, bits := k(raw)
				n := h(t).FindNode(key, bits)
				if n == nil {
					return nil, false
				}
				if e := ent(n); e.Canon != bitString(uint64(key), 32, bits) {
					return "wrong node " + e.Canon, true
				}
				return n.Value, true
			}},
		},
		Enums: []EnumOp{{"Enumerate", func(t any, max int) (out []Entry, over bool) {
			over = drain(h(t).Enumerate(), max, func(n *numtree.Node32) { out = append(out, ent(n)) })
			return
		}}},
		Open: func(t any) func() (Entry, bool) {
			ch := h(t).Enumerate()
			return func() (Entry, bool) {
				n, ok := <-ch
				if !ok {
					return Entry{}, false
				}
				return ent(n), true
			}
		},
		Dot: func(t any) string { return h(t).Dot() },
	}
	numKeys(f, 32, hot32)
	return f
}

func famNum64() *Fam {
	h := func(x any) *numtree.Node64 { return x.(*numtree.Node64) }
	k := func(x any) (uint64, int) { r := x.(numRaw); return r.key, r.bits }
	canon := func(n *numtree.Node64) string { return bitString(n.Key, 64, int(n.Bits)) }
	ent := func(n *numtree.Node64) Entry {
		if !n.Leaf {
			return Entry{"not a leaf: " + canon(n), n.Value}
		}
		return Entry{canon(n), n.Value}
	}
	f := &Fam{
		Name: "numtree.Node64", Group: "num", Less: canonLess, Stable: true,
		New: func() any { return (*numtree.Node64)(nil) },
		Nil: func() any { return (*numtree.Node64)(nil) },
		Ins: func(t, raw, v any) any { key, bits := k(raw); return h(t).Insert(key, bits, v) },
		Inp: func(t, raw, v any) any { key, bits := k(raw); return h(t).InplaceInsert(key, bits, v) },
		Dels: []DelOp{{"Delete", true, func(t, raw any) (any, bool) {
			key, bits := k(raw)
			n, ok := h(t).Delete(key, bits)
			return n, ok
		}}},
		Gets: []GetOp{
			{"Match", modeLPM, func(t, raw any) (any, bool) { key, bits := k(raw); return h(t).Match(key, bits) }},
			{"ExactMatch", modeExact, func(t, raw any) (any, bool) { key, bits := k(raw); return h(t).ExactMatch(key, bits) }},
			{"FindNode", modeExact, func(t, raw any) (any, bool) {
				key, bits := k(raw)
				n := h(t).FindNode(key, bits)
				if n == nil {
					return nil, false
				}
				if e := ent(n); e.Canon != bitString(key, 64, bits) {
					return "wrong node " + e.Canon, true
				}
				return n.Value, true
			}},
		},
		Enums: []EnumOp{{"Enumerate", func(t any, max int) (out []Entry, over bool) {
			over = drain(h(t).Enumerate(), max, func(n *numtree.Node64) { out = append(out, ent(n)) })
			return
		}}},
		Open: func(t any) func() (Entry, bool) {
			ch := h(t).Enumerate()
			return func() (Entry, bool) {
				n, ok := <-ch
				if !ok {
					return Entry{}, false
				}
				return ent(n), true
			}
		},
		Dot: func(t any) string { return h(t).Dot() },
	}
	numKeys(f, 64, hot64)
	return f
}

func numKeys(f *Fam, size int, hot []int) {
	f.Cluster = func(r *Rand, n int) []Key {
		out := []Key{}
		for _, s := range bitCluster(r, size, n, hot) {
			out = append(out, numKey(r, size, s))
		}
		return out
	}
	f.Universe = func(r *Rand, idx int) []Key {
		out := []Key{}
		for _, s := range bitUniverse(r, size, hot, idx) {
			out = append(out, numKey(r, size, s))
		}
		return out
	}
	f.Chain = func(r *Rand) []Key {
		out := []Key{}
		for _, s := range bitChain(r, size) {
			out = append(out, numKey(r, size, s))
		}
		return out
	}
	f.Many = func(r *Rand, n int) []Key {
		out := []Key{}
		for _, s := range bitMany(r, size, n) {
			out = append(out, numKey(r, size, s))
		}
		return out
	}
	f.Sort = func(keys []Key) {
		sort.SliceStable(keys, func(i, j int) bool { return keys[i].Canon < keys[j].Canon })
	}
	f.Near = func(r *Rand, keys []Key) Key {
		if len(keys) == 0 || r.pct(5) {
			return numKey(r, size, randBits(r, r.IntN(size+1)))
		}
		return numKey(r, size, nearBits(r, pick(r, keys).Canon, size))
	}
}

// bitChain makes all prefixes of a key, often together with those which leave it at every bit.
func bitChain(r *Rand, size int) []string {
	s := randBits(r, size)
	comb := r.pct(40)
	out := []string{""}
	for i := 1; i <= size; i++ {
		out = append(out, s[:i])
		if comb {
			out = append(out, flip(s[:i], i-1))
		}
	}
	return out
}

func bitUniverse(r *Rand, size int, hot []int, idx int) []string {
	off := idx % (size - 1)
	if idx >= size {
		off = pick(r, hot)
	}
	if off > size-2 {
		off = size - 2
	}
	base := randBits(r, off)
	out := []string{}
	for _, s := range []string{"", "0", "1", "00", "01", "10", "11"} {
		if idx/size%2 == 1 && len(s) == 2 && off+3 <= size {
			s += randBits(r, r.IntN(size-off-1))
		}
		out = append(out, base+s)
	}
	return out
}

func bitMany(r *Rand, size, n int) []string {
	out := []string{}
	set := map[string]bool{}
	base := randBits(r, size)
	lo := r.IntN(size - 14)
	mode := r.IntN(7)
	if (mode == 4 || mode == 6) && size == 128 && r.pct(60) {
		lo = 64 + r.IntN(64-14)
	}
	for tries := 0; len(out) < n && tries < 20*n; tries++ {
		var s string
		switch mode {
		case 3, 5: // hosts, one after another
			s = base[:size-16] + bitString(uint64(len(out))<<48, 64, 16)
		case 4, 6: // hosts of one network
			s = base[:lo] + randBits(r, size-lo)
		case 0:
			s = randBits(r, r.IntN(size+1))
		case 1: // dense counters below one base
			s = base[:lo] + bitString(uint64(len(out))<<50, 64, 14)
		case 2:
			s = base[:lo] + randBits(r, r.IntN(size-lo+1))
		}
		if !set[s] {
			set[s] = true
			out = append(out, s)
		}
	}
	return out
}

func numFams() []*Fam { return []*Fam{famNum32(), famNum64()} }

func isBits(s string) bool { return strings.Trim(s, "01") == "" }
