package main

import (
	"fmt"
	"math"
	"net"
	"reflect"
	"strings"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/numtree"
	"github.com/infobloxopen/go-trees/strtree"
	"github.com/infobloxopen/go-trees/uintX/iptree32"
)

// Key is a key of a tree in all its spellings. Canon identifies it: two keys are the same iff their Canon is equal and
// in the covering trees a contains b iff a.Canon is a string prefix of b.Canon.
type Key struct {
	Canon string
	Raws  []any
}

func (k Key) raw(r *Rand) any { return k.Raws[r.IntN(len(k.Raws))] }

type Entry struct {
	Canon string
	Val   any
}

type GetMode int

const (
	modeLPM GetMode = iota
	modeExact
)

type DelOp struct {
	Name string
	Sub  bool // removes everything the key covers, not only the key itself
	Fn   func(h, raw any) (any, bool)
}

type GetOp struct {
	Name string
	Mode GetMode
	Fn   func(h, raw any) (any, bool)
}

type EnumOp struct {
	Name string
	// Fn drains an enumeration, up to max entries; over tells that there were more.
	Fn func(h any, max int) (out []Entry, over bool)
}

// Fam is a tree type under test seen through its public API.
type Fam struct {
	Name   string
	Group  string // num, ip, str, lab, dom
	Bits   int    // width of typed values, 0 for generic trees
	Zero   any    // value expected on a miss
	New    func() any
	Nil    func() any // typed nil handle, or nil func if not applicable
	Ins    func(h, raw, v any) any
	Inp    func(h, raw, v any) any
	Dels   []DelOp
	Gets   []GetOp
	Enums  []EnumOp
	Less   func(a, b string) bool // documented order of enumeration, nil if none
	Stable bool                   // repeated enumerations must give the same sequence
	Empty  func(h any) bool       // nil if not offered
	Dot    func(h any) string     // nil if not offered
	// Spelled gives the keys of an enumeration as they are shown, where equal keys may be spelled differently.
	Spelled func(h any, max int) []string
	// Open starts an enumeration to be pulled one by one. OpenRaw is the second kind of enumeration if there is one.
	Open, OpenRaw func(h any) func() (Entry, bool)
	// Cluster makes up to n related keys which stress the structure.
	Cluster func(r *Rand, n int) []Key
	// Near makes a key related to the given ones, for queries.
	Near func(r *Rand, keys []Key) Key
	// for IP trees: operations on keys of any form
	ipGet func(h any, x ipRaw, isNet bool) (any, bool)
	ipDel func(h any, x ipRaw, isNet bool) (any, bool)
	ipIns func(h any, x ipRaw, isNet bool, v any) any
	ipInp func(h any, x ipRaw, isNet bool, v any)
	// Universe makes at most 7 closely related keys for exhaustive subsets.
	Universe func(r *Rand, idx int) []Key
	// Chain makes keys each covering the next one, as many as possible (covering trees only).
	Chain func(r *Rand) []Key
	// Many makes up to n keys cheaply.
	Many func(r *Rand, n int) []Key
	// Sort puts keys in the order of the tree.
	Sort func(keys []Key)
	// DotKey maps a key of a dump to its canonical form (flat trees only).
	DotKey func(k string) string
	// other gives the same trees with another comparison (string trees only).
	other func(r *Rand) *Fam
}

// famOf gives the trees of a case. String trees come with other comparisons at times: how each type of
// tree and each operation works with each comparison isn't for one section only.
func famOf(fams []*Fam, c *C) *Fam {
	f := fams[c.Idx%len(fams)]
	if f.other != nil && c.R.pct(40) {
		f = f.other(c.R)
	}
	return f
}

func (f *Fam) flat() bool { return f.Group == "str" || f.Group == "lab" }

// val makes the n-th value of a history.
func (f *Fam) val(r *Rand, n int, exotic bool) any {
	switch f.Bits {
	case 8:
		if r.pct(10) {
			return pick(r, []uint8{0, 255, 128, 127, 1})
		}
		return uint8(n*37 + 1)
	case 16:
		if r.pct(10) {
			return pick(r, []uint16{0, 65535, 1 << 15, 255, 256, 0xff00})
		}
		return uint16(n*40503 + 7)
	case 32:
		if r.pct(10) {
			return pick(r, []uint32{0, math.MaxUint32, 1 << 31, 1 << 16, 1 << 8, 255, 256, 65535, 65536})
		}
		return uint32(uint32(n)*2654435769 + 11)
	case 64:
		if r.pct(10) {
			return pick(r, []uint64{0, math.MaxUint64, 1 << 63, 1 << 32, 1<<32 - 1, 1 << 16, 1 << 8, 255, 256, 65535, 65536, 1 << 31})
		}
		return uint64(n)*0x9E3779B97F4A7C15 + 13
	}
	if !exotic && r.pct(8) {
		// stored nil and zero values count as present
		return pick(r, []any{nil, nil, 0, "", false})
	}
	if exotic && r.pct(50) {
		switch r.IntN(15) {
		case 13, 14:
			return libraryValue(r)
		case 11:
			// looks the same as others and has an identity of its own
			return &struct{ a, b int }{1, n % 2}
		case 12:
			return pick(r, []any{[]int{1}, map[string]int{"n": 1}, []byte{}, &[]string{"x"}})
		case 9:
			return touchy{n}
		case 10:
			return false
		case 0:
			return nil
		case 1:
			return []int{n}
		case 2:
			return map[string]int{"n": n}
		case 3:
			return func() int { return n }
		case 4:
			return math.Float64frombits(0x7ff8000000000000 + uint64(n) + 1)
		case 5:
			return ""
		case 6:
			return (*int)(nil)
		case 7:
			return [3][]byte{{1}, nil, {byte(n)}}
		case 8:
			return &struct{ a, b int }{n, n}
		}
	}
	return n
}

// libraryValue makes a value of one of the library's own types, which trees use inside; trees within trees are common.
func libraryValue(r *Rand) any {
	n64 := (*numtree.Node64)(nil).Insert(r.Uint64(), r.IntN(65), 1)
	net4 := &net.IPNet{IP: net.IP{10, 0, 0, 0}, Mask: net.CIDRMask(8, 32)}
	switch r.IntN(17) {
	case 0:
		return n64
	case 1:
		return (*numtree.Node64)(nil)
	case 2:
		return (*numtree.Node32)(nil)
	case 3:
		return (*numtree.Node32)(nil).Insert(r.Uint32(), r.IntN(33), 1)
	case 4:
		return iptree.NewTree().InsertNet(net4, 1)
	case 5:
		return strtree.NewTree().Insert("k", 1)
	case 6:
		return dltree.NewTree()
	case 7:
		return dltree.NewTree().RawInsert("K", 1)
	case 8:
		return (&domaintree.Node{}).Insert(domain.Name{}, 1)
	case 9:
		return (*domaintree.Node)(nil)
	case 10:
		return domain.Name{}
	case 11:
		return iptree.Pair{Key: net4, Value: 1}
	case 12:
		return net4
	case 13:
		return iptree32.NewTree()
	case 14:
		return (&numtree.Node32{})
	case 15:
		return make(chan int)
	}
	return domain.ErrInvalidEscape
}

// touchy is a value nobody but its owner may look into.
type touchy struct{ n int }

func (touchy) String() string   { panic("String of a stored value was called") }
func (touchy) GoString() string { panic("GoString of a stored value was called") }
func (touchy) Error() string    { panic("Error of a stored value was called") }

// twin makes another value that looks the same.
func twin(v any) (any, bool) {
	if v == nil {
		return nil, false
	}
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() || x.Type().Elem().Size() == 0 {
			return nil, false
		}
		n := reflect.New(x.Type().Elem())
		n.Elem().Set(x.Elem())
		return n.Interface(), true
	case reflect.Slice:
		if x.Len() == 0 {
			return nil, false
		}
		n := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
		reflect.Copy(n, x)
		return n.Interface(), true
	case reflect.Map:
		n := reflect.MakeMap(x.Type())
		for _, k := range x.MapKeys() {
			n.SetMapIndex(k, x.MapIndex(k))
		}
		return n.Interface(), true
	}
	return nil, false
}

// sameVal compares values by identity without panicking on incomparable ones.
func sameVal(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	switch x := a.(type) {
	case int:
		return x == b.(int)
	case uint8:
		return x == b.(uint8)
	case uint16:
		return x == b.(uint16)
	case uint32:
		return x == b.(uint32)
	case uint64:
		return x == b.(uint64)
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64))
	case [3][]byte:
		y := b.([3][]byte)
		for i := range x {
			if len(x[i]) != len(y[i]) || len(x[i]) > 0 && &x[i][0] != &y[i][0] {
				return false
			}
		}
		return true
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Slice, reflect.Map, reflect.Func:
		return va.Pointer() == vb.Pointer()
	}
	return a == b
}

func showVal(v any) string {
	if v == nil {
		return "nil"
	}
	switch reflect.TypeOf(v).Kind() {
	case reflect.Func, reflect.Map, reflect.Slice, reflect.Ptr:
		return fmt.Sprintf("%T@%x", v, reflect.ValueOf(v).Pointer())
	}
	return fmt.Sprintf("%#v", v)
}

// Model is the sequential reference: canonical key -> value.
type Model map[string]any

func (m Model) clone() Model {
	out := make(Model, len(m)+1)
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (m Model) get(f *Fam, mode GetMode, q string) (any, bool) {
	if mode == modeExact || f.flat() {
		v, ok := m[q]
		return v, ok
	}
	for l := len(q); l >= 0; l-- {
		if v, ok := m[q[:l]]; ok {
			return v, ok
		}
	}
	return nil, false
}

// del removes in place and returns the number of removed entries.
func (m Model) del(f *Fam, sub bool, q string) int {
	if !sub || f.flat() {
		if _, ok := m[q]; ok {
			delete(m, q)
			return 1
		}
		return 0
	}
	n := 0
	for k := range m {
		if strings.HasPrefix(k, q) {
			delete(m, k)
			n++
		}
	}
	return n
}

func (m Model) String() string {
	s := []string{}
	for i, k := range sortedKeys(m) {
		if i > 40 {
			s = append(s, fmt.Sprintf("... %d in all", len(m)))
			break
		}
		s = append(s, fmt.Sprintf("%s=%s", showCanon(k), showVal(m[k])))
	}
	return "{" + strings.Join(s, ", ") + "}"
}

func showCanon(k string) string {
	if len(k) > 70 {
		return fmt.Sprintf("%q..(%d)", k[:70], len(k))
	}
	return fmt.Sprintf("%q", k)
}

// signature is a compact description of a state for counting distinct ones.
func (m Model) signature() string {
	return strings.Join(sortedKeys(m), "\x00")
}

func drain[P any](ch chan P, max int, f func(P)) bool {
	n := 0
	for p := range ch {
		if n++; n > max {
			return true
		}
		f(p)
	}
	return false
}

// open starts an enumeration of one of the kinds the family has.
func (f *Fam) open(r *Rand, h any) func() (Entry, bool) {
	if f.OpenRaw != nil && r.pct(50) {
		return f.OpenRaw(h)
	}
	return f.Open(h)
}
