package main

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/infobloxopen/go-trees/iptree"
	"github.com/infobloxopen/go-trees/uintX/iptree16"
	"github.com/infobloxopen/go-trees/uintX/iptree32"
	"github.com/infobloxopen/go-trees/uintX/iptree64"
	"github.com/infobloxopen/go-trees/uintX/iptree8"
)

// ipRaw is a key of an IP tree: either a network or an address.
type ipRaw struct {
	n  *net.IPNet
	ip net.IP
}

func (x ipRaw) String() string {
	if x.n != nil {
		ones, _ := x.n.Mask.Size()
		return fmt.Sprintf("net(%x/%d)", []byte(x.n.IP), ones)
	}
	return fmt.Sprintf("ip(%x)", []byte(x.ip))
}

type ipTree[T, V any] interface {
	comparable
	InsertNet(*net.IPNet, V) T
	InplaceInsertNet(*net.IPNet, V)
	InsertIP(net.IP, V) T
	InplaceInsertIP(net.IP, V)
	GetByNet(*net.IPNet) (V, bool)
	GetByIP(net.IP) (V, bool)
	DeleteByNet(*net.IPNet) (T, bool)
	DeleteByIP(net.IP) (T, bool)
}

// bitsOf renders the leading n bits of b.
func bitsOf(b []byte, n int) string {
	out := make([]byte, n)
	for i := range out {
		out[i] = '0' + b[i/8]>>(7-uint(i%8))&1
	}
	return string(out)
}

func bytesOf(s string, size int) []byte {
	out := make([]byte, size)
	for i := 0; i < len(s); i++ {
		if s[i] == '1' {
			out[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return out
}

// netEntry maps an enumerated network to its canonical key; anything not canonical gives a key no model has.
func netEntry(n *net.IPNet, v any) Entry {
	if n == nil {
		return Entry{"nil network", v}
	}
	ones, bits := n.Mask.Size()
	if len(n.IP)*8 != bits || bits != 32 && bits != 128 || len(n.Mask) != len(n.IP) {
		return Entry{fmt.Sprintf("malformed network %x/%x", []byte(n.IP), []byte(n.Mask)), v}
	}
	for i := range n.IP {
		if n.IP[i]&^n.Mask[i] != 0 {
			return Entry{fmt.Sprintf("network with host bits %x/%d", []byte(n.IP), ones), v}
		}
	}
	p := "4:"
	if bits == 128 {
		p = "6:"
	}
	return Entry{p + bitsOf(n.IP, ones), v}
}

func mkIP[T ipTree[T, V], V any](name string, bits int, newf func() T, open func(T) func() (*net.IPNet, any, bool)) *Fam {
	h := func(x any) T { return x.(T) }
	val := func(v any) V {
		if v == nil {
			var z V
			return z
		}
		return v.(V)
	}
	var zero any
	if bits > 0 {
		var z V
		zero = z
	}
	f := &Fam{
		Name: name, Group: "ip", Bits: bits, Zero: zero, Stable: true,
		New: func() any { return newf() },
		Nil: func() any { var t T; return t },
		Ins: func(t, raw, v any) any {
			x := raw.(ipRaw)
			if x.n != nil {
				return h(t).InsertNet(x.n, val(v))
			}
			return h(t).InsertIP(x.ip, val(v))
		},
		Inp: func(t, raw, v any) any {
			x := raw.(ipRaw)
			if x.n != nil {
				h(t).InplaceInsertNet(x.n, val(v))
			} else {
				h(t).InplaceInsertIP(x.ip, val(v))
			}
			return t
		},
		Dels: []DelOp{{"Delete", true, func(t, raw any) (any, bool) {
			x := raw.(ipRaw)
			var r T
			var ok bool
			if x.n != nil {
				r, ok = h(t).DeleteByNet(x.n)
			} else {
				r, ok = h(t).DeleteByIP(x.ip)
			}
			return r, ok
		}}},
		Gets: []GetOp{{"Get", modeLPM, func(t, raw any) (any, bool) {
			x := raw.(ipRaw)
			var v V
			var ok bool
			if x.n != nil {
				v, ok = h(t).GetByNet(x.n)
			} else {
				v, ok = h(t).GetByIP(x.ip)
			}
			return v, ok
		}}},
		Enums: []EnumOp{{"Enumerate", func(t any, max int) (out []Entry, over bool) {
			next := open(h(t))
			for {
				n, v, ok := next()
				if !ok {
					return out, false
				}
				if len(out) >= max {
					return out, true
				}
				out = append(out, netEntry(n, v))
			}
		}}},
		Open: func(t any) func() (Entry, bool) {
			next := open(h(t))
			return func() (Entry, bool) {
				n, v, ok := next()
				if !ok {
					return Entry{}, false
				}
				return netEntry(n, v), true
			}
		},
	}
	f.ipGet = func(t any, x ipRaw, isNet bool) (any, bool) {
		var v V
		var ok bool
		if isNet {
			v, ok = h(t).GetByNet(x.n)
		} else {
			v, ok = h(t).GetByIP(x.ip)
		}
		return v, ok
	}
	f.ipDel = func(t any, x ipRaw, isNet bool) (any, bool) {
		var r T
		var ok bool
		if isNet {
			r, ok = h(t).DeleteByNet(x.n)
		} else {
			r, ok = h(t).DeleteByIP(x.ip)
		}
		return r, ok
	}
	f.ipIns = func(t any, x ipRaw, isNet bool, v any) any {
		if isNet {
			return h(t).InsertNet(x.n, val(v))
		}
		return h(t).InsertIP(x.ip, val(v))
	}
	f.ipInp = func(t any, x ipRaw, isNet bool, v any) {
		if isNet {
			h(t).InplaceInsertNet(x.n, val(v))
		} else {
			h(t).InplaceInsertIP(x.ip, val(v))
		}
	}
	ipKeys(f)
	return f
}

var hot128 = []int{0, 1, 16, 31, 32, 33, 48, 62, 63, 64, 65, 66, 95, 96, 97, 126, 127, 128}

func ipKey(r *Rand, canon string) Key {
	fam, s := canon[:2], canon[2:]
	size := 4
	if fam == "6:" {
		size = 16
	}
	mask := net.CIDRMask(len(s), size*8)
	out := Key{Canon: canon}
	b := bytesOf(s, size)
	out.Raws = append(out.Raws, ipRaw{n: &net.IPNet{IP: b, Mask: mask}})
	if len(s) < size*8 {
		// host bits are to be ignored
		noisy := make([]byte, size)
		ones := make([]byte, size)
		for i := range noisy {
			noisy[i] = b[i] | byte(r.Uint32())&^mask[i]
			ones[i] = b[i] | ^mask[i]
		}
		out.Raws = append(out.Raws, ipRaw{n: &net.IPNet{IP: noisy, Mask: mask}}, ipRaw{n: &net.IPNet{IP: ones, Mask: mask}})
	} else if size == 4 {
		out.Raws = append(out.Raws, ipRaw{ip: net.IP(b)}, ipRaw{ip: net.IPv4(b[0], b[1], b[2], b[3])})
	} else if net.IP(b).To4() == nil {
		out.Raws = append(out.Raws, ipRaw{ip: net.IP(b)})
	}
	return out
}

var realNets = []string{
	"0.0.0.0/8", "10.0.0.0/8", "100.64.0.0/10", "127.0.0.0/8", "127.0.0.1/32", "169.254.0.0/16", "172.16.0.0/12", "192.0.0.0/24",
	"192.0.2.0/24", "192.88.99.0/24", "192.168.0.0/16", "198.18.0.0/15", "224.0.0.0/4", "224.0.0.1/32", "240.0.0.0/4", "255.255.255.255/32",
	"128.0.0.0/1", "8.8.8.8/32", "0.0.0.0/32", "::/128", "::1/128", "::/96", "::ffff:0:0/96", "64:ff9b::/96", "100::/64", "2000::/3", "2001::/32",
	"2001:db8::/32", "2002::/16", "3ffe::/16", "fc00::/7", "fd00::/8", "fe80::/10", "fe80::/64", "fec0::/10", "ff00::/8", "ff02::1/128", "8000::/1",
	"2001:db8:0:1::/64", "2001:db8::ffff:ffff:ffff:ffff/128", "::8000:0:0:0/65",
}

// realAddr makes the bits of an address, some of the time one of a well-known network.
func realAddr(r *Rand, size int) string {
	s := randBits(r, size)
	if r.pct(65) {
		return s
	}
	for {
		_, n, err := net.ParseCIDR(pick(r, realNets))
		if err != nil {
			panic(err)
		}
		if ones, bits := n.Mask.Size(); bits == size {
			s = bitsOf(n.IP, ones) + s[ones:]
			break
		}
	}
	if r.pct(30) {
		// and written by somebody: zeros and a small number
		l := r.IntN(size - 7)
		s = s[:l] + strings.Repeat("0", size-8-l) + s[size-8:]
	}
	return s
}

var v4mapped = bitsOf([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, 96)

func ipKeys(f *Fam) {
	f.Cluster = func(r *Rand, n int) []Key {
		canons := []string{}
		mode := r.IntN(6)
		n4, n6 := n/2, n-n/2
		switch mode {
		case 0:
			n4, n6 = n, 0
		case 1, 2:
			n4, n6 = 0, n
		}
		c4 := bitClusterFrom(r, 32, n4, hot32, realAddr(r, 32))
		for _, s := range c4 {
			canons = append(canons, "4:"+s)
		}
		c6 := bitClusterFrom(r, 128, n6, hot128, realAddr(r, 128))
		for i, s := range c6 {
			if mode == 3 && i < len(c4) {
				// the IPv6 twins of IPv4 networks: same leading bits, or IPv4-mapped
				s = c4[i]
				if r.pct(50) {
					s = v4mapped + c4[i]
				}
			}
			if mode == 4 && len(s) >= 64 && r.pct(60) {
				// share the upper half so that lower halves meet in one subtree
				s = c6[0] + s
				if len(s) > 128 {
					s = s[:128]
				}
			}
			canons = append(canons, "6:"+s)
		}
		out := []Key{}
		set := map[string]bool{}
		for _, s := range canons {
			if !set[s] {
				set[s] = true
				out = append(out, ipKey(r, s))
			}
		}
		return out
	}
	f.Universe = func(r *Rand, idx int) []Key {
		out := []Key{}
		pre, size, hot := "6:", 128, hot128
		if idx%4 == 3 {
			pre, size, hot = "4:", 32, hot32
		}
		for _, s := range bitUniverse(r, size, hot, idx/4*3+idx%4) {
			out = append(out, ipKey(r, pre+s))
		}
		return out
	}
	f.Chain = func(r *Rand) []Key {
		out := []Key{}
		for _, x := range []struct {
			pre  string
			size int
		}{{"4:", 32}, {"6:", 128}} {
			for _, s := range bitChain(r, x.size) {
				out = append(out, ipKey(r, x.pre+s))
			}
		}
		return out
	}
	f.Many = func(r *Rand, n int) []Key {
		out := []Key{}
		for _, s := range bitMany(r, 32, n/2) {
			out = append(out, ipKey(r, "4:"+s))
		}
		for _, s := range bitMany(r, 128, n-n/2) {
			out = append(out, ipKey(r, "6:"+s))
		}
		return out
	}
	f.Sort = func(keys []Key) {
		sort.SliceStable(keys, func(i, j int) bool { return keys[i].Canon < keys[j].Canon })
	}
	f.Near = func(r *Rand, keys []Key) Key {
		if len(keys) == 0 || r.pct(5) {
			if r.pct(50) {
				return ipKey(r, "4:"+randBits(r, r.IntN(33)))
			}
			return ipKey(r, "6:"+randBits(r, r.IntN(129)))
		}
		c := pick(r, keys).Canon
		fam, s := c[:2], c[2:]
		size := 32
		if fam == "6:" {
			size = 128
		}
		if r.pct(4) {
			// the same bits in the other family
			if fam == "4:" {
				if r.pct(50) {
					return ipKey(r, "6:"+v4mapped+s)
				}
				return ipKey(r, "6:"+s)
			}
			if len(s) > 32 {
				s = s[:32]
			}
			return ipKey(r, "4:"+s)
		}
		if size == 128 && r.pct(20) {
			// move around the middle
			l := 60 + r.IntN(9)
			if l <= len(s) {
				return ipKey(r, fam+s[:l])
			}
			return ipKey(r, fam+s+randBits(r, l-len(s)))
		}
		return ipKey(r, fam+nearBits(r, s, size))
	}
}

func famIPGen() *Fam {
	return mkIP[*iptree.Tree, any]("iptree.Tree", 0, iptree.NewTree, func(t *iptree.Tree) func() (*net.IPNet, any, bool) {
		ch := t.Enumerate()
		return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
	})
}

func typedIPFams() []*Fam {
	return []*Fam{
		mkIP[*iptree8.Tree, uint8]("uintX/iptree8.Tree", 8, iptree8.NewTree, func(t *iptree8.Tree) func() (*net.IPNet, any, bool) {
			ch := t.Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		}),
		mkIP[*iptree16.Tree, uint16]("uintX/iptree16.Tree", 16, iptree16.NewTree, func(t *iptree16.Tree) func() (*net.IPNet, any, bool) {
			ch := t.Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		}),
		mkIP[*iptree32.Tree, uint32]("uintX/iptree32.Tree", 32, iptree32.NewTree, func(t *iptree32.Tree) func() (*net.IPNet, any, bool) {
			ch := t.Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		}),
		mkIP[*iptree64.Tree, uint64]("uintX/iptree64.Tree", 64, iptree64.NewTree, func(t *iptree64.Tree) func() (*net.IPNet, any, bool) {
			ch := t.Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		}),
	}
}

func ipFams() []*Fam { return append([]*Fam{famIPGen()}, typedIPFams()...) }

func ipOpens() []ipOpen {
	return []ipOpen{
		func(h any) func() (*net.IPNet, any, bool) {
			ch := h.(*iptree.Tree).Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		},
		func(h any) func() (*net.IPNet, any, bool) {
			ch := h.(*iptree8.Tree).Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		},
		func(h any) func() (*net.IPNet, any, bool) {
			ch := h.(*iptree16.Tree).Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		},
		func(h any) func() (*net.IPNet, any, bool) {
			ch := h.(*iptree32.Tree).Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		},
		func(h any) func() (*net.IPNet, any, bool) {
			ch := h.(*iptree64.Tree).Enumerate()
			return func() (*net.IPNet, any, bool) { p, ok := <-ch; return p.Key, p.Value, ok }
		},
	}
}
