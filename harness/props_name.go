package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"strings"
	"syscall"

	"github.com/infobloxopen/go-trees/domain"
)

// nameLabels collects the labels of a name from the top-level one downwards.
func nameLabels(n domain.Name) []string {
	out := []string{}
	n.GetLabels(func(l string) error {
		out = append(out, l)
		return nil
	})
	return out
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func reversed(a []string) []string {
	out := make([]string, len(a))
	for i := range a {
		out[len(a)-1-i] = a[i]
	}
	return out
}

// lenientFaults looks for other broken rules of a text with a bad escape, reading the backslash of it as a plain byte;
// lengths found this way are never too small.
func lenientFaults(s string) nameFaults {
	f := nameFaults{}
	cur, total, n := 0, 0, 0
	for len(s) > 0 {
		_, k, sep, _ := unit(s)
		s = s[k:]
		if sep {
			f.empty = f.empty || cur == 0
			f.longLabel = f.longLabel || cur > 63
			total += cur + 1
			n++
			cur = 0
			continue
		}
		cur++
	}
	if cur > 0 {
		f.longLabel = f.longLabel || cur > 63
		total += cur + 1
		n++
	}
	f.longName, f.manyLabels = total > 255, n > 127
	f.escape = true
	return f
}

// judgeName judges the acceptance of a text (C13).
func (c *C) judgeName(s string) {
	labels, f := parseName(s)
	if f.escape {
		f = lenientFaults(s)
	}
	n, err := domain.MakeNameFromString(s)
	c.Ev(1)
	if !f.any() {
		if err != nil {
			c.Failf("%s was refused with %q, it is well-formed: %d labels", short(s), err, len(labels))
		}
		c.Count("accepted", 1)
		// what was accepted has to be what was written
		if got := nameLabels(n); !eqStrings(got, reversed(labels)) {
			c.Failf("%s gave the labels %q, expected %q", short(s), got, reversed(labels))
		}
		return
	}
	if err == nil {
		c.Failf("%s was accepted, faults: %s", short(s), f)
	}
	ok := f.empty && err == domain.ErrEmptyLabel || f.escape && err == domain.ErrInvalidEscape || f.longLabel && err == domain.ErrLabelTooLong ||
		f.manyLabels && err == domain.ErrTooManyLabels || f.longName && err == domain.ErrNameTooLong
	// A name with too many labels is always too long as well; the error has to be specific if there is a single reason.
	if !ok {
		c.Failf("%s was refused with %q, faults: %s", short(s), err, f)
	}
	c.Count("refused: "+f.String(), 1)
}

// judgeLabel judges the acceptance of a label's text without inner dots.
func (c *C) judgeLabel(s string) {
	rest, cur, faultEsc := s, []byte{}, false
	for len(rest) > 0 {
		b, n, sep, bad := unit(rest)
		rest = rest[n:]
		if sep {
			if len(rest) > 0 {
				return
			}
			break
		}
		faultEsc = faultEsc || bad
		cur = append(cur, b)
	}
	if len(cur) == 0 {
		return
	}
	got, err := domain.MakeLabel(s)
	c.Ev(1)
	long := len(cur) > 63
	switch {
	case faultEsc && long:
		if err != domain.ErrInvalidEscape && err != domain.ErrLabelTooLong {
			c.Failf("label %s gave %q,%v, it has a bad escape and may be too long", short(s), got, err)
		}
	case faultEsc:
		if err != domain.ErrInvalidEscape {
			c.Failf("label %s gave %q,%v, it has a bad escape", short(s), got, err)
		}
	case long:
		if err != domain.ErrLabelTooLong {
			c.Failf("label %s gave %q,%v, it has %d bytes", short(s), got, err, len(cur))
		}
	default:
		if err != nil || got != string(cur) {
			c.Failf("label %s gave %q,%v, expected %q", short(s), got, err, cur)
		}
	}
	c.Count("labels", 1)
}

const grammarAlphabet = "a.\\0256Z\xff "

// secGrammar enumerates all short texts over an alphabet which has every class of bytes; a case is one prefix of 2.
func secGrammar(tail int) (func(c *C), int) {
	k := len(grammarAlphabet)
	return func(c *C) {
		pre := []byte{grammarAlphabet[c.Idx/k], grammarAlphabet[c.Idx%k]}
		if c.Idx == 0 {
			c.judgeName("")
			for i := 0; i < 256; i++ {
				c.judgeName(string([]byte{byte(i)}))
				c.judgeLabel(string([]byte{byte(i)}))
			}
			for i := 0; i < 65536; i++ {
				c.judgeName(string([]byte{byte(i >> 8), byte(i)}))
				c.judgeName(string([]byte{'\\', byte(i >> 8), byte(i)}))
				c.judgeLabel(string([]byte{byte(i >> 8), byte(i)}))
			}
			for i := 0; i < 1000; i++ {
				c.judgeName(fmt.Sprintf("\\%03d", i))
				c.judgeName(fmt.Sprintf("a\\%03d.b", i))
				c.judgeLabel(fmt.Sprintf("\\%03d", i))
			}
		}
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			s := string(b)
			c.judgeName(s)
			c.judgeLabel(s)
			if len(s) >= 3 {
				c.SeenStr("g", s)
			}
			if left == 0 {
				return
			}
			for i := 0; i < k; i++ {
				rec(append(b[:len(b):len(b)], grammarAlphabet[i]), left-1)
			}
		}
		rec(pre, tail)
	}, k * k
}

// secLimits makes names and labels around the limits, in all styles of spelling.
func secLimits(c *C) {
	r := c.R
	style := pick(r, []int{0, 1, 3, 4, -1})
	var labels []string
	kind := c.Idx % 6
	switch kind {
	case 0: // one label around the limit
		labels = []string{randLabel(r, 60+r.IntN(8))}
		for i := r.IntN(3); i > 0; i-- {
			labels = append(labels, randLabel(r, 1+r.IntN(3)))
		}
	case 1: // total length around the limit
		total := 250 + r.IntN(12)
		max := pick(r, []int{1, 2, 10, 63})
		for total > 1 {
			n := 1 + r.IntN(max)
			if r.pct(40) {
				n = max
			}
			if n+1 > total {
				n = total - 1
			}
			labels = append(labels, randLabel(r, n))
			total -= n + 1
		}
	case 2: // number of labels around the limit
		n := 120 + r.IntN(14)
		for i := 0; i < n; i++ {
			labels = append(labels, randLabel(r, 1))
		}
	case 3: // far over
		n := 100 + r.IntN(400)
		for i := 0; i < n; i++ {
			labels = append(labels, randLabel(r, 1+r.IntN(80)))
		}
	case 5: // sizes around powers of two, where a narrow counter starts again
		around := func(max int) int {
			n := pick(r, []int{256, 512, 1024, 4096, 8128, 16384, 32768, 65536, 131072})
			if n > max || r.pct(70) {
				n = 256
			}
			return n - 3 + r.IntN(8) + r.IntN(2)*r.IntN(64)
		}
		switch r.IntN(3) {
		case 0: // one label
			labels = []string{randLabel(r, 1), randLabel(r, around(131072)), randLabel(r, 1+r.IntN(3))}
			labels = labels[r.IntN(2) : 2+r.IntN(2)]
		case 1: // the number of labels
			for n := around(131072); len(labels) < n; {
				labels = append(labels, string(rune('A'+len(labels)%26)))
			}
		case 2: // the total length with valid labels, not too many of them
			for n := around(8000); n > 1 && len(labels) < 127; {
				l := min(n-1, 63, 1+n/(127-len(labels))+r.IntN(3))
				labels = append(labels, randLabel(r, l))
				n -= l + 1
			}
		}
	case 4:
		for i := r.IntN(6); i >= 0; i-- {
			labels = append(labels, randLabel(r, randLabelLen(r)))
		}
	}
	s := spellName(r, labels, style)
	c.judgeName(s)
	if len(labels) == 1 || r.pct(50) {
		c.judgeLabel(spellLabel(r, pick(r, labels), style))
	}
	c.SeenStr("l", s)
	// one fault put anywhere
	faults := 6
	if len(s) > 2000 {
		faults = 1
	}
	for i := 0; i < faults; i++ {
		p := r.IntN(len(s) + 1)
		t := s[:p] + pick(r, []string{".", "\\", "..", "\\25", "\\256", "\\2x5", "\\.", "\\\\", "\\999", "\\300", "a", "\x00"}) + s[p:]
		switch r.IntN(5) {
		case 0:
			t = s[:p]
		case 1:
			t = "." + s
		case 2:
			t = s + "."
		}
		c.judgeName(t)
		c.judgeLabel(t)
		c.SeenStr("l", t)
	}
	if c.Idx < 5 {
		c.Sample("%d labels, text of %d bytes: %s", len(labels), len(s), short(s))
	}
}

// secNoise feeds arbitrary bytes.
func secNoise(c *C) {
	for i := 0; i < 50; i++ {
		n := c.R.IntN(300)
		if c.R.pct(70) {
			n = c.R.IntN(20)
		}
		b := make([]byte, n)
		for j := range b {
			if c.R.pct(60) {
				b[j] = grammarAlphabet[c.R.IntN(len(grammarAlphabet))]
			} else {
				b[j] = byte(c.R.Uint32())
			}
		}
		c.judgeName(string(b))
		c.judgeLabel(string(b))
		c.SeenStr("n", string(b))
	}
}

func (c *C) mustName(s string) domain.Name {
	n, err := domain.MakeNameFromString(s)
	if err != nil {
		c.Failf("%s was refused: %s", short(s), err)
	}
	c.Ev(1)
	if n.String() != s {
		c.Failf("the text of the name made of %s became %s", short(s), short(n.String()))
	}
	return n
}

// secSpellings: several spellings of one name are the same, a name which differs in one byte or in a border is not.
func secSpellings(c *C) {
	r := c.R
	for round := 0; round < 20; round++ {
		var labels []string
		switch r.IntN(6) {
		case 0:
		case 1:
			for i := 100 + r.IntN(28); i > 0; i-- {
				labels = append(labels, randLabel(r, 1))
			}
		case 2:
			labels = []string{randLabel(r, 63), randLabel(r, 63), randLabel(r, 63), randLabel(r, 62)}
		default:
			for i := 1 + r.IntN(5); i > 0; i-- {
				labels = append(labels, randLabel(r, randLabelLen(r)))
			}
		}
		for !labelsFit(labels) {
			labels = labels[1:]
		}
		for _, style := range []int{0, 1, 3, 4, -1, -1} {
			s := spellName(r, labels, style)
			n := c.mustName(s)
			if got := nameLabels(n); !eqStrings(got, labels) {
				c.Failf("%s has the labels %q, it was written for %q", short(s), got, labels)
			}
			c.SeenStr("s", s)
			c.Count("spellings", 1)
		}
		if len(labels) == 0 {
			continue
		}
		// another name
		other := append([]string{}, labels...)
		i := r.IntN(len(other))
		b := []byte(other[i])
		j := r.IntN(len(b))
		b[j] = upper(b[j] ^ 1<<r.IntN(8))
		other[i] = string(b)
		if i+1 < len(other) && r.pct(30) {
			other = append(append(append([]string{}, labels[:i]...), labels[i+1]+"."+labels[i]), labels[i+2:]...)
			if len(other[i]) > 63 {
				continue
			}
		}
		n := c.mustName(spellName(r, other, -1))
		same := eqStrings(other, labels)
		c.Ev(1)
		if eqStrings(nameLabels(n), labels) != same {
			c.Failf("names of labels %q and %q are not told apart (or are, equal)", other, labels)
		}
		c.Count("differing pairs", 1)
	}
}

// secAllBytes: all pairs of byte values in all spellings; equal iff same up to ASCII letter case.
func secAllBytes(c *C) {
	a := byte(c.Idx)
	forms := func(b byte) []string {
		out := []string{dec(b)}
		if b != '.' && b != '\\' {
			out = append(out, string([]byte{b}))
		}
		if !isDigit(b) {
			out = append(out, "\\"+string([]byte{b}))
		}
		return out
	}
	get := func(s string) []string { return nameLabels(c.mustName(s)) }
	for i := 0; i < 256; i++ {
		b := byte(i)
		for _, fa := range forms(a) {
			la := get("x" + fa + ".c")
			for _, fb := range forms(b) {
				c.Ev(1)
				if got := eqStrings(la, get("X"+fb+".\\099.")); got != (upper(a) == upper(b)) {
					c.Failf("%q and %q compare equal: %v", "x"+fa+".c", "X"+fb+".\\099.", got)
				}
				c.SeenStr("b", fa+" "+fb)
			}
		}
	}
}

// judgeReadable judges one conversion of a label to text (C15).
func (c *C) judgeReadable(l string) {
	text := domain.MakeHumanReadableLabel(l)
	c.Ev(1)
	if len(text) > 252 {
		c.Failf("the text of label %s has %d characters", short(l), len(text))
	}
	plain := true
	for i := 0; i < len(l); i++ {
		if l[i] >= 'a' && l[i] <= 'z' {
			plain = false
		}
	}
	for i := 0; i < len(text); i++ {
		if text[i] < '!' || text[i] > '~' {
			c.Failf("the text of label %s has the unprintable byte %#x: %s", short(l), text[i], short(text))
		}
	}
	units := 0
	for rest := text; len(rest) > 0; units++ {
		_, n, sep, bad := unit(rest)
		if sep {
			c.Failf("the text of label %s has a bare dot: %s", short(l), short(text))
		}
		if bad {
			c.Failf("the text of label %s has an incomplete escape: %s", short(l), short(text))
		}
		if n == 1 && rest[0] >= 'A' && rest[0] <= 'Z' && plain && len(l) <= 63 {
			c.Failf("the text of label %s has an upper-case letter: %s", short(l), short(text))
		}
		rest = rest[n:]
	}
	if units > len(l) {
		c.Failf("the text of label %s is longer than the label: %s", short(l), short(text))
	}
	if plain && len(l) <= 63 && len(l) > 0 {
		back, err := domain.MakeLabel(text)
		if err != nil || back != l {
			c.Failf("label %s became the text %s, which reads as %s, %v", short(l), short(text), short(back), err)
		}
		if own, ok := parseLabel(text); !ok || own != l {
			c.Failf("label %s became the text %s, which denotes %s", short(l), short(text), short(own))
		}
		// the same as a domain name of one label
		if n, err := domain.MakeNameFromString(text); err != nil || !eqStrings(nameLabels(n), []string{l}) {
			c.Failf("label %s became the text %s, which as a name is %q, %v", short(l), short(text), nameLabels(n), err)
		}
		c.Count("round trips", 1)
	} else {
		c.Count("conversions of other input", 1)
	}
}

func secReadableShort(c *C) {
	a := byte(c.Idx)
	c.judgeReadable("")
	c.judgeReadable(string([]byte{a}))
	for i := 0; i < 256; i++ {
		s := string([]byte{a, byte(i)})
		c.judgeReadable(s)
		c.SeenStr("r", s)
		if c.Thor || i%16 == 0 {
			for j := 0; j < 256; j++ {
				c.judgeReadable(string([]byte{a, byte(i), byte(j)}))
			}
		}
	}
	// the limit of the text at every position and for every byte
	for n := 60; n <= 66; n++ {
		for _, fill := range []string{"a", "A", ".", "\\", "\x00", "5", "\xff"} {
			c.judgeReadable(strings.Repeat(fill, n) + string([]byte{a}))
			c.judgeReadable(strings.Repeat(fill, n-1) + string([]byte{a}) + fill)
		}
	}
	for n := 235; n < 260; n++ {
		for _, fill := range []string{"a", "A", "5"} {
			c.judgeReadable(strings.Repeat(fill, n) + string([]byte{a}))
			c.judgeReadable(strings.Repeat(fill, n) + string([]byte{a, a}))
		}
	}
	for n := 115; n < 130; n++ {
		for _, fill := range []string{".", "\\"} {
			c.judgeReadable(strings.Repeat(fill, n) + string([]byte{a}))
			c.judgeReadable("q" + strings.Repeat(fill, n) + string([]byte{a}))
		}
	}
}

func secReadableRandom(c *C) {
	for i := 0; i < 100; i++ {
		n := 1 + c.R.IntN(63)
		if c.R.pct(20) {
			n = c.R.IntN(400)
		}
		if i == 0 && c.R.pct(20) {
			n = pick(c.R, []int{256, 512, 1000, 1024, 4096, 65536, 131072}) + c.R.IntN(70)
		}
		l := randLabel(c.R, n)
		if c.R.pct(20) {
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(c.R.Uint32())
			}
			l = string(b)
		}
		if c.R.pct(10) {
			// sharp mixes of one-, two- and four-character bytes
			var sb strings.Builder
			for sb.Len() < n {
				sb.WriteString(strings.Repeat(pick(c.R, []string{"A", ".", "\x01", "9"}), 1+c.R.IntN(70)))
			}
			l = sb.String()
		}
		c.judgeReadable(l)
		if len(l) > 1 {
			c.SeenStr("r", l)
		}
	}
	c.Sample("%q -> %q", "A.\\\x00", domain.MakeHumanReadableLabel("A.\\\x00"))
}

// secWalk: both ways of walking (C16).
func secWalk(c *C) {
	r := c.R
	for round := 0; round < 10; round++ {
		var labels []string
		switch r.IntN(6) {
		case 0:
			if round > 2 {
				continue
			}
		case 1:
			for i := 100 + r.IntN(28); i > 0; i-- {
				labels = append(labels, randLabel(r, 1))
			}
		case 2:
			labels = []string{randLabel(r, 63), randLabel(r, 63), randLabel(r, 63), randLabel(r, 62)}
			if r.pct(50) {
				labels = []string{randLabel(r, 1), randLabel(r, 63), randLabel(r, 1+r.IntN(63))}
			}
		default:
			for i := 1 + r.IntN(6); i > 0; i-- {
				labels = append(labels, randLabel(r, randLabelLen(r)))
			}
		}
		for !labelsFit(labels) {
			labels = labels[1:]
		}
		n := c.mustName(spellName(r, labels, -1))
		size := 0
		for _, l := range labels {
			size += len(l) + 1
		}
		iter := nameLabels(n)
		c.Ev(2)
		if !eqStrings(iter, labels) {
			c.Failf("iteration over %s gave %q, expected %q", short(n.String()), iter, labels)
		}
		got := []string{}
		off := 0
		for steps := 0; ; steps++ {
			l, next := n.GetLabel(off)
			if next < 0 {
				c.Failf("walking %s: offset %d (after %d labels) gave %d", short(n.String()), off, steps, next)
			}
			got = append(got, l)
			if next == 0 {
				break
			}
			if next <= off || steps > 200 {
				c.Failf("walking %s: offset %d is followed by %d", short(n.String()), off, next)
			}
			off = next
		}
		want := labels
		if len(labels) == 0 {
			want = []string{""}
		}
		if !eqStrings(got, want) {
			c.Failf("walking %s gave %q, iteration %q", short(n.String()), got, labels)
		}
		if len(labels) > 1 {
			c.SeenStr("w", n.String())
		}
		// any offset
		outside := []int{-1, -2, -63, -256, math.MinInt32, math.MinInt, math.MinInt / 2, size, size + 1, size + 2, size + 63, size + 256, 255, 256, 257, 1 << 16, math.MaxInt32, math.MaxInt/2 + 1, math.MaxInt}
		// which would be inside if they lost their upper bits
		for _, p := range []uint{8, 16, 31, 32, 33, 48, 62} {
			outside = append(outside, 1<<p, 1<<p+r.IntN(size+1), -1<<p+r.IntN(size+1))
		}
		outside = append(outside, math.MinInt+r.IntN(size+1))
		for _, o := range outside {
			if o >= 0 && o < size || o == 0 {
				continue
			}
			_, next := n.GetLabel(o)
			c.Ev(1)
			if next >= 0 {
				c.Failf("offset %d outside of %s (%d bytes) gave %d", o, short(n.String()), size, next)
			}
		}
		for o := 0; o < size; o++ {
			n.GetLabel(o) // must not panic
			c.Ev(1)
		}
		// the first error ends the iteration
		if len(labels) > 0 {
			stop := r.IntN(len(labels))
			e := error(&stopErr{stop})
			switch {
			case r.pct(30):
				e = errors.New("stop")
			case r.pct(40):
				e = pick(r, wellKnownErrors)
			}
			calls := 0
			seen := []string{}
			back := n.GetLabels(func(l string) error {
				calls++
				seen = append(seen, l)
				if calls > stop {
					return e
				}
				return nil
			})
			c.Ev(1)
			if back != e || calls != stop+1 || !eqStrings(seen, labels[:stop+1]) {
				c.Failf("iteration over %s with an error at call %d made %d calls and returned %v", short(n.String()), stop+1, calls, back)
			}
		}
		if err := n.GetLabels(func(string) error { return nil }); err != nil {
			c.Failf("iteration over %s returned %v without an error from the callback", short(n.String()), err)
		}
		// walks within walks
		if len(labels) > 0 && len(labels) < 12 {
			inner := nameLabels(c.mustName("X.yy.zZz"))
			seen := []string{}
			n.GetLabels(func(l string) error {
				seen = append(seen, l)
				if got := nameLabels(c.mustName("x.YY.zzz")); !eqStrings(got, inner) {
					c.Failf("within an iteration over %s another name's labels are %q", short(n.String()), got)
				}
				if again := nameLabels(n); !eqStrings(again, labels) {
					c.Failf("within an iteration over %s its labels are %q", short(n.String()), again)
				}
				domain.MakeHumanReadableLabel(l + "\x00")
				return nil
			})
			c.Ev(1 + 2*len(labels))
			if !eqStrings(seen, labels) {
				c.Failf("iteration over %s gave %q when other names were walked within, expected %q", short(n.String()), seen, labels)
			}
		}
		// the zero name is the root
		if l, next := (domain.Name{}).GetLabel(0); l != "" || next != 0 {
			c.Failf("the zero name gave label %q, offset %d", l, next)
		}
	}
}

// wellKnownErrors often mean that all is well or that something is over.
var wellKnownErrors = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortWrite, context.Canceled, context.DeadlineExceeded,
	fs.SkipDir, fs.SkipAll, fs.ErrNotExist, fs.ErrClosed, fs.ErrInvalid, os.ErrDeadlineExceeded, errors.ErrUnsupported, syscall.EAGAIN, syscall.Errno(0),
	domain.ErrEmptyLabel, domain.ErrInvalidEscape, domain.ErrLabelTooLong, domain.ErrNameTooLong, domain.ErrTooManyLabels,
	errors.New(""), errors.New("stop iterations"), errors.New("EOF"), (*stopErr)(nil), fmt.Errorf("wrapped: %w", io.EOF), errors.Join(io.EOF)}

type stopErr struct{ n int }

func (e *stopErr) Error() string { return fmt.Sprint("stop at ", e.n) }

type namedString string
type withName struct {
	N  domain.Name
	S  string
	PN *domain.Name
	PS *string
	i  int
	n  domain.Name
	s  string
	E  any
}

type definedName domain.Name

// reflected calls MakeNameFromReflection and tells what it panicked with.
func reflected(v reflect.Value) (n domain.Name, panicked bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			err, _ = r.(error)
		}
	}()
	return domain.MakeNameFromReflection(v), false, nil
}

func (c *C) sameName(v reflect.Value, what, text string, labels []string) {
	n, panicked, err := reflected(v)
	c.Ev(1)
	if panicked {
		c.Failf("name from %s of %s panicked with %v", what, short(text), err)
	}
	if n.String() != text || !eqStrings(nameLabels(n), labels) {
		c.Failf("name from %s of %s has text %s and labels %q, expected %q", what, short(text), short(n.String()), nameLabels(n), labels)
	}
}

func secReflection(c *C) {
	r := c.R
	for round := 0; round < 20; round++ {
		var labels []string
		for i := r.IntN(6); i > 0; i-- {
			labels = append(labels, randLabel(r, randLabelLen(r)))
		}
		for !labelsFit(labels) {
			labels = labels[1:]
		}
		s := spellName(r, labels, -1)
		if len(labels) == 0 {
			s = pick(r, []string{"", "."})
		}
		n := c.mustName(s)
		w := withName{N: n, S: s, PN: &n, PS: &s, n: n, s: s}
		rv := reflect.ValueOf(w)
		pv := reflect.ValueOf(&w).Elem()
		for _, x := range []struct {
			v    reflect.Value
			what string
		}{
			{reflect.ValueOf(n), "a name"}, {reflect.ValueOf(&n), "a pointer to a name"}, {reflect.ValueOf(s), "a string"}, {reflect.ValueOf(&s), "a pointer to a string"},
			{rv.Field(0), "a field with a name"}, {rv.Field(1), "a field with a string"}, {rv.Field(2), "a field with a pointer"}, {rv.Field(3), "a field with a pointer to a string"},
			{rv.Field(5), "an unexported field with a name"}, {rv.Field(6), "an unexported field with a string"},
			{pv.Field(0), "an addressable name"}, {pv.Field(1), "an addressable string"}, {pv.Field(0).Addr(), "an address of a name"},
			{reflect.ValueOf([]domain.Name{n}).Index(0), "an element"}, {reflect.ValueOf(map[int]domain.Name{1: n}).MapIndex(reflect.ValueOf(1)), "a map value"},
		} {
			c.sameName(x.v, x.what, s, labels)
		}
		c.SeenStr("f", s)
		c.Count("names", 1)
		// strings which are no names
		bad := pick(r, []string{"..", ".a", "a..b", "\\", "a\\25", "\\256", strings.Repeat("a", 64), strings.Repeat("a.", 128), "\\1b1", strings.Repeat(strings.Repeat("b", 63)+".", 4)})
		if r.pct(50) {
			bad = s + "\\"
			if strings.HasSuffix(s, ".") && len(s) == 1 {
				bad = "..\\"
			}
		}
		var np *domain.Name
		var sp *string
		pn := &n
		ns := namedString("a")
		for _, x := range []any{bad, &bad, ns, &ns, 5, uint64(7), 1.5, true, nil, []byte("a"), [1]string{"a"}, []string{"a"}, map[string]int{"a": 1}, struct{ S string }{"a"}, &struct{ N domain.Name }{n}, w, &w, np, sp, &pn,
			func() {}, make(chan int), errors.New("a"), [2]string{"a", "b"}, struct{ h, c string }{"com", "\x03COM"}, &struct{ h, c string }{"com", "\x03COM"}, 'a', complex(1, 2)} {
			v := reflect.ValueOf(x)
			_, panicked, err := reflected(v)
			c.Ev(1)
			if !panicked {
				c.Failf("name from %T did not panic", x)
			}
			if err == nil {
				c.Failf("name from %T panicked with something which is no error", x)
			}
			c.Count("refused", 1)
		}
		// values of interface types are neither names nor strings, whatever they hold
		var st fmt.Stringer = n
		dn := definedName(n)
		for _, x := range []any{n, &n, s, &s, ns, 5, nil, &pn, bad} {
			x := x
			for _, v := range []reflect.Value{reflect.ValueOf(&x).Elem(), reflect.ValueOf(&x), reflect.ValueOf([]any{x}).Index(0), reflect.ValueOf(struct{ X any }{x}).Field(0),
				reflect.ValueOf(&st).Elem(), reflect.ValueOf(&st), reflect.ValueOf(dn), reflect.ValueOf(&dn), reflect.ValueOf(map[string]any{"a": x}).MapIndex(reflect.ValueOf("a")),
				reflect.ValueOf([1]domain.Name{n}), reflect.ValueOf([]domain.Name{n}), reflect.ValueOf(func() string { return s }), reflect.ValueOf(struct{ domain.Name }{n}), reflect.ValueOf(&struct{ domain.Name }{n}),
				reflect.ValueOf(reflect.ValueOf(s)), reflect.ValueOf(n.String)} {
				_, panicked, err := reflected(v)
				c.Ev(1)
				if !panicked || err == nil {
					c.Failf("name from a value of type %s with %T inside: panicked %v with %v", v.Type(), x, panicked, err)
				}
			}
		}
		e := reflect.ValueOf(&w).Elem().Field(7)
		w.E = 5
		if _, panicked, err := reflected(e); !panicked || err == nil {
			c.Failf("name from an interface field with a number: panicked %v with %v", panicked, err)
		}
	}
}

func nameProps() []*Prop {
	g, n := secGrammar(4)
	g5, _ := secGrammar(5)
	return []*Prop{
		{ID: "C13", MinEvals: 100000, Rule: "evaluations are single parses judged by the independent grammar; distinct_nontrivial counts distinct texts of at least three bytes (exhaustive short ones, limit and noise texts)",
			Sections: []Section{{"grammar", n, 0, g}, {"grammar7", 0, n, g5}, {"limits", 20000, 400000, secLimits}, {"noise", 1500, 60000, secNoise}}},
		{ID: "C14", MinEvals: 100000, Rule: "evaluations are comparisons of labels of two texts; distinct_nontrivial counts distinct texts or pairs of spelled bytes compared",
			Sections: []Section{{"all-bytes", 256, 256, secAllBytes}, {"spellings", 4000, 100000, secSpellings}}},
		{ID: "C15", MinEvals: 100000, Rule: "evaluations are conversions judged; distinct_nontrivial counts distinct labels of at least two bytes converted",
			Sections: []Section{{"short", 256, 256, secReadableShort}, {"random", 3000, 80000, secReadableRandom}}},
		{ID: "C16", MinEvals: 100000, Rule: "evaluations are walks, offsets and aborted iterations judged; distinct_nontrivial counts distinct names with at least two labels walked",
			Sections: []Section{{"walk", 8000, 150000, secWalk}}},
		{ID: "C17", MinEvals: 50000, Rule: "evaluations are calls judged; distinct_nontrivial counts distinct names taken from reflected values",
			Sections: []Section{{"reflection", 3000, 60000, secReflection}}},
	}
}
