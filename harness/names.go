package main

import (
	"strings"
)

// This file is the oracle for domain names and labels. It is written from the documented grammar (C13) and shares no
// code with the library: a text is split in one pass into labels of resolved bytes, collecting every violated rule.

type nameFaults struct {
	empty, escape, longLabel, manyLabels, longName bool
}

func (f nameFaults) any() bool {
	return f.empty || f.escape || f.longLabel || f.manyLabels || f.longName
}

func (f nameFaults) String() string {
	s := []string{}
	for _, x := range []struct {
		b bool
		n string
	}{{f.empty, "empty label"}, {f.escape, "invalid escape"}, {f.longLabel, "label too long"}, {f.manyLabels, "too many labels"}, {f.longName, "name too long"}} {
		if x.b {
			s = append(s, x.n)
		}
	}
	if len(s) == 0 {
		return "none"
	}
	return strings.Join(s, "+")
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func upper(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 'a' + 'A'
	}
	return c
}

// unit reads one unit of text: a plain byte, an escape or a separator.
func unit(s string) (b byte, n int, sep, bad bool) {
	if s[0] == '.' {
		return 0, 1, true, false
	}
	if s[0] != '\\' {
		return upper(s[0]), 1, false, false
	}
	if len(s) < 2 {
		return 0, 1, false, true
	}
	if !isDigit(s[1]) {
		return upper(s[1]), 2, false, false
	}
	if len(s) < 4 || !isDigit(s[2]) || !isDigit(s[3]) {
		return 0, 1, false, true
	}
	v := int(s[1]-'0')*100 + int(s[2]-'0')*10 + int(s[3]-'0')
	if v > 255 {
		return 0, 1, false, true
	}
	return upper(byte(v)), 4, false, false
}

// parseName gives the labels in the order of the text (the top-level label last).
func parseName(s string) (labels []string, f nameFaults) {
	if s == "" || s == "." {
		return nil, f
	}
	cur := []byte{}
	open := true // a label has been started (or has to follow)
	for len(s) > 0 {
		b, n, sep, bad := unit(s)
		if bad {
			// What follows a bad escape has no agreed meaning.
			f.escape = true
			return nil, f
		}
		s = s[n:]
		if sep {
			if len(cur) == 0 {
				f.empty = true
			}
			labels = append(labels, string(cur))
			cur = cur[:0]
			open = len(s) > 0
			continue
		}
		cur = append(cur, b)
	}
	if open {
		labels = append(labels, string(cur))
	}
	total := 0
	for _, l := range labels {
		if len(l) > 63 {
			f.longLabel = true
		}
		total += len(l) + 1
	}
	f.longName = total > 255
	f.manyLabels = len(labels) > 127
	return labels, f
}

// parseLabel parses a text of a single label with an optional ending dot; ok is false if it has an inner separator, no
// bytes or breaks a rule.
func parseLabel(s string) (label string, ok bool) {
	ls, f := parseName(s)
	if f.any() || len(ls) != 1 {
		return "", false
	}
	return ls[0], true
}

// canonName encodes labels from the top-level one downwards with a length byte each.
func canonName(labels []string) string {
	var b strings.Builder
	for i := len(labels) - 1; i >= 0; i-- {
		b.WriteByte(byte(len(labels[i])))
		b.WriteString(labels[i])
	}
	return b.String()
}

// splitCanon gives labels from the top-level one downwards.
func splitCanon(c string) []string {
	out := []string{}
	for len(c) > 0 {
		n := int(c[0])
		out = append(out, c[1:1+n])
		c = c[1+n:]
	}
	return out
}

// spellByte writes a byte of a label in one of its spellings.
func spellByte(r *Rand, b byte, style int) string {
	letter := b >= 'A' && b <= 'Z'
	must := b == '.' || b == '\\'
	k := style
	if style < 0 {
		k = r.IntN(6)
	}
	if letter && (style < 0 && r.pct(50) || style == 1) {
		b |= 0x20
	}
	switch {
	case k == 3 || must && isDigit(b):
		return dec(b)
	case k == 4 && !isDigit(b) || must && k != 3:
		return "\\" + string([]byte{b})
	}
	return string([]byte{b})
}

func dec(b byte) string {
	return string([]byte{'\\', '0' + b/100, '0' + b/10%10, '0' + b%10})
}

// spellLabel writes a binary label as text. style: 0 plain upper, 1 plain lower, 3 all decimal, 4 all escaped, <0 mixed.
func spellLabel(r *Rand, l string, style int) string {
	var sb strings.Builder
	for i := 0; i < len(l); i++ {
		sb.WriteString(spellByte(r, l[i], style))
	}
	return sb.String()
}

// spellName writes labels (top-level first) as a text.
func spellName(r *Rand, labels []string, style int) string {
	if len(labels) == 0 {
		return pick(r, []string{"", "."})
	}
	parts := make([]string, len(labels))
	for i, l := range labels {
		parts[len(labels)-1-i] = spellLabel(r, l, style)
	}
	s := strings.Join(parts, ".")
	if r.pct(30) {
		s += "."
	}
	return s
}

const labelAlphabet = "ABCABCABCABC0019-_.\\ \"@*[{`\x00\x01\x1f\x7f\x80\xc1\xe1\xff"

var realLabels = []string{"WWW", "COM", "NET", "ORG", "ARPA", "IN-ADDR", "IP6", "LOCALHOST", "LOCAL", "EXAMPLE", "_TCP", "_UDP", "_SIP", "_DMARC", "MAIL",
	"NS1", "NS2", "A-ROOT", "XN--P1AI", "XN--MNCHEN-3YA", "CO", "UK", "**", "*A", "A*", "--", "-A", "A-", "00", "01", "10", "255", "256", "192-168-0-1",
	"\xc3\xa9", "\xd0\xb6\xd0\xb6", "\xef\xbb\xbf", "\xe2\x80\xae", "A B", "A\x00", "\x00A", "NULL", "TRUE", "BIND", "VERSION", "ROOT", "ZONE", "QUERY", "INTERNAL",
	"AMAZONAWS", "CLOUDFRONT", "GOOGLE", "VERY-LONG-LABEL-AS-IT-MIGHT-BE-FOUND-IN-THE-WILD-0123456789"}

// realLabel makes a label of n bytes like those of real names.
func realLabel(r *Rand, n int) string {
	l := ""
	if r.pct(70) {
		l = pick(r, realLabels)
	}
	for len(l) < n {
		l += string([]byte{"0123456789ABCDEF"[r.IntN(16)]})
	}
	return l[:n]
}

// fatLabel makes a label of n bytes of which (nearly) all need escapes, mostly decimal ones.
func fatLabel(r *Rand, n int) string {
	b := make([]byte, n)
	mode := r.IntN(4)
	for i := range b {
		switch {
		case mode == 0:
			b[i] = pick(r, []byte{0, 1, ' ', 0x7f, 0x80, 0xff})
		case mode == 1:
			b[i] = 0x80 | byte(r.Uint32())
		case mode == 2:
			b[i] = pick(r, []byte{'.', '\\', 0xff})
		default:
			b[i] = byte(r.IntN(33))
		}
	}
	if r.pct(20) {
		b[r.IntN(n)] = 'A'
	}
	return string(b)
}

// randLabel makes a binary label of n bytes without lower-case letters.
func randLabel(r *Rand, n int) string {
	if n > 1 && r.pct(12) {
		return realLabel(r, n)
	}
	if n > 20 && r.pct(12) {
		return fatLabel(r, n)
	}
	b := make([]byte, n)
	mode := r.IntN(4)
	for i := range b {
		switch {
		case mode == 0:
			b[i] = 'A' + byte(r.IntN(3))
		case mode == 1:
			b[i] = upper(byte(r.Uint32()))
		default:
			b[i] = labelAlphabet[r.IntN(len(labelAlphabet))]
		}
	}
	return string(b)
}

func randLabelLen(r *Rand) int {
	switch r.IntN(10) {
	case 0:
		return 63
	case 1:
		return 1 + r.IntN(63)
	case 2:
		return 60 + r.IntN(4)
	}
	return 1 + r.IntN(3)
}
