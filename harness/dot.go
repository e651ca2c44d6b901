package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// A reader of the DOT language, as far as a graph of nodes with attributes and edges goes, written from the grammar in
// the Graphviz documentation: identifiers, numerals, double-quoted strings (where only \" is an escape and a backslash
// pair is kept), comments, node statements, edge statements with -> chains and { } groups, attribute statements.

type dotNode struct {
	id    string
	attrs map[string]string
	decl  int
}

type dotGraph struct {
	nodes map[string]*dotNode
	order []string // in order of declaration
	edges [][2]string
}

type dotLexer struct {
	s   string
	pos int
}

type dotTok struct {
	kind byte // 'i' identifier, 'q' quoted string, 'p' punctuation, 'e' end
	s    string
}

func (l *dotLexer) next() (dotTok, error) {
	for l.pos < len(l.s) {
		c := l.s[l.pos]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			l.pos++
			continue
		}
		if strings.HasPrefix(l.s[l.pos:], "//") {
			i := strings.IndexByte(l.s[l.pos:], '\n')
			if i < 0 {
				l.pos = len(l.s)
			} else {
				l.pos += i
			}
			continue
		}
		break
	}
	if l.pos >= len(l.s) {
		return dotTok{kind: 'e'}, nil
	}
	c := l.s[l.pos]
	isID := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || c == '.'
	}
	switch {
	case c == '"':
		var sb strings.Builder
		for i := l.pos + 1; i < len(l.s); i++ {
			switch {
			case l.s[i] == '\\' && i+1 < len(l.s) && l.s[i+1] == '"':
				sb.WriteByte('"')
				i++
			case l.s[i] == '\\' && i+1 < len(l.s) && l.s[i+1] == '\\':
				sb.WriteString("\\\\")
				i++
			case l.s[i] == '"':
				l.pos = i + 1
				return dotTok{'q', sb.String()}, nil
			case l.s[i] == 0:
				return dotTok{}, fmt.Errorf("NUL byte in a string at %d", i)
			default:
				sb.WriteByte(l.s[i])
			}
		}
		return dotTok{}, fmt.Errorf("string starting at %d does not end", l.pos)
	case isID(c):
		i := l.pos
		for i < len(l.s) && isID(l.s[i]) {
			i++
		}
		t := dotTok{'i', l.s[l.pos:i]}
		l.pos = i
		return t, nil
	case strings.HasPrefix(l.s[l.pos:], "->"):
		l.pos += 2
		return dotTok{'p', "->"}, nil
	case strings.IndexByte("{}[]=;,", c) >= 0:
		l.pos++
		return dotTok{'p', string([]byte{c})}, nil
	}
	return dotTok{}, fmt.Errorf("unexpected %q at %d", c, l.pos)
}

func parseDot(text string) (*dotGraph, error) {
	l := &dotLexer{s: text}
	toks := []dotTok{}
	for {
		t, err := l.next()
		if err != nil {
			return nil, err
		}
		toks = append(toks, t)
		if t.kind == 'e' {
			break
		}
	}
	i := 0
	isP := func(s string) bool { return toks[i].kind == 'p' && toks[i].s == s }
	isAny := func() bool { return toks[i].kind == 'i' || toks[i].kind == 'q' }
	if toks[i].kind == 'i' && strings.EqualFold(toks[i].s, "strict") {
		i++
	}
	if toks[i].kind != 'i' || !strings.EqualFold(toks[i].s, "digraph") {
		return nil, fmt.Errorf("is not a digraph")
	}
	i++
	if isAny() {
		i++
	}
	if !isP("{") {
		return nil, fmt.Errorf("no opening brace")
	}
	i++
	g := &dotGraph{nodes: map[string]*dotNode{}}
	node := func(id string) *dotNode {
		n := g.nodes[id]
		if n == nil {
			n = &dotNode{id: id, attrs: map[string]string{}}
			g.nodes[id] = n
			g.order = append(g.order, id)
		}
		return n
	}
	attrs := func(into map[string]string) error {
		for isP("[") {
			i++
			for !isP("]") {
				if !isAny() {
					return fmt.Errorf("attribute name expected, got %q", toks[i].s)
				}
				name := toks[i].s
				i++
				val := "true"
				if isP("=") {
					i++
					if !isAny() {
						return fmt.Errorf("attribute value expected, got %q", toks[i].s)
					}
					val = toks[i].s
					i++
				}
				into[name] = val
				if isP(",") || isP(";") {
					i++
				}
			}
			i++
		}
		return nil
	}
	for !isP("}") {
		if isP(";") {
			i++
			continue
		}
		if toks[i].kind == 'e' {
			return nil, fmt.Errorf("no closing brace")
		}
		if toks[i].kind == 'i' && (toks[i].s == "node" || toks[i].s == "edge" || toks[i].s == "graph") {
			i++
			if err := attrs(map[string]string{}); err != nil {
				return nil, err
			}
			continue
		}
		// node or edge statement
		group := func() ([]string, error) {
			if isP("{") {
				i++
				ids := []string{}
				for !isP("}") {
					if isP(";") || isP(",") {
						i++
						continue
					}
					if !isAny() {
						return nil, fmt.Errorf("node expected in a group, got %q", toks[i].s)
					}
					ids = append(ids, toks[i].s)
					i++
				}
				i++
				return ids, nil
			}
			if !isAny() {
				return nil, fmt.Errorf("node expected, got %q", toks[i].s)
			}
			i++
			return []string{toks[i-1].s}, nil
		}
		from, err := group()
		if err != nil {
			return nil, err
		}
		if isP("=") && len(from) == 1 {
			i++
			if !isAny() {
				return nil, fmt.Errorf("value expected")
			}
			i++
			continue
		}
		if !isP("->") {
			if len(from) != 1 {
				return nil, fmt.Errorf("group without edge")
			}
			n := node(from[0])
			n.decl++
			if err := attrs(n.attrs); err != nil {
				return nil, err
			}
			continue
		}
		for isP("->") {
			i++
			to, err := group()
			if err != nil {
				return nil, err
			}
			for _, a := range from {
				for _, b := range to {
					g.edges = append(g.edges, [2]string{a, b})
				}
			}
			from = to
		}
		if err := attrs(map[string]string{}); err != nil {
			return nil, err
		}
	}
	i++
	if toks[i].kind != 'e' {
		return nil, fmt.Errorf("text after the closing brace")
	}
	return g, nil
}

// dtree is a dump as a tree.
type dtree struct {
	n    *dotNode
	kids []*dtree
}

func (t *dtree) isNil() bool { return len(t.kids) == 0 && t.n.attrs["label"] == "nil" }

// tree checks that edges make exactly one tree with the first node as its root.
func (g *dotGraph) tree() (*dtree, error) {
	if len(g.order) == 0 {
		return nil, fmt.Errorf("no nodes")
	}
	all := map[string]*dtree{}
	for _, id := range g.order {
		if g.nodes[id].decl != 1 {
			return nil, fmt.Errorf("node %s is declared %d times", id, g.nodes[id].decl)
		}
		all[id] = &dtree{n: g.nodes[id]}
	}
	parent := map[string]string{}
	for _, e := range g.edges {
		a, b := all[e[0]], all[e[1]]
		if a == nil || b == nil {
			return nil, fmt.Errorf("edge %s -> %s to a node which is not declared", e[0], e[1])
		}
		if p, ok := parent[e[1]]; ok {
			return nil, fmt.Errorf("node %s has two parents %s and %s", e[1], p, e[0])
		}
		parent[e[1]] = e[0]
		a.kids = append(a.kids, b)
	}
	root := all[g.order[0]]
	if p, ok := parent[g.order[0]]; ok {
		return nil, fmt.Errorf("the first node has parent %s", p)
	}
	n := 0
	var walk func(t *dtree)
	walk = func(t *dtree) {
		n++
		for _, k := range t.kids {
			walk(k)
		}
	}
	walk(root) // ends as every node has at most one parent and the root has none
	if n != len(all) {
		return nil, fmt.Errorf("only %d of %d nodes hang on the first one", n, len(all))
	}
	return root, nil
}

func readDump(text string) (*dtree, error) {
	g, err := parseDot(text)
	if err != nil {
		return nil, err
	}
	return g.tree()
}

// emptyGraph tells if the dump is a graph without any nodes and edges, a way to show that there is nothing.
func emptyGraph(text string) bool {
	g, err := parseDot(text)
	return err == nil && len(g.order) == 0 && len(g.edges) == 0
}

// unquoted reverts Go quoting of a string which went through a DOT string.
func unquoted(s string) (string, error) {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			sb.WriteByte(s[i])
			i++
			sb.WriteByte(s[i])
			continue
		}
		if s[i] == '"' {
			sb.WriteByte('\\')
		}
		sb.WriteByte(s[i])
	}
	sb.WriteByte('"')
	return strconv.Unquote(sb.String())
}

// kv splits a label of a flat tree's node into the key and the text of its value.
func kv(label string, nilValue bool) (key, val string, err error) {
	q := label
	if !nilValue {
		if !strings.HasPrefix(label, `k: "`) || !strings.HasSuffix(label, `"`) {
			return "", "", fmt.Errorf("label %q does not hold key and value", label)
		}
		i := strings.LastIndex(label, `" v: "`)
		if i < 4 {
			return "", "", fmt.Errorf("label %q does not hold key and value", label)
		}
		q = label[4:i]
		val = label[i+6 : len(label)-1]
		if val, err = unquoted(val); err != nil {
			return "", "", fmt.Errorf("value in label %q: %s", label, err)
		}
	}
	key, err = unquoted(q)
	if err != nil {
		return "", "", fmt.Errorf("key in label %q: %s", label, err)
	}
	return key, val, nil
}

// checkRB judges a dump of a flat tree as a red-black tree over the entries of the model.
func (c *C) checkRB(f *Fam, h any, m Model) {
	text := f.Dot(h)
	c.Ev(1)
	if len(m) == 0 && emptyGraph(text) {
		return
	}
	t, err := readDump(text)
	if err != nil {
		c.Failf("%s: dump is not a tree: %s\n%s", f.Name, err, short(text))
	}
	keys := []string{}
	maxDepth := 0
	var walk func(t *dtree, depth int, redParent bool) int
	walk = func(t *dtree, depth int, redParent bool) int {
		if t.isNil() {
			return 0
		}
		label := t.n.attrs["label"]
		k, _, err := kv(label, !strings.HasPrefix(label, `k: "`))
		if err != nil {
			c.Failf("%s: %s", f.Name, err)
		}
		k = f.DotKey(k)
		red := false
		switch t.n.attrs["fillcolor"] {
		case "red":
			red = true
		case "black":
		default:
			c.Failf("%s: node %q is neither red nor black but %q", f.Name, label, t.n.attrs["fillcolor"])
		}
		if red && redParent {
			c.Failf("%s: red node %s has a red parent; contents %s\n%s", f.Name, showCanon(k), m, dumpText(text))
		}
		if red && depth == 1 {
			c.Failf("%s: the root %s is red; contents %s", f.Name, showCanon(k), m)
		}
		if depth > maxDepth {
			maxDepth = depth
		}
		l, r := 0, 0
		switch len(t.kids) {
		case 0:
		case 2:
			l = walk(t.kids[0], depth+1, red)
		default:
			c.Failf("%s: node %s has %d children in the dump", f.Name, showCanon(k), len(t.kids))
		}
		keys = append(keys, k)
		if len(t.kids) == 2 {
			r = walk(t.kids[1], depth+1, red)
		}
		if l != r {
			c.Failf("%s: %d and %d black nodes on paths below %s; contents %s\n%s", f.Name, l, r, showCanon(k), m, dumpText(text))
		}
		if red {
			return l
		}
		return l + 1
	}
	walk(t, 1, false)
	for i := 1; i < len(keys); i++ {
		if !f.Less(keys[i-1], keys[i]) {
			c.Failf("%s: keys %s and %s are not in search order in the dump; contents %s\n%s", f.Name, showCanon(keys[i-1]), showCanon(keys[i]), m, dumpText(text))
		}
	}
	if len(keys) != len(m) {
		c.Failf("%s: the dump shows %d entries, the tree has %d", f.Name, len(keys), len(m))
	}
	if lim := 2 * math.Log2(float64(len(m)+1)); float64(maxDepth) > lim+1e-9 {
		c.Failf("%s: depth %d for %d entries is over %f", f.Name, maxDepth, len(m), lim)
	}
	c.Max("depth", int64(maxDepth))
	c.Max("entries", int64(len(m)))
	c.Count("nodes judged", len(keys))
}

func dumpText(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}
