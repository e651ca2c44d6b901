package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// The template tool is run as a program on generated catalogs in a scratch directory. Templates are made of pieces which
// come with what they expand to for the generated data, so the expected catalog is known without a template engine.

// piece is a part of a template and its expansion.
type piece struct{ t, want string }

// dataSet is a generated data file and what its selected part holds.
type dataSet struct {
	yaml string
	sel  string
	dot  any // what the selector leads to: map[string]any, []any, string, int or bool
}

var etcWords = []string{"alpha", "Beta", "x", "0", "long-word_with.dots", "два", "tree8", "go", "a b", "v1"}

func etcScalar(r *Rand) any {
	switch r.IntN(6) {
	case 0:
		return r.IntN(100000)
	case 1:
		return r.pct(50)
	case 2:
		return ""
	case 3:
		return pick(r, etcWords) + strconv.Itoa(r.IntN(1000))
	}
	return pick(r, etcWords)
}

func etcMap(r *Rand, depth int) map[string]any {
	m := map[string]any{
		"name": pick(r, etcWords) + strconv.Itoa(r.IntN(50)), "word": pick(r, etcWords), "num": r.IntN(1 << 20), "isyes": true, "isno": false,
		"list": []any{}, "text": pick(r, etcWords),
	}
	l := []any{}
	for i := 1 + r.IntN(4); i > 0; i-- {
		l = append(l, pick(r, etcWords))
	}
	m["list"] = l
	if r.pct(50) {
		// things which are no texts, also as keys
		m["none"], m["half"], m["big"], m["neg"] = nil, 0.5+float64(r.IntN(100)), int64(1)<<40+int64(r.IntN(1000)), -1-r.IntN(1000)
		m["bynum"] = map[int]any{0: pick(r, etcWords), 1: "one", 300: 3}
		m["byflag"] = map[bool]any{true: pick(r, etcWords), false: 0}
		pairs := map[string]any{}
		for i := r.IntN(5); i > 0; i-- {
			pairs[pick(r, []string{"b", "a", "B", "10", "9", "true", "x.y", ""})] = etcScalar(r)
		}
		m["pairs"] = pairs
		m["rows"] = []any{map[string]any{"id": r.IntN(9)}, map[string]any{"id": pick(r, etcWords)}, map[string]any{}}
	}
	for i := r.IntN(4); i > 0; i-- {
		m["k"+strconv.Itoa(i)] = etcScalar(r)
	}
	if r.pct(20) {
		m["text"] = strings.Repeat(pick(r, etcWords), 1+r.IntN(400))
	}
	if r.pct(30) {
		m["text"] = "line 1\n\tline \"2\" \\ <&>'\r\n# not a comment: {}\n"
	}
	if depth > 0 {
		m["sub"] = etcMap(r, depth-1)
	}
	return m
}

// yamlFlow writes a value in the flow style, yamlBlock in the block style; both quote strings as JSON does.
func yamlFlow(v any) string {
	switch v := v.(type) {
	case map[string]any:
		parts := []string{}
		for _, k := range sortedKeys(v) {
			parts = append(parts, strconv.Quote(k)+": "+yamlFlow(v[k]))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case map[int]any:
		parts := []string{}
		for k, x := range v {
			parts = append(parts, strconv.Itoa(k)+": "+yamlFlow(x))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ", ") + "}"
	case map[bool]any:
		return "{true: " + yamlFlow(v[true]) + ", false: " + yamlFlow(v[false]) + "}"
	case []any:
		parts := []string{}
		for _, x := range v {
			parts = append(parts, yamlFlow(x))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case nil:
		return "null"
	case string:
		return strconv.Quote(v)
	}
	return fmt.Sprint(v)
}

func yamlBlock(sb *strings.Builder, m map[string]any, indent string, r *Rand) {
	keys := sortedKeys(m)
	for _, i := range r.Perm(len(keys)) {
		v := m[keys[i]]
		k := keys[i]
		if strings.Trim(k, "abcdefghijklmnopqrstuvwxyz123456789") != "" || strings.Trim(k, "0123456789") == "" || k == "true" {
			k = strconv.Quote(k)
		}
		if sub, ok := v.(map[string]any); ok && len(sub) > 0 && r.pct(70) {
			sb.WriteString(indent + k + ":\n")
			yamlBlock(sb, sub, indent+"  ", r)
			continue
		}
		if l, ok := v.([]any); ok && len(l) > 0 && r.pct(50) {
			sb.WriteString(indent + k + ":\n")
			for _, x := range l {
				sb.WriteString(indent + "- " + yamlFlow(x) + "\n")
			}
			continue
		}
		sb.WriteString(indent + k + ": " + yamlFlow(v) + "\n")
		if r.pct(10) {
			sb.WriteString("\n" + indent + "# comment\n")
		}
	}
}

func etcData(r *Rand) dataSet {
	inner := etcMap(r, r.IntN(3))
	d := dataSet{dot: inner}
	top := inner
	depth := r.IntN(4)
	if r.pct(4) {
		depth = 5 + r.IntN(60)
	}
	for ; depth > 0; depth-- {
		name := pick(r, []string{"uint8", "sel", "a-b", "Deep_1", "k k"}) + strconv.Itoa(depth)
		if r.pct(15) {
			name = "abcdef"[depth%6 : depth%6+1]
		}
		outer := map[string]any{name: top}
		for i := r.IntN(3); i > 0; i-- {
			outer["other"+strconv.Itoa(i)] = pick[any](r, []any{etcScalar(r), etcMap(r, 1)})
		}
		if r.pct(2) {
			// far more data than are of use
			switch r.IntN(3) {
			case 0:
				outer["filler"] = strings.Repeat(pick(r, etcWords)+" ", 1<<17+r.IntN(1<<18))
			case 1:
				l := make([]any, 10000+r.IntN(60000))
				for i := range l {
					l[i] = i
				}
				outer["filler"] = l
			default:
				for i := r.IntN(6000); i >= 0; i-- {
					outer["filler"+strconv.Itoa(i)] = i
				}
			}
		}
		// what a wrong way to the data would find
		if r.pct(50) {
			outer["name"], outer["word"] = "wrong", "wrong"
		}
		if d.sel == "" {
			d.sel = name
		} else {
			d.sel = name + "." + d.sel
		}
		top = outer
	}
	if r.pct(50) {
		d.yaml = yamlFlow(top) + "\n"
	} else {
		var sb strings.Builder
		if r.pct(30) {
			sb.WriteString("---\n")
		}
		yamlBlock(&sb, top, "", r)
		d.yaml = sb.String()
	}
	if r.pct(15) {
		// one step more, to something what is not a map
		k := pick(r, []string{"word", "num", "list"})
		if d.sel != "" {
			d.sel += "."
		}
		d.sel += k
		d.dot = inner[k]
	}
	return d
}

func etcText(v any) string { return fmt.Sprint(v) }

// etcPiece makes a piece for the data; only pieces which make no slashes, line breaks and the like when name is set.
func etcPiece(r *Rand, dot any, name bool) piece {
	m, ok := dot.(map[string]any)
	if !ok {
		switch v := dot.(type) {
		case []any:
			switch r.IntN(3) {
			case 0:
				return piece{"{{len .}}", strconv.Itoa(len(v))}
			case 1:
				return piece{"{{index . 0}}", etcText(v[0])}
			}
			s := ""
			for _, x := range v {
				s += "-" + etcText(x)
			}
			return piece{"{{range .}}-{{.}}{{end}}", s}
		default:
			if r.pct(50) {
				return piece{"{{.}}", etcText(v)}
			}
			return piece{`{{printf "%v+%v" . .}}`, etcText(v) + "+" + etcText(v)}
		}
	}
	if sub, ok := m["sub"].(map[string]any); ok && r.pct(25) {
		if r.pct(50) {
			return piece{"{{.sub.name}}", etcText(sub["name"])}
		}
		p := etcPiece(r, sub, name)
		if !strings.Contains(p.t, "define") && !strings.Contains(p.t, "block") {
			return piece{"{{with .sub}}" + p.t + "{{end}}", p.want}
		}
	}
	list := m["list"].([]any)
	n := 11
	if !name {
		n = 18
	}
	if r.pct(25) {
		if r.pct(30) {
			return piece{"{{.missing}}", "<no value>"}
		}
		if pairs, ok := m["pairs"].(map[string]any); ok {
			return etcOddPiece(r, m, pairs, name)
		}
	}
	switch r.IntN(n) {
	case 0, 1:
		return piece{"{{.name}}", etcText(m["name"])}
	case 2:
		return piece{"{{ .word }}", etcText(m["word"])}
	case 3:
		return piece{"{{.num}}", etcText(m["num"])}
	case 4:
		return piece{"{{if .isyes}}A{{else}}B{{end}}{{if .isno}}C{{end}}", "A"}
	case 5:
		s := ""
		for _, x := range list {
			s += "(" + etcText(x) + ")"
		}
		return piece{"{{range .list}}({{.}}){{end}}", s}
	case 6:
		return piece{"{{index .list 0}}{{len .list}}", etcText(list[0]) + strconv.Itoa(len(list))}
	case 7:
		return piece{`{{"{{"}}.name}}`, "{{.name}}"}
	case 8:
		return piece{`{{printf "%03d" 7}}{{.isyes}}`, "007true"}
	case 9:
		k := "k" + strconv.Itoa(1+r.IntN(3))
		if v, ok := m[k]; ok {
			return piece{"{{." + k + "}}", etcText(v)}
		}
		return piece{"{{with ." + k + "}}there{{else}}absent{{end}}", "absent"}
	case 10:
		return piece{`{{eq .name "` + etcText(m["name"]) + `"}}{{$w := .word}}{{$w}}`, "true" + etcText(m["word"])}
	case 11, 12:
		return piece{"{{.text}}", etcText(m["text"])}
	case 13:
		return piece{"x \n\t{{- .name -}}\n  y", "x" + etcText(m["name"]) + "y"}
	case 14:
		return piece{"{{/* a comment */}}", ""}
	case 15:
		d := "d" + strconv.FormatUint(r.Uint64(), 36)
		return piece{`{{define "` + d + `"}}<{{.word}}>{{end}}{{template "` + d + `" .}}`, "<" + etcText(m["word"]) + ">"}
	case 16:
		return piece{"\n{{range $i, $x := .list}}{{if $i}}, {{end}}{{$i}}:{{$x}}{{end}}\n", "\n" + func() string {
			s := []string{}
			for i, x := range list {
				s = append(s, fmt.Sprintf("%d:%v", i, x))
			}
			return strings.Join(s, ", ")
		}() + "\n"}
	}
	return piece{"{{.name}}\n", etcText(m["name"]) + "\n"}
}

// etcOddPiece uses data other than texts in lists and maps.
func etcOddPiece(r *Rand, m, pairs map[string]any, name bool) piece {
	n := 9
	if !name {
		n = 13
	}
	bynum, byflag := m["bynum"].(map[int]any), m["byflag"].(map[bool]any)
	switch r.IntN(n) {
	case 0:
		return piece{"{{.none}}", "<no value>"}
	case 1:
		return piece{"{{.half}}{{if .none}}x{{end}}", etcText(m["half"])}
	case 2:
		return piece{"{{.big}}", etcText(m["big"])}
	case 3:
		return piece{"{{.neg}}", etcText(m["neg"])}
	case 4:
		return piece{"{{index .bynum 1}}{{index .bynum 300}}{{index .bynum 0}}", "one3" + etcText(bynum[0])}
	case 5:
		return piece{"{{index .byflag true}}{{index .byflag false}}", etcText(byflag[true]) + "0"}
	case 6:
		return piece{"{{with index .rows 1}}{{.id}}{{end}}{{with index .rows 2}}{{.id}}{{end}}", etcText(m["rows"].([]any)[1].(map[string]any)["id"])}
	case 7:
		return piece{"{{len .pairs}}{{and .isyes .isno}}{{not .isno}}{{or .none .neg}}", strconv.Itoa(len(pairs)) + "falsetrue" + etcText(m["neg"])}
	case 8:
		return piece{"{{if gt .big 5}}gt{{end}}{{if lt .neg 0}}lt{{end}}{{if eq .half " + etcText(m["half"]) + "}}eq{{end}}", "gtlt" + "eq"}
	case 9:
		s := ""
		for _, k := range sortedKeys(pairs) {
			s += k + "=" + etcText(pairs[k]) + ";"
		}
		return piece{"{{range $k, $v := .pairs}}{{$k}}={{$v}};{{end}}", s}
	case 10:
		return piece{"{{range $k, $v := .bynum}}{{$k}},{{end}}", "0,1,300,"}
	case 11:
		return piece{"{{range .rows}}{{if .id}}+{{else}}-{{end}}{{end}}{{range .nothing}}{{else}}E{{end}}", func() string {
			s := ""
			for _, x := range m["rows"].([]any) {
				if id := x.(map[string]any)["id"]; id == nil || id == 0 {
					s += "-"
				} else {
					s += "+"
				}
			}
			return s + "E"
		}()}
	}
	// every file has templates of its own, whatever others call theirs
	x := pick(r, etcWords)
	d := pick(r, []string{"part", "T", "header", "x"})
	return piece{"{{block \"" + d + "\" .}}" + x + "{{end}}", x}
}

func etcLiteral(r *Rand, name bool) string {
	if name {
		return pick(r, []string{"a", ".hid", "file", " sp", "Ü", "-", "_x", "}}", "$1", "%d", "t.go", "\\n"})
	}
	switch r.IntN(8) {
	case 0:
		return "package x // {not a template} }} \\ \"\n"
	case 1:
		return string([]byte{0, 1, 2, 0xff, 0xfe, '\r', '\n'})
	case 2:
		return strings.Repeat("0123456789abcdef\n", r.IntN(3000))
	case 3:
		return "\r\n\r\n"
	case 4:
		return "\xef\xbb\xbf"
	}
	return "text <b> & $x %d \n"
}

// etcNode is a file or directory of a catalog: the name and content as template and as expected.
type etcNode struct {
	tName, name string
	dir         bool
	tBody, body string
	kids        []*etcNode
	link        bool // the template is a link to what lies elsewhere
}

var etcSuffixes = []string{".go", ".txt", "_test", ".{}", ".tmp", ".bak", ".swp", ".orig", ".rej", "~", ".go~", "_test.go", ".md", ".yaml", ".yml",
	".json", ".tmpl", ".tpl", ".log", ".o", ".so", ".exe", ".git", ".gitignore", ".lock", ".d", ".", "#", " ", ".ext", ".new", ".old", ".test",
	".tar.gz", ".DS_Store", "%", ".GO", ".TMP", "-"}

var etcPrefixes = []string{".", "..", "_", "#", ".#", "~", "~$", ".git", "README", "Makefile", "vendor", "testdata", "node_modules", "tmp", "LICENSE", "-",
	"CON", "bin", "test_", "zz_generated."}

// etcExact are whole names; the siblings draw from disjoint parts of the list.
var etcExact = []string{".gitignore", "Makefile", "README.md", "main.go", ".git", "vendor", "testdata", "node_modules", "go.mod", "Dockerfile", ".x.tmp", "core",
	"tmp", "_", "a.swp", "lost+found", "doc.go", ".github", "...", "LICENSE", ".DS_Store", "a~", "nul", "package.json"}

// etcName makes a name which is unique among its siblings before and after expansion.
func etcName(r *Rand, dot any, uniq int, change bool) piece {
	if !change && uniq < 6 && r.pct(10) {
		x := etcExact[uniq+6*r.IntN(len(etcExact)/6)]
		return piece{t: x, want: x}
	}
	for {
		p := piece{}
		for i := 1 + r.IntN(3); i > 0; i-- {
			x := piece{}
			if r.pct(40) {
				x.t = etcLiteral(r, true)
				x.want = x.t
			} else {
				x = etcPiece(r, dot, true)
			}
			p.t += x.t
			p.want += x.want
		}
		u := "~" + strconv.Itoa(uniq)
		if r.pct(45) {
			u += pick(r, etcSuffixes)
		}
		if r.pct(20) {
			// A name of a hidden, temporary or otherwise special file is a name like any other.
			x := pick(r, etcPrefixes)
			p.t, p.want = x+p.t, x+p.want
		}
		p.t += u
		p.want += u
		if change && p.t == p.want || len(p.t) > 200 || len(p.want) > 200 || strings.ContainsAny(p.t+p.want, "/\x00\n\r") {
			continue
		}
		return p
	}
}

func etcBody(r *Rand, dot any) piece {
	p := piece{}
	if r.pct(8) {
		return p
	}
	for i := 1 + r.IntN(8); i > 0; i-- {
		x := piece{}
		if r.pct(40) {
			x.t = etcLiteral(r, false)
			x.want = x.t
		} else {
			x = etcPiece(r, dot, false)
			for strings.Contains(x.t, "{{block") && strings.Contains(p.t, "{{block") {
				// would define the same once more
				x = etcPiece(r, dot, false)
			}
		}
		p.t += x.t
		p.want += x.want
	}
	return p
}

// etcCatalog makes a catalog of some size.
func etcCatalog(r *Rand, dot any, depth int, left *int, uniq int, top bool) *etcNode {
	nm := etcName(r, dot, uniq, top)
	n := &etcNode{tName: nm.t, name: nm.want}
	*left--
	if depth > 0 && r.pct(60) || top && r.pct(70) {
		n.dir = true
		for i := r.IntN(6); i > 0 && *left > 0; i-- {
			n.kids = append(n.kids, etcCatalog(r, dot, depth-1, left, i, false))
		}
		if r.pct(8) {
			// names which differ in letter case or at their ends only
			for _, s := range pick(r, [][]string{{"Notes", "notes", "NOTES"}, {"aux", "aux.go", "aux.go.go"}, {"ß", "SS", "ss"}, {"é", "e\u0301"}, {"q", " q", "q "}}) {
				b := etcBody(r, dot)
				n.kids = append(n.kids, &etcNode{tName: s, name: s, tBody: b.t, body: b.want})
			}
		}
		if top && r.pct(2) {
			// very many entries
			for i := 200 + r.IntN(1200); i > 0; i-- {
				s := "m" + strconv.Itoa(i)
				n.kids = append(n.kids, &etcNode{tName: s, name: s, tBody: s, body: s, dir: r.pct(5)})
			}
		}
		return n
	}
	b := etcBody(r, dot)
	if r.pct(1) {
		// a very large file
		p := etcBody(r, dot)
		for strings.Contains(p.t, "{{define") || strings.Contains(p.t, "{{block") || strings.Contains(p.t, "{{- define") {
			p = etcBody(r, dot)
		}
		for k := 100000 + r.IntN(3000000); len(p.t) < k && len(p.want) < 4<<20; {
			b.t, b.want = b.t+p.t, b.want+p.want
			p.t, p.want = p.t+p.t+"x", p.want+p.want+"x"
		}
		b.t, b.want = b.t+p.t, b.want+p.want
	}
	n.tBody, n.body = b.t, b.want
	return n
}

// etcChain is a deep and narrow catalog. Paths stay within what the system allows.
func etcChain(r *Rand, dot any, depth int) *etcNode {
	limit := min(60, 3000/depth-1)
	var chain func(level int) *etcNode
	chain = func(level int) *etcNode {
		var nm piece
		if level > 0 && limit < 16 {
			x := pick(r, []string{"d", "x1", "~a", "%"})
			nm = piece{t: x, want: x}
		} else {
			for nm.t == "" || len(nm.t) > max(limit, 30) || len(nm.want) > max(limit, 30) {
				nm = etcName(r, dot, depth-level, true)
			}
		}
		n := &etcNode{tName: nm.t, name: nm.want}
		if level < depth {
			n.dir = true
			n.kids = append(n.kids, chain(level+1))
			if r.pct(40) && (depth < 100 || r.pct(10)) {
				left := 1
				n.kids = append(n.kids, etcCatalog(r, dot, 0, &left, 1000, false))
			}
			return n
		}
		b := etcBody(r, dot)
		n.tBody, n.body = b.t, b.want
		return n
	}
	return chain(0)
}

func (n *etcNode) walk(f func(n *etcNode)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

// write makes the template in a directory; what is behind links goes to a directory in the store.
func (n *etcNode) write(dir, store string) error {
	p := filepath.Join(dir, n.tName)
	if n.link {
		behind, err := os.MkdirTemp(store, "behind")
		if err != nil {
			return err
		}
		if err := os.Chmod(behind, 0755); err != nil {
			return err
		}
		behind = filepath.Join(behind, "any")
		to := behind
		if len(n.tName)%2 == 0 {
			if to, err = filepath.Rel(dir, behind); err != nil {
				return err
			}
		}
		if err := os.Symlink(to, p); err != nil {
			return err
		}
		p = behind
	}
	if !n.dir {
		return os.WriteFile(p, []byte(n.tBody), 0644)
	}
	if err := os.Mkdir(p, 0755); err != nil {
		return err
	}
	for _, k := range n.kids {
		if err := k.write(p, store); err != nil {
			return err
		}
	}
	return nil
}

// expected adds what is expected of the node to a snapshot.
func (n *etcNode) expected(dir string, s map[string]string) {
	p := filepath.Join(dir, n.name)
	if !n.dir {
		s[p] = "file:" + n.body
		return
	}
	s[p] = "dir"
	for _, k := range n.kids {
		k.expected(p, s)
	}
}

// snapshot reads all below a directory.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		switch {
		case d.IsDir():
			out[rel] = "dir"
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out[rel] = "file:" + string(b)
		default:
			out[rel] = d.Type().String()
		}
		return nil
	})
	if err != nil {
		panic(fmt.Sprintf("harness: %s", err))
	}
	return out
}

func diffSnapshots(want, got map[string]string) string {
	for _, p := range sortedKeys(want) {
		g, ok := got[p]
		if !ok {
			return fmt.Sprintf("%q is missing", p)
		}
		if g != want[p] {
			return fmt.Sprintf("%q is %s, expected %s", p, short(g), short(want[p]))
		}
	}
	for _, p := range sortedKeys(got) {
		if _, ok := want[p]; !ok {
			return fmt.Sprintf("%q (%s) is there and should not be", p, short(got[p]))
		}
	}
	return ""
}

var etcCred struct {
	done bool
	cred *syscall.Credential
}

// etcUser is the unprivileged user the tool is run as, nil if that is not possible here.
func etcUser(dir string) *syscall.Credential {
	if !etcCred.done {
		etcCred.done = true
		if os.Getuid() == 0 {
			cred := &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
			os.Chmod(dir, 0755)
			cmd := exec.Command(*fEtc, "-h")
			cmd.Dir = dir
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
			err := cmd.Run()
			if _, exited := err.(*exec.ExitError); err == nil || exited {
				etcCred.cred = cred
			}
		}
	}
	return etcCred.cred
}

type scratch struct {
	c    *C
	dir  string
	cred *syscall.Credential
	log  string // all output of the last run
}

// newScratch makes the directory of a case, which the tool cannot leave as it runs as a user who owns nothing else.
func newScratch(c *C) *scratch {
	os.Chmod(*fDir, 0755)
	dir, err := os.MkdirTemp(*fDir, "etc-case-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	if strings.Contains(dir, "{{") {
		panic("harness: a scratch directory with template markers in its name")
	}
	return &scratch{c: c, dir: dir, cred: etcUser(dir)}
}

func (s *scratch) remove() {
	filepath.WalkDir(s.dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(s.dir)
}

func (s *scratch) own() {
	if s.cred == nil {
		return
	}
	filepath.WalkDir(s.dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil {
			os.Lchown(p, int(s.cred.Uid), int(s.cred.Gid))
		}
		return nil
	})
}

// run runs the tool and returns its exit status.
func (s *scratch) run(cwd string, args []string) (int, string) {
	s.own()
	runtime.LockOSThread() // for Pdeathsig
	defer runtime.UnlockOSThread()
	cmd := exec.Command(*fEtc, args...)
	cmd.Dir = filepath.Join(s.dir, cwd)
	cmd.Env = []string{"PATH=/nonexistent", "HOME=/nonexistent"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: s.cred, Pdeathsig: syscall.SIGKILL}
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err := cmd.Run()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic("harness: can't run the tool: " + err.Error())
		}
	}
	s.log = log.String()
	s.c.T("in %q: etc %q -> %d\n%s", cwd, args, cmd.ProcessState.ExitCode(), lastLines(log.String(), 2000))
	return cmd.ProcessState.ExitCode(), lastLines(log.String(), 1500)
}

// ref is one of the ways to refer to a file below the scratch directory from a directory below it.
func (s *scratch) ref(cwd, rel string) string {
	r := s.c.R
	abs := filepath.Join(s.dir, rel)
	short, err := filepath.Rel(filepath.Join(s.dir, cwd), abs)
	if err != nil {
		panic("harness: " + err.Error())
	}
	switch r.IntN(6) {
	case 0, 1:
		return abs
	case 2:
		return "./" + short
	case 3:
		return strings.Replace(abs, "/", "//", 1+r.IntN(2))
	case 4:
		return filepath.Dir(abs) + "/./" + filepath.Base(abs)
	}
	return short
}

// etcSetup writes the data, a catalog and things which should not be touched.
type etcSetup struct {
	*scratch
	d          dataSet
	root       *etcNode
	at, dataAt string // directory of the template, path of the data
	links      bool   // some templates are links
	cwd        string
}

func newEtcSetup(c *C) *etcSetup {
	r := c.R
	st := &etcSetup{scratch: newScratch(c), d: etcData(r)}
	if c.Idx%5 == 4 {
		depth := 2 + r.IntN(24)
		switch {
		case r.pct(4):
			depth = 300 + r.IntN(400)
		case r.pct(20):
			depth = 25 + r.IntN(75)
		}
		st.root = etcChain(r, st.d.dot, depth)
	} else {
		left := pick(r, []int{1, 5, 20, 60})
		st.root = etcCatalog(r, st.d.dot, r.IntN(5), &left, 0, true)
	}
	dirs := []string{"."}
	for i := r.IntN(4); i > 0; i-- {
		dirs = append(dirs, filepath.Join(pick(r, dirs), pick(r, []string{"work", "a b", "x.y", "uintX"})+strconv.Itoa(i)))
	}
	st.at, st.cwd = pick(r, dirs), pick(r, dirs)
	st.dataAt = filepath.Join(pick(r, dirs), pick(r, []string{"data.yaml", "uintX.yaml", "d"}))
	for _, d := range dirs {
		must(os.MkdirAll(filepath.Join(st.dir, d), 0755))
		if r.pct(50) {
			must(os.WriteFile(filepath.Join(st.dir, d, "bystander {{.name}}"), []byte("{{.name}} stays"), 0644))
		}
	}
	if r.pct(4) && st.d.sel != "" && st.d.yaml != "" && !strings.ContainsAny(st.d.yaml[:1], "{-\x25") {
		// much data of no use
		st.d.yaml += "filler: \"" + strings.Repeat("much of it ", 5000+r.IntN(100000)) + "\"\n"
	}
	must(os.WriteFile(filepath.Join(st.dir, st.dataAt), []byte(st.d.yaml), 0644))
	return st
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func (st *etcSetup) writeCatalog() {
	if st.links {
		// the system follows 40 links in a path at most
		left := 8
		st.root.walk(func(n *etcNode) {
			n.link = left > 0 && st.c.R.pct(10)
			if n.link {
				left--
				st.c.Count("links in catalogs", 1)
			}
		})
	}
	must(os.MkdirAll(filepath.Join(st.dir, "store"), 0755))
	must(st.root.write(filepath.Join(st.dir, st.at), filepath.Join(st.dir, "store")))
}

func (st *etcSetup) args() []string {
	r := st.c.R
	t := st.ref(st.cwd, filepath.Join(st.at, st.root.tName))
	if st.root.dir && r.pct(20) {
		t += "/"
	}
	pairs := [][]string{{"-t", t}, {"-d", st.ref(st.cwd, st.dataAt)}}
	if st.d.sel != "" || r.pct(10) {
		pairs = append(pairs, []string{"-s", st.d.sel})
	}
	out := []string{}
	for _, i := range r.Perm(len(pairs)) {
		if r.pct(30) {
			out = append(out, pairs[i][0]+"="+pairs[i][1])
		} else {
			out = append(out, pairs[i]...)
		}
	}
	return out
}

// secReproduce: runs which have to succeed.
func secReproduce(c *C) {
	r := c.R
	st := newEtcSetup(c)
	defer st.remove()
	st.links = r.pct(15)
	st.writeCatalog()
	before := snapshot(st.dir)
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	exp := map[string]string{}
	st.root.expected(st.at, exp)
	stale := false
	if c.R.pct(30) {
		// results of an earlier run with other data
		stale = true
		for _, p := range sortedKeys(exp) {
			v := exp[p]
			if v == "dir" {
				must(os.MkdirAll(filepath.Join(st.dir, p), 0755))
				for i := r.IntN(3); i > 0; i-- {
					// not of this catalog
					q := filepath.Join(p, pick(r, []string{"kept", ".kept", "kept.go", "kept~", "{{.name}} kept", "zz_kept.tmp"}))
					must(os.WriteFile(filepath.Join(st.dir, q), []byte("stays"), 0644))
					want[q] = "file:stays"
				}
			} else if c.R.pct(80) {
				must(os.MkdirAll(filepath.Join(st.dir, filepath.Dir(p)), 0755))
				must(os.WriteFile(filepath.Join(st.dir, p), []byte(v[5:]+"\nrest of longer contents\n"), 0644))
			}
		}
	}
	for k, v := range exp {
		want[k] = v
	}
	if st.root.dir && !st.root.link && r.pct(8) {
		// from within the template
		st.cwd = filepath.Join(st.at, st.root.tName)
	}
	args := st.args()
	code, log := st.run(st.cwd, args)
	got := snapshot(st.dir)
	c.Ev(len(want) + 1)
	if code != 0 {
		c.Failf("the tool ended with %d for a good catalog; arguments %q in %q; data:\n%s\noutput:\n%s", code, args, st.cwd, short(st.d.yaml), log)
	}
	if d := diffSnapshots(want, got); d != "" {
		c.Failf("%s; arguments %q in %q, stale results %v; data:\n%s", d, args, st.cwd, stale, short(st.d.yaml))
	}
	files, depth := 0, 0
	for p, v := range exp {
		if v != "dir" {
			files++
		}
		depth = max(depth, strings.Count(p, "/"))
		c.SeenStr("etc", p+v)
	}
	c.Count("files compared", files)
	c.Count("directories compared", len(exp)-files)
	c.Max("depth of a catalog", int64(depth))
	c.Max("items of a catalog", int64(len(exp)))
	if stale {
		c.Count("runs over stale results", 1)
	}
	if st.cred != nil {
		c.Count("runs as unprivileged user", 1)
	}
	c.Sample("%q in %q: %d files, %d directories", args, st.cwd, files, len(exp)-files)
}

// quotedOf gives what is quoted in a line.
func quotedOf(line string) (out []string) {
	for {
		i := strings.IndexByte(line, '"')
		if i < 0 {
			return out
		}
		q, err := strconv.QuotedPrefix(line[i:])
		if err != nil {
			return out
		}
		s, _ := strconv.Unquote(q)
		out = append(out, s)
		line = line[i+len(q):]
	}
}

// secReport: what a successful run reports.
func secReport(c *C) {
	r := c.R
	st := newEtcSetup(c)
	defer st.remove()
	st.links = r.pct(15)
	st.writeCatalog()
	if st.root.dir && !st.root.link && r.pct(15) {
		st.cwd = filepath.Join(st.at, st.root.tName)
	}
	type item struct{ t, name, dir string }
	items := []item{}
	var walk func(n *etcNode, t, name string)
	walk = func(n *etcNode, t, name string) {
		items = append(items, item{filepath.Join(t, n.tName), filepath.Join(name, n.name), t})
		for _, k := range n.kids {
			walk(k, filepath.Join(t, n.tName), filepath.Join(name, n.name))
		}
	}
	walk(st.root, "", "")
	args := st.args()
	code, log := st.run(st.cwd, args)
	c.Ev(1)
	if code != 0 {
		c.Failf("the tool ended with %d for a good catalog; arguments %q in %q; data:\n%s\noutput:\n%s", code, args, st.cwd, short(st.d.yaml), log)
	}
	// the lines which tell of a template and its result
	at := map[[2]string]int{}
	lines := 0
	for i, line := range strings.Split(st.log, "\n") {
		q := quotedOf(line)
		for _, s := range q {
			if strings.HasPrefix(s, "/") {
				c.Failf("the path %q is reported, the catalog is %q; arguments %q in %q", s, st.root.tName, args, st.cwd)
			}
		}
		if len(q) == 2 {
			lines++
			k := [2]string{q[0], q[1]}
			if j, twice := at[k]; twice {
				c.Failf("%q is reported in the lines %d and %d; arguments %q in %q", k, j, i, args, st.cwd)
			}
			at[k] = i
		}
	}
	dirAt := map[string]int{}
	for _, it := range items {
		c.Ev(1)
		i, ok := at[[2]string{it.t, it.name}]
		if !ok {
			c.Failf("nothing is reported about %q, whose result is %q; arguments %q in %q; output:\n%s", it.t, it.name, args, st.cwd, log)
		}
		if j, ok := dirAt[it.dir]; ok && j > i {
			c.Failf("%q is reported before the directory it is in; arguments %q in %q", it.t, args, st.cwd)
		}
		dirAt[it.t] = i
		c.SeenStr("etc", it.t+"\x00"+it.name)
	}
	if lines != len(items) {
		c.Failf("%d templates and results are reported, there are %d; arguments %q in %q; output:\n%s", lines, len(items), args, st.cwd, log)
	}
	c.Count("items reported", len(items))
	c.Max("items of a catalog", int64(len(items)))
	c.Sample("%q in %q: %d items reported", args, st.cwd, len(items))
}

var badYAML = []string{"a: [1, 2", "a: 'x", "a: b: c", "- x\n- y\n", "{", "a: *nowhere", "\x00\x01\x02", "a: 1\n b: 2\n  c: 3\n-", "\"abc", "a: {b: 1", "%x\n@", "\ta: 1", "just text", "[a, b]", "42"}

// secFaults: runs which have to fail and leave what they were given alone.
func secFaults(c *C) {
	r := c.R
	st := newEtcSetup(c)
	defer st.remove()
	m, isMap := st.d.dot.(map[string]any)
	if !isMap {
		m = nil
	}
	nodes := func(dir, file bool) (out []*etcNode) {
		st.root.walk(func(n *etcNode) {
			if n.dir && dir || !n.dir && file {
				out = append(out, n)
			}
		})
		return
	}
	// A bad piece of a template: what does not parse and what does not execute.
	parse := []string{"{{", "{{if .name}}", "{{end}}", "{{nosuchfunction 1}}", "{{.name", "{{$undefined}}", "{{range .list}}", "{{else}}", "{{\"abc}}", "{{template}}", "{{.name}} {{ ."}
	exec := []string{`{{template "nosuch"}}`, "{{index 5 1}}", `{{index "abc" 77}}`, "{{len 5}}", "{{call 3}}", `{{slice "abc" 2 1}}`, "{{range 3.5}}{{end}}"}
	if m != nil {
		exec = append(exec, "{{.name.deeper}}", "{{index .list 99}}", "{{.num.x.y}}", "{{call .name}}", "{{lt .name 1}}", "{{range .num.x}}{{end}}")
	}
	spoil := func(s string, bad []string, atEnd bool) string {
		b := pick(r, bad)
		if atEnd || r.pct(40) {
			return s + b
		}
		return b + s
	}
	kind := pick(r, []string{"no template", "empty template", "missing template", "no data", "missing data", "directory as data", "undecodable data",
		"selector: missing at once", "selector: missing deeper", "selector: through a scalar", "parse: content", "execute: content", "parse: name",
		"execute: name", "same name: literal", "same name: expanded", "same name: other spelling", "same name: through a link", "unreadable data", "unreadable template", "blocked output", "full device", "broken link",
		"read-only output", "part of another file"})
	deep := func(ns []*etcNode) *etcNode {
		if len(ns) == 0 {
			return nil
		}
		return pick(r, ns)
	}
	args := []string(nil)
	done := func() {
		if args == nil {
			st.writeCatalog()
			args = st.args()
		}
	}
	expectBlocked := map[string]string{}
	withoutFlag := func(flag string) {
		done()
		out := []string{}
		for i := 0; i < len(args); i++ {
			switch {
			case args[i] == flag:
				i++
			case strings.HasPrefix(args[i], flag+"="):
			default:
				out = append(out, args[i])
			}
		}
		args = out
	}
	unreadable := ""
	data := func(s string) { must(os.WriteFile(filepath.Join(st.dir, st.dataAt), []byte(s), 0644)) }
	switch kind {
	case "no template":
		withoutFlag("-t")
	case "empty template":
		withoutFlag("-t")
		args = append(args, pick(r, [][]string{{"-t="}, {"-t", ""}})...)
	case "missing template":
		withoutFlag("-t")
		name := st.root.tName + "x"
		args = append(args, "-t", st.ref(st.cwd, filepath.Join(st.at, pick(r, []string{name, filepath.Join("nowhere", name), "{{.}}none"}))))
	case "no data":
		withoutFlag("-d")
	case "missing data":
		withoutFlag("-d")
		args = append(args, "-d", st.ref(st.cwd, st.dataAt)+".nowhere")
	case "directory as data":
		withoutFlag("-d")
		args = append(args, "-d", st.ref(st.cwd, filepath.Dir(st.dataAt)))
	case "undecodable data":
		data(pick(r, badYAML))
		if r.pct(50) {
			st.d.sel = ""
		}
	case "selector: missing at once":
		near := []string{"nowhere", "nowhere." + st.d.sel, "nowhere.at.all"}
		if st.d.sel != "" && m != nil {
			// what looks like a key is none
			i := len(st.d.sel)
			if j := strings.IndexByte(st.d.sel, '.'); j >= 0 {
				i = j
			}
			head, tail := st.d.sel[:i], st.d.sel[i:]
			near = append(near, strings.ToUpper(head)+tail, head+" "+tail, " "+head+tail, head+"1"+tail)
			if i > 1 {
				near = append(near, head[:i-1]+tail)
			}
		}
		st.d.sel = pick(r, near)
		if strings.HasSuffix(st.d.sel, ".") {
			st.d.sel = "nowhere"
		}
	case "selector: missing deeper", "selector: through a scalar":
		if m == nil {
			kind = "selector: through a scalar"
			st.d.sel += ".x"
			break
		}
		add := "nowhere"
		if kind == "selector: through a scalar" {
			add = pick(r, []string{"name.x", "num.x", "isyes.name", "list.0", "word.name", "list.name"})
		} else if r.pct(50) {
			add = "nowhere.x"
		}
		if st.d.sel != "" {
			add = "." + add
		}
		st.d.sel += add
	case "part of another file":
		// templates of one file aren't known to others
		st.root.dir, st.root.tBody, st.root.body = true, "", ""
		d := pick(r, []string{"shared", "base", "lib.tmpl"})
		home := &etcNode{tName: pick(r, []string{"0 lib", "~~ lib", "lib.tmpl"}), tBody: `{{define "` + d + `"}}text{{end}}`}
		if r.pct(40) {
			home.tName, home.tBody = "lib.tmpl", "plain text"
			d = "lib.tmpl"
		}
		home.name, home.body = home.tName, ""
		user := &etcNode{tName: "m user", name: "m user", tBody: "x" + `{{template "` + d + `" .}}`}
		if r.pct(30) {
			user = &etcNode{tName: "m dir", name: "m dir", dir: true, kids: []*etcNode{user}}
		}
		st.root.kids = append(st.root.kids, home, user)
	case "parse: content", "execute: content":
		n := deep(nodes(false, true))
		if n == nil {
			n = &etcNode{tName: "zz", name: "zz"}
			st.root.dir = true
			st.root.kids = append(st.root.kids, n)
		}
		if kind == "parse: content" {
			n.tBody = spoil(n.tBody, parse, false)
			if r.pct(30) {
				n.tBody = pick(r, parse)
			}
		} else {
			n.tBody = spoil(n.tBody, exec, false)
		}
	case "parse: name", "execute: name":
		n := deep(nodes(true, true))
		bad := parse
		if kind == "execute: name" {
			bad = exec
		}
		n.tName = spoil(n.tName, bad, true)
		if len(n.tName) > 250 {
			n.tName = pick(r, bad)
		}
	case "same name: literal":
		st.root.tName = pick(r, []string{"plain", "plain.{ext}", "a}}", ".x"})
	case "same name: expanded":
		// the data puts the marker back
		st.d.sel = ""
		data(`{x: "{{.x}}", up: "", name: "{{.name}}", z: "{{.x}}{{.up}}{{.name}}"}` + "\n")
		st.root.tName = pick(r, []string{"t{{.x}}", "{{.x}}", "{{.name}}.go", "a{{.x}}b{{.name}}", "{{.x}}~{{.x}}"})
	case "same name: other spelling":
		st.d.sel = ""
		data(`{x: "./{{.x}}", up: "../` + filepath.Base(filepath.Join(st.dir, st.at)) + `/{{.up}}", z: "{{.z}}/", w: "{{.w}}/.", v: "/{{.v}}"}` + "\n")
		st.root.tName = pick(r, []string{"{{.x}}", "{{.up}}", "{{.v}}"})
		if st.root.dir {
			st.root.tName = pick(r, []string{"{{.x}}", "{{.up}}", "{{.v}}", "{{.z}}", "{{.w}}", "t{{.z}}"})
		}
	case "same name: through a link":
		if r.pct(40) {
			// a directory that leads back to where the template is
			lnk := pick(r, []string{"lnk", ".l", "a b"})
			st.d.sel = ""
			data(`{x: "` + lnk + `/{{.x}}", y: "` + lnk + `/` + lnk + `/t{{.y}}", z: "../` + filepath.Base(filepath.Join(st.dir, st.at)) + "/" + lnk + `/{{.z}}"}` + "\n")
			st.root.tName = pick(r, []string{"{{.x}}", "{{.z}}"})
			must(os.Symlink(pick(r, []string{".", filepath.Join(st.dir, st.at)}), filepath.Join(st.dir, st.at, lnk)))
			break
		}
		// the place of some result is a link to its own template
		done()
		type place struct {
			dir           bool
			tmpl, results string
		}
		ps := []place{}
		var walk func(n *etcNode, t, w string)
		walk = func(n *etcNode, t, w string) {
			t, w = filepath.Join(t, n.tName), filepath.Join(w, n.name)
			ps = append(ps, place{n.dir, t, w})
			for _, k := range n.kids {
				walk(k, t, w)
			}
		}
		walk(st.root, filepath.Join(st.dir, st.at), filepath.Join(st.dir, st.at))
		p := ps[0]
		if r.pct(60) {
			p = pick(r, ps)
		}
		must(os.MkdirAll(filepath.Dir(p.results), 0755))
		if p.dir || r.pct(50) {
			must(os.Symlink(p.tmpl, p.results))
		} else {
			must(os.Link(p.tmpl, p.results))
		}
	case "unreadable data":
		unreadable = st.dataAt
		if st.cred == nil {
			c.Count("skipped as root", 1)
			return
		}
	case "unreadable template":
		if st.cred == nil {
			c.Count("skipped as root", 1)
			return
		}
	case "blocked output":
		// the place of some result is taken by something of another kind
		exp := map[string]string{}
		st.root.expected(st.at, exp)
		p := pick(r, sortedKeys(exp))
		if exp[p] == "dir" {
			expectBlocked[p] = "file"
		} else {
			expectBlocked[p] = "dir"
		}
		for p, k := range expectBlocked {
			full := filepath.Join(st.dir, p)
			must(os.MkdirAll(filepath.Dir(full), 0755))
			if k == "dir" {
				must(os.Mkdir(full, 0755))
			} else {
				must(os.WriteFile(full, []byte("blocks"), 0644))
			}
		}
	case "full device", "broken link", "read-only output":
		// the place of some result can't be written
		if kind == "read-only output" && st.cred == nil {
			c.Count("skipped as root", 1)
			return
		}
		exp := map[string]string{}
		st.root.expected(st.at, exp)
		ps := []string{}
		for _, p := range sortedKeys(exp) {
			kids := false
			for q := range exp {
				kids = kids || strings.HasPrefix(q, p+"/")
			}
			switch {
			case kind == "full device" && exp[p] != "dir" && exp[p] != "file:":
				ps = append(ps, p)
			case kind == "broken link":
				ps = append(ps, p)
			case kind == "read-only output" && (exp[p] != "dir" || kids):
				ps = append(ps, p)
			}
		}
		if len(ps) == 0 {
			c.Count("skipped without a place", 1)
			return
		}
		p := pick(r, ps)
		full := filepath.Join(st.dir, p)
		must(os.MkdirAll(filepath.Dir(full), 0755))
		switch {
		case kind == "full device":
			must(os.Symlink("/dev/full", full))
		case kind == "broken link":
			must(os.Symlink(pick(r, []string{"nowhere at all/x", filepath.Base(full), full}), full))
		case exp[p] == "dir":
			must(os.Mkdir(full, 0555))
		default:
			must(os.WriteFile(full, []byte("read only"), 0444))
		}
	}
	done()
	if kind == "unreadable template" {
		ps := []string{}
		tmp := filepath.Join(st.at, st.root.tName)
		for p, v := range snapshot(st.dir) {
			if (p == tmp || strings.HasPrefix(p, tmp+"/")) && v != "dir" {
				ps = append(ps, p)
			}
		}
		sort.Strings(ps)
		if len(ps) == 0 {
			c.Count("skipped without files", 1)
			return
		}
		unreadable = pick(r, ps)
	}
	before := snapshot(st.dir)
	if unreadable != "" {
		must(os.Chmod(filepath.Join(st.dir, unreadable), 0))
	}
	code, log := st.run(st.cwd, args)
	if unreadable != "" {
		must(os.Chmod(filepath.Join(st.dir, unreadable), 0644))
	}
	after := snapshot(st.dir)
	c.Ev(1 + len(before))
	if code == 0 {
		c.Failf("%s: the tool reported success; arguments %q in %q; output:\n%s", kind, args, st.cwd, log)
	}
	tmp := filepath.Join(st.at, st.root.tName)
	for _, p := range sortedKeys(before) {
		if after[p] != before[p] {
			c.Failf("%s: %q was %s and is %s after the failed run; arguments %q in %q", kind, p, short(before[p]), short(after[p]), args, st.cwd)
		}
	}
	for _, p := range sortedKeys(after) {
		if _, ok := before[p]; !ok && strings.HasPrefix(p, tmp+"/") {
			c.Failf("%s: %q appeared inside of the template; arguments %q in %q", kind, p, args, st.cwd)
		}
	}
	c.Count("fault: "+kind, 1)
	c.SeenStr("fault", kind+fmt.Sprint(args[max(0, len(args)-2):])+before[tmp])
	c.Sample("%s: %q exited with %d", kind, args, code)
}

func etcProps() []*Prop {
	return []*Prop{
		{ID: "C29", NeedEtc: true, MinEvals: 2000,
			Rule:     "evaluations are exit statuses and files and directories compared with the expected ones after runs of the tool; distinct_nontrivial counts distinct expected (path, contents)",
			Sections: []Section{{"reproduce", 700, 12000, secReproduce}}},
		{ID: "C30", NeedEtc: true, MinEvals: 2000,
			Rule:     "evaluations are exit statuses and files compared with their state before failing runs of the tool; distinct_nontrivial counts distinct (fault, arguments, template)",
			Sections: []Section{{"faults", 900, 16000, secFaults}}},
		{ID: "C37", NeedEtc: true, MinEvals: 2000,
			Rule:     "evaluations are exit statuses and items of catalogs looked for in the report of the tool; distinct_nontrivial counts distinct pairs of paths of a template and its result",
			Sections: []Section{{"report", 700, 12000, secReport}}},
		{ID: "C31", NeedEtc: true, Gen: true, MinEvals: 50000,
			Rule: ruleHist + "; all on packages regenerated by the tool in a copy of the repository",
			Sections: []Section{
				{"typed", 2400, 60000, secHist(typedFams(), focus{lpm: true, exact: true, enum: true, flag: true, empty: true})},
				{"dense", 48, 1200, secDense(typedFams(), focus{lpm: true, exact: true, enum: true, flag: true})},
				{"versions", 600, 12000, secVersions(typedFams(), false)}, {"in-place", 400, 8000, secInplace(typedFams(), false)}, {"dump", 400, 8000, secDump(typedStrFams())},
				{"width", 240, 2400, secWidth(typedFams())}, {"mirror", 2400, 60000, secMirror},
				{"chain", 72, 1200, secChain(append(typedIPFams(), typedDomFams()...), focus{lpm: true, enum: true, flag: true})},
				{"large", 32, 400, secLarge(typedFams(), focus{lpm: true, exact: true, enum: true, order: true, flag: true}, 1500)},
				{"isolation", 400, 8000, secIsolation(typedIPFams(), ipOpens()[1:])}, {"malformed", 160, 4000, secMalformed(typedIPFams())},
				{"empty", 480, 9000, secEmpty(typedFams())}, {"drain", 240, 5000, secDrain(typedFams())}, {"path-cost", 32, 400, secPathCost(typedFams())}}},
	}
}
