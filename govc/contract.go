package main

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//go:embed rt.go.txt
var rtText string

//go:embed replay_test.go.txt
var replayText string

// CFile is one contract file, desugared into Go.
type CFile struct {
	Rel   string // package directory relative to the repository
	Path  string // file under /verif/contracts
	Dest  string // overlay path
	Pkg   string // package name
	Lines []string
	Cts   []*Contract
	Funcs []funcRange
}
type funcRange struct {
	name       string
	start, end int // 1-based line range
}

var reHdr = regexp.MustCompile(`^//@\s*contract\b(.*)$`)
var reFunc = regexp.MustCompile(`^func\s+(?:\([^)]*\)\s*)?([A-Za-z_0-9]+)`)
var reProp = regexp.MustCompile(`^C[0-9]+[a-z]?$`)
var keywords = map[string]bool{"requires": true, "assume": true, "call": true, "modifies": true, "invariant": true, "ensures": true, "lemma": true, "cover": true, "letb": true, "contract": true}

func isKeywordLine(l string) (string, string, bool) {
	t := strings.TrimSpace(l)
	if !strings.HasPrefix(t, "//@") {
		return "", "", false
	}
	t = strings.TrimSpace(t[3:])
	w := t
	for i, c := range t {
		if !(c >= 'a' && c <= 'z') {
			w = t[:i]
			break
		}
	}
	if keywords[w] {
		return w, strings.TrimSpace(t[len(w):]), true
	}
	return "", t, false
}

func parseCFile(repo, root, path string) (*CFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rel, _ := filepath.Rel(root, filepath.Dir(path))
	cf := &CFile{Rel: rel, Path: path}
	base := strings.TrimSuffix(filepath.Base(path), ".go")
	cf.Dest = filepath.Join(repo, rel, "zz_vc_"+base+".go")
	src := strings.Split(string(b), "\n")
	var out []string
	var cur *Contract
	var pend *Contract
	for i := 0; i < len(src); i++ {
		l := src[i]
		if strings.HasPrefix(l, "package ") && cf.Pkg == "" {
			cf.Pkg = strings.Fields(l)[1]
			out = append(out, l)
			continue
		}
		if m := reFunc.FindStringSubmatch(l); m != nil {
			cur = nil
			if pend != nil {
				cur, pend = pend, nil
				cur.Name = m[1]
				cur.ID = rel + "." + m[1]
				cur.Pkg = modPath + "/" + rel
				cur.File = path
				cur.Line = i + 1
				cf.Cts = append(cf.Cts, cur)
			}
			cf.Funcs = append(cf.Funcs, funcRange{m[1], i + 1, i + 1})
			out = append(out, l)
			continue
		}
		if strings.HasPrefix(l, "}") && len(cf.Funcs) > 0 && cf.Funcs[len(cf.Funcs)-1].end == cf.Funcs[len(cf.Funcs)-1].start {
			cf.Funcs[len(cf.Funcs)-1].end = i + 1
		}
		kw, rest, ok := isKeywordLine(l)
		if !ok {
			out = append(out, l)
			continue
		}
		// continuation lines
		n := 0
		for i+1+n < len(src) {
			t := strings.TrimSpace(src[i+1+n])
			if !strings.HasPrefix(t, "//@") {
				break
			}
			if _, r, isKw := isKeywordLine(t); !isKw {
				rest += " " + r
				n++
			} else {
				break
			}
		}
		text, err := desugar(kw, rest, cur, &pend)
		if err != nil {
			return nil, fmt.Errorf("%s:%d: %v", path, i+1, err)
		}
		out = append(out, text)
		for k := 0; k < n; k++ {
			out = append(out, "")
		}
		i += n
	}
	cf.Lines = out
	return cf, nil
}

func desugar(kw, rest string, ct *Contract, pend **Contract) (string, error) {
	if kw != "contract" && ct == nil {
		return "", fmt.Errorf("%s outside a contract function", kw)
	}
	switch kw {
	case "contract":
		c := &Contract{EnsProps: map[string][]string{}, Antes: map[string]bool{}}
		for _, w := range strings.Fields(rest) {
			switch {
			case reProp.MatchString(w):
				c.Props = append(c.Props, w)
			case w == "modular":
				c.Modular = true
			case w == "maypanic":
				c.MayPanic = true
			case w == "helper":
				c.Helper = true
			case w == "strings":
				c.Strings = true
			case w == "fuzzonly":
				c.FuzzOnly = true
			case strings.HasPrefix(w, "opaque="):
				for _, n := range strings.Split(w[7:], ",") {
					c.Opaque = append(c.Opaque, n)
				}
			case strings.HasPrefix(w, "stub="):
				if c.Stubs == nil {
					c.Stubs = map[string]string{}
				}
				for _, n := range strings.Split(w[5:], ",") {
					i := strings.LastIndex(n, ":")
					if i < 0 {
						return "", fmt.Errorf("stub needs function:spec")
					}
					c.Stubs[n[:i]] = n[i+1:]
				}
			case strings.HasPrefix(w, "hard="):
				fmt.Sscanf(w[5:], "%d", &c.HardMs)
			case strings.HasPrefix(w, "fast="):
				fmt.Sscanf(w[5:], "%d", &c.FastMs)
			default:
				return "", fmt.Errorf("unknown contract attribute %q", w)
			}
		}
		*pend = c
		return "", nil
	case "call":
		return "vcTarget()", nil
	case "requires":
		return "vcRequires(func() bool { return " + imp(rest) + " })", nil
	case "assume":
		return "vcAssume(func() bool { return " + imp(rest) + " })", nil
	case "modifies":
		return "vcModifies(" + rest + ")", nil
	case "letb":
		p := strings.SplitN(rest, "=", 2)
		if len(p) != 2 {
			return "", fmt.Errorf("letb needs name = expr")
		}
		return strings.TrimSpace(p[0]) + " := vcB(func() bool { return " + imp(p[1]) + " })", nil
	case "invariant":
		if !strings.HasPrefix(rest, "(") {
			return "", fmt.Errorf("invariant needs holes")
		}
		d := 0
		for i, c := range rest {
			if c == '(' {
				d++
			}
			if c == ')' {
				d--
				if d == 0 {
					body := strings.TrimPrefix(strings.TrimSpace(rest[i+1:]), ":")
					return "vcInvariant(func" + rest[:i+1] + " bool { return " + imp(body) + " })", nil
				}
			}
		}
		return "", fmt.Errorf("invariant holes")
	case "ensures", "lemma", "cover":
		var props []string
		if strings.HasPrefix(rest, "[") {
			j := strings.Index(rest, "]")
			for _, w := range strings.FieldsFunc(rest[1:j], func(r rune) bool { return r == ' ' || r == ',' }) {
				props = append(props, w)
			}
			rest = strings.TrimSpace(rest[j+1:])
		}
		j := strings.Index(rest, ":")
		if j < 0 {
			return "", fmt.Errorf("%s needs a label", kw)
		}
		label := strings.TrimSpace(rest[:j])
		if !regexp.MustCompile(`^[a-zA-Z0-9_.-]+$`).MatchString(label) {
			return "", fmt.Errorf("bad label %q", label)
		}
		expr := strings.TrimSpace(rest[j+1:])
		if kw == "cover" {
			return fmt.Sprintf("vcCover(%q, func() bool { return %s })", label, imp(expr)), nil
		}
		for _, l := range ct.Labels {
			if l == label {
				return "", fmt.Errorf("duplicate label %q", label)
			}
		}
		ct.Labels = append(ct.Labels, label)
		if props != nil {
			ct.EnsProps[label] = props
		}
		out := ""
		if a := antecedent(expr); a != "" {
			out = fmt.Sprintf("vcCover(%q, func() bool { return %s }); ", label, imp(a))
			ct.Antes[label] = true
		}
		fn := "vcEnsures"
		if kw == "lemma" {
			fn = "vcLemma"
		}
		return out + fmt.Sprintf("%s(%q, func() bool { return %s })", fn, label, imp(expr)), nil
	}
	return "", fmt.Errorf("keyword %s", kw)
}

func antecedent(s string) string {
	if i := topImp(s); i >= 0 {
		return s[:i]
	}
	return ""
}

func topImp(s string) int {
	d := 0
	inS := byte(0)
	for i := 0; i+2 < len(s); i++ {
		c := s[i]
		if inS != 0 {
			if c == '\\' {
				i++
			} else if c == inS {
				inS = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			inS = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '=':
			if d == 0 && s[i:i+3] == "==>" {
				return i
			}
		}
	}
	return -1
}

// imp rewrites ==> (right associative, lowest precedence) everywhere.
func imp(s string) string {
	if i := topImp(s); i >= 0 {
		return "(!(" + imp(s[:i]) + ") || (" + imp(s[i+3:]) + "))"
	}
	// inside brackets
	var b strings.Builder
	inS := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inS != 0 {
			b.WriteByte(c)
			if c == '\\' && inS != '`' {
				i++
				b.WriteByte(s[i])
			} else if c == inS {
				inS = 0
			}
			continue
		}
		if c == '"' || c == '`' || c == '\'' {
			inS = c
			b.WriteByte(c)
			continue
		}
		if c == '(' || c == '{' || c == '[' {
			j := matchBr(s, i)
			if j < 0 {
				b.WriteString(s[i:])
				return b.String()
			}
			b.WriteByte(c)
			inner := s[i+1 : j]
			if strings.Contains(inner, "==>") {
				for k, part := range splitTop(inner, c == '{') {
					if k > 0 {
						if c == '{' {
							b.WriteByte(';')
						} else {
							b.WriteByte(',')
						}
					}
					t := strings.TrimSpace(part)
					if strings.HasPrefix(t, "return ") {
						b.WriteString(" return " + imp(t[7:]) + " ")
					} else {
						b.WriteString(imp(part))
					}
				}
			} else {
				b.WriteString(inner)
			}
			b.WriteByte(s[j])
			i = j
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func splitTop(s string, semi bool) []string {
	var out []string
	sep := byte(',')
	if semi {
		sep = ';'
	}
	d, last := 0, 0
	inS := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inS != 0 {
			if c == '\\' && inS != '`' {
				i++
			} else if c == inS {
				inS = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			inS = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func matchBr(s string, i int) int {
	d := 0
	inS := byte(0)
	for ; i < len(s); i++ {
		c := s[i]
		if inS != 0 {
			if c == '\\' && inS != '`' {
				i++
			} else if c == inS {
				inS = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			inS = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// ---------------------------------------------------------------- the set of contract files

type Contracts struct {
	repo    string
	root    string
	Files   []*CFile
	Broken  map[string]string // contract ID -> error
	blanked map[string]bool
	Shared  string
}

func loadContracts(repo, root string) (*Contracts, error) {
	cs := &Contracts{repo: repo, root: root, Broken: map[string]string{}, blanked: map[string]bool{}}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		cf, err := parseCFile(repo, root, p)
		if err != nil {
			return err
		}
		cs.Files = append(cs.Files, cf)
		return nil
	})
	sort.Slice(cs.Files, func(i, j int) bool { return cs.Files[i].Path < cs.Files[j].Path })
	return cs, err
}

func (cs *Contracts) dirs() map[string]string { // rel dir -> package name
	m := map[string]string{}
	for _, f := range cs.Files {
		m[f.Rel] = f.Pkg
	}
	return m
}

// overlay gives the files added to the packages under verification.
func (cs *Contracts) overlay() map[string][]byte {
	ov := map[string][]byte{}
	for _, f := range cs.Files {
		ov[f.Dest] = []byte(strings.Join(f.Lines, "\n"))
	}
	for rel, pk := range cs.dirs() {
		if _, err := os.Stat(filepath.Join(cs.repo, rel)); err != nil {
			continue
		}
		ov[filepath.Join(cs.repo, rel, "zz_vc_rt.go")] = []byte(strings.Replace(rtText, "package PKG", "package "+pk, 1))
	}
	return ov
}

var rePos = regexp.MustCompile(`zz_vc_[A-Za-z0-9_]+\.go:(\d+)`)

// blank removes the functions of a contract file that no longer compile
// against the current code. It reports whether anything was removed.
func (cs *Contracts) blank(pk []*packages.Package) (bool, []string) {
	changed := false
	var other []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, er := range p.Errors {
			pos := er.Pos
			done := false
			for _, f := range cs.Files {
				if !strings.HasPrefix(pos, f.Dest+":") {
					continue
				}
				var line int
				fmt.Sscanf(pos[len(f.Dest)+1:], "%d", &line)
				if strings.Contains(er.Msg, "imported and not used") || strings.Contains(er.Msg, "could not import") {
					f.Lines[line-1] = ""
					changed, done = true, true
					continue
				}
				for _, fr := range f.Funcs {
					if line >= fr.start && line <= fr.end && !cs.blanked[f.Dest+fr.name] {
						for k := fr.start; k <= fr.end; k++ {
							f.Lines[k-1] = ""
						}
						cs.blanked[f.Dest+fr.name] = true
						for _, c := range f.Cts {
							if c.Name == fr.name {
								c.Broken = er.Msg
								cs.Broken[c.ID] = er.Msg
							}
						}
						changed, done = true, true
					} else if line >= fr.start && line <= fr.end {
						done = true
					}
				}
			}
			if !done {
				other = append(other, pos+": "+er.Msg)
			}
		}
	})
	return changed, other
}

// bind connects contracts to their SSA functions and targets.
func (cs *Contracts) bind(pr *Program) {
	for _, f := range cs.Files {
		sp := pr.pkgs[modPath+"/"+f.Rel]
		if sp == nil {
			continue
		}
		for _, c := range f.Cts {
			if c.Broken != "" {
				continue
			}
			fn := sp.Func(c.Name)
			if fn == nil || fn.Blocks == nil {
				c.Broken = "contract function not found"
				continue
			}
			c.Func = fn
			pr.byFn[fn] = c
			pr.contracts = append(pr.contracts, c)
			c.Target = findTarget(pr, fn)
			if c.Modular {
				if c.Target == nil {
					c.Broken = "modular contract without a target"
					continue
				}
				pr.byTarget[c.Target] = c
			}
		}
	}
}

func findTarget(pr *Program, fn *ssa.Function) *ssa.Function {
	seen := false
	for _, b := range fn.DomPreorder() {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			cal := c.Call.StaticCallee()
			if cal == nil {
				if seen {
					return nil
				}
				continue
			}
			if cal.Name() == "vcTarget" {
				seen = true
				continue
			}
			if seen && !pr.isSpecFn(cal) {
				return cal
			}
		}
	}
	return nil
}
