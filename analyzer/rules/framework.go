// Package rules decides the properties of gocryptsftp from its source.
package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Rule      string `json:"rule"`
	Pos       string `json:"pos"`
	Construct string `json:"construct"`
	Why       string `json:"why"`
	Path      string `json:"path,omitempty"`
}

// Ctx collects what one check analysed and found.
type Ctx struct {
	P  *engine.Prog
	ID string

	Findings []Finding
	Held     map[string]int             // obligations discharged, by rule
	Sites    map[string]map[string]bool // constructs analysed, by rule
	Funcs    map[string]bool
	Paths    int
	Doc      map[string]string // what each rule says

	explored map[string]*engine.Result
	seen     map[string]bool
	lemmas   map[string]bool
}

// NewCtx makes an empty context.
func NewCtx(p *engine.Prog, id string) *Ctx {
	return &Ctx{P: p, ID: id, Held: map[string]int{}, Sites: map[string]map[string]bool{}, Funcs: map[string]bool{},
		Doc: map[string]string{}, explored: map[string]*engine.Result{}, seen: map[string]bool{}, lemmas: map[string]bool{}}
}

// Rule documents a rule.
func (c *Ctx) Rule(rule, doc string) { c.Doc[rule] = doc }

// Pass records a discharged obligation at a construct.
func (c *Ctx) Pass(rule, construct string) {
	c.Held[rule]++
	if c.Sites[rule] == nil {
		c.Sites[rule] = map[string]bool{}
	}
	if len(c.Sites[rule]) < 200 {
		c.Sites[rule][construct] = true
	}
}

// Fail records a violation.
func (c *Ctx) Fail(rule string, pos token.Pos, construct, why string) {
	c.FailPath(rule, pos, construct, why, nil)
}

// FailPath records a violation along a path.
func (c *Ctx) FailPath(rule string, pos token.Pos, construct, why string, p *engine.Path) {
	f := Finding{Rule: rule, Pos: c.P.Pos(pos), Construct: construct, Why: why}
	if p != nil {
		f.Path = p.Desc()
	}
	k := rule + "|" + f.Pos + "|" + construct + "|" + why
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Findings = append(c.Findings, f)
}

// Check passes or fails.
func (c *Ctx) Check(ok bool, rule string, pos token.Pos, construct, why string, p *engine.Path) bool {
	if ok {
		c.Pass(rule, construct)
	} else {
		c.FailPath(rule, pos, construct, why, p)
	}
	return ok
}

// Need demands that a rule had at least n obligations: a rule without
// instances shows nothing.
func (c *Ctx) Need(rule string, n int) {
	if c.Held[rule] >= n {
		return
	}
	for _, f := range c.Findings {
		if f.Rule == rule {
			return
		}
	}
	c.Fail(rule, token.NoPos, rule, fmt.Sprintf("only %d constructs found that this rule applies to, expected at least %d: the code it is about is gone or no longer recognised", c.Held[rule], n))
}

// Fn finds a function, or fails the rule.
func (c *Ctx) Fn(rule, pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.Fail(rule, token.NoPos, pkg+"."+name, "function not found")
		return nil
	}
	return f
}

// short is the name of a function without the repository's path:
// "requester.Requester.ReadFile".
func short(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	for f.Parent() != nil {
		return short(f.Parent()) + "$" + f.Name()[strings.LastIndex(f.Name(), "$")+1:]
	}
	s := f.String()
	s = strings.NewReplacer("(", "", ")", "", "*", "").Replace(s)
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// Explore explores entry with the named functions left opaque (the tlog
// package always is), once.
func (c *Ctx) Explore(rule string, entry *ssa.Function, opaque ...string) *engine.Result {
	return c.ExploreCfg(rule, engine.Config{Entry: entry}, opaque...)
}

// ExploreCfg is Explore with more settings.
func (c *Ctx) ExploreCfg(rule string, cfg engine.Config, opaque ...string) *engine.Result {
	sort.Strings(opaque)
	key := fmt.Sprintf("%s|%s|%v|%v|%d", cfg.Entry, strings.Join(opaque, ","), cfg.NoAlias, cfg.Loads, cfg.MaxPaths)
	also := cfg.Opaque
	if also != nil {
		key += "|" + rule
	}
	if r, ok := c.explored[key]; ok && cfg.Args == nil && cfg.Free == nil && cfg.Mem == nil && cfg.TT == nil {
		return r
	}
	set := map[string]bool{}
	for _, o := range opaque {
		set[o] = true
	}
	root := cfg.Entry
	cfg.Opaque = func(f *ssa.Function) bool {
		if f == root {
			return false
		}
		if pk := engine.PkgOf(f); pk != nil && strings.HasSuffix(pk.Path(), "/tlog") {
			return true
		}
		return set[short(f)] || also != nil && also(f)
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 60000
	}
	r := c.P.Explore(cfg)
	if cfg.Args == nil && cfg.Free == nil && cfg.Mem == nil && cfg.TT == nil {
		c.explored[key] = r
	}
	c.Paths += len(r.Paths)
	for f := range r.Funcs {
		c.Funcs[short(f)] = true
	}
	c.Funcs[short(cfg.Entry)] = true
	if r.Capped {
		c.Fail(rule, cfg.Entry.Pos(), short(cfg.Entry), fmt.Sprintf("more than %d paths: not decided", cfg.MaxPaths))
	}
	if len(r.Paths) == 0 {
		c.Fail(rule, cfg.Entry.Pos(), short(cfg.Entry), "no path explored")
	}
	return r
}

// Once runs a lemma once per check.
func (c *Ctx) Once(name string, f func()) {
	if !c.lemmas[name] {
		c.lemmas[name] = true
		f()
	}
}

// Prop is a property's decision procedure.
type Prop struct {
	ID        string
	Technique string
	Explain   string
	Run       func(*Ctx)
}

// Props lists all checks.
var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }
