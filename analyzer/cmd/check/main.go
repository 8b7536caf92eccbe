// Command check decides one property (or all) from the source in -dir.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"verif/analyzer/engine"
	"verif/analyzer/rules"
)

func main() {
	dir := flag.String("dir", "/repo", "repository")
	out := flag.String("out", "/verif/evidence", "evidence directory; empty for none")
	tier := flag.String("tier", "quick", "")
	verbose := flag.Bool("v", false, "")
	list := flag.Bool("list", false, "list the checks as JSON")
	flag.Parse()
	if *list {
		m := map[string]string{}
		for id, p := range rules.Props {
			m[id] = p.Technique
		}
		b, _ := json.MarshalIndent(m, "", " ")
		fmt.Println(string(b))
		return
	}
	ids := flag.Args()
	if len(ids) == 0 {
		for id := range rules.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	t0 := time.Now()
	prog, err := engine.Load(*dir)
	load := time.Since(t0)
	for _, id := range ids {
		if !one(prog, err, id, *dir, *out, *tier, load, *verbose) {
			rc = 1
		}
		load = 0
	}
	os.Exit(rc)
}

func one(prog *engine.Prog, lerr error, id, dir, out, tier string, load time.Duration, verbose bool) bool {
	t0 := time.Now()
	prop := rules.Props[id]
	if prop == nil {
		fmt.Println("no such check:", id)
		os.Exit(2)
	}
	c := rules.NewCtx(prog, id)
	if lerr != nil {
		c.Findings = append(c.Findings, rules.Finding{Rule: "load", Pos: "?", Construct: dir, Why: "the source does not load or type-check: " + lerr.Error()})
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Findings = append(c.Findings, rules.Finding{Rule: "internal", Pos: "?", Construct: id, Why: fmt.Sprintf("the analysis could not handle the code: %v", r)})
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}()
			prop.Run(c)
		}()
	}
	total := 0
	var rn []string
	for r, n := range c.Held {
		total += n
		rn = append(rn, r)
	}
	sort.Strings(rn)
	var funcs []string
	for f := range c.Funcs {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	type ruleEv struct {
		Rule       string   `json:"rule"`
		Says       string   `json:"says"`
		Discharged int      `json:"obligations_discharged"`
		Constructs []string `json:"constructs"`
	}
	var rl []ruleEv
	for _, r := range rn {
		var cs []string
		for s := range c.Sites[r] {
			cs = append(cs, s)
		}
		sort.Strings(cs)
		rl = append(rl, ruleEv{r, c.Doc[r], c.Held[r], cs})
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	wall := time.Since(t0) + load
	replay := ""
	if out != "" {
		os.MkdirAll(out, 0o755)
		replay = filepath.Join(out, id+".report.txt")
		var sb []byte
		for _, f := range c.Findings {
			sb = append(sb, fmt.Sprintf("%s: %s [%s] %s\n    path: %s\n", f.Pos, f.Construct, f.Rule, f.Why, f.Path)...)
		}
		if len(c.Findings) == 0 {
			sb = []byte("no violation\n")
		}
		os.WriteFile(replay, sb, 0o644)
		ev := map[string]interface{}{
			"property": id, "tier": tier, "seed": seed, "level": "other",
			"coverage": map[string]interface{}{
				"explanation":            prop.Explain,
				"obligations_discharged": total,
				"paths_analysed":         c.Paths,
				"functions_analysed":     funcs,
				"rules":                  rl,
			},
			"wall_s":     wall.Seconds(),
			"violations": len(c.Findings),
			"findings":   c.Findings,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, id+".json"), append(b, '\n'), 0o644)
	}
	for _, f := range c.Findings {
		fmt.Printf("  %s: %s [%s] %s\n", f.Pos, f.Construct, f.Rule, f.Why)
	}
	if len(c.Findings) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return false
	}
	fmt.Printf("%s: %d obligations on %d paths of %d functions hold (%.1fs)\n", id, total, c.Paths, len(funcs), wall.Seconds())
	if verbose {
		for _, r := range rl {
			fmt.Printf("    %-28s %d\n", r.Rule, r.Discharged)
		}
	}
	return true
}
