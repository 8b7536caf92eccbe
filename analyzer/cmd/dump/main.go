// Command dump prints the path classes of one function, for debugging.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/analyzer/engine"
)

func main() {
	dir := flag.String("dir", "/repo", "")
	ev := flag.Bool("ev", false, "print events")
	facts := flag.Bool("facts", false, "print facts")
	opq := flag.String("opaque", "", "comma separated prefixes of shortnames")
	noalias := flag.Bool("noalias", false, "")
	max := flag.Int("n", 1000000, "")
	flag.Parse()
	p, err := engine.Load(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fn := p.Func(flag.Arg(0), flag.Arg(1))
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	t0 := time.Now()
	r := p.Explore(engine.Config{Entry: fn, NoAlias: *noalias, Opaque: func(f *ssa.Function) bool {
		n := strings.NewReplacer("(", "", ")", "", "*", "").Replace(engine.FullName(f))
		if strings.Contains(n, "/tlog.") {
			return true
		}
		for _, o := range strings.Split(*opq, ",") {
			if o != "" && strings.Contains(n, o) {
				return true
			}
		}
		return false
	}})
	fmt.Printf("%d paths capped=%v steps=%d funcs=%d %.2fs\n", len(r.Paths), r.Capped, r.Steps, len(r.Funcs), time.Since(t0).Seconds())
	for i, q := range r.Paths {
		if i >= *max {
			break
		}
		fmt.Printf("--- path %d %s ret=%v at %s\n", i, q.Exit, q.Ret, p.Pos(q.Pos))
		if *ev {
			for _, e := range q.Events {
				fmt.Printf("   %*s%s %s %v -> %v  (%s) i=%d\n", 2*e.Depth(), "", e.Kind, e.Callee, e.Args, e.Res, p.Pos(e.Pos), e.Idx)
			}
		}
		if *facts {
			for _, f := range q.Facts.Slice() {
				fmt.Printf("      [%v %v]\n", f.T, f.Pol)
			}
		}
	}
}
