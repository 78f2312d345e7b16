package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var checks = map[string]func(c *Check){}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "all" {
		allCmd()
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "trace" {
		traceCmd(os.Args[2:])
		return
	}
	prop := flag.String("property", "", "properties to check, separated by commas, or all")
	repo := flag.String("repo", "/repo", "the repository")
	verif := flag.String("verif", "/verif", "where evidence goes")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	rc := 0
	t0 := time.Now()
	p, err := load(*repo)
	if err == nil {
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("analysis of the initialisers failed: %v", e)
				}
			}()
			p.runInit()
		}()
	}
	for _, id := range ids {
		if len(ids) > 1 {
			t0 = time.Now()
		}
		if r := runCheck(id, p, err, *tier, *verif, t0); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

func runCheck(id string, p *Program, err error, tier, verif string, t0 time.Time) (rc int) {
	c := newCheck(id, p, tier)
	old, _ := filepath.Glob(filepath.Join(verif, "evidence", id+".violation*.txt"))
	for _, f := range old {
		os.Remove(f)
	}
	c.loadKnown(filepath.Join(verif, "known_findings.txt"))
	f := checks[id]
	switch {
	case err != nil:
		c.undecided("%v", err)
	case f == nil:
		c.undecided("there is no check of property %s", id)
	default:
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("IDCHECK_PANIC") != "" {
						panic(e)
					}
					c.undecided("the analysis failed: %v", e)
				}
			}()
			f(c)
		}()
	}
	return c.finish(t0, verif)
}

func traceCmd(a []string) {
	t0 := time.Now()
	p, err := load(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	p.runInit()
	fmt.Println("loaded", time.Since(t0), "init heap", len(p.init.heap))
	for _, n := range a {
		if n == "-v" || n == "-g" {
			continue
		}
		pkg := modulePath
		if i := strings.LastIndex(n, ":"); i > 0 {
			pkg = modulePath + "/" + n[:i]
			n = n[i+1:]
		}
		f := p.lookup(pkg, n)
		if f == nil {
			fmt.Println("no function", n)
			continue
		}
		t1 := time.Now()
		m := newMachine(p, nil)
		outs := m.exec(f, m.Params(f), nil, p.entryState())
		fmt.Printf("== %s: %d outcomes, %d steps, %d calls, %d funcs, %v, terms %d\n", n, len(outs), m.steps, m.calls, len(m.funcs), time.Since(t1), termN)
		for _, u := range m.undecided {
			fmt.Println("  UNDECIDED", u)
		}
		if a[0] != "-v" && a[0] != "-g" {
			continue
		}
		for i, o := range outs {
			if a[0] == "-g" && (o.panics || len(o.res) > 0 && o.res[len(o.res)-1] != tNil) {
				continue
			}
			fmt.Printf("-- outcome %d panics=%v\n", i, o.panics)
			for _, r := range o.res {
				fmt.Println("   res", r)
			}
			if a[0] == "-v" {
				for _, l := range o.st.path() {
					fmt.Println("   path", l)
				}
			}
			var l []string
			for f, v := range o.st.facts {
				l = append(l, fmt.Sprintf("   fact %v = %v", f, v))
			}
			for f, v := range o.st.heap {
				if p.init.heap[f] == v {
					continue
				}
				l = append(l, fmt.Sprintf("   heap %v = %v", f, v))
			}
			sort.Strings(l)
			fmt.Println(strings.Join(l, "\n"))
		}
	}
}

func repoDir() string {
	if d := os.Getenv("IDCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}
