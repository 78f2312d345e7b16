package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"time"
)

func allCmd() {
	p, err := load("/repo")
	if err != nil {
		panic(err)
	}
	p.runInit()
	for _, pkg := range []string{modulePath, modulePath + "/pkg/qr", modulePath + "/pkg/errors", modulePath + "/pkg/requests", modulePath + "/internal/utils", modulePath + "/internal/tag", modulePath + "/cmd/authdbctl"} {
		for _, f := range p.exportedAPI(pkg) {
			t := time.Now()
			var pan []string
			m := newMachine(p, nil)
			m.h.Panic = func(m *Machine, st *State, in ssaInstr, what string, x *Term) {
				if m.quiet > 0 {
					return
				}
				s := what + " " + p.instrPos(in) + " " + x.String()
				if len(s) > 160 {
					s = s[:160]
				}
				for _, q := range pan {
					if q == s {
						return
					}
				}
				pan = append(pan, s)
			}
			outs := m.exec(f, m.Params(f), nil, p.entryState())
			fmt.Printf("%-50s %5d outs %8d steps %d funcs coarse %d %v\n", f.String(), len(outs), m.steps, len(m.funcs), m.coarse, time.Since(t))
			for _, u := range m.undecided {
				fmt.Println("    UNDECIDED", u)
			}
			for _, u := range pan {
				fmt.Println("    panic", u)
			}
		}
	}
	fmt.Println(termN)
}

type ssaInstr = ssa.Instruction
