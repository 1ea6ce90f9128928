package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run analyses fn with symbolic parameters p0..pn.
func (e *Engine) Run(fn *ssa.Function, assume func(*State, []*Term)) (ex []*Exit, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("undecided: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	st := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, fidx: map[*Term]bool{}}
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, mk(Term{Op: "param", Sym: fmt.Sprintf("p%d", i), Typ: p.Type()}))
	}
	if assume != nil {
		assume(st, args)
	}
	return e.fix(func() []*Exit { return e.Call(fn, args, nil, st, "r") }), nil
}

// fix repeats f until no more loop has to be summarised coarsely.
func (e *Engine) fix(f func() []*Exit) []*Exit {
	for {
		ex, again := func() (ex []*Exit, again bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(restart); ok {
						again = true
						return
					}
					panic(r)
				}
			}()
			return f(), false
		}()
		if !again {
			return ex
		}
		e.loops = map[string]*LoopCtx{}
		e.depth = 0
	}
}

func dumpExits(p *Prog, exits []*Exit, ind string) {
	for i, x := range exits {
		var rs []string
		for _, r := range x.Res {
			rs = append(rs, r.String())
		}
		k := "ret"
		if x.Panic {
			k = "PANIC"
		}
		fmt.Printf("%s[%d] %s %s  @%s\n", ind, i, k, strings.Join(rs, " ; "), posOf(p, x.Pos))
		for _, f := range x.St.facts[min(x.base, len(x.St.facts)):] {
			fmt.Printf("%s      %s\n", ind, f)
		}
		dumpEvents(p, x.St.events, ind+"    ")
		for h, v := range x.St.heap {
			if addrBase(h).Op != "alloc" {
				fmt.Printf("%s    H %s = %s\n", ind, h, v)
			}
		}
	}
}

var briefDump bool

var dumped = map[*LoopCtx]bool{}

func dumpEvents(p *Prog, evs []*Event, ind string) {
	for _, ev := range evs {
		if ev.Kind == "log" || ev.Kind == "errtext" || ev.Kind == "now" {
			continue
		}
		fmt.Printf("%s* %s  @%s\n", ind, ev, posOf(p, ev.Pos))
		if len(ev.Sub) > 0 {
			dumpExits(p, ev.Sub, ind+"    ")
		}
		if ev.Loop != nil && dumped[ev.Loop] {
			fmt.Printf("%s   (see loop#%d)\n", ind, ev.Loop.serial)
		} else if ev.Loop != nil {
			dumped[ev.Loop] = true
			seenI := map[string]bool{}
			for j, it := range ev.Loop.Iters {
				if briefDump {
					k := fmt.Sprint(factTexts(it.Facts))
					if it.First || seenI[k] {
						continue
					}
					seenI[k] = true
				}
				fmt.Printf("%s   iter %d first=%v phis=%v\n", ind, j, it.First, it.Phis)
				for _, f := range it.Facts {
					fmt.Printf("%s       %s\n", ind, f)
				}
				dumpEvents(p, it.Events, ind+"      ")
			}
			for n, s := range ev.Loop.Slots {
				fmt.Printf("%s   slot %s inits=%v contribs=%v\n", ind, n, s.Inits, s.Contribs)
			}
		}
	}
}

func main() {
	root := flag.String("repo", "/repo", "")
	dump := flag.String("dump", "", "pkg:Func")
	check := flag.String("check", "", "property id, or all")
	tier := flag.String("tier", "quick", "")
	opq := flag.String("opaque", "", "")
	risks := flag.Bool("risks", false, "")
	flag.BoolVar(&briefDump, "brief", false, "")
	flag.Parse()
	if *check != "" {
		var ids []string
		for id := range checks {
			if *check == "all" || *check == id {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		if len(ids) == 0 {
			fmt.Println("no such check")
			os.Exit(2)
		}
		rc := 0
		for _, id := range ids {
			if r := runCheck(*root, checks[id], *tier); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	}
	p, err := Load(*root)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *dump != "" {
		i := strings.Index(*dump, ":")
		fn := p.Func((*dump)[:i], (*dump)[i+1:])
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		e := p.NewEngine()
		if *opq != "" {
			re := regexp.MustCompile(*opq)
			e.Opaque = func(f *ssa.Function) bool { return f != fn && re.MatchString(f.String()) }
		}
		if *risks {
			e.Risks, e.Checked = map[string]*Risk{}, map[ssa.Instruction]bool{}
		}
		ex, err := e.Run(fn, nil)
		if err != nil {
			fmt.Println(err)
		}
		if *risks {
			for _, r := range e.Risks {
				fmt.Println(posOf(p, r.Pos), riskText(r))
			}
			return
		}
		dumpExits(p, ex, "")
		fmt.Println("exits", len(ex), "steps", e.Steps, "terms", len(termList))
	}
}
