package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	prop := flag.String("property", "", "property id, or a comma separated list, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	dbg := flag.String("debug", "", "PKG:TYPE:METHOD (TYPE - for functions): print abstract outcomes")
	flag.Parse()
	start := time.Now()
	p, err := load(*repo)
	if *dbg != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		debugRoot(p, strings.Split(*dbg, ":"))
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	rc := 0
	for _, id := range ids {
		s := start
		if len(ids) > 1 {
			s = time.Now()
		}
		c := runCheck(p, err, id, *tier)
		if c.finish(*verif, s) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func debugRoot(p *Prog, w []string) {
	fn := p.Method(w[0], w[1], w[2])
	if w[1] == "-" {
		fn = p.Func(w[0], w[2])
	}
	if len(w) > 3 {
		fn.WriteTo(os.Stdout)
	}
	r := &Run{P: p, Record: func(n string) bool { return !readsOnly(n) && !isPure(n) }}
	outs := r.Root(fn, nil, p.initialState())
	for _, o := range outs {
		fmt.Println("RETURN", p.posOf(o.ret.Pos()))
		for _, t := range o.res {
			fmt.Println("   =", t, "→", o.st.load(t))
		}
		fmt.Println("   facts:", o.st.describeFacts())
		for _, e := range o.st.events() {
			if e.call != nil {
				fmt.Println("   ev", e.call.Name, e.call.Args)
			}
			if e.loop != nil {
				fmt.Println("   loop done over", e.loop.Over)
			}
		}
	}
	fmt.Printf("%+v %v\n", r.Stats, r.undecided)
}
