// h2mcheck decides the properties of /verif/properties.jsonl for the html-to-markdown
// repository by static analysis of its current source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type checker struct {
	run   func(P *Prog, r *Result)
	level string
}

var checkers = map[string]checker{}

func register(id string, run func(P *Prog, r *Result)) { checkers[id] = checker{run, "other"} }

func main() {
	prop := flag.String("prop", "", "property id, comma separated ids, or 'all'")
	verbose := flag.Bool("v", false, "print every obligation")
	dbg := flag.String("debug", "", "debug command")
	flag.Parse()
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for k := range checkers {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	P, err := load()
	if err != nil {
		for _, id := range ids {
			fmt.Printf("cannot analyse the source: %v\n", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, "/verif/check.sh")
		}
		os.Exit(1)
	}
	if *dbg != "" {
		debugCmd(P, *dbg, flag.Args())
		return
	}
	code := 0
	for _, id := range ids {
		c, ok := checkers[id]
		if !ok {
			fmt.Printf("no checker for %q\n", id)
			os.Exit(2)
		}
		st := time.Now()
		if len(ids) == 1 {
			st = start
		} else {
			fmt.Printf("== %s\n", id)
		}
		r := newResult(id)
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Bad("analysis", "checker", "", "the analysis could not handle the source: %v", e)
					if *verbose {
						debug.PrintStack()
					}
				}
			}()
			c.run(P, r)
		}()
		if r.finish(P, st, c.level, *verbose) != 0 {
			code = 1
		}
	}
	os.Exit(code)
}
