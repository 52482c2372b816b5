// Command harness runs the monitored workloads of one property against the
// library built from /repo's working tree.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"verif/harness/core"
	"verif/harness/ref"
)

var props = core.Props

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	only := flag.String("only", "", "run only this generator")
	replay := flag.String("replay", "", "replay one recorded violation")
	verif := flag.String("verif", "/verif", "verification directory")
	limit := flag.Int("limit", 840, "watchdog in seconds")
	child := flag.Int("child", -1, "fresh process of C25")
	flag.Parse()
	if *child >= 0 {
		os.Exit(firstChild(*seed, *child))
	}
	if err := ref.SelfTest(); err != nil {
		fmt.Println("ERROR: reference model self test failed:", err)
		os.Exit(2)
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v core.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p := props[v.Property]
		if p == nil {
			fmt.Println("unknown property", v.Property)
			os.Exit(2)
		}
		setup(v.Property)
		if nv := core.Replay(p, &v); nv != nil {
			fmt.Printf("[%s #%d] %s: %s\n%s\n", nv.Gen, nv.Index, nv.Class, nv.Msg, nv.Stack)
			for _, n := range nv.Notes {
				fmt.Println("   ", n)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, *replay)
			os.Exit(1)
		}
		fmt.Println("replayed case holds")
		os.Exit(0)
	}
	p := props[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	go func() {
		time.Sleep(time.Duration(*limit) * time.Second)
		fmt.Printf("ERROR: %s did not finish within %d s\n", *prop, *limit)
		os.Exit(2)
	}()
	setup(*prop)
	core.Deadline = time.Duration(*limit) * 5 / 7 * time.Second
	core.OnHang = func(res *core.Result) {
		os.Exit(core.Finish(p, res, *tier, *seed, *verif, nil))
	}
	res := core.Run(p, *tier, *seed, *only)
	os.Exit(core.Finish(p, res, *tier, *seed, *verif, extraCoverage(*prop)))
}

// setup holds per-property global preparation.
var setups = map[string]func(){}

func setup(id string) {
	if f := setups[id]; f != nil {
		f()
	}
}

var extras = map[string]func() map[string]interface{}{}

func extraCoverage(id string) map[string]interface{} {
	if f := extras[id]; f != nil {
		return f()
	}
	return nil
}
