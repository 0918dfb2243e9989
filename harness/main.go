package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

var registry = map[string]func(*Run){}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	trace := flag.String("trace", "", "")
	only := flag.String("case", "", "")
	flag.Parse()
	fn, ok := registry[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	r := &Run{Prop: *prop, Tier: *tier, Seed: *seed, Only: *only, sigs: map[uint64]struct{}{}, counters: map[string]int64{}}
	if *trace != "" {
		f, err := os.Create(*trace)
		if err != nil {
			panic(err)
		}
		r.trace = f
	}
	startCanary()
	t0 := time.Now()
	fn(r)
	stopProcs()
	res := r.result(t0)
	if *out != "" {
		writeJSON(*out, res)
	}
	for _, v := range r.violations {
		fmt.Printf("violation %s: %s\n", v.Case, v.What)
		if *only != "" || os.Getenv("VERIF_VERBOSE") != "" {
			for _, d := range v.Detail {
				fmt.Println("   ", d)
			}
		}
	}
	for _, v := range r.harnessErr {
		fmt.Println("harness error", v)
	}
	for _, v := range r.incon {
		fmt.Println("inconclusive", v)
	}
	fmt.Printf("%s %s seed=%d: %d executions, %d distinct, %.1fs\n", *prop, *tier, *seed, r.evals, len(r.sigs), time.Since(t0).Seconds())
	fmt.Println(r.counters)
}
