// Command harness runs the generated checks of one property, or replays a
// failing case. It is driven by ../check.py.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"testing"
	"time"
)

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Uint64("shard", 0, "shard")
	out := flag.String("out", "", "directory for the results")
	trace := flag.String("trace", "", "file every case is written to before it is run")
	replay := flag.String("replay", "", "replay this file instead")
	scale := flag.Float64("scale", 1, "multiply the number of cases")
	only := flag.String("part", "", "run only this part")
	list := flag.Bool("list", false, "list the rules by property")
	ofProp := flag.String("parts", "", "list the parts of this property that draw cases")
	limit := flag.Float64("limit", 0, "seconds after which no new cases are drawn, 0 for none")
	known := flag.String("known", "", "file of known findings")
	regress := flag.String("regress", "", "directory of regression cases")
	src := flag.String("src", "/repo", "the source under test, for the dictionary")
	dump := flag.Bool("dumpdict", false, "print the dictionary")
	flag.Parse()
	if *dump {
		dumpDict(*src)
		return
	}
	if err := loadDict(*src); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	flag.Set("rapid.nofailfile", "true")
	if *tier == "thorough" {
		flag.Set("rapid.shrinktime", "60s")
	} else {
		flag.Set("rapid.shrinktime", "15s")
	}

	if *ofProp != "" {
		var names []string
		for _, p := range parts {
			if p.prop == *ofProp && p.thorough > 0 {
				names = append(names, p.prop+"/"+p.name)
			}
		}
		json.NewEncoder(os.Stdout).Encode(names)
		return
	}
	if *list {
		json.NewEncoder(os.Stdout).Encode(rules)
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	quiet()
	if *prop == "C11" {
		// A stack that grows with the input runs out on a large enough input:
		// see that on those of this property, of up to 2 MB.
		debug.SetMaxStack(maxStack)
	}
	r := newRunner(*out)
	r.trace = *trace
	go r.watch(90*time.Second, 6<<30)

	if *known != "" && *shard == 0 {
		if f := runKnown(r, *prop, *known); f != nil {
			r.finish(f)
			os.Exit(1)
		}
	}
	if *regress != "" && *shard == 0 {
		if f := runRegress(r, *prop, *regress); f != nil {
			r.finish(f)
			os.Exit(1)
		}
	}

	begun := time.Now()
	var mine []*part
	for _, p := range parts {
		if p.prop == *prop && (*only == "" || p.name == *only) {
			mine = append(mine, p)
		}
	}
	for i, p := range mine {
		n := p.quick
		if *tier == "thorough" {
			n = p.thorough
		}
		n = int(float64(n) * *scale)
		if n == 0 {
			continue
		}
		r.shardSeed = seedFor(*seed, *shard, p.prop+"/"+p.name)
		t0 := time.Now()
		if *limit > 0 { // up to three times an even share of what is left
			left := *limit - time.Since(begun).Seconds()
			share := min(left, 3*left/float64(len(mine)-i))
			r.deadline = t0.Add(time.Duration(share * float64(time.Second)))
		}
		f := p.run(r, n, r.shardSeed)
		fmt.Fprintf(stdout, "part %s/%s: %d cases in %.1fs, slowest %.1fs\n", p.prop, p.name, n, time.Since(t0).Seconds(), r.slowest.Seconds())
		r.slowest = 0
		if f != nil {
			r.finish(f)
			os.Exit(1)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(2)
	}
	r.finish(nil)
}

// quiet keeps what the code under test prints out of the way.
func quiet() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

var stdout = os.Stdout

func doReplay(file string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f failure
	if err := json.Unmarshal(raw, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if f.Property == "C11" {
		debug.SetMaxStack(maxStack)
	}
	for _, p := range parts {
		if p.prop == f.Property && p.name == f.Part {
			if err := p.replay(f.Case); err != nil {
				fmt.Printf("still fails: %v\n", err)
				return 1
			}
			fmt.Println("holds")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such part:", f.Property, f.Part)
	return 2
}
