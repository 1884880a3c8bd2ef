package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: xta dump DRIVER... | check ID")
		os.Exit(1)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(2 << 30)
	if f := os.Getenv("XTA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "work":
		i, _ := strconv.Atoi(os.Args[4])
		n, _ := strconv.Atoi(os.Args[5])
		workMain(os.Args[2], os.Args[3], i, n, os.Args[6])
	case "job": // one job of a check, for debugging
		ch := checks[os.Args[2]]
		js := ch.jobs("thorough")
		res := runJobs(ch, "thorough", func(k int) bool { return js[k].name == os.Args[3] }, nil)
		fmt.Printf("%d obligations, %d paths\n", res.Oblig, res.Outcomes)
		for _, v := range res.Viol {
			fmt.Printf("%s: %s: %s\n   path: %s\n", v.Where, v.Rule, v.Detail, v.Path)
		}
	case "manifest":
		manifest()
	case "classify":
		w := load("/verif/drivers")
		defer w.close()
		for _, p := range w.repoPkgs() {
			for _, f := range pkgFuncs(w.prog, p) {
				if f.Name() == os.Args[2] {
					t := time.Now()
					w.interp().classify(f, 2)
					fmt.Printf("%s: %+v %v\n", f, w.classes[f.String()+"#2"], time.Since(t))
				}
			}
		}
	case "dump":
		w := load("/verif/drivers")
		defer w.close()
		for _, n := range os.Args[2:] {
			t := time.Now()
			r := w.drive(n, func(in *Interp, st *State) {
				for _, o := range strings.Fields(os.Getenv("XTA_OPTS")) {
					in.opts[o] = true
				}
			})
			fmt.Printf("== %s: %d outcomes, %d steps, %v\n", n, len(r.outs), r.in.steps, time.Since(t))
			if debugSplit {
				for _, k := range sortedKeys(w.shapes) {
					fmt.Printf("shape %s: %+v\n", k, *w.shapes[k])
				}
			}
			if r.und != "" {
				fmt.Println("UNDECIDED:", r.und)
			}
			for _, o := range r.outs {
				if o.panic {
					fmt.Printf(" panic %s at %s\n", o.st.pan.msg, o.st.pan.pos)
				}
				fmt.Println(" outcome", o.st.trail)
				for _, e := range o.st.events() {
					fmt.Println("   ", e)
				}
			}
		}
	}
}
