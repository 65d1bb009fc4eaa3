package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "run" {
		devRun(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(replayMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "gen" {
		os.Exit(genMain(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "usage: gosymx run|check|replay ...")
	os.Exit(2)
}

func devRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	cfg := &Config{}
	dir := fs.String("dir", "/verif/harness", "")
	pkg := fs.String("pkg", "./h", "")
	workers := fs.Int("w", runtime.NumCPU(), "")
	solver := fs.String("solver", "z3-new", "")
	tmo := fs.Int("tmo", 10000, "")
	prof := fs.String("prof", "", "")
	params := fs.String("p", "", "")
	fs.StringVar(&cfg.MapOrder, "map", "", "")
	fs.StringVar(&cfg.Mode, "mode", "", "")
	fs.IntVar(&cfg.Delays, "delays", 0, "")
	fs.IntVar(&cfg.Steps, "steps", 0, "")
	fs.IntVar(&cfg.Fair, "fair", 0, "")
	fs.IntVar(&cfg.Paths, "paths", 0, "")
	fs.IntVar(&cfg.Samples, "samples", 0, "")
	fs.IntVar(&cfg.Advances, "adv", 0, "")
	fs.Float64Var(&cfg.Seconds, "sec", 60, "")
	fs.BoolVar(&cfg.NoRace, "norace", false, "")
	fs.BoolVar(&debugFlag, "d", false, "")
	fs.Parse(args)
	cfg.Params = map[string]int{}
	for _, kv := range strings.Split(*params, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			cfg.Params[k], _ = strconv.Atoi(v)
		}
	}
	t0 := time.Now()
	if i := strings.Index(*dir, "build/cmd/"); i >= 0 {
		if err := genCmd((*dir)[i+len("build/cmd/"):]); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	p, err := loadProgram(*dir, *pkg)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, h := range fs.Args() {
		c := *cfg
		c.Harness = h
		r := explore(p, &c, *workers, *solver, *tmo)
		fmt.Println(r.summary())
	}
}
