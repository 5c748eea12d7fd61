// Command vp runs one check.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"

	"verif/analyzer/checks"
)

func main() {
	id := flag.String("check", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	home := flag.String("home", "/verif", "verif directory")
	list := flag.Bool("list", false, "list the checks")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(22 << 30)
	if *list {
		var ids []string
		for k := range checks.Registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Printf("%s\t%s\t%s\n", k, checks.Registry[k].Title, checks.Registry[k].Rule)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	rc := checks.Main(*id, *tier, *repo, *home, seed)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}
