package main

import (
	"fmt"
	"os"
	"strconv"

	_ "verif/chk"
	"verif/run"
)

// vrun check ID [--case N] | vrun worker ID SEED TIER
func main() {
	p := run.Registry[os.Args[2]]
	if p == nil {
		fmt.Println("unknown property", os.Args[2])
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		run.Worker(p, seed, os.Args[4] == "thorough")
	case "check":
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		only := -1
		if len(os.Args) > 4 && os.Args[3] == "--case" {
			only, _ = strconv.Atoi(os.Args[4])
		}
		os.Exit(run.Supervise(p, seed, tier, os.Getenv("VRUN_VERIF"), only))
	default:
		os.Exit(2)
	}
}
