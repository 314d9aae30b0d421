package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "verify":
		fs := flag.NewFlagSet("verify", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		contracts := fs.String("contracts", "/verif/contracts", "")
		run := fs.String("run", "", "substring of contract id")
		dump := fs.String("dump", "", "dump queries to directory")
		pk := fs.String("pkgs", "./...", "")
		thorough := fs.Bool("thorough", false, "")
		verbose := fs.Bool("v", false, "")
		fs.Parse(os.Args[2:])
		dumpDir = *dump
		p, err := loadProgram(*repo, *contracts, strings.Fields(*pk))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, ct := range p.contracts {
			if !strings.Contains(ct.ID, *run) || ct.Trusted || ct.Bounded {
				continue
			}
			r := verifyContract(p, ct, *thorough)
			status := "PROVED"
			if r.err != "" {
				status = "OUT-OF-REACH " + r.err
			} else if len(r.failed) > 0 {
				status = "FAILED"
			} else if r.vacuous {
				status = "VACUOUS"
			}
			fmt.Printf("%-50s %s obls=%d inv=%d rounds=%d %.1fs %v\n", ct.ID, status, len(r.obls), r.invs, r.rounds, r.wall, r.solver)
			for _, o := range r.failed {
				dumpFailed(o)
			}
			if *verbose {
				for _, n := range r.invNames {
					fmt.Println("   inv", n)
				}
				for _, o := range r.obls {
					fmt.Println("   ", o.name, o.res.res, o.res.solver)
				}
			}
		}
	}
}
