package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh drive|work|list ...")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	cas := fs.Int("case", 0, "case")
	seed := fs.Int64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "tier")
	noise := fs.Bool("noise", false, "noise build")
	noiseBin := fs.String("noisebin", "", "path of the noise build")
	out := fs.String("out", "/verif/evidence", "evidence dir")
	known := fs.String("known", "/verif/known-findings.txt", "known findings")
	max := fs.Int("max", 0, "cap the number of cases")
	keep := fs.Bool("keep", false, "keep going after a violation")
	from := fs.Int("from", 0, "first case")
	fs.Parse(os.Args[2:])
	switch mode {
	case "work":
		runWorker(*prop, *cas, *seed, *tier, *noise)
	case "drive":
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				*seed = n
			}
		}
		os.Exit(drive(*prop, *tier, *seed, *noiseBin, *out, *known, *max, *keep, *from))
	case "list":
		for id := range props {
			fmt.Println(id)
		}
	}
}
