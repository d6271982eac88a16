// driver runs scenarios of one family against the library in /repo and writes
// ndjson traces for TLC.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/fam"
)

func main() {
	family := flag.String("fam", "", "family")
	focus := flag.String("focus", "", "property id")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	scripts := flag.String("scripts", "", "file of TLC-generated scripts")
	out := flag.String("out", "", "output prefix")
	chunks := flag.Int("chunks", 8, "")
	scale := flag.Float64("scale", 0, "multiply scenario counts")
	only := flag.Int("only", -1, "run only this scenario")
	flag.Parse()
	sc, err := fam.LoadScripts(*scripts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	core.Show = *focus == "C30"
	cfg := &fam.Cfg{Focus: *focus, Tier: *tier, Seed: *seed, Scripts: sc, Scale: *scale}
	mk, ok := fam.Families[*family]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", *family)
		os.Exit(3)
	}
	jobs := mk(cfg)
	if *only >= 0 {
		for i := range jobs {
			if i != *only {
				jobs[i].Run = func(s *core.Scn) {}
			}
		}
	}
	n, err := core.RunAll(jobs, *seed, *chunks, *out, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	kinds := map[string]int{}
	for _, j := range jobs {
		kinds[strings.Split(j.Name, "#")[0]]++
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"events": n, "scenarios": len(jobs), "kinds": kinds, "aborted": core.Aborted.Load()})
}
