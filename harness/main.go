// Command vh decides the properties of arr-ai/frozen listed in
// /verif/properties.jsonl by property-based testing.
//
//	vh check -prop C01 -tier quick -seed 1 ...   run one property's check
//	vh replay FILE                               run one replay file again
//	vh worker ..., vh one ...                    used by check
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"time"

	"github.com/arr-ai/hash"

	"vh/pbt"
	"vh/props"
)

func main() {
	log.SetOutput(io.Discard) // rel.Nest logs its arguments
	if len(os.Args) < 2 {
		usage()
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	cfgName := fs.String("config", "", "configuration")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	w := fs.Int("w", 0, "worker index")
	dir := fs.String("dir", "", "scratch directory")
	budget := fs.Duration("budget", 5*time.Minute, "time budget")
	file := fs.String("file", "", "replay file")
	logPath := fs.String("log", "", "choice log")
	bin := fs.String("bin", "", "this binary")
	race := fs.String("race", "", "race-detecting binary")
	evidence := fs.String("evidence", "", "evidence file")
	replays := fs.String("replays", "", "replay directory")
	known := fs.String("known", "", "known findings")
	fs.Parse(os.Args[2:]) //nolint:errcheck

	switch os.Args[1] {
	case "check":
		p := find(*prop)
		pinHash(*seed)
		os.Exit(pbt.Check(p, pbt.Options{
			Tier: *tier, Seed: *seed, Bin: *bin, RaceBin: *race, Dir: *dir, Evidence: *evidence,
			ReplayDir: *replays, KnownFile: *known, Budget: *budget,
		}))
	case "worker":
		p := find(*prop)
		pinHash(*seed)
		os.Exit(pbt.Worker(p, p.Config(*cfgName), *tier, *seed, *w, *dir, *budget))
	case "one":
		r := read(*file)
		pinHash(r.Seed)
		os.Exit(pbt.One(find(r.Property), r, *logPath))
	case "replay":
		if fs.NArg() != 1 {
			usage()
		}
		r := read(fs.Arg(0))
		pinHash(r.Seed)
		os.Exit(pbt.ReplayFile(find(r.Property), r, fs.Arg(0), *bin, *race))
	case "needsrace":
		for _, c := range find(*prop).Configs {
			if c.Race {
				fmt.Println("yes")
				return
			}
		}
	case "list":
		for _, p := range props.All() {
			fmt.Println(p.ID)
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vh check|replay|list ...")
	os.Exit(2)
}

func find(id string) *pbt.Prop {
	p := props.Find(id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "no check for property %q\n", id)
		os.Exit(2)
	}
	return p
}

func read(file string) *pbt.Replay {
	data, err := os.ReadFile(file)
	r := &pbt.Replay{}
	if err == nil {
		err = json.Unmarshal(data, r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return r
}

// pinHash makes the hash module's seeds, random in every process by default, a
// function of the seed.
func pinHash(seed uint64) {
	a, h := hash.GetSeeds()
	aa, hh := make([]byte, len(a)), make([]uintptr, len(h))
	x := pbt.Mix(seed ^ 0x5eed)
	for i := range aa {
		x = pbt.Mix(x)
		aa[i] = byte(x)
	}
	for i := range hh {
		x = pbt.Mix(x)
		hh[i] = uintptr(x) | 1 // odd, as the hash module makes them
	}
	if err := hash.SetSeeds(aa, hh); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
