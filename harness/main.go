// Command harness runs the real go-dc code and records what it does.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"os"
)

var suites = map[string]Suite{}

func main() {
	r := &Run{Stats: map[string]int{}}
	var out string
	flag.StringVar(&r.Suite, "suite", "", "what to run")
	flag.StringVar(&r.Profile, "profile", "", "property to concentrate on")
	flag.Int64Var(&r.Seed, "seed", 1, "random seed")
	flag.IntVar(&r.N, "n", 100, "number of random cases")
	flag.BoolVar(&r.Deep, "deep", false, "thorough tier")
	flag.IntVar(&r.Par, "par", 1, "number of goroutines running cases")
	flag.StringVar(&r.In, "in", "", "scenarios from the model")
	flag.StringVar(&out, "out", "", "trace to write")
	flag.Parse()
	s, ok := suites[r.Suite]
	if !ok {
		die("unknown suite", r.Suite)
	}
	f, err := os.Create(out)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	r.out = json.NewEncoder(w)
	r.out.SetEscapeHTML(false)
	r.Path = out
	r.watch()
	s(r)
	must(w.Flush())
	must(f.Close())
	r.Stats["cases"] = r.cases
	must(json.NewEncoder(os.Stdout).Encode(r.Stats))
}
