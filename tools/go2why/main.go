// go2why translates functions of google/codesearch, read from the current source tree, into WhyML
// obligations under the contracts of /verif/contracts. See /verif/DESIGN.md for what it drops.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	spec := flag.String("spec", "", "contract file")
	out := flag.String("out", "", "output directory")
	only := flag.String("func", "", "restrict to these functions (comma separated)")
	prel := flag.String("prelude", "", "prelude file")
	baseline := flag.String("baseline", "", "baseline locals (JSON)")
	flag.Parse()
	u := newUnit()
	if err := u.parse(*spec); err != nil {
		fatal(err)
	}
	ld := NewLoader(*repo)
	for _, p := range u.Pkgs {
		if _, err := ld.Load(modPath + "/" + p); err != nil {
			fatal(err)
		}
	}
	if *baseline != "" {
		applyBaseline(u, ld, *baseline)
	}
	pre, err := os.ReadFile(*prel)
	if err != nil {
		fatal(err)
	}
	om := map[string]bool{}
	for _, f := range strings.Split(*only, ",") {
		if f != "" {
			om[f] = true
		}
	}
	outs := translateUnit(u, ld, om, string(pre))
	if err := os.MkdirAll(*out, 0o777); err != nil {
		fatal(err)
	}
	for _, o := range outs {
		if o.text == "" {
			continue
		}
		o.Mlw = filepath.Join(*out, o.Name+".mlw")
		if err := os.WriteFile(o.Mlw, []byte(o.text), 0o666); err != nil {
			fatal(err)
		}
	}
	ths := []string{}
	for _, t := range u.Theories {
		ths = append(ths, t.Name)
	}
	js, _ := json.MarshalIndent(map[string]any{"unit": u.Name, "functions": outs, "theories": ths}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "report.json"), js, 0o666); err != nil {
		fatal(err)
	}
	for _, o := range outs {
		if o.Error != "" && o.Error != "trusted" {
			fmt.Printf("UNTRANSLATED %s: %s\n", o.Key, o.Error)
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "go2why:", err)
	os.Exit(3)
}

// applyBaseline maps local names the contracts were written against to their current names
// when a function's locals were renamed without changing their number and types.
func applyBaseline(u *Unit, ld *Loader, file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		return
	}
	var base map[string][]localInfo
	if json.Unmarshal(data, &base) != nil {
		return
	}
	for _, sp := range u.Funcs {
		sp.Base = base[sp.Key]
	}
}
