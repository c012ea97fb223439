// Command rothkocheck decides one property (or all) of the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"rothkocheck/flow"
	"rothkocheck/rules"
)

var (
	repo   = flag.String("repo", "/repo", "repository to analyse")
	out    = flag.String("out", "", "directory of the evidence files")
	prop   = flag.String("prop", "", "properties to decide, comma separated, or all")
	tier   = flag.String("tier", "", "quick or thorough")
	known  = flag.String("known", "", "known findings file")
	verb   = flag.Bool("v", false, "print obligations")
	tables = flag.Bool("list", false, "list the rules")
)

func main() {
	flag.Parse()
	if *tables {
		var ids []string
		for id := range rules.Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\n", id, rules.Registry[id].Technique)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	debug.SetGCPercent(400)
	var ids []string
	if *prop == "all" {
		for id := range rules.Registry {
			ids = append(ids, id)
		}
	} else {
		ids = strings.Split(*prop, ",")
	}
	sort.Strings(ids)
	progs := map[rules.Variant]*flow.Program{}
	errs := map[rules.Variant]error{}
	load := func(v rules.Variant) (*flow.Program, error) {
		if p := progs[v]; p != nil || errs[v] != nil {
			return p, errs[v]
		}
		p, err := flow.LoadProgram(*repo, v.Tags, v.GOOS)
		progs[v], errs[v] = p, err
		return p, err
	}
	bad := false
	for _, id := range ids {
		if decide(id, seed, load) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func readKnown() map[string]string {
	m := map[string]string{}
	if *known == "" {
		return m
	}
	b, err := os.ReadFile(*known)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> -- <text>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		parts := strings.SplitN(l, " key=", 2)
		if len(parts) != 2 {
			continue
		}
		kt := strings.SplitN(parts[1], " -- ", 2)
		text := ""
		if len(kt) == 2 {
			text = kt[1]
		}
		m[parts[0]+"|"+strings.TrimSpace(kt[0])] = text
	}
	return m
}

func decide(id string, seed int, load func(rules.Variant) (*flow.Program, error)) (bad bool) {
	start := time.Now()
	r := rules.Registry[id]
	if r == nil {
		fmt.Printf("no rule for property %q\n", id)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, "none")
		return true
	}
	variants := []rules.Variant{{}}
	if *tier == "thorough" {
		variants = append(variants, r.Variants...)
	}
	var ctxs []*rules.Ctx
	for _, v := range variants {
		name := "default"
		if v != (rules.Variant{}) {
			name = strings.TrimSpace("tags=" + v.Tags + " goos=" + v.GOOS)
		}
		p, err := load(v)
		c := rules.NewCtx(p, *tier, name)
		ctxs = append(ctxs, c)
		if err != nil {
			c.Fail("load:"+name, *repo, "the program does not load: %v", err)
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					st := string(debug.Stack())
					if len(st) > 4000 {
						st = st[:4000]
					}
					c.Fail("internal", "", "the rule failed on this tree: %v\n%s", e, st)
				}
			}()
			r.Run(c)
			if len(c.Obl) < r.Min {
				c.Fail("floor", "", "only %d obligations were found, at least %d are expected: the rule no longer recognises the code", len(c.Obl), r.Min)
			}
		}()
	}
	kn := readKnown()
	var viol []rules.Violation
	listed := 0
	seenKnown := map[string]bool{}
	for _, c := range ctxs {
		for _, v := range c.Viol {
			if text, ok := kn[id+"|"+v.Key]; ok {
				listed++
				if !seenKnown[v.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, text, v.Key)
					seenKnown[v.Key] = true
				}
				continue
			}
			viol = append(viol, v)
		}
	}
	total, done := 0, 0
	states, paths := 0, 0
	funcs := map[string]bool{}
	var obls []*rules.Obligation
	counts := map[string]int{}
	var notes []string
	for _, c := range ctxs {
		for _, o := range c.Obl {
			total++
			if o.OK {
				done++
			}
		}
		states += c.States
		paths += c.Paths
		for f := range c.Funcs {
			funcs[f] = true
		}
		for k, n := range c.Counts {
			counts[k] += n
		}
		notes = append(notes, c.Notes...)
	}
	for _, o := range ctxs[0].Obl {
		obls = append(obls, o)
	}
	sort.Slice(obls, func(i, j int) bool { return obls[i].Key < obls[j].Key })
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, flow.RepoPath, "rothko"))
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"explanation":         r.Explain,
		"obligations":         total,
		"discharged":          done,
		"functions_analysed":  len(fl),
		"functions":           fl,
		"abstract_states":     states,
		"abstract_paths":      paths,
		"obligation_list":     obls,
		"counts":              counts,
		"builds":              len(ctxs),
		"known_findings_seen": listed,
		"checker_cmd":         "rothkocheck -prop " + id,
		"trusted_base":        []string{"go/types and golang.org/x/tools/go/ssa", "the rule and engine in /verif/checker"},
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(viol) > 0 {
		cov["violated"] = viol
	}
	ev := map[string]interface{}{
		"property": id, "tier": *tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	replay := "none"
	if *out != "" {
		os.MkdirAll(*out, 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(*out, id+".json"), append(b, '\n'), 0644)
		rp := filepath.Join(*out, id+".violation.json")
		os.Remove(rp)
		if len(viol) > 0 {
			b, _ := json.MarshalIndent(viol, "", " ")
			os.WriteFile(rp, append(b, '\n'), 0644)
			replay = rp
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d abstract states, %d paths, %.1fs\n", id, total, done, len(fl), states, paths, time.Since(start).Seconds())
	if *verb {
		for _, o := range obls {
			fmt.Printf("   %v %s [%s] %s\n", o.OK, o.Key, o.Where, o.What)
		}
	}
	for _, v := range viol {
		fmt.Printf("  %s: [%s] %s\n", v.Where, v.Key, v.Msg)
		n := len(v.Trace)
		if *verb || n < 30 {
			for _, t := range v.Trace {
				fmt.Println("      ", t)
			}
		} else {
			for _, t := range v.Trace[n-30:] {
				fmt.Println("      ", t)
			}
		}
		if *verb && v.Facts != "" {
			fmt.Println("       facts:", v.Facts)
		}
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return true
	}
	return false
}
