package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	os.Exit(realMain())
}

func realMain() int {
	defer startProf()()
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "framework directory")
	prop := flag.String("prop", "", "property id(s), comma separated, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	sum := flag.String("summary", "", "print the summary of a function (debug)")
	wire := flag.String("wire", "", "print a wire layout (debug)")
	list := flag.Bool("list", false, "list the properties and techniques")
	flag.Parse()
	if *list {
		for _, id := range sortedKeys(propRules) {
			fmt.Printf("%s\t%s\n", id, propRules[id].technique)
		}
		return 0
	}
	start := time.Now()
	p, err := loadProg(*repo)
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range propRules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if err != nil {
		for _, id := range ids {
			fmt.Printf("cannot analyse %s: %v\n", *repo, err)
			writeLoadFailure(*verif, id, *tier, err, start)
			fmt.Printf("VIOLATION property=%s replay=%s/evidence/%s.violations.txt\n", id, *verif, id)
		}
		return 1
	}
	if *sum != "" {
		for _, n := range strings.Split(*sum, ",") {
			f := p.fn(n)
			if f == nil {
				fmt.Println("no", n)
				continue
			}
			for _, t := range p.summary(f).tuples {
				fmt.Println(n, t)
			}
		}
		return 0
	}
	if *wire != "" {
		wireDump(p, *wire)
		return 0
	}
	rc := 0
	for _, id := range ids {
		if propRules[id] == nil {
			fmt.Println("no rule for", id)
			return 2
		}
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		if runProp(p, id, *tier, *verif, t0) != 0 {
			rc = 1
		}
	}
	return rc
}

func writeLoadFailure(verif, id, tier string, err error, start time.Time) {
	os.MkdirAll(verif+"/evidence", 0o755)
	os.WriteFile(verif+"/evidence/"+id+".violations.txt", []byte("the tree does not load: "+err.Error()+"\n"), 0o644)
	os.WriteFile(verif+"/evidence/"+id+".json", []byte(fmt.Sprintf(`{"property":%q,"tier":%q,"seed":1,"level":"other","coverage":{"explanation":"the tree does not type-check, nothing analysed"},"wall_s":%f,"violations":1}`+"\n", id, tier, time.Since(start).Seconds())), 0o644)
}
