// Command verify decides one property of the repository under analysis.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"verif/checker/rules"
)

func main() {
	repo := flag.String("repo", "/repo", "repository under analysis")
	home := flag.String("verif", "/verif", "directory of the checks")
	evidence := flag.String("evidence", "", "where to write evidence (default VERIF/evidence)")
	flag.Parse()
	if *evidence == "" {
		*evidence = *home + "/evidence"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	status := 0
	c := &rules.Ctx{Repo: *repo, Verif: *home, Tier: tier, Tmp: tmp}
	for _, p := range flag.Args() {
		if s := rules.Execute(c, p, seed, *evidence); s > status {
			status = s
		}
	}
	os.RemoveAll(tmp)
	os.Exit(status)
}
