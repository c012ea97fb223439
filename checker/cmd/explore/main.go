// Command explore prints what the flow engine sees for one rule and root
// (a debugging aid; no check uses it).
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"rothkocheck/flow"
	"rothkocheck/rules"
)

func main() {
	p, err := flow.LoadProgram(repo(), os.Getenv("TAGS"), os.Getenv("TGOOS"))
	if err != nil {
		panic(err)
	}
	flow.DebugRoot = os.Args[2]
	flow.DebugMax, _ = strconv.Atoi(os.Args[3])
	c := rules.NewCtx(p, "quick", "default")
	t := time.Now()
	rules.Registry[os.Args[1]].Run(c)
	fmt.Println(len(c.Obl), "obligations", c.States, "states", time.Since(t))
	for _, v := range c.Viol {
		fmt.Println(v.Where, v.Key, v.Msg)
		for _, l := range v.Trace {
			fmt.Println("    ", l)
		}
		fmt.Println("   facts", v.Facts)
	}
}

func repo() string {
	if r := os.Getenv("REPO"); r != "" {
		return r
	}
	return "/repo"
}
