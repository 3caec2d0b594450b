// Command simcheck runs simulations.
//
//	simcheck check PROP          run the check of a property
//	simcheck worker ...          one searching process (used by check)
//	simcheck exec [-race] < PLAN run one plan, print the report
//	simcheck replay FILE         run a replay file again
//	simcheck plan PROP SEED      print the plan of a seed
package main

import (
	"fmt"
	"os"

	"verif.sim/driver"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check|worker|exec|replay|plan ...")
		os.Exit(2)
	}
	os.Exit(driver.Main(os.Args[1], os.Args[2:]))
}
