// Command worker executes simulated runs on behalf of the parent tool, or
// (gensoap DIR) generates the packages of the scenarios C12 to C15.
package main

import (
	"fmt"
	"os"

	"aqwari.net/xml/internal/verifsim/scen"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "gensoap" {
		if err := scen.GenClients(os.Args[2], os.Getenv("VERIF_DIR")); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return
	}
	scen.WorkerMain()
}
