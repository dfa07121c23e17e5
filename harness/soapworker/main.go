// Command soapworker executes the runs of the scenarios on generated code.
package main

import (
	"aqwari.net/xml/internal/verifsim/scen"
	_ "aqwari.net/xml/internal/verifsim/soap"
)

func main() { scen.WorkerMain() }
