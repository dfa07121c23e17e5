// Command tool is the parent of the simulation: it builds the instrumented
// code, runs batches of seeds in worker processes, minimises what fails and
// writes replay and evidence files.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "verif: error: "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

var cleanups []func()

func cleanup() {
	for i := len(cleanups) - 1; i >= 0; i-- {
		cleanups[i]()
	}
	cleanups = nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, err := os.Getwd()
	if err != nil {
		fatal("%v", err)
	}
	return d
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// workDir makes a fresh directory for one command's build and scratch files.
func workDir(verif, name string) string {
	base := filepath.Join(verif, ".work")
	if err := os.MkdirAll(base, 0777); err != nil {
		fatal("%v", err)
	}
	d, err := os.MkdirTemp(base, name+"-")
	if err != nil {
		fatal("%v", err)
	}
	if os.Getenv("VERIF_KEEP") == "" {
		cleanups = append(cleanups, func() { os.RemoveAll(d) })
	} else {
		fmt.Fprintln(os.Stderr, "verif: keeping", d)
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: tool check ID | replay FILE | determinism ID... | build KIND OUT")
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		seed = n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	args := os.Args[2:]
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		switch {
		case args[0] == "-thorough":
			tier = "thorough"
		case args[0] == "-quick":
			tier = "quick"
		case strings.HasPrefix(args[0], "-seed="):
			n, err := strconv.ParseUint(args[0][6:], 10, 64)
			if err != nil {
				fatal("%v", err)
			}
			seed = n
		default:
			fatal("unknown flag %s", args[0])
		}
		args = args[1:]
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(args[0], tier, seed)
	case "replay":
		code = replayFile(args[0])
	case "determinism":
		code = determinism(args, seed)
	case "build":
		v := verifDir()
		bins, _ := buildBins(v, workDir(v, "build"), []string{args[0]})
		data, err := os.ReadFile(bins[args[0]])
		if err == nil {
			err = os.WriteFile(args[1], data, 0777)
		}
		if err != nil {
			fatal("%v", err)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

// buildBins builds the worker binaries of the given kinds ("lib", "lib-race",
// "soap", "soap-race") and returns their paths.
func buildBins(verif, work string, kinds []string) (map[string]string, *builder) {
	start := time.Now()
	b, err := newBuilder(repoDir(), verif, work)
	if err != nil {
		fatal("build: %v", err)
	}
	pkgs, err := b.list("net/http", "net/http/httptest", "encoding/hex", "encoding/base64", "encoding/xml", "context", "time")
	if err != nil {
		fatal("the repository does not build: %v", err)
	}
	if err := b.instrumentRepo(pkgs); err != nil {
		fatal("instrumenting: %v", err)
	}
	if err := b.patchStd(); err != nil {
		fatal("patching the standard library: %v", err)
	}
	if err := b.addHarness("simrt", "simsync"); err != nil {
		fatal("%v", err)
	}
	bins := map[string]string{}
	need := map[string]bool{}
	for _, k := range kinds {
		need[strings.TrimSuffix(k, "-race")] = true
	}
	if err := b.addHarness("worker", "scen"); err != nil {
		fatal("%v", err)
	}
	if err := b.addCommands("xsdgen", "wsdlgen", "xsdparse"); err != nil {
		fatal("%v", err)
	}
	if need["soap"] {
		if err := b.generateClients(); err != nil {
			fatal("generated clients: %v", err)
		}
	}
	type res struct {
		k   string
		err error
	}
	ch := make(chan res)
	for _, k := range kinds {
		bins[k] = filepath.Join(work, "worker-"+k)
		dir := "worker"
		if strings.HasPrefix(k, "soap") {
			dir = "soapworker"
		}
		go func(k, dir string) { ch <- res{k, b.build(dir, bins[k], strings.HasSuffix(k, "-race"))} }(k, dir)
	}
	for range kinds {
		if r := <-ch; r.err != nil {
			fatal("build %s: %v", r.k, r.err)
		}
	}
	fmt.Fprintf(os.Stderr, "verif: built %s in %.1fs (%s)\n", strings.Join(kinds, ", "), time.Since(start).Seconds(), b.statsLine())
	return bins, b
}
