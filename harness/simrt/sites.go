package simrt

import "strings"

type pkgSites struct {
	path    string
	lo, hi  int
	globals []int
}

var allSites []pkgSites

// Sites tells the numbers of the scheduling points of a package, and which of
// them are at statements that refer to package-level variables.
func Sites(path string, lo, hi int, globals ...int) {
	allSites = append(allSites, pkgSites{path, lo, hi, globals})
}

// Focus makes tasks meet at a place in packages whose path has the suffix:
// the v-th statement, or the v-th that refers to a package-level variable.
// It reports whether there is one.
func Focus(suffix string, global bool, v int) bool {
	n := 0
	for pass := 0; pass < 2; pass++ {
		for _, p := range allSites {
			if !strings.HasSuffix(p.path, suffix) {
				continue
			}
			size := p.hi - p.lo
			if global {
				size = len(p.globals)
			}
			if pass == 0 {
				n += size
				continue
			}
			if v < size {
				site := p.lo + v
				if global {
					site = p.globals[v]
				}
				focusLo, focusHi = site, site+1+v%4
				return true
			}
			v -= size
		}
		if n == 0 {
			return false
		}
		if pass == 0 {
			v %= n
		}
	}
	return false
}

// Unfocus ends it.
func Unfocus() {
	focusLo, focusHi, hot = 0, 0, 0
	for i := range parked {
		parked[i] = false
	}
}
