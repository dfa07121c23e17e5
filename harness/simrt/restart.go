package simrt

// What restarts consist of, in the order of package initialization.
var restarts []func()

// OnRestart registers the function that sets the variables of a package to
// what they are when the process starts.
func OnRestart(f func()) { restarts = append(restarts, f) }

// Restart makes the packages under test forget what happened so far: a new
// process, as far as they can tell.
func Restart() {
	runEpoch++
	for _, f := range restarts {
		f()
	}
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
