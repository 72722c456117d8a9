package mc

var recyclers []func()

// OnEnd registers a function that runs after every execution.
func OnEnd(f func()) { recyclers = append(recyclers, f) }

func gzipRecycle() {
	for _, f := range recyclers {
		f()
	}
}
