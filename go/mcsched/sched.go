// Package mcsched: scheduling points of instrumented generated code.
package mcsched

// Hook is called at every scheduling point, when set.
var Hook func()

// Point is a place where the scheduler may switch.
func Point() {
	if h := Hook; h != nil {
		h()
	}
}
