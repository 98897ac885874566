// Checks of naive Bayes, principal components, neural networks and the
// averaged perceptron.
package main

import (
	"fmt"

	"verif/hx"
)

func main() { hx.Main() }

// refused runs fn and tells whether it reported an error or panicked.
func refused(fn func() error) (r bool, how string) {
	defer func() {
		if e := recover(); e != nil {
			r, how = true, fmt.Sprint("panic: ", e)
		}
	}()
	if err := fn(); err != nil {
		return true, err.Error()
	}
	return false, ""
}
