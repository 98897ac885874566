// Checks of linear regression and linear classifiers.
package main

import (
	"github.com/sjwhitworth/golearn/base"
	"verif/hx"
)

func main() {
	base.Silent() // liblinear is talkative
	hx.Main()
}
