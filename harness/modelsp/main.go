// Checks over every trained model: predictions by row, and saved models.
package main

import (
	"os"

	"github.com/sjwhitworth/golearn/base"
	"verif/hx"
)

func main() {
	base.Silent() // liblinear is talkative
	// models are saved through temporary files
	if s := os.Getenv("HX_SCRATCH"); s != "" {
		os.Setenv("TMPDIR", s)
	}
	hx.Main()
}
