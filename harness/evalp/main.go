// Checks of evaluation metrics and cross-validation.
package main

import "verif/hx"

func main() { hx.Main() }
