// Checks of filters and filtered grids.
package main

import "verif/hx"

func main() { hx.Main() }
