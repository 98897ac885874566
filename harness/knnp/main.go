// Checks of nearest-neighbour search, prediction and pairwise metrics.
package main

import "verif/hx"

func main() { hx.Main() }
