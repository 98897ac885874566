// Checks of golearn's base package: values, grids, views, sorting, sampling,
// parsing and serialisation.
package main

import "verif/hx"

func main() { hx.Main() }
