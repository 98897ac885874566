// Checks of bagged ensembles, random forests and one-vs-all combinations.
package main

import "verif/hx"

func main() { hx.Main() }
