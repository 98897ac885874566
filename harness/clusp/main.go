// Checks of the clustering package.
package main

import "verif/hx"

func main() { hx.Main() }
