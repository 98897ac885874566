// Checks of decision trees and isolation forests.
package main

import "verif/hx"

func main() { hx.Main() }
