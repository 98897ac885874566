package hx

// #include <stdlib.h>
import "C"

// SeedC makes liblinear's choices (C's rand) the same every time a case runs.
func SeedC(n int) { C.srand(C.uint(n)) }
