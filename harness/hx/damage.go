package hx

import (
	"fmt"

	"pgregory.net/rapid"
)

// Damage returns a corrupted copy of whole, and what was done to it.
func Damage(t *rapid.T, whole []byte) ([]byte, string) {
	b := append([]byte(nil), whole...)
	pos := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
	what := ""
	switch rapid.IntRange(0, 5).Draw(t, "damage") {
	case 0, 1:
		bit := rapid.IntRange(0, 7).Draw(t, "bit")
		b[pos] ^= 1 << bit
		what = fmt.Sprintf("bit %d of byte %d flipped", bit, pos)
	case 2:
		b[pos] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
		what = fmt.Sprintf("byte %d changed", pos)
	case 3:
		end := pos + rapid.IntRange(1, 40).Draw(t, "len")
		for j := pos; j < end && j < len(b); j++ {
			b[j] = 0
		}
		what = fmt.Sprintf("bytes from %d zeroed", pos)
	case 4:
		end := pos + rapid.IntRange(1, 40).Draw(t, "len")
		if end > len(b) {
			end = len(b)
		}
		b = append(b[:pos:pos], b[end:]...)
		what = fmt.Sprintf("bytes %d to %d removed", pos, end)
	default:
		b = append(b[:pos:pos], append(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "ins"), whole[pos:]...)...)
		what = fmt.Sprintf("bytes inserted at %d", pos)
	}
	return b, what
}
