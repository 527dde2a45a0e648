package engine

import "time"

// Minimise shrinks a failing tape: fewer choices, and as many of them 0 as possible. try reports whether a tape still fails.
func Minimise(tape []uint32, budget time.Duration, try func([]uint32) bool) []uint32 {
	end := time.Now().Add(budget)
	ok := func(t []uint32) bool { return time.Now().Before(end) && try(t) }
	trim := func(t []uint32) []uint32 {
		for len(t) > 0 && t[len(t)-1] == 0 {
			t = t[:len(t)-1]
		}
		return t
	}
	cur := append([]uint32(nil), tape...)
	// cut the end
	lo, hi := 0, len(cur)
	for lo < hi {
		m := (lo + hi) / 2
		if ok(cur[:m]) {
			hi = m
		} else {
			lo = m + 1
		}
		if time.Now().After(end) {
			break
		}
	}
	if hi < len(cur) && ok(cur[:hi]) {
		cur = append([]uint32(nil), cur[:hi]...)
	}
	cur = trim(cur)
	for pass := 0; pass < 4; pass++ {
		changed := false
		// delete and zero chunks
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); {
				c := append(append([]uint32(nil), cur[:i]...), cur[i+size:]...)
				if ok(c) {
					cur, changed = c, true
					continue
				}
				z := append([]uint32(nil), cur...)
				nz := false
				for j := i; j < i+size; j++ {
					nz = nz || z[j] != 0
					z[j] = 0
				}
				if nz && ok(z) {
					cur, changed = z, true
				}
				i += size
			}
			if time.Now().After(end) {
				return trim(cur)
			}
		}
		// smaller values
		for i := range cur {
			for _, v := range []uint32{cur[i] / 2, cur[i] - 1} {
				if cur[i] > 0 && v < cur[i] {
					c := append([]uint32(nil), cur...)
					c[i] = v
					if ok(c) {
						cur, changed = c, true
					}
				}
			}
		}
		cur = trim(cur)
		if !changed || time.Now().After(end) {
			break
		}
	}
	return cur
}
