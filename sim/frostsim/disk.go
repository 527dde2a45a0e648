package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
)

type shareT = eddsa.SecretShare

// A simulated disk keeps, for every file, what was durably there before and what was being written when the
// machine stopped; crash decides what is found afterwards.

// crashWrite is the content found after a crash while data was written over old.
func crashWrite(r *Run, old, data []byte) ([]byte, string) {
	sector := []int{1, 16, 64, 512, 4096}[r.Choose(5)]
	switch r.Pick(3, 2, 3, 2, 1, 1) {
	case 0: // truncated to zero, then a prefix was written
		k := r.Choose(len(data) + 1)
		if sector > 1 && r.Chance(1, 2) {
			k = k / sector * sector
		}
		return append([]byte(nil), data[:k]...), "torn: prefix of the new content"
	case 1: // the size was extended first, the data is missing at the end
		k := r.Choose(len(data) + 1)
		out := make([]byte, len(data))
		copy(out, data[:k])
		return out, "torn: zeros at the end"
	case 2: // written in place, sectors reach the disk in any order
		n := len(data)
		if len(old) > n && r.Chance(1, 2) {
			n = len(old)
		}
		out := make([]byte, n)
		copy(out, old)
		for i := 0; i < n; i += sector {
			if r.Chance(1, 2) {
				continue
			}
			e := i + sector
			if e > n {
				e = n
			}
			for j := i; j < e; j++ {
				out[j] = 0
				if j < len(data) {
					out[j] = data[j]
				}
			}
		}
		return out, fmt.Sprintf("torn: some sectors of %d bytes are old", sector)
	case 3: // some sectors were never written
		out := append([]byte(nil), data...)
		for i := 0; i < len(out); i += sector {
			if r.Chance(1, 3) {
				for j := i; j < i+sector && j < len(out); j++ {
					out[j] = 0
				}
			}
		}
		return out, fmt.Sprintf("torn: some sectors of %d bytes are zero", sector)
	case 4:
		if len(old) > len(data) {
			// overwritten without truncation
			return append(append([]byte(nil), data...), old[len(data):]...), "not truncated"
		}
		return append([]byte(nil), old...), "lost: old content"
	}
	return nil, "lost: empty file"
}

// damage is bit rot, misdirected or repeated writes and the like on a complete file.
func damage(r *Run, data []byte) ([]byte, string) {
	out := append([]byte(nil), data...)
	if len(out) == 0 {
		return []byte{0}, "a byte appended to an empty file"
	}
	switch r.Pick(5, 3, 2, 2, 2, 2, 2, 2, 1, 2) {
	case 0:
		k := 1 + r.Choose(3)
		for i := 0; i < k; i++ {
			out[r.Choose(len(out))] ^= 1 << r.Choose(8)
		}
		return out, fmt.Sprintf("%d bits flipped", k)
	case 1:
		k := 1 + r.Choose(4)
		for i := 0; i < k; i++ {
			out[r.Choose(len(out))] = byte(r.Choose(256))
		}
		return out, fmt.Sprintf("%d bytes overwritten", k)
	case 2:
		return out[:r.Choose(len(out))], "truncated"
	case 3: // a block is missing
		a := r.Choose(len(out))
		b := a + 1 + r.Choose(len(out)-a)
		return append(out[:a:a], out[b:]...), fmt.Sprintf("bytes %d..%d missing", a, b)
	case 4: // a block was written to the wrong place
		a, b := r.Choose(len(out)), r.Choose(len(out))
		k := 1 + r.Choose(64)
		copy(out[a:], append([]byte(nil), data[b:min(len(data), b+k)]...))
		return out, "misdirected write"
	case 5: // a block is there twice
		a := r.Choose(len(out))
		b := a + 1 + r.Choose(len(out)-a)
		return append(append(append([]byte(nil), out[:b]...), out[a:b]...), out[b:]...), "duplicated block"
	case 6:
		a := r.Choose(len(out))
		for i := a; i < min(len(out), a+1+r.Choose(512)); i++ {
			out[i] = 0
		}
		return out, "zeroed block"
	case 7: // a digit or a base64 letter became another one: the text stays well formed
		const set = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz+/"
		for try := 0; try < 200; try++ {
			i := r.Choose(len(out))
			if bytes.IndexByte([]byte(set), out[i]) >= 0 {
				k := len(set)
				if out[i] <= '9' && out[i] >= '0' {
					k = 10
				}
				out[i] = set[r.Choose(k)]
				return out, "one letter or digit replaced"
			}
		}
		return out, "nothing"
	case 8:
		return append(out, r.Bytes(1+r.Choose(20))...), "garbage at the end"
	}
	// an entry of a list or object is gone: the text stays well formed
	var commas []int
	for i, c := range out {
		if c == ',' {
			commas = append(commas, i)
		}
	}
	if len(commas) < 2 {
		return out[:r.Choose(len(out))], "truncated"
	}
	i := r.Choose(len(commas) - 1)
	j := i + 1 + r.Choose(len(commas)-1-i)
	if r.Chance(2, 3) {
		j = i + 1
	}
	return append(out[:commas[i]:commas[i]], out[commas[j]:]...), "entries missing"
}

func sortedKeys(m map[string]any) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
