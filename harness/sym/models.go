package sym

import "sort"

// Models of library functions over symbolic bytes; executed by the engine in
// place of the (assembly or reflection based) originals.

func modelIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		ok := true
		for j := 0; j < len(sub); j++ {
			ok = And(ok, s[i+j] == sub[j])
		}
		if ok {
			return i
		}
	}
	return -1
}

func modelHasPrefix(s, p string) bool {
	if len(s) < len(p) {
		return false
	}
	ok := true
	for j := 0; j < len(p); j++ {
		ok = And(ok, s[j] == p[j])
	}
	return ok
}

func modelHasSuffix(s, p string) bool {
	if len(s) < len(p) {
		return false
	}
	ok := true
	for j := 0; j < len(p); j++ {
		ok = And(ok, s[len(s)-len(p)+j] == p[j])
	}
	return ok
}

func modelContains(s, sub string) bool { return modelIndex(s, sub) >= 0 }

func modelSplitN(s, sep string, n int) []string {
	if n == 0 {
		return nil
	}
	var out []string
	for n < 0 || len(out) < n-1 {
		i := modelIndex(s, sep)
		if i < 0 {
			break
		}
		out = append(out, s[:i])
		s = s[i+len(sep):]
	}
	return append(out, s)
}

func isSpace(c byte) bool {
	return Or(c == ' ', And(c >= 9, c <= 13))
}

func modelTrimSpace(s string) string {
	i := 0
	for i < len(s) && isSpace(s[i]) {
		i++
	}
	j := len(s)
	for j > i && isSpace(s[j-1]) {
		j--
	}
	return s[i:j]
}

func inSet(c byte, set string) bool {
	r := false
	for k := 0; k < len(set); k++ {
		r = Or(r, c == set[k])
	}
	return r
}

func modelTrimLeft(s, set string) string {
	i := 0
	for i < len(s) && inSet(s[i], set) {
		i++
	}
	return s[i:]
}

func modelTrimRight(s, set string) string {
	j := len(s)
	for j > 0 && inSet(s[j-1], set) {
		j--
	}
	return s[:j]
}

func modelReplaceAll1(s string, old byte, nw string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == old {
			out += nw
		} else {
			out += s[i : i+1]
		}
	}
	return out
}

func modelToUpper(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		c = byte(IteI(And(c >= 'a', c <= 'z'), int(c)-32, int(c)))
		out += string(rune(c))
	}
	return out
}

func modelToLower(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		c = byte(IteI(And(c >= 'A', c <= 'Z'), int(c)+32, int(c)))
		out += string(rune(c))
	}
	return out
}

// modelAtoi returns value and success for base-10 text of at most 18 digits.
func modelAtoi(s string) (int, bool) {
	if len(s) == 0 {
		return 0, false
	}
	neg := s[0] == '-'
	i := 0
	if neg || s[0] == '+' {
		i = 1
	}
	if i >= len(s) {
		return 0, false
	}
	n := 0
	ok := true
	for ; i < len(s); i++ {
		c := s[i]
		ok = And(ok, And(c >= '0', c <= '9'))
		n = n*10 + int(c-'0')
	}
	if !ok {
		return 0, false
	}
	if neg {
		n = -n
	}
	return n, true
}

func modelSearchInts(a []int, x int) int {
	i, j := 0, len(a)
	for i < j {
		h := int(uint(i+j) >> 1)
		if a[h] < x {
			i = h + 1
		} else {
			j = h
		}
	}
	return i
}

// modelSwap is the swapper of a sorted slice (intercepted).
func modelSwap(i, j int) {}

// modelSort is insertion sort without early exit: the same order for every
// strict weak ordering, and no branch depends on the data except the swaps.
func modelSort(less func(i, j int) bool, swap func(i, j int), n int) {
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if less(j, j-1) {
				swap(j, j-1)
			}
		}
	}
}

func modelSortI(d sort.Interface) {
	n := d.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if d.Less(j, j-1) {
				d.Swap(j, j-1)
			}
		}
	}
}

func modelSortF64(a []float64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0; j-- {
			if a[j] < a[j-1] {
				a[j], a[j-1] = a[j-1], a[j]
			}
		}
	}
}
