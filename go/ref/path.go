package ref

// ParsePath reads a derivation path: "/" or ("/" digits ["'"])+ with every
// number at most 2^32-1.
func ParsePath(s string) ([]PathElem, bool) {
	if s == "/" {
		return []PathElem{}, true
	}
	if s == "" {
		return nil, false
	}
	var out []PathElem
	for i := 0; i < len(s); {
		if s[i] != '/' {
			return nil, false
		}
		i++
		st := i
		var n uint64
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n = n*10 + uint64(s[i]-'0')
			if n > 1<<32-1 {
				return nil, false
			}
			i++
		}
		if i == st {
			return nil, false
		}
		e := PathElem{N: uint32(n)}
		if i < len(s) && s[i] == '\'' {
			e.Hard = true
			i++
		}
		out = append(out, e)
	}
	return out, true
}

// Extends is whether c strictly extends p.
func Extends(p, c []PathElem) bool {
	if len(c) <= len(p) {
		return false
	}
	for i := range p {
		if p[i] != c[i] {
			return false
		}
	}
	return true
}

// Step is one step of a path from h.
func (h *HD) Step(p PathElem) (*HD, Refusal) {
	if p.Hard && p.N >= 1<<31 {
		return nil, BadIndex
	}
	return h.Child(p.Index())
}

// BadIndex is a hardened index outside 0..2^31-1.
const BadIndex Refusal = "hardened index out of range"
