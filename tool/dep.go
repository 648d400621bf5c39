package main

import (
	"strconv"
	"strings"
)

// Symbols and string bases that stand for a function of other symbols (the rune
// at an offset, the element at an index) carry the arguments in their interned
// name as <...>. remap applies a substitution to these arguments.

var depCache = map[Sym]bool{}

func hasDep(y Sym) bool {
	v, ok := depCache[y]
	if !ok {
		v = strings.IndexByte(symNames[y], '<') >= 0
		depCache[y] = v
	}
	return v
}

// parseLin parses the form that Lin.String writes, without the brackets.
func parseLin(s string) (Lin, bool) {
	l := Lin{}
	i := 0
	for i < len(s) {
		sign := int64(1)
		if s[i] == '+' {
			i++
		} else if s[i] == '-' {
			sign = -1
			i++
		}
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		k := int64(1)
		hasK := j > i
		if hasK {
			n, err := strconv.ParseInt(s[i:j], 10, 64)
			if err != nil {
				return l, false
			}
			k = n
		}
		if j < len(s) && s[j] == '*' {
			j++
		} else if hasK {
			l = l.addK(sign * k)
			i = j
			continue
		}
		if j >= len(s) || s[j] != 'y' {
			return l, false
		}
		i = j + 1
		j = i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		n, err := strconv.Atoi(s[i:j])
		if err != nil || n >= len(symNames) {
			return l, false
		}
		l = l.addMul(symLin(Sym(n)), sign*k)
		i = j
	}
	return l, true
}

// mapName applies f to the embedded arguments of a name.
func mapName(name string, f func(Lin) Lin) string {
	var b strings.Builder
	for {
		i := strings.IndexByte(name, '<')
		if i < 0 {
			break
		}
		j := strings.IndexByte(name[i:], '>')
		if j < 0 {
			break
		}
		l, ok := parseLin(name[i+1 : i+j])
		if !ok {
			b.WriteString(name[:i+j+1])
			name = name[i+j+1:]
			continue
		}
		b.WriteString(name[:i])
		b.WriteString(f(l).String())
		name = name[i+j+1:]
	}
	b.WriteString(name)
	return b.String()
}

// remapSym gives the symbol with substituted arguments.
func remapSym(y Sym, f func(Lin) Lin) Sym {
	if !hasDep(y) {
		return y
	}
	n := mapName(symNames[y], f)
	if n == symNames[y] {
		return y
	}
	z := internSym(n)
	if z != y && len(axioms[z]) == 0 {
		for _, a := range axioms[y] {
			addAxiom(z, remapLin(a.subst(y, symLin(z)), f))
		}
	}
	return z
}

// remapLin substitutes the arguments of all symbols of l (not the symbols themselves).
func remapLin(l Lin, f func(Lin) Lin) Lin {
	for _, t := range l.t {
		if hasDep(t.s) {
			if z := remapSym(t.s, f); z != t.s {
				l = l.subst(t.s, symLin(z))
			}
		}
	}
	return l
}

// remapBase substitutes the arguments of a string base.
func remapBase(b *StrBase, f func(Lin) Lin) *StrBase {
	if b == nil || b.isK || b.key == "" || strings.IndexByte(b.key, '<') < 0 {
		return b
	}
	n := mapName(b.key, f)
	if n == b.key {
		return b
	}
	return symStr(n).b
}
