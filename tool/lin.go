package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Sym is an immutable symbolic integer.
type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is a linear expression c + sum(k*s), terms sorted by symbol, no zero coefficient.
type Lin struct {
	c int64
	t []term
}

func konst(c int64) Lin { return Lin{c: c} }
func symLin(s Sym) Lin  { return Lin{t: []term{{s, 1}}} }

func (l Lin) isConst() bool { return len(l.t) == 0 }

func (l Lin) single() (Sym, bool) {
	if l.c == 0 && len(l.t) == 1 && l.t[0].k == 1 {
		return l.t[0].s, true
	}
	return 0, false
}

type overflowErr struct{}

func addOv(a, b int64) int64 {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		panic(overflowErr{})
	}
	return c
}

func mulOv(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		panic(overflowErr{})
	}
	return c
}

func (l Lin) add(o Lin) Lin { return l.addMul(o, 1) }
func (l Lin) sub(o Lin) Lin { return l.addMul(o, -1) }
func (l Lin) addK(k int64) Lin {
	return Lin{addOv(l.c, k), l.t}
}

func (l Lin) addMul(o Lin, k int64) Lin {
	r := Lin{c: addOv(l.c, mulOv(o.c, k))}
	if len(o.t) == 0 {
		r.t = l.t
		return r
	}
	r.t = make([]term, 0, len(l.t)+len(o.t))
	i, j := 0, 0
	for i < len(l.t) || j < len(o.t) {
		switch {
		case j >= len(o.t) || (i < len(l.t) && l.t[i].s < o.t[j].s):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || o.t[j].s < l.t[i].s:
			r.t = append(r.t, term{o.t[j].s, mulOv(o.t[j].k, k)})
			j++
		default:
			kk := addOv(l.t[i].k, mulOv(o.t[j].k, k))
			if kk != 0 {
				r.t = append(r.t, term{l.t[i].s, kk})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) mul(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{c: mulOv(l.c, k), t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, mulOv(t.k, k)}
	}
	return r
}

func (l Lin) neg() Lin { return l.mul(-1) }

func (l Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func (l Lin) has(s Sym) bool { return l.coef(s) != 0 }

func (l Lin) subst(s Sym, e Lin) Lin {
	k := l.coef(s)
	if k == 0 {
		return l
	}
	r := Lin{c: l.c}
	r.t = make([]term, 0, len(l.t))
	for _, t := range l.t {
		if t.s != s {
			r.t = append(r.t, t)
		}
	}
	return r.addMul(e, k)
}

func (l Lin) eq(o Lin) bool {
	if l.c != o.c || len(l.t) != len(o.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != o.t[i] {
			return false
		}
	}
	return true
}

var symNames []string

func (l Lin) sameTerms(o Lin) bool {
	if len(l.t) != len(o.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != o.t[i] {
			return false
		}
	}
	return true
}

func newSym(name string) Sym {
	symNames = append(symNames, name)
	return Sym(len(symNames) - 1)
}

var interned = map[string]Sym{}

func internSym(key string) Sym {
	if s, ok := interned[key]; ok {
		return s
	}
	s := newSym(key)
	interned[key] = s
	return s
}

func (s Sym) String() string { return fmt.Sprintf("y%d", int(s)) }

func (l Lin) String() string {
	if len(l.t) == 0 {
		return fmt.Sprintf("<%d>", l.c)
	}
	var b strings.Builder
	b.WriteByte('<')
	for i, t := range l.t {
		if t.k == 1 {
			if i > 0 {
				b.WriteByte('+')
			}
		} else if t.k == -1 {
			b.WriteByte('-')
		} else {
			fmt.Fprintf(&b, "%+d*", t.k)
		}
		b.WriteString(t.s.String())
	}
	if l.c != 0 {
		fmt.Fprintf(&b, "%+d", l.c)
	}
	b.WriteByte('>')
	return b.String()
}

// pretty prints with symbol names, for reports.
func (l Lin) pretty() string {
	if len(l.t) == 0 {
		return fmt.Sprint(l.c)
	}
	parts := []string{}
	for _, t := range l.t {
		n := symNames[t.s]
		switch t.k {
		case 1:
			parts = append(parts, "+"+n)
		case -1:
			parts = append(parts, "-"+n)
		default:
			parts = append(parts, fmt.Sprintf("%+d*%s", t.k, n))
		}
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i][0] == '+' && parts[j][0] == '-' })
	s := strings.TrimPrefix(strings.Join(parts, ""), "+")
	if l.c != 0 {
		s += fmt.Sprintf("%+d", l.c)
	}
	return s
}

// ---------------------------------------------------------------- feasibility

// frac is an exact fraction, d > 0.
type frac struct{ n, d int64 }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	if a == 0 {
		return 1
	}
	return a
}

func mk(n, d int64) frac {
	if d < 0 {
		n, d = -n, -d
	}
	g := gcd(n, d)
	return frac{n / g, d / g}
}

func (a frac) add(b frac) frac {
	if a.d == 1 && b.d == 1 {
		return frac{addOv(a.n, b.n), 1}
	}
	return mk(addOv(mulOv(a.n, b.d), mulOv(b.n, a.d)), mulOv(a.d, b.d))
}
func (a frac) mul(b frac) frac {
	if a.n == 0 || b.n == 0 {
		return frac{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return frac{mulOv(a.n, b.n), 1}
	}
	return mk(mulOv(a.n, b.n), mulOv(a.d, b.d))
}
func (a frac) neg() frac { return frac{mulOv(a.n, -1), a.d} }
func (a frac) inv() frac { return mk(a.d, a.n) }
func (a frac) cmp(b frac) int {
	l, r := mulOv(a.n, b.d), mulOv(b.n, a.d)
	if l < r {
		return -1
	} else if l > r {
		return 1
	}
	return 0
}
func (a frac) sub(b frac) frac { return a.add(b.neg()) }

var lpCalls, lpSolved int

// model is a rational point that satisfied an earlier conjunction; it is only
// used after it was evaluated against all the constraints in question.
type model map[Sym]frac

var lpModels []model

func (m model) satisfies(cons []Lin) bool {
	for _, c := range cons {
		var sn, sd int64 = c.c, 1
		for _, t := range c.t {
			v, ok := m[t.s]
			if !ok {
				continue
			}
			if v.d == 1 && sd == 1 {
				sn = addOv(sn, mulOv(t.k, v.n))
			} else {
				r := frac{sn, sd}.add(frac{t.k, 1}.mul(v))
				sn, sd = r.n, r.d
			}
		}
		if sn > 0 {
			return false
		}
	}
	return true
}

// feasible decides whether the conjunction of all l <= 0 has a rational solution
// (the emptiness test of the polyhedral domain). On an arithmetic overflow it
// answers true, which can only make the analysis less precise.
func feasible(cons []Lin) (res bool) {
	lpCalls++
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(overflowErr); ok {
				res = true
				return
			}
			panic(r)
		}
	}()
	for i, m := range lpModels {
		if m.satisfies(cons) {
			copy(lpModels[1:i+1], lpModels[:i])
			lpModels[0] = m
			return true
		}
	}
	lpSolved++
	idx := map[Sym]int{}
	rows := make([]Lin, 0, len(cons))
	for _, c := range cons {
		if c.isConst() {
			if c.c > 0 {
				return false
			}
			continue
		}
		rows = append(rows, c)
		for _, t := range c.t {
			if _, ok := idx[t.s]; !ok {
				idx[t.s] = len(idx)
			}
		}
	}
	n, m := len(idx), len(rows)
	if m == 0 {
		return true
	}
	// tableau: basic variable of row i = sum over the nonbasic columns.
	// columns 0..n-1 nonbasic. variable ids: 0..n-1 originals (free), n..n+m-1 slacks with upper bound.
	T := make([][]frac, m)
	ub := make([]frac, m)
	basic := make([]int, m)
	nonb := make([]int, n)
	for j := range nonb {
		nonb[j] = j
	}
	val := make([]frac, n+m)
	for i := range val {
		val[i] = frac{0, 1}
	}
	for i, r := range rows {
		T[i] = make([]frac, n)
		for j := range T[i] {
			T[i][j] = frac{0, 1}
		}
		for _, t := range r.t {
			T[i][idx[t.s]] = frac{t.k, 1}
		}
		ub[i] = frac{mulOv(r.c, -1), 1}
		basic[i] = n + i
	}
	for iter := 0; iter < 2000; iter++ {
		// violated basic with the smallest id (Bland)
		bi := -1
		for i := range basic {
			v := basic[i]
			if v >= n && val[v].cmp(ub[v-n]) > 0 {
				if bi < 0 || v < basic[bi] {
					bi = i
				}
			}
		}
		if bi < 0 {
			m := make(model, n)
			for y, j := range idx {
				if val[j].n != 0 {
					m[y] = val[j]
				}
			}
			if len(lpModels) < 12 {
				lpModels = append(lpModels, nil)
			}
			copy(lpModels[1:], lpModels)
			lpModels[0] = m
			return true
		}
		v := basic[bi]
		// need to decrease v: nonbasic j with coef>0 and can decrease (always: no lower bounds),
		// or coef<0 and can increase (originals always, slack if below its bound).
		cj := -1
		for j := range nonb {
			k := T[bi][j]
			if k.n == 0 {
				continue
			}
			ok := false
			if k.n > 0 {
				ok = true
			} else {
				w := nonb[j]
				ok = w < n || val[w].cmp(ub[w-n]) < 0
			}
			if ok && (cj < 0 || nonb[j] < nonb[cj]) {
				cj = j
			}
		}
		if cj < 0 {
			return false
		}
		// pivot and set v to its bound
		a := T[bi][cj]
		w := nonb[cj]
		theta := ub[v-n].sub(val[v]).mul(a.inv())
		val[v] = ub[v-n]
		val[w] = val[w].add(theta)
		for i := range basic {
			if i != bi && T[i][cj].n != 0 {
				val[basic[i]] = val[basic[i]].add(T[i][cj].mul(theta))
			}
		}
		ai := a.inv()
		row := T[bi]
		for j := range row {
			if j == cj {
				row[j] = ai
			} else {
				row[j] = row[j].mul(ai).neg()
			}
		}
		for i := range T {
			if i == bi {
				continue
			}
			k := T[i][cj]
			if k.n == 0 {
				continue
			}
			for j := range row {
				if j == cj {
					T[i][j] = k.mul(ai)
				} else if row[j].n != 0 {
					T[i][j] = T[i][j].add(k.mul(row[j]))
				}
			}
		}
		basic[bi], nonb[cj] = w, v
	}
	return true
}

// tighten divides l <= 0 by the common divisor of its coefficients, rounding the constant up.
func tighten(l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	var g int64
	for _, t := range l.t {
		k := t.k
		if k < 0 {
			k = -k
		}
		g = gcd(g, k)
		if g == 1 {
			return l
		}
	}
	if g <= 1 {
		return l
	}
	n := Lin{c: l.c / g}
	if l.c > 0 && l.c%g != 0 {
		n.c++
	}
	for _, t := range l.t {
		n.t = append(n.t, term{t.s, t.k / g})
	}
	return n
}
