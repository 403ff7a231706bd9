package main

import (
	"bytes"
	"sort"
	"strings"
)

type kv struct {
	k string
	v int
}

// model is the reference: a plain map, with a sorted view on demand.
type model struct {
	m      map[string]int
	sorted []kv
}

func newModel() *model { return &model{m: map[string]int{}} }

func (m *model) clone() *model {
	c := &model{m: make(map[string]int, len(m.m))}
	for k, v := range m.m {
		c.m[k] = v
	}
	c.sorted = m.sorted // immutable once built
	return c
}

func (m *model) put(k []byte, v int) (int, bool) {
	m.sorted = nil
	old, ok := m.m[string(k)]
	m.m[string(k)] = v
	return old, ok
}

func (m *model) del(k []byte) (int, bool) {
	old, ok := m.m[string(k)]
	if ok {
		m.sorted = nil
		delete(m.m, string(k))
	}
	return old, ok
}

func (m *model) delPrefix(p []byte) int {
	n := 0
	for k := range m.m {
		if strings.HasPrefix(k, string(p)) {
			delete(m.m, k)
			n++
		}
	}
	if n > 0 {
		m.sorted = nil
	}
	return n
}

func (m *model) all() []kv {
	if m.sorted == nil {
		s := make([]kv, 0, len(m.m))
		for k, v := range m.m {
			s = append(s, kv{k, v})
		}
		sort.Slice(s, func(i, j int) bool { return s[i].k < s[j].k })
		m.sorted = s
	}
	return m.sorted
}

func (m *model) withPrefix(p []byte) []kv {
	var out []kv
	for _, e := range m.all() {
		if strings.HasPrefix(e.k, string(p)) {
			out = append(out, e)
		}
	}
	return out
}

func (m *model) lower(p []byte) []kv {
	a := m.all()
	i := sort.Search(len(a), func(i int) bool { return a[i].k >= string(p) })
	return a[i:]
}

func (m *model) revLower(p []byte) []kv {
	a := m.all()
	i := sort.Search(len(a), func(i int) bool { return a[i].k > string(p) })
	return reversed(a[:i])
}

func reversed(a []kv) []kv {
	out := make([]kv, len(a))
	for i := range a {
		out[len(a)-1-i] = a[i]
	}
	return out
}

func (m *model) longestPrefix(q []byte) (kv, bool) {
	for n := len(q); n >= 0; n-- {
		if v, ok := m.m[string(q[:n])]; ok {
			return kv{string(q[:n]), v}, true
		}
	}
	return kv{}, false
}

func (m *model) pathTo(q []byte) []kv {
	var out []kv
	for n := 0; n <= len(q); n++ {
		if v, ok := m.m[string(q[:n])]; ok {
			out = append(out, kv{string(q[:n]), v})
		}
	}
	return out
}

// shape classifies the branch points an ideal radix tree over the keys has; it
// is coverage information only and never decides anything.
func (m *model) shapes(into map[string]int) {
	a := m.all()
	var rec func(lo, hi, depth, start int)
	rec = func(lo, hi, depth, start int) {
		if hi-lo == 1 {
			into["leaf"]++
			return
		}
		// common prefix of a[lo:hi] is that of first and last
		f, l := a[lo].k, a[hi-1].k
		n := depth
		for n < len(f) && n < len(l) && f[n] == l[n] {
			n++
		}
		own := len(f) == n
		i := lo
		if own {
			i++
		}
		fan := 0
		for i < hi {
			j := i
			for j < hi && a[j].k[n] == a[i].k[n] {
				j++
			}
			rec(i, j, n+1, n+1)
			fan++
			i = j
		}
		cls := "fan1-4"
		switch {
		case fan > 255:
			cls = "fan256"
		case fan > 48:
			cls = "fan49-255"
		case fan > 16:
			cls = "fan17-48"
		case fan > 4:
			cls = "fan5-16"
		}
		e := n - start
		switch {
		case e == 0:
			cls += " edge0"
		case e < 10:
			cls += " edge1-9"
		case e == 10:
			cls += " edge10"
		default:
			cls += " edge>10"
		}
		if own {
			cls += " ownkey"
		}
		into[cls]++
	}
	if len(a) > 0 {
		rec(0, len(a), 0, 0)
	} else {
		into["empty"]++
	}
}

func sameKV(k []byte, v int, e kv) bool { return bytes.Equal(k, []byte(e.k)) && v == e.v }
