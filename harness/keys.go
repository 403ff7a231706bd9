package main

import (
	"fmt"
	"math/rand"
)

// A pool is the finite universe of keys one case draws from. Styles are chosen
// so that the branching factor, compressed-path length and "key is a prefix of
// another key" dimensions of a radix tree are all crossed.
type pool struct {
	style string
	keys  [][]byte
}

var interesting = []byte{0x00, 0x01, ' ', '!', '#', '$', '%', '/', '0', 'A', 'Z', 'a', 'b', 'c', 'z', 0x7f, 0x80, 0xfe, 0xff}

func rndByte(r *rand.Rand) byte {
	if r.Intn(2) == 0 {
		return interesting[r.Intn(len(interesting))]
	}
	return byte(r.Intn(256))
}

func rndBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = rndByte(r)
	}
	return b
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	if out == nil {
		out = []byte{}
	}
	return out
}

// lengths clustered around the inline-prefix capacity of adaptive radix nodes
func edgeLen(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return r.Intn(4)
	case 2:
		return 8 + r.Intn(5)
	case 3:
		return 9 + r.Intn(3)
	case 4:
		return 18 + r.Intn(6)
	default:
		return r.Intn(30)
	}
}

func fanSize(r *rand.Rand) int {
	switch r.Intn(9) {
	case 0:
		return 2 + r.Intn(3)
	case 1:
		return 4 + r.Intn(3)
	case 2:
		return 14 + r.Intn(5)
	case 3:
		return 40 + r.Intn(14)
	case 4:
		return 46 + r.Intn(6)
	case 5:
		return 60 + r.Intn(60)
	case 6:
		return 254 + r.Intn(3)
	default:
		return 1 + r.Intn(30)
	}
}

func distinctBytes(r *rand.Rand, n int) []byte {
	p := r.Perm(256)
	out := make([]byte, 0, n)
	for i := 0; i < n && i < 256; i++ {
		out = append(out, byte(p[i]))
	}
	return out
}

type poolGen struct {
	name string
	gen  func(r *rand.Rand) [][]byte
}

var poolGens = []poolGen{
	{"smallalpha", func(r *rand.Rand) [][]byte {
		al := make([]byte, 2+r.Intn(3))
		for i := range al {
			al[i] = rndByte(r)
		}
		maxLen := 2 + r.Intn(6)
		n := 8 + r.Intn(60)
		var out [][]byte
		for i := 0; i < n; i++ {
			k := make([]byte, r.Intn(maxLen+1))
			for j := range k {
				k[j] = al[r.Intn(len(al))]
			}
			out = append(out, k)
		}
		return out
	}},
	{"fan", func(r *rand.Rand) [][]byte {
		p := rndBytes(r, edgeLen(r))
		var out [][]byte
		for _, b := range distinctBytes(r, fanSize(r)) {
			sfx := rndBytes(r, []int{0, 0, 1, 3, 12}[r.Intn(5)])
			out = append(out, cat(p, []byte{b}, sfx))
			if r.Intn(6) == 0 {
				out = append(out, cat(p, []byte{b}))
			}
			if r.Intn(6) == 0 {
				out = append(out, cat(p, []byte{b}, rndBytes(r, 1+r.Intn(3))))
			}
		}
		if r.Intn(3) > 0 {
			out = append(out, cat(p))
		}
		if len(p) > 0 {
			if r.Intn(2) == 0 {
				out = append(out, cat(p[:r.Intn(len(p))]))
			}
			if r.Intn(2) == 0 {
				c := r.Intn(len(p))
				out = append(out, cat(p[:c], []byte{p[c] ^ 1}, rndBytes(r, r.Intn(3))))
			}
		}
		return out
	}},
	{"twofan", func(r *rand.Rand) [][]byte {
		p := rndBytes(r, edgeLen(r))
		n1 := fanSize(r)
		if n1 > 60 {
			n1 = 60
		}
		var out [][]byte
		for _, b := range distinctBytes(r, n1) {
			mid := rndBytes(r, []int{0, 1, 9, 10, 11}[r.Intn(5)])
			n2 := r.Intn(7)
			if r.Intn(10) == 0 {
				n2 = 20
			}
			if n2 == 0 {
				out = append(out, cat(p, []byte{b}, mid))
				continue
			}
			for _, c := range distinctBytes(r, n2) {
				out = append(out, cat(p, []byte{b}, mid, []byte{c}))
			}
			if r.Intn(2) == 0 {
				out = append(out, cat(p, []byte{b}, mid))
			}
		}
		if r.Intn(2) == 0 {
			out = append(out, cat(p))
		}
		return out
	}},
	{"chain", func(r *rand.Rand) [][]byte {
		n := 4 + r.Intn(40)
		cnt := 3 + r.Intn(20)
		if r.Intn(12) == 0 {
			// deep: a node for almost every byte of a long key
			n = 100 + r.Intn(200)
			cnt = n
		}
		base := rndBytes(r, n)
		if r.Intn(2) == 0 {
			b := rndByte(r)
			for i := range base {
				base[i] = b
			}
		}
		var out [][]byte
		for i := 0; i < cnt; i++ {
			c := r.Intn(n + 1)
			out = append(out, cat(base[:c]))
			if r.Intn(2) == 0 {
				out = append(out, cat(base[:c], rndBytes(r, 1+r.Intn(2))))
			}
			if r.Intn(4) == 0 {
				out = append(out, cat(base[:c], rndBytes(r, 9+r.Intn(5))))
			}
		}
		return out
	}},
	{"longshared", func(r *rand.Rand) [][]byte {
		base := rndBytes(r, 8+r.Intn(26))
		var out [][]byte
		cnt := 4 + r.Intn(24)
		for i := 0; i < cnt; i++ {
			c := len(base) - r.Intn(len(base)+1)
			k := cat(base[:c])
			for j := r.Intn(3); j > 0; j-- {
				k = append(k, rndByte(r))
			}
			if c < len(base) && r.Intn(2) == 0 {
				k = append(k, base[c:]...)
			}
			out = append(out, k)
		}
		out = append(out, base)
		return out
	}},
	{"random", func(r *rand.Rand) [][]byte {
		n := 4 + r.Intn(80)
		var out [][]byte
		for i := 0; i < n; i++ {
			out = append(out, rndBytes(r, r.Intn(20)))
		}
		return out
	}},
	{"paths", func(r *rand.Rand) [][]byte {
		seg := []string{"foo", "bar", "baz", "zip", "zap", "a", "", "service", "configuration", "node-0001"}
		n := 6 + r.Intn(40)
		var out [][]byte
		for i := 0; i < n; i++ {
			k := []byte{}
			for j := r.Intn(4); j >= 0; j-- {
				k = append(k, seg[r.Intn(len(seg))]...)
				if j > 0 {
					k = append(k, '/')
				}
			}
			out = append(out, k)
		}
		return out
	}},
	{"uuids", func(r *rand.Rand) [][]byte {
		n := 10 + r.Intn(150)
		var out [][]byte
		for i := 0; i < n; i++ {
			out = append(out, []byte(fmt.Sprintf("%08x-%04x-%04x", r.Uint32()&0x0f0f, r.Intn(4), r.Intn(65536))))
		}
		return out
	}},
	{"marker", func(r *rand.Rand) [][]byte {
		al := []byte{'$', '#', '%', 0x00, 0xff, ' ', 'a'}
		al = al[:2+r.Intn(len(al)-1)]
		n := 6 + r.Intn(40)
		var out [][]byte
		for i := 0; i < n; i++ {
			k := make([]byte, r.Intn(5))
			for j := range k {
				k[j] = al[r.Intn(len(al))]
			}
			out = append(out, k)
		}
		return out
	}},
	{"indexed", func(r *rand.Rand) [][]byte {
		// NUL-separated composite index keys, as in-memory databases build them
		n := 6 + r.Intn(60)
		var out [][]byte
		for i := 0; i < n; i++ {
			out = append(out, []byte(fmt.Sprintf("%s\x00%s\x00%d", []string{"web", "db", "", "web2"}[r.Intn(4)], []string{"a", "ab", ""}[r.Intn(3)], r.Intn(12))))
		}
		return out
	}},
	{"verylong", func(r *rand.Rand) [][]byte {
		// keys and compressed paths longer than a byte (rarely: than 16 bits) can
		// count
		n := []int{100, 120, 250, 255, 256, 260, 500}[r.Intn(7)] + r.Intn(12)
		if r.Intn(40) == 0 {
			n = 65530 + r.Intn(20)
		}
		base := rndBytes(r, n)
		if r.Intn(3) == 0 {
			for i := range base {
				base[i] = base[0]
			}
		}
		out := [][]byte{base}
		cnt := 3 + r.Intn(12)
		if n > 1000 {
			cnt = 2 + r.Intn(2)
		}
		for i := 0; i < cnt; i++ {
			c := n - r.Intn(20)
			if r.Intn(2) == 0 {
				c = r.Intn(n + 1)
			}
			k := cat(base[:c], rndBytes(r, r.Intn(3)))
			if r.Intn(2) == 0 {
				k = append(k, base[c:]...)
			}
			out = append(out, k)
		}
		return out
	}},
	{"tiny", func(r *rand.Rand) [][]byte {
		// few keys, so that the empty / single-key / two-key trees and the
		// collapses between them are revisited many times
		n := 1 + r.Intn(4)
		var out [][]byte
		for i := 0; i < n; i++ {
			out = append(out, rndBytes(r, r.Intn(3)))
		}
		if r.Intn(2) == 0 {
			out = append(out, []byte{})
		}
		return out
	}},
}

func genPool(r *rand.Rand) pool {
	g := poolGens[r.Intn(len(poolGens))]
	keys := g.gen(r)
	name := g.name
	if r.Intn(4) == 0 {
		g2 := poolGens[r.Intn(len(poolGens))]
		k2 := g2.gen(r)
		name += "+" + g2.name
		if r.Intn(2) == 0 && len(keys) > 0 {
			p := keys[r.Intn(len(keys))]
			for i := range k2 {
				k2[i] = cat(p, k2[i])
			}
		}
		keys = append(keys, k2...)
	}
	if len(keys) > 420 {
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		keys = keys[:420]
	}
	return pool{name, keys}
}

// genBigPool makes a pool of thousands of keys out of several styles.
func genBigPool(r *rand.Rand) pool {
	var keys [][]byte
	n := 1500 + r.Intn(5000)
	for len(keys) < n {
		p := genPool(r)
		if len(p.keys[0]) > 1000 {
			continue
		}
		stem := rndBytes(r, r.Intn(4))
		for _, k := range p.keys {
			keys = append(keys, cat(stem, k))
		}
	}
	return pool{"big", keys}
}

func (p *pool) pick(r *rand.Rand) []byte { return p.keys[r.Intn(len(p.keys))] }

// near returns a key in the neighbourhood of the pool: the interesting query
// and absent-key arguments.
func (p *pool) near(r *rand.Rand) []byte {
	k := cat(p.pick(r))
	switch r.Intn(10) {
	case 0, 1, 2:
		return k
	case 3:
		return k[:r.Intn(len(k)+1)]
	case 4:
		return append(k, rndByte(r))
	case 5:
		if len(k) > 0 {
			i := r.Intn(len(k))
			k[i] += byte(1 - 2*r.Intn(2))
		}
		return k
	case 6:
		if len(k) > 0 {
			i := r.Intn(len(k))
			k[i] = rndByte(r)
			if r.Intn(2) == 0 {
				k = k[:i+1]
			}
		}
		return k
	case 7:
		return append(k, rndBytes(r, 1+r.Intn(12))...)
	case 8:
		if len(k) > 0 {
			k[len(k)-1] += byte(1 - 2*r.Intn(2))
		}
		return k
	default:
		if r.Intn(3) == 0 {
			return []byte{}
		}
		c := r.Intn(len(k) + 1)
		o := p.pick(r)
		if c > len(o) {
			c = len(o)
		}
		return cat(k[:min(c, len(k))], o[c:])
	}
}

// pfx returns a prefix-like argument.
func (p *pool) pfx(r *rand.Rand) []byte {
	if r.Intn(4) == 0 {
		return p.near(r)
	}
	k := p.pick(r)
	return cat(k[:r.Intn(len(k)+1)])
}
