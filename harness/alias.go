package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// arg is a key handed to the library out of the middle of a larger buffer: a
// guard in front, and spare capacity behind that a careless append would write
// to. It remembers what the buffer looked like.
type arg struct {
	buf, was []byte
	k        []byte
}

const guard = 8

func newArg(r *rand.Rand, k []byte) *arg {
	spare := []int{0, 1, 1, 2, 3, 7, 16, 64}[r.Intn(8)]
	a := &arg{buf: make([]byte, guard+len(k)+spare)}
	r.Read(a.buf)
	copy(a.buf[guard:], k)
	a.was = append([]byte{}, a.buf...)
	a.k = a.buf[guard : guard+len(k)]
	return a
}

// returned is called when the library has returned: nothing may have been
// written, and the memory is now the caller's to overwrite.
func (a *arg) returned(r *rand.Rand, what string, st *Stats) error {
	if !bytes.Equal(a.buf, a.was) {
		for i := range a.buf {
			if a.buf[i] != a.was[i] {
				where := "the key"
				if i < guard {
					where = "memory before the key"
				} else if i >= guard+len(a.k) {
					where = "spare capacity behind the key"
				}
				return fmt.Errorf("%s(%q) wrote 0x%02x over 0x%02x in %s", what, a.was[guard:guard+len(a.k)], a.buf[i], a.was[i], where)
			}
		}
	}
	st.add("argument_buffers_compared", 1)
	if r.Intn(2) == 0 {
		r.Read(a.buf)
	} else {
		for i := range a.buf {
			a.buf[i] ^= 0xa5
		}
	}
	return nil
}

type held struct {
	got  []byte
	want string
	from string
}

type aliasRun struct {
	lin
	r    *rand.Rand
	held []held // keys as returned
	mine []held // keys extended by the caller
}

// returnedKey is called for every key the library hands out: the caller may
// append to it, and the bytes it was given stay what they are.
func (l *aliasRun) returnedKey(from string, k []byte, want string) {
	if len(l.held) < 200 {
		l.held = append(l.held, held{k, want, from})
	} else {
		l.held[l.r.Intn(200)] = held{k, want, from}
	}
	x := append(k, "\xee\xeeappended"[:1+l.r.Intn(9)]...)
	x[len(x)-1] += byte(l.r.Intn(250)) // the appended part only
	// the extended key is the caller's own
	h := held{x, string(x), "the caller appending to a key of " + from}
	if len(l.mine) < 200 {
		l.mine = append(l.mine, h)
	} else {
		l.mine[l.r.Intn(200)] = h
	}
	l.st.add("returned_keys_appended_to", 1)
}

func (l *aliasRun) drain(what string, next func() ([]byte, int, bool), want []kv) error {
	for i, e := range want {
		k, v, ok := next()
		if !ok || !sameKV(k, v, e) {
			return fmt.Errorf("%s: entry %d is (%q,%d,%v), want %q=%d", what, i, k, v, ok, e.k, e.v)
		}
		l.returnedKey(what, k, e.k)
	}
	if k, v, ok := next(); ok {
		return fmt.Errorf("%s: extra entry %q=%d", what, k, v)
	}
	l.st.obs(len(want) > 0)
	return nil
}

// part reads below one node of the tree, with arguments overwritten as soon as
// the iterator is positioned.
func (l *aliasRun) part(o Op) error {
	all := l.model().all()
	if len(all) == 0 {
		return nil
	}
	var ns []anode
	switch o.N % 4 {
	case 0:
		ns = append(ns, l.view().Minimum())
	case 1:
		ns = append(ns, l.view().Maximum())
	default:
		l.view().DFS(func(n anode) { ns = append(ns, n) })
	}
	n := ns[(o.N/4)%len(ns)]
	s, err := entries(n, len(all))
	if err != nil {
		return err
	}
	q := string(o.A)
	for _, c := range []struct {
		what string
		seek func(k []byte) func() ([]byte, int, bool)
		rev  bool
		keep func(k string) bool
	}{
		{"PathIterator", func(k []byte) func() ([]byte, int, bool) {
			return n.PathIterator(k).Next
		}, false, func(k string) bool { return strings.HasPrefix(q, k) }},
		{"SeekPrefix", func(k []byte) func() ([]byte, int, bool) {
			it := n.Iterator()
			it.SeekPrefix(k)
			return it.Next
		}, false, func(k string) bool { return strings.HasPrefix(k, q) }},
		{"reverse SeekPrefix", func(k []byte) func() ([]byte, int, bool) {
			it := n.ReverseIterator()
			it.SeekPrefix(k)
			return it.Previous
		}, true, func(k string) bool { return strings.HasPrefix(k, q) }},
		{"SeekLowerBound", func(k []byte) func() ([]byte, int, bool) {
			it := n.LowerBoundIterator()
			it.SeekLowerBound(k)
			return it.Next
		}, false, func(k string) bool { return k >= q }},
		{"SeekReverseLowerBound", func(k []byte) func() ([]byte, int, bool) {
			it := n.ReverseIterator()
			it.SeekReverseLowerBound(k)
			return it.Previous
		}, true, func(k string) bool { return k <= q }},
	} {
		var want []kv
		for _, e := range s {
			if c.keep(e.k) {
				want = append(want, e)
			}
		}
		if c.rev {
			want = reversed(want)
		}
		a := newArg(l.r, o.A)
		next := c.seek(a.k)
		if err := a.returned(l.r, c.what, l.st); err != nil {
			return err
		}
		if err := l.drain(fmt.Sprintf("%s(%q) from a node", c.what, q), next, want); err != nil {
			return err
		}
	}
	l.st.add("nodes_read", 1)
	return nil
}

func (l *aliasRun) step(o Op) error {
	r, m, st := l.r, l.model(), l.st
	switch o.K {
	case "begin", "commit", "abort":
		return l.apply(o)
	}
	st.op(o.K)
	a := newArg(r, o.A)
	switch o.K {
	case "ins":
		if l.x != nil {
			l.x.Insert(a.k, o.V)
		} else {
			l.t, _, _ = l.t.Insert(a.k, o.V)
		}
		m.put(o.A, o.V)
		return a.returned(r, "Insert", st)
	case "del":
		if l.x != nil {
			l.x.Delete(a.k)
		} else {
			l.t, _, _ = l.t.Delete(a.k)
		}
		m.del(o.A)
		return a.returned(r, "Delete", st)
	case "dpx":
		if l.x != nil {
			l.x.DeletePrefix(a.k)
		} else {
			l.t, _ = l.t.DeletePrefix(a.k)
		}
		m.delPrefix(o.A)
		return a.returned(r, "DeletePrefix", st)
	case "get", "getw":
		var v int
		var ok bool
		switch {
		case o.K == "getw" && l.x != nil:
			_, v, ok = l.x.GetWatch(a.k)
		case o.K == "getw":
			_, v, ok = l.t.GetWatch(a.k)
		case l.x != nil:
			v, ok = l.x.Get(a.k)
		default:
			v, ok = l.t.Get(a.k)
		}
		mv, mok := m.m[string(o.A)]
		if v != mv || ok != mok {
			return fmt.Errorf("Get(%q)=(%d,%v), want (%d,%v)", []byte(o.A), v, ok, mv, mok)
		}
		st.obs(mok)
		return a.returned(r, "Get", st)
	case "lp":
		k, v, ok := l.view().LongestPrefix(a.k)
		if err := a.returned(r, "LongestPrefix", st); err != nil {
			return err
		}
		// k is compared after the query buffer has been overwritten
		e, mok := m.longestPrefix(o.A)
		if ok != mok || (ok && !sameKV(k, v, e)) {
			return fmt.Errorf("LongestPrefix(%q)=(%q,%d,%v), want (%q,%d,%v)", []byte(o.A), k, v, ok, e.k, e.v, mok)
		}
		st.obs(mok)
		if ok {
			l.returnedKey("LongestPrefix", k, e.k)
		}
		return nil
	case "path":
		var it *art.PathIterator[int]
		if o.N&1 == 1 {
			it = l.root().PathIterator(a.k)
		} else {
			it = l.view().GetPathIterator(a.k)
		}
		if err := a.returned(r, "PathIterator", st); err != nil {
			return err
		}
		return l.drain(fmt.Sprintf("PathIterator(%q)", []byte(o.A)), it.Next, m.pathTo(o.A))
	case "pfx":
		it := l.root().Iterator()
		if o.N&1 == 1 {
			it.SeekPrefixWatch(a.k)
		} else {
			it.SeekPrefix(a.k)
		}
		if err := a.returned(r, "SeekPrefix", st); err != nil {
			return err
		}
		return l.drain(fmt.Sprintf("SeekPrefix(%q)", []byte(o.A)), it.Next, m.withPrefix(o.A))
	case "lb":
		it := l.root().LowerBoundIterator()
		it.SeekLowerBound(a.k)
		if err := a.returned(r, "SeekLowerBound", st); err != nil {
			return err
		}
		return l.drain(fmt.Sprintf("SeekLowerBound(%q)", []byte(o.A)), it.Next, m.lower(o.A))
	case "rlb":
		it := l.root().ReverseIterator()
		it.SeekReverseLowerBound(a.k)
		if err := a.returned(r, "SeekReverseLowerBound", st); err != nil {
			return err
		}
		return l.drain(fmt.Sprintf("SeekReverseLowerBound(%q)", []byte(o.A)), it.Previous, m.revLower(o.A))
	case "rpfx":
		it := l.root().ReverseIterator()
		if o.N&1 == 1 {
			it.SeekPrefixWatch(a.k)
		} else {
			it.SeekPrefix(a.k)
		}
		if err := a.returned(r, "reverse SeekPrefix", st); err != nil {
			return err
		}
		return l.drain(fmt.Sprintf("reverse SeekPrefix(%q)", []byte(o.A)), it.Previous, reversed(m.withPrefix(o.A)))
	case "walk":
		all := m.all()
		i := 0
		var err error
		l.view().Walk(func(k []byte, v int) bool {
			if i >= len(all) || !sameKV(k, v, all[i]) {
				err = fmt.Errorf("Walk: unexpected entry %d: %q=%d", i, k, v)
				return true
			}
			l.returnedKey("Walk", k, all[i].k)
			i++
			return false
		})
		return err
	case "minmax":
		all := m.all()
		if len(all) == 0 {
			return nil
		}
		for j, leaf := range []*art.NodeLeaf[int]{l.view().Minimum(), l.view().Maximum()} {
			e := all[j*(len(all)-1)]
			if leaf == nil {
				return fmt.Errorf("Minimum/Maximum is nil, want %q", e.k)
			}
			it := leaf.Iterator()
			if err := l.drain("leaf iterator", it.Next, []kv{e}); err != nil {
				return err
			}
		}
	case "part":
		return l.part(o)
	case "audit":
		for _, e := range m.all() {
			v, ok := l.view().Get(fresh([]byte(e.k)))
			if !ok || v != e.v {
				return fmt.Errorf("Get(%q)=(%d,%v), want (%d,true)", e.k, v, ok, e.v)
			}
		}
		it := l.root().Iterator()
		it.SeekPrefix(nil)
		return drain("Iterator", it.Next, m.all(), st)
	}
	return nil
}

func init() {
	h := histOpts{txns: true, dpx: 30, queryP: 350, endQ: 6, absentP: 150, maxOps: 800, big: 200,
		q: q("get", "getw", "lp", "path", "pfx", "pfx", "lb", "rlb", "rpfx", "walk", "minmax", "part", "audit")}
	props = append(props, &Prop{ID: "C17", Quick: 80000, Thorough: 1000000, MinObs: 1,
		Rule: fmt.Sprintf(caseRule, "one observation with a non-empty expected result", "Observed: guard bytes, key bytes and spare capacity of every slice passed in, after the call; all results, from whole trees and from single nodes, after those buffers were overwritten; all content after appending to every returned key; returned keys at the end."),
		Gen: func(r *rand.Rand) ([]Op, string) {
			ops, s := genHistory(r, h)
			return append([]Op{{K: "seed", V: int(r.Int31())}}, ops...), s
		},
		Run: func(ops []Op, st *Stats) error {
			seed := int64(1)
			if len(ops) > 0 && ops[0].K == "seed" {
				seed = int64(ops[0].V)
				ops = ops[1:]
			}
			l := &aliasRun{lin: *newLin(st), r: rand.New(rand.NewSource(seed))}
			for _, o := range ops {
				if err := l.step(o); err != nil {
					return err
				}
			}
			if err := l.step(Op{K: "audit"}); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			for _, h := range append(l.held, l.mine...) {
				if string(h.got) != h.want {
					return fmt.Errorf("key %q made by %s reads %q later", h.want, h.from, h.got)
				}
			}
			return nil
		},
		Require: []string{"argument_buffers_compared", "returned_keys_appended_to", "nodes_read"}})
}
