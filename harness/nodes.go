package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
)

// knode is a node handed out by a tree, with the entries it stood for then.
type knode struct {
	n anode
	s []kv
}

type nodeRun struct {
	*lin
	kept []knode
}

const maxNodes = 24

// entries reads what a node stands for.
func entries(n anode, limit int) ([]kv, error) {
	var s []kv
	it := n.Iterator()
	for {
		k, v, ok := it.Next()
		if !ok {
			return s, nil
		}
		s = append(s, kv{string(k), v})
		if len(s) > limit {
			return nil, fmt.Errorf("a node yields more than the %d entries of its tree", limit)
		}
	}
}

func commonPrefix(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[:i]
}

// within decides whether s is a contiguous part of all.
func within(s, all []kv) bool {
	if len(s) == 0 {
		return true
	}
	i := 0
	for i < len(all) && all[i] != s[0] {
		i++
	}
	if i+len(s) > len(all) {
		return false
	}
	for j := range s {
		if all[i+j] != s[j] {
			return false
		}
	}
	return true
}

// drainFront is drain, and compares the current node with the current entry.
func drainFront(what string, next func() ([]byte, int, bool), front func() anode, want []kv, st *Stats) error {
	var bad error
	err := drain(what, func() ([]byte, int, bool) {
		k, v, ok := next()
		n := front()
		switch {
		case bad != nil:
		case !ok && n != nil:
			bad = fmt.Errorf("%s: Front is a node after the end", what)
		case ok && n == nil:
			bad = fmt.Errorf("%s: Front is nil at %q", what, k)
		case ok:
			fk, fv, fok := n.Iterator().Next()
			if !fok || fv != v || !bytes.Equal(fk, k) {
				bad = fmt.Errorf("%s: the first entry of Front is (%q,%d,%v) at %q=%d", what, fk, fv, fok, k, v)
			}
			st.add("fronts_compared", 1)
		}
		return k, v, ok
	}, want, st)
	if err == nil {
		err = bad
	}
	return err
}

// below decides whether s is what some place in a tree holding m stands for.
func below(m *model, s []kv) error {
	if len(s) == 1 {
		if v, ok := m.m[s[0].k]; !ok || v != s[0].v {
			return fmt.Errorf("a node yields %q=%d, which the tree does not contain", s[0].k, s[0].v)
		}
		return nil
	}
	p := commonPrefix(s[0].k, s[len(s)-1].k)
	want := m.withPrefix([]byte(p))
	if len(s) != len(want) {
		return fmt.Errorf("a node yields %d entries from %q to %q, the tree has %d with their common prefix %q", len(s), s[0].k, s[len(s)-1].k, len(want), p)
	}
	for i := range s {
		if s[i] != want[i] {
			return fmt.Errorf("a node yields %q=%d as entry %d below %q, want %q=%d", s[i].k, s[i].v, i, p, want[i].k, want[i].v)
		}
	}
	return nil
}

// visit checks a depth-first visit of the whole tree and remembers some of the
// nodes it handed out.
func (l *nodeRun) visit(o Op) error {
	l.st.op(o.K)
	m := l.model()
	all := m.all()
	var seen []knode
	index := map[anode]int{}
	var err error
	t := l.view()
	t.DFS(func(n anode) {
		if err != nil {
			return
		}
		if _, dup := index[n]; dup {
			err = fmt.Errorf("DFS: the same node was visited twice")
			return
		}
		index[n] = len(seen)
		var s []kv
		if s, err = entries(n, len(all)); err == nil {
			seen = append(seen, knode{n, s})
		}
	})
	if err != nil {
		return err
	}
	if len(seen) == 0 || len(seen[0].s) != len(all) {
		return fmt.Errorf("DFS: the first node visited is not the root of all %d entries", len(all))
	}
	if len(all) == 0 {
		l.st.obs(false)
		return nil
	}
	// parents before children, siblings in ascending order
	var stack []knode
	for i, e := range seen {
		if len(e.s) == 0 {
			return fmt.Errorf("DFS: visited a node without entries in a tree of %d", len(all))
		}
		if err := below(m, e.s); err != nil {
			return fmt.Errorf("DFS: %w", err)
		}
		first, last := e.s[0].k, e.s[len(e.s)-1].k
		for len(stack) > 0 {
			top := stack[len(stack)-1]
			if top.s[0].k <= first && last <= top.s[len(top.s)-1].k {
				break
			}
			if first <= top.s[len(top.s)-1].k {
				return fmt.Errorf("DFS: visited the node of %q..%q after that of %q..%q", first, last, top.s[0].k, top.s[len(top.s)-1].k)
			}
			stack = stack[:len(stack)-1]
		}
		if i > 0 && len(stack) == 0 {
			return fmt.Errorf("DFS: the node of %q..%q lies outside the tree", first, last)
		}
		stack = append(stack, e)
	}
	l.st.obs(true)
	// a visit from an inner node is the part of the whole visit below it
	at := (o.N * 7) % len(seen)
	pos := at
	t.DFSNode(seen[at].n, func(n anode) {
		if err == nil && (pos >= len(seen) || seen[pos].n != n) {
			err = fmt.Errorf("DFSNode: visit %d below the node of %q.. is not the one DFS makes there", pos-at, seen[at].s[0].k)
		}
		pos++
	})
	if err != nil {
		return err
	}
	if pos < len(seen) {
		e := seen[pos].s
		if s := seen[at].s; len(e) < len(s) && s[0].k <= e[0].k && e[len(e)-1].k <= s[len(s)-1].k {
			return fmt.Errorf("DFSNode: ended before the node of %q.. below that of %q..", e[0].k, s[0].k)
		}
	}
	r := rand.New(rand.NewSource(int64(o.N)))
	for i := 0; i < 6; i++ {
		// inner nodes are more interesting than the many leaves
		e := seen[r.Intn(len(seen))]
		for j := 0; j < 3 && len(e.s) < 2; j++ {
			e = seen[r.Intn(len(seen))]
		}
		if err := l.read(e, o.A, "just handed out"); err != nil {
			return err
		}
		// nodes of an open transaction may be rewritten by it
		if l.x != nil {
			continue
		}
		if len(l.kept) < maxNodes {
			l.kept = append(l.kept, e)
		} else {
			l.kept[r.Intn(maxNodes)] = e
		}
	}
	return nil
}

// read observes a node through every kind of iterator.
func (l *nodeRun) read(e knode, q []byte, when string) error {
	first := e.s[0].k
	wrap := func(err error) error {
		if err != nil {
			return fmt.Errorf("node of %d entries from %q, %s: %w", len(e.s), first, when, err)
		}
		return nil
	}
	pick := func(keep func(k string) bool) []kv {
		var out []kv
		for _, x := range e.s {
			if keep(x.k) {
				out = append(out, x)
			}
		}
		return out
	}
	st := l.st
	if len(e.s) > 1 {
		st.add("inner_nodes", 1)
		if !bytes.HasPrefix(q, []byte(commonPrefix(first, e.s[len(e.s)-1].k))) {
			st.add("arguments_outside", 1)
		}
	}
	it := e.n.Iterator()
	if err := wrap(drainFront("Iterator", it.Next, it.Front, e.s, st)); err != nil {
		return err
	}
	ri := e.n.ReverseIterator()
	if err := wrap(drain("ReverseIterator", ri.Previous, reversed(e.s), st)); err != nil {
		return err
	}
	want := pick(func(k string) bool { return strings.HasPrefix(k, string(q)) })
	it = e.n.Iterator()
	sought := it.SeekPrefix(fresh(q))
	if err := wrap(drainFront(fmt.Sprintf("SeekPrefix(%q)", q), it.Next, it.Front, want, st)); err != nil {
		return err
	}
	if p := it.Path(); p != string(q) {
		return wrap(fmt.Errorf("SeekPrefix(%q): the path of the iterator is %q", q, p))
	}
	// the node returned has everything with the prefix below it
	it = sought.Iterator()
	it.SeekPrefix(fresh(q))
	if err := wrap(drain(fmt.Sprintf("SeekPrefix(%q) from the node returned by it", q), it.Next, want, st)); err != nil {
		return err
	}
	if s, err := entries(sought, len(e.s)); err != nil {
		return wrap(err)
	} else if !within(s, e.s) {
		return wrap(fmt.Errorf("SeekPrefix(%q) returned a node with entries that are not below the one it started from", q))
	}
	ri = e.n.ReverseIterator()
	ri.SeekPrefix(fresh(q))
	if err := wrap(drain(fmt.Sprintf("Reverse SeekPrefix(%q)", q), ri.Previous, reversed(want), st)); err != nil {
		return err
	}
	lb := e.n.LowerBoundIterator()
	lb.SeekLowerBound(fresh(q))
	if err := wrap(drainFront(fmt.Sprintf("SeekLowerBound(%q)", q), lb.Next, lb.Front, pick(func(k string) bool { return k >= string(q) }), st)); err != nil {
		return err
	}
	if p := lb.Path(); p != string(q) {
		return wrap(fmt.Errorf("SeekLowerBound(%q): the path of the iterator is %q", q, p))
	}
	ri = e.n.ReverseIterator()
	ri.SeekReverseLowerBound(fresh(q))
	if err := wrap(drain(fmt.Sprintf("SeekReverseLowerBound(%q)", q), ri.Previous, reversed(pick(func(k string) bool { return k <= string(q) })), st)); err != nil {
		return err
	}
	pi := e.n.PathIterator(fresh(q))
	return wrap(drain(fmt.Sprintf("PathIterator(%q)", q), pi.Next, pick(func(k string) bool { return strings.HasPrefix(string(q), k) }), st))
}

func runNodes(ops []Op, st *Stats) error {
	l := &nodeRun{lin: newLin(st)}
	for i, o := range ops {
		switch o.K {
		case "visit":
			if err := l.visit(o); err != nil {
				return err
			}
		case "node":
			st.op(o.K)
			if len(l.kept) > 0 {
				if err := l.read(l.kept[o.N%len(l.kept)], o.A, "kept since an earlier tree"); err != nil {
					return err
				}
				st.add("kept_nodes_read", 1)
			}
		case "ends":
			st.op(o.K)
			if a := l.model().all(); len(a) > 0 {
				t := l.view()
				if err := l.read(knode{t.Minimum(), a[:1]}, o.A, "returned by Minimum"); err != nil {
					return err
				}
				if err := l.read(knode{t.Maximum(), a[len(a)-1:]}, o.A, "returned by Maximum"); err != nil {
					return err
				}
			}
		default:
			if err := l.apply(o); err != nil {
				return err
			}
		}
		if i == len(ops)*2/5 {
			l.model().shapes(st.shapes)
		}
	}
	for i, e := range l.kept {
		if err := l.read(e, []byte(e.s[len(e.s)/2].k), fmt.Sprintf("kept until the end (%d)", i)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	h := histOpts{txns: true, dpx: 15, queryP: 120, endQ: 6, absentP: 100, maxOps: 700, big: 300, q: func(r *rand.Rand, p *pool) Op {
		k := []string{"visit", "node", "node", "node", "ends"}[r.Intn(5)]
		a := p.near(r)
		if r.Intn(3) == 0 {
			a = p.pfx(r)
		}
		return Op{K: k, A: a, N: r.Intn(10000)}
	}}
	props = append(props, &Prop{ID: "C20", Quick: 60000, Thorough: 500000, MinObs: 1,
		Rule:    fmt.Sprintf(caseRule, "one observation with a non-empty expected result", "Observed: depth-first visits of whole trees and from inner nodes, and every kind of iterator started from the visited nodes, at once and after later updates."),
		Require: []string{"inner_nodes", "kept_nodes_read", "arguments_outside", "fronts_compared"},
		Gen:     func(r *rand.Rand) ([]Op, string) { return genHistory(r, h) },
		Run:     runNodes})
}
