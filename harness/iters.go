package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// openIter is an iterator in progress with what it has still to yield.
type openIter struct {
	next func() ([]byte, int, bool)
	want []kv
	pos  int
	what string
	ends int
}

// source is a node iterators are started from, with its entries.
type source struct {
	n anode
	s []kv
}

type itersRun struct {
	*lin
	from []source
	its  []*openIter
}

const (
	maxSources = 8
	maxIters   = 32
)

func (l *itersRun) source(o Op) (source, error) {
	if len(l.from) > 0 && o.N%3 > 0 {
		return l.from[(o.N/3)%len(l.from)], nil
	}
	// of the committed tree, also while a transaction is open
	s := source{l.t.Root(), l.m.all()}
	if o.N%2 == 1 && len(s.s) > 0 {
		var ns []anode
		l.t.DFS(func(n anode) { ns = append(ns, n) })
		s.n = ns[(o.N/6)%len(ns)]
		e, err := entries(s.n, len(s.s))
		if err != nil {
			return s, err
		}
		s.s = e
	}
	if len(l.from) < maxSources {
		l.from = append(l.from, s)
	} else {
		l.from[(o.N/5)%maxSources] = s
	}
	return s, nil
}

func (l *itersRun) open(o Op) error {
	src, err := l.source(o)
	if err != nil {
		return err
	}
	q := string(o.A)
	it := &openIter{}
	keep := func(string) bool { return true }
	rev := false
	switch o.V % 8 {
	case 0:
		it.what, it.next = "Iterator", src.n.Iterator().Next
	case 1:
		x := src.n.Iterator()
		x.SeekPrefix(fresh(o.A))
		it.what, it.next = fmt.Sprintf("SeekPrefix(%q)", q), x.Next
		keep = func(k string) bool { return strings.HasPrefix(k, q) }
	case 2:
		x := src.n.Iterator()
		x.SeekPrefixWatch(fresh(o.A))
		it.what, it.next = fmt.Sprintf("SeekPrefixWatch(%q)", q), x.Next
		keep = func(k string) bool { return strings.HasPrefix(k, q) }
	case 3:
		x := src.n.LowerBoundIterator()
		x.SeekLowerBound(fresh(o.A))
		it.what, it.next = fmt.Sprintf("SeekLowerBound(%q)", q), x.Next
		keep = func(k string) bool { return k >= q }
	case 4:
		it.what, it.next, rev = "ReverseIterator", src.n.ReverseIterator().Previous, true
	case 5:
		x := src.n.ReverseIterator()
		x.SeekReverseLowerBound(fresh(o.A))
		it.what, it.next, rev = fmt.Sprintf("SeekReverseLowerBound(%q)", q), x.Previous, true
		keep = func(k string) bool { return k <= q }
	case 6:
		x := src.n.ReverseIterator()
		x.SeekPrefix(fresh(o.A))
		it.what, it.next, rev = fmt.Sprintf("Reverse SeekPrefix(%q)", q), x.Previous, true
		keep = func(k string) bool { return strings.HasPrefix(k, q) }
	default:
		it.what, it.next = fmt.Sprintf("PathIterator(%q)", q), src.n.PathIterator(fresh(o.A)).Next
		keep = func(k string) bool { return strings.HasPrefix(q, k) }
	}
	for _, e := range src.s {
		if keep(e.k) {
			it.want = append(it.want, e)
		}
	}
	if rev {
		it.want = reversed(it.want)
	}
	it.what += fmt.Sprintf(" on a node of %d entries", len(src.s))
	if len(l.its) < maxIters {
		l.its = append(l.its, it)
	} else {
		// mostly instead of one that has ended, else of one dropped wherever it was
		at := o.N % maxIters
		for j := 0; j < maxIters && l.its[at].ends < 4; j++ {
			at = (at + 1) % maxIters
		}
		l.its[at] = it
	}
	l.st.add("iterators_opened", 1)
	return nil
}

func (l *itersRun) step(it *openIter, n int) error {
	for ; n > 0; n-- {
		k, v, ok := it.next()
		if it.pos == len(it.want) {
			if ok || len(k) > 0 || v != 0 {
				return fmt.Errorf("%s: call %d after the end of its %d entries gives (%q,%d,%v)", it.what, it.ends, len(it.want), k, v, ok)
			}
			it.ends++
			l.st.add("calls_after_the_end", 1)
			l.st.obs(false)
			continue
		}
		e := it.want[it.pos]
		if !ok || !sameKV(k, v, e) {
			return fmt.Errorf("%s: entry %d of %d is (%q,%d,%v), want %q=%d, with %d iterators open", it.what, it.pos, len(it.want), k, v, ok, e.k, e.v, len(l.its))
		}
		it.pos++
		l.st.obs(true)
	}
	return nil
}

func runIters(ops []Op, st *Stats) error {
	l := &itersRun{lin: newLin(st)}
	for i, o := range ops {
		switch o.K {
		case "open":
			st.op(o.K)
			if err := l.open(o); err != nil {
				return err
			}
		case "step":
			st.op(o.K)
			if len(l.its) > 0 {
				if err := l.step(l.its[o.N%len(l.its)], 1+o.V%6); err != nil {
					return err
				}
			}
		case "round":
			// all of them in turn, the way a merge reads
			st.op(o.K)
			for j := 0; j < 1+o.V%4; j++ {
				for _, it := range l.its {
					if it.ends > 4 {
						continue
					}
					if err := l.step(it, 1); err != nil {
						return err
					}
				}
			}
			st.add("rounds_over_all_iterators", 1)
		case "get", "lp", "walk":
			if err := l.query(o); err != nil {
				return err
			}
		default:
			if err := l.apply(o); err != nil {
				return err
			}
		}
		if i == len(ops)*2/5 {
			l.model().shapes(st.shapes)
		}
	}
	for _, it := range l.its {
		if err := l.step(it, len(it.want)-it.pos+2); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	h := histOpts{txns: true, dpx: 10, queryP: 500, endQ: 20, absentP: 100, maxOps: 900, big: 200, q: func(r *rand.Rand, p *pool) Op {
		o := Op{K: []string{"open", "open", "step", "step", "step", "step", "round", "round", "get", "lp", "walk"}[r.Intn(11)], N: r.Intn(10000), V: r.Intn(24)}
		switch o.K {
		case "open", "get", "lp":
			o.A = p.near(r)
			if r.Intn(2) == 0 {
				o.A = p.pfx(r)
			}
		}
		return o
	}}
	props = append(props, &Prop{ID: "C21", Quick: 120000, Thorough: 1000000, MinObs: 20,
		Rule:    fmt.Sprintf(caseRule, "20 observations of an entry", "Observed: every entry yielded by up to 32 iterators of all kinds in progress at once on shared nodes, advanced in turn and at random between reads and updates, and calls after their end."),
		Require: []string{"iterators_opened", "calls_after_the_end", "rounds_over_all_iterators"},
		Gen:     func(r *rand.Rand) ([]Op, string) { return genHistory(r, h) },
		Run:     runIters})
}
