package main

import (
	"fmt"
	"math/rand"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// multi runs histories over many trees and transactions that are alive at the
// same time. Every tree and every transaction has its own model.
type multi struct {
	trees []*mtree
	txns  []*mtxn
	st    *Stats
	tick  int
	// what is decided
	auditTrees, auditTxns bool
}

type mtree struct {
	t     *tree
	m     *model // never written to
	iters []*miter
	root  anode
	min   *art.NodeLeaf[int]
	max   *art.NodeLeaf[int]
	born  int
}

type mtxn struct {
	x *txn
	m *model
}

// miter is an iterator in progress on a tree.
type miter struct {
	what string
	next func() ([]byte, int, bool)
	want []kv
	pos  int
}

func (it *miter) step(n int) error {
	for ; n > 0 && it.pos < len(it.want); n-- {
		k, v, ok := it.next()
		if !ok || !sameKV(k, v, it.want[it.pos]) {
			return fmt.Errorf("%s in progress: entry %d is (%q,%d,%v), was %q=%d when the iterator was opened", it.what, it.pos, k, v, ok, it.want[it.pos].k, it.want[it.pos].v)
		}
		it.pos++
	}
	if it.pos == len(it.want) {
		if k, v, ok := it.next(); ok {
			return fmt.Errorf("%s in progress: extra entry %q=%d after the %d entries it had when opened", it.what, k, v, len(it.want))
		}
	}
	return nil
}

const maxTrees, maxTxns = 14, 7

func newMulti(st *Stats) *multi {
	mu := &multi{st: st}
	mu.trees = []*mtree{mu.newTree(art.NewRadixTree[int](), newModel())}
	return mu
}

func (mu *multi) newTree(t *tree, m *model) *mtree {
	m.all() // freeze
	mt := &mtree{t: t, m: m, born: mu.tick}
	mt.root, mt.min, mt.max = t.Root(), t.Minimum(), t.Maximum()
	return mt
}

func (mu *multi) pushTree(t *tree, m *model, slot int) error {
	mt := mu.newTree(t, m)
	if len(mu.trees) < maxTrees {
		mu.trees = append(mu.trees, mt)
		return nil
	}
	i := slot % len(mu.trees)
	if err := mu.observeTree(mu.trees[i], i, 2); err != nil {
		return err
	}
	mu.trees[i] = mt
	return nil
}

// observe looks at a tree through its read operations. effort 0: two paths
// chosen by the tick, 1: length and lookups too, 2: everything.
func observe(who string, t *tree, root anode, m *model, tick, effort int, st *Stats) error {
	a := m.all()
	wrap := func(err error) error {
		if err != nil {
			return fmt.Errorf("%s: %w", who, err)
		}
		return nil
	}
	if got := t.Len(); got != len(a) {
		return fmt.Errorf("%s: Len()=%d, want %d", who, got, len(a))
	}
	paths := []func() error{
		func() error {
			it := root.Iterator()
			it.SeekPrefix(nil)
			return drain("Iterator", it.Next, a, st)
		},
		func() error {
			it := root.ReverseIterator()
			return drain("ReverseIterator", it.Previous, reversed(a), st)
		},
		func() error {
			for _, e := range a {
				if v, ok := t.Get([]byte(e.k)); !ok || v != e.v {
					return fmt.Errorf("Get(%q)=(%d,%v), want %d", e.k, v, ok, e.v)
				}
			}
			st.obs(len(a) > 0)
			return nil
		},
		func() error {
			it := root.LowerBoundIterator()
			it.SeekLowerBound([]byte{})
			return drain("LowerBoundIterator", it.Next, a, st)
		},
		func() error {
			i := 0
			var err error
			t.Walk(func(k []byte, v int) bool {
				if i >= len(a) || !sameKV(k, v, a[i]) {
					err = fmt.Errorf("Walk: unexpected entry %d: %q=%d", i, k, v)
					return true
				}
				i++
				return false
			})
			if err == nil && i != len(a) {
				err = fmt.Errorf("Walk: visited %d of %d entries", i, len(a))
			}
			return err
		},
		func() error {
			if len(a) == 0 {
				return nil
			}
			e := a[tick%len(a)]
			q := e.k + "\x01"
			if m2, ok := m.longestPrefix([]byte(q)); ok {
				k, v, ok := t.LongestPrefix([]byte(q))
				if !ok || !sameKV(k, v, m2) {
					return fmt.Errorf("LongestPrefix(%q)=(%q,%d,%v), want %q=%d", q, k, v, ok, m2.k, m2.v)
				}
			}
			p := e.k[:len(e.k)/2]
			it := root.Iterator()
			it.SeekPrefix([]byte(p))
			return drain(fmt.Sprintf("SeekPrefix(%q)", p), it.Next, m.withPrefix([]byte(p)), st)
		},
	}
	if effort == 2 {
		for _, f := range paths {
			if err := wrap(f()); err != nil {
				return err
			}
		}
		return nil
	}
	if err := wrap(paths[tick%2]()); err != nil {
		return err
	}
	return wrap(paths[2+tick%(len(paths)-2)]())
}

func leafKV(l *art.NodeLeaf[int]) ([]byte, int, bool) {
	it := l.Iterator()
	it.SeekPrefix(nil)
	return it.Next()
}

func (mu *multi) observeTree(mt *mtree, i, effort int) error {
	if !mu.auditTrees {
		return nil
	}
	who := fmt.Sprintf("tree %d (obtained %d operations ago)", i, mu.tick-mt.born)
	if err := observe(who, mt.t, mt.t.Root(), mt.m, mu.tick+i, effort, mu.st); err != nil {
		return err
	}
	if effort == 2 {
		it := mt.root.Iterator()
		it.SeekPrefix(nil)
		if err := drain(who+" through the root obtained earlier", it.Next, mt.m.all(), mu.st); err != nil {
			return err
		}
		a := mt.m.all()
		if len(a) > 0 && mt.min != nil && mt.max != nil {
			if k, v, ok := leafKV(mt.min); !ok || !sameKV(k, v, a[0]) {
				return fmt.Errorf("%s: minimum obtained earlier is now (%q,%d,%v), want %q=%d", who, k, v, ok, a[0].k, a[0].v)
			}
			if k, v, ok := leafKV(mt.max); !ok || !sameKV(k, v, a[len(a)-1]) {
				return fmt.Errorf("%s: maximum obtained earlier is now (%q,%d,%v), want %q=%d", who, k, v, ok, a[len(a)-1].k, a[len(a)-1].v)
			}
		}
	}
	for _, it := range mt.iters {
		n := 1
		if effort == 2 {
			n = len(it.want)
		}
		if err := it.step(n); err != nil {
			return fmt.Errorf("%s: %w", who, err)
		}
		mu.st.add("iterator_in_progress_steps", n)
	}
	mu.st.add("tree_audits", 1)
	mu.st.add(fmt.Sprintf("tree_audits_effort%d", effort), 1)
	return nil
}

func (mu *multi) observeTxn(mx *mtxn, i, effort int) error {
	if !mu.auditTxns {
		return nil
	}
	who := fmt.Sprintf("transaction %d", i)
	if err := observe(who, mx.x.GetTree(), mx.x.Root(), mx.m, mu.tick+i, effort, mu.st); err != nil {
		return err
	}
	for j, e := range mx.m.all() {
		if effort < 2 && j%7 != mu.tick%7 {
			continue
		}
		if v, ok := mx.x.Get([]byte(e.k)); !ok || v != e.v {
			return fmt.Errorf("%s: Get(%q)=(%d,%v), want %d", who, e.k, v, ok, e.v)
		}
	}
	mu.st.add("txn_audits", 1)
	return nil
}

func (mu *multi) auditAll(effort int) error {
	for i, mt := range mu.trees {
		if err := mu.observeTree(mt, i, effort); err != nil {
			return err
		}
	}
	for i, mx := range mu.txns {
		if err := mu.observeTxn(mx, i, effort); err != nil {
			return err
		}
	}
	return nil
}

func (mu *multi) run(ops []Op) error {
	for i, o := range ops {
		mu.tick = i
		mu.st.op(o.K)
		if err := mu.apply(o); err != nil {
			return err
		}
		if i == len(ops)/2 {
			mu.trees[len(mu.trees)-1].m.shapes(mu.st.shapes)
		}
	}
	return mu.auditAll(2)
}

func (mu *multi) apply(o Op) error {
	idx, fl := o.N/16, o.N%16
	switch o.K[0] {
	case 't':
		i := idx % len(mu.trees)
		mt := mu.trees[i]
		switch o.K {
		case "tins":
			t, _, _ := mt.t.Insert(fresh(o.A), o.V)
			m := mt.m.clone()
			m.put(o.A, o.V)
			return mu.pushTree(t, m, o.N)
		case "tdel":
			t, _, _ := mt.t.Delete(fresh(o.A))
			m := mt.m.clone()
			m.del(o.A)
			return mu.pushTree(t, m, o.N)
		case "tdpx":
			t, _ := mt.t.DeletePrefix(fresh(o.A))
			m := mt.m.clone()
			m.delPrefix(o.A)
			return mu.pushTree(t, m, o.N)
		case "tchurn":
			// many trees in a row, only the last is kept
			t := mt.t
			for j := 0; j < o.V; j++ {
				t, _, _ = t.Insert(fresh(o.A), j)
				t, _, _ = t.Delete(fresh(o.A))
			}
			m := mt.m.clone()
			m.del(o.A)
			mu.st.add("long_histories", 1)
			return mu.pushTree(t, m, o.N)
		case "tclone":
			return mu.pushTree(mt.t.Clone(), mt.m.clone(), o.N)
		case "titer":
			it := &miter{}
			switch fl % 5 {
			case 0:
				x := mt.t.Root().Iterator()
				x.SeekPrefix(fresh(o.A))
				it.what, it.next, it.want = fmt.Sprintf("prefix iterator %q", []byte(o.A)), x.Next, mt.m.withPrefix(o.A)
			case 1:
				x := mt.t.Root().LowerBoundIterator()
				x.SeekLowerBound(fresh(o.A))
				it.what, it.next, it.want = fmt.Sprintf("lower-bound iterator %q", []byte(o.A)), x.Next, mt.m.lower(o.A)
			case 2:
				x := mt.t.Root().ReverseIterator()
				x.SeekReverseLowerBound(fresh(o.A))
				it.what, it.next, it.want = fmt.Sprintf("reverse iterator %q", []byte(o.A)), x.Previous, mt.m.revLower(o.A)
			case 3:
				x := mt.t.GetPathIterator(fresh(o.A))
				it.what, it.next, it.want = fmt.Sprintf("path iterator %q", []byte(o.A)), x.Next, mt.m.pathTo(o.A)
			default:
				x := mt.t.Root().Iterator()
				x.SeekPrefix(nil)
				it.what, it.next, it.want = "full iterator", x.Next, mt.m.all()
			}
			if err := it.step(len(it.want) * (fl % 4) / 8); err != nil && mu.auditTrees {
				return err
			}
			if len(mt.iters) < 6 {
				mt.iters = append(mt.iters, it)
			}
		}
	case 'x':
		if o.K == "xnew" {
			mt := mu.trees[idx%len(mu.trees)]
			x := mt.t.Txn()
			x.TrackMutate(fl&1 == 1)
			mx := &mtxn{x, mt.m.clone()}
			if len(mu.txns) < maxTxns {
				mu.txns = append(mu.txns, mx)
				return nil
			}
			i := o.N % len(mu.txns)
			if err := mu.observeTxn(mu.txns[i], i, 2); err != nil {
				return err
			}
			mu.txns[i] = mx
			return nil
		}
		if len(mu.txns) == 0 {
			return nil
		}
		i := idx % len(mu.txns)
		mx := mu.txns[i]
		switch o.K {
		case "xins":
			mx.x.Insert(fresh(o.A), o.V)
			mx.m.put(o.A, o.V)
		case "xdel":
			mx.x.Delete(fresh(o.A))
			mx.m.del(o.A)
		case "xdpx":
			mx.x.DeletePrefix(fresh(o.A))
			mx.m.delPrefix(o.A)
		case "xchurn":
			for j := 0; j < o.V; j++ {
				mx.x.Insert(fresh(o.A), j)
				mx.x.Delete(fresh(o.A))
			}
			mx.m.del(o.A)
			mu.st.add("long_transactions", 1)
		case "xget":
			v, ok := mx.x.Get(fresh(o.A))
			mv, mok := mx.m.m[string(o.A)]
			mu.st.obs(mok)
			if mu.auditTxns && (ok != mok || v != mv) {
				return fmt.Errorf("transaction %d: Get(%q)=(%d,%v), want (%d,%v)", i, []byte(o.A), v, ok, mv, mok)
			}
			_, v, ok = mx.x.GetWatch(fresh(o.A))
			if mu.auditTxns && (ok != mok || v != mv) {
				return fmt.Errorf("transaction %d: GetWatch(%q)=(%d,%v), want (%d,%v)", i, []byte(o.A), v, ok, mv, mok)
			}
			k, v, ok := mx.x.LongestPrefix(fresh(o.A))
			e, mok := mx.m.longestPrefix(o.A)
			if mu.auditTxns && (ok != mok || string(k) != e.k || v != e.v) {
				return fmt.Errorf("transaction %d: LongestPrefix(%q)=(%q,%d,%v), want (%q,%d,%v)", i, []byte(o.A), k, v, ok, e.k, e.v, mok)
			}
		case "xlook":
			return mu.observeTxn(mx, i, 0)
		case "xtrack":
			mx.x.TrackMutate(fl&1 == 1)
		case "xclone":
			c := &mtxn{mx.x.Clone(), mx.m.clone()}
			c.x.TrackMutate(fl&1 == 1)
			mu.st.add("clones", 1)
			if len(mu.txns) < maxTxns {
				mu.txns = append(mu.txns, c)
			} else {
				mu.txns[o.N%len(mu.txns)] = c
			}
		case "xcommit":
			var t *tree
			switch fl % 3 {
			case 0:
				t = mx.x.Commit()
			case 1:
				t = mx.x.CommitOnly()
			case 2:
				t = mx.x.CommitOnly()
				mx.x.Notify()
			}
			m := mx.m.clone()
			mu.st.add("commits", 1)
			if mu.auditTxns {
				if err := observe("tree returned by commit", t, t.Root(), m, mu.tick, 0, mu.st); err != nil {
					return err
				}
			}
			if fl&8 != 0 {
				mu.txns = append(mu.txns[:i:i], mu.txns[i+1:]...)
			} else {
				mu.st.add("transactions_continued_after_commit", 1)
			}
			return mu.pushTree(t, m, o.N)
		case "xdrop":
			mu.st.add("abandoned", 1)
			mu.txns = append(mu.txns[:i:i], mu.txns[i+1:]...)
		}
	case 'a':
		return mu.auditAll(0)
	}
	return nil
}

func genMulti(r *rand.Rand, txnHeavy bool) ([]Op, string) {
	p := genPool(r)
	if len(p.keys) > 130 && r.Intn(4) > 0 {
		r.Shuffle(len(p.keys), func(i, j int) { p.keys[i], p.keys[j] = p.keys[j], p.keys[i] })
		p.keys = p.keys[:130]
	}
	var ops []Op
	v := 1
	put := func(k string, idx, fl int, a []byte) {
		o := Op{K: k, N: idx*16 + fl, A: a}
		if k == "tins" || k == "xins" {
			o.V = v
			v++
		}
		ops = append(ops, o)
	}
	key := func() []byte {
		if r.Intn(12) == 0 {
			return p.near(r)
		}
		return cat(p.pick(r))
	}
	// very long histories, one in so many cases
	long := r.Intn(500) == 0
	churn := func() {
		if r.Intn(4) == 0 {
			put("tchurn", r.Intn(64), 0, key())
			ops[len(ops)-1].V = 1000 + r.Intn(20000)
			return
		}
		// write, go on for long, commit, and update what was committed
		idx := r.Intn(64)
		var ks [][]byte
		for n := 5 + r.Intn(20); n > 0; n-- {
			ks = append(ks, key())
			put("xins", idx, 0, cat(ks[len(ks)-1]))
		}
		put("xtrack", idx, 0, nil)
		put("xchurn", idx, 0, key())
		n := 2000 << r.Intn(7)
		ops[len(ops)-1].V = n + r.Intn(n)
		put("xcommit", idx, r.Intn(8), nil)
		for i := 0; i < maxTrees; i++ {
			put("tins", i, 0, cat(ks[r.Intn(len(ks))]))
		}
		put("audit", 0, 0, nil)
	}
	// load
	put("xnew", 0, r.Intn(2), nil)
	perm := r.Perm(len(p.keys))
	for _, j := range perm[:r.Intn(len(perm)+1)] {
		put("xins", 0, 0, cat(p.keys[j]))
	}
	put("xcommit", 0, r.Intn(16), nil)
	budget := 120 + r.Intn(400)
	for len(ops) < budget+len(p.keys) {
		if long && r.Intn(8) == 0 {
			churn()
		}
		// a burst on one object
		idx := r.Intn(64)
		n := 1 + r.Intn(12)
		if r.Intn(4) == 0 {
			n = 10 + r.Intn(60)
		}
		onTxn := r.Intn(10) < 6
		if txnHeavy {
			onTxn = r.Intn(10) < 9
		}
		insP := []int{10, 50, 90}[r.Intn(3)]
		if onTxn {
			if r.Intn(3) == 0 {
				put("xnew", r.Intn(64), r.Intn(2), nil)
			}
			for ; n > 0; n-- {
				switch x := r.Intn(100); {
				case x < 4:
					put("xdpx", idx, 0, p.pfx(r))
				case x < 8:
					put("xget", idx, 0, p.near(r))
				case x < 10:
					put("xlook", idx, 0, nil)
				case x < 11:
					put("xtrack", idx, r.Intn(2), nil)
				case x < 15 && r.Intn(3) == 0:
					put("xclone", idx, r.Intn(2), nil)
					if r.Intn(2) == 0 {
						idx = r.Intn(64)
					}
				case x < 19:
					fl := r.Intn(8)
					if r.Intn(4) == 0 {
						fl |= 8
					}
					put("xcommit", idx, fl, nil)
				case x < 20:
					put("titer", r.Intn(64), r.Intn(16), p.pfx(r))
				default:
					if r.Intn(100) < insP {
						put("xins", idx, 0, key())
					} else {
						put("xdel", idx, 0, key())
					}
				}
			}
			if r.Intn(8) == 0 {
				put("xdrop", idx, 0, nil)
			}
		} else {
			for ; n > 0; n-- {
				idx = 63 - r.Intn(4)
				switch x := r.Intn(100); {
				case x < 5:
					put("tdpx", r.Intn(64), 0, p.pfx(r))
				case x < 8:
					put("tclone", r.Intn(64), 0, nil)
				case x < 18:
					put("titer", r.Intn(64), r.Intn(16), p.pfx(r))
				default:
					if r.Intn(2) == 0 {
						idx = r.Intn(64)
					}
					if r.Intn(100) < insP {
						put("tins", idx, 0, key())
					} else {
						put("tdel", idx, 0, key())
					}
				}
			}
		}
		if r.Intn(3) == 0 {
			put("audit", 0, 0, nil)
		}
	}
	return ops, p.style
}

func init() {
	props = append(props,
		&Prop{ID: "C10", Quick: 80000, Thorough: 800000, MinObs: 20,
			Rule:    fmt.Sprintf(caseRule, "20 observations with a non-empty expected result", "Observed: the length, lookups and every kind of iteration of all trees kept alive, and iterators in progress on them, after later operations on related trees and transactions."),
			Gen:     func(r *rand.Rand) ([]Op, string) { return genMulti(r, false) },
			Run:     func(ops []Op, st *Stats) error { mu := newMulti(st); mu.auditTrees = true; return mu.run(ops) },
			Require: []string{"tree_audits", "iterator_in_progress_steps", "transactions_continued_after_commit", "clones", "abandoned", "long_histories", "long_transactions"}},
		&Prop{ID: "C11", Quick: 80000, Thorough: 800000, MinObs: 20,
			Rule: fmt.Sprintf(caseRule, "20 observations with a non-empty expected result", "Observed: all reads of all open transactions and clones after writes to the others, the trees they commit, and the trees they started from."),
			Gen:  func(r *rand.Rand) ([]Op, string) { return genMulti(r, true) },
			Run: func(ops []Op, st *Stats) error {
				mu := newMulti(st)
				mu.auditTxns = true
				mu.auditTrees = true
				return mu.run(ops)
			},
			Require: []string{"txn_audits", "transactions_continued_after_commit", "clones", "abandoned", "long_histories", "long_transactions"}},
	)
}
