package main

import (
	"bytes"
	"fmt"
	"math/rand"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

type (
	tree  = art.RadixTree[int]
	txn   = art.Txn[int]
	anode = art.Node[int]
)

// Op is one step of a case. Cases are data, so that they can be shrunk, stored
// and replayed.
type Op struct {
	K string `json:"k"`
	A hexKey `json:"a,omitempty"`
	V int    `json:"v,omitempty"`
	N int    `json:"n,omitempty"`
}

// fresh gives the library its own exactly-sized copy of a key.
func fresh(k []byte) []byte {
	c := make([]byte, len(k))
	copy(c, k)
	return c
}

// lin runs one linear history (tree-level operations, interleaved with
// transactions) next to the model.
type lin struct {
	t    *tree
	m    *model // model of t
	x    *txn
	xm   *model // model of x
	st   *Stats
	rets bool // check return values of mutators and Len
	cnt  bool // check Len
	gets int
}

func newLin(st *Stats) *lin { return &lin{t: art.NewRadixTree[int](), m: newModel(), st: st} }

func (l *lin) model() *model {
	if l.x != nil {
		return l.xm
	}
	return l.m
}

func (l *lin) root() anode {
	if l.x != nil {
		return l.x.Root()
	}
	return l.t.Root()
}

func (l *lin) view() *tree {
	if l.x != nil {
		return l.x.GetTree()
	}
	return l.t
}

func (l *lin) apply(o Op) error {
	l.st.op(o.K)
	switch o.K {
	case "ins":
		var old int
		var upd bool
		if l.x != nil {
			old, upd = l.x.Insert(fresh(o.A), o.V)
		} else {
			l.t, old, upd = l.t.Insert(fresh(o.A), o.V)
		}
		mo, mu := l.model().put(o.A, o.V)
		if l.rets && (upd != mu || old != mo) {
			return fmt.Errorf("Insert(%q) returned (%d,%v), want (%d,%v)", []byte(o.A), old, upd, mo, mu)
		}
	case "del":
		var old int
		var ok bool
		if l.x != nil {
			old, ok = l.x.Delete(fresh(o.A))
		} else {
			l.t, old, ok = l.t.Delete(fresh(o.A))
		}
		mo, mk := l.model().del(o.A)
		if l.rets && (ok != mk || old != mo) {
			return fmt.Errorf("Delete(%q) returned (%d,%v), want (%d,%v)", []byte(o.A), old, ok, mo, mk)
		}
	case "dpx":
		var ok bool
		if l.x != nil {
			ok = l.x.DeletePrefix(fresh(o.A))
		} else {
			l.t, ok = l.t.DeletePrefix(fresh(o.A))
		}
		n := l.model().delPrefix(o.A)
		if l.rets && ok != (n > 0) {
			return fmt.Errorf("DeletePrefix(%q) returned %v, %d keys matched", []byte(o.A), ok, n)
		}
	case "begin":
		if l.x == nil {
			l.x = l.t.Txn()
			l.x.TrackMutate(o.N&1 == 1)
			l.xm = l.m.clone()
		}
	case "commit":
		if l.x != nil {
			if o.N&1 == 1 {
				l.t = l.x.CommitOnly()
				if o.N&2 == 2 {
					l.x.Notify()
				}
			} else {
				l.t = l.x.Commit()
			}
			l.m, l.x, l.xm = l.xm, nil, nil
		}
	case "abort":
		l.x, l.xm = nil, nil
	}
	if l.cnt {
		if got := l.view().Len(); got != len(l.model().m) {
			return fmt.Errorf("after %s(%q) Len()=%d, want %d", o.K, []byte(o.A), got, len(l.model().m))
		}
	}
	return nil
}

func (l *lin) get(k []byte) error {
	var v int
	var ok bool
	// lookups that also return a watch are lookups too
	l.gets++
	switch watch := l.gets%3 == 0; {
	case watch && l.x != nil:
		_, v, ok = l.x.GetWatch(fresh(k))
	case watch:
		_, v, ok = l.t.GetWatch(fresh(k))
	case l.x != nil:
		v, ok = l.x.Get(fresh(k))
	default:
		v, ok = l.t.Get(fresh(k))
	}
	mv, mk := l.model().m[string(k)]
	l.st.obs(mk)
	if ok != mk || v != mv {
		return fmt.Errorf("Get(%q)=(%d,%v), want (%d,%v)", k, v, ok, mv, mk)
	}
	return nil
}

// getAll checks every key of the model and the given extra probes.
func (l *lin) getAll(probes [][]byte) error {
	for _, e := range l.model().all() {
		if err := l.get([]byte(e.k)); err != nil {
			return err
		}
	}
	for _, p := range probes {
		if err := l.get(p); err != nil {
			return err
		}
	}
	return nil
}

// drain compares the pairs next yields, and two further calls after the end,
// with want.
func drain(what string, next func() ([]byte, int, bool), want []kv, st *Stats) error {
	for i, e := range want {
		k, v, ok := next()
		if !ok {
			return fmt.Errorf("%s: ended after %d of %d entries, next should be %q=%d", what, i, len(want), e.k, e.v)
		}
		if !sameKV(k, v, e) {
			return fmt.Errorf("%s: entry %d is %q=%d, want %q=%d", what, i, k, v, e.k, e.v)
		}
	}
	for i := 0; i < 2; i++ {
		k, v, ok := next()
		if ok {
			return fmt.Errorf("%s: extra entry %q=%d after all %d entries", what, k, v, len(want))
		}
		if len(k) > 0 || v != 0 {
			return fmt.Errorf("%s: (%q,%d) given after the end instead of nothing", what, k, v)
		}
	}
	st.obs(len(want) > 0)
	return nil
}

func (l *lin) query(o Op) error {
	l.st.op(o.K)
	m := l.model()
	switch o.K {
	case "get":
		return l.get(o.A)
	case "audit":
		return l.getAll(nil)
	case "iter":
		it := l.root().Iterator()
		it.SeekPrefix(nil)
		return drain("Iterator over everything", it.Next, m.all(), l.st)
	case "iterx":
		it := l.root().Iterator()
		return drain("Iterator without seek", it.Next, m.all(), l.st)
	case "walk":
		a := m.all()
		i := 0
		var err error
		l.view().Walk(func(k []byte, v int) bool {
			if i >= len(a) {
				err = fmt.Errorf("Walk: extra entry %q=%d after all %d entries", k, v, len(a))
				return true
			}
			if !sameKV(k, v, a[i]) {
				err = fmt.Errorf("Walk: entry %d is %q=%d, want %q=%d", i, k, v, a[i].k, a[i].v)
				return true
			}
			i++
			return false
		})
		if err == nil && i != len(a) {
			err = fmt.Errorf("Walk: visited %d of %d entries", i, len(a))
		}
		l.st.obs(len(a) > 0)
		return err
	case "walkstop":
		a := m.all()
		if len(a) == 0 {
			return nil
		}
		stop := o.N % len(a)
		calls := 0
		var err error
		l.view().Walk(func(k []byte, v int) bool {
			if calls > stop {
				err = fmt.Errorf("Walk: callback called again (%q) after asking to stop at entry %d", k, stop)
			} else if !sameKV(k, v, a[calls]) && err == nil {
				err = fmt.Errorf("Walk: entry %d is %q=%d, want %q=%d", calls, k, v, a[calls].k, a[calls].v)
			}
			calls++
			return calls > stop
		})
		if err == nil && calls != stop+1 {
			err = fmt.Errorf("Walk: %d calls, expected to stop at call %d", calls, stop+1)
		}
		l.st.obs(true)
		return err
	case "dfs":
		// every key is the smallest below some node: the one that holds it
		reached := map[string]bool{}
		l.view().DFS(func(n anode) {
			it := n.Iterator()
			it.SeekPrefix(nil)
			if k, _, ok := it.Next(); ok {
				reached[string(k)] = true
			}
		})
		for _, e := range m.all() {
			if !reached[e.k] {
				return fmt.Errorf("DFS: the node of %q was not visited", e.k)
			}
		}
		l.st.obs(len(m.m) > 0)
	case "pfx":
		it := l.root().Iterator()
		if o.N&1 == 1 {
			it.SeekPrefixWatch(fresh(o.A))
		} else {
			it.SeekPrefix(fresh(o.A))
		}
		return drain(fmt.Sprintf("SeekPrefix(%q)", []byte(o.A)), it.Next, m.withPrefix(o.A), l.st)
	case "lb":
		it := l.root().LowerBoundIterator()
		it.SeekLowerBound(fresh(o.A))
		return drain(fmt.Sprintf("SeekLowerBound(%q)", []byte(o.A)), it.Next, m.lower(o.A), l.st)
	case "rev":
		it := l.root().ReverseIterator()
		return drain("ReverseIterator", it.Previous, reversed(m.all()), l.st)
	case "rlb":
		it := l.root().ReverseIterator()
		it.SeekReverseLowerBound(fresh(o.A))
		return drain(fmt.Sprintf("SeekReverseLowerBound(%q)", []byte(o.A)), it.Previous, m.revLower(o.A), l.st)
	case "rpfx":
		it := l.root().ReverseIterator()
		if o.N&1 == 1 {
			it.SeekPrefixWatch(fresh(o.A))
		} else {
			it.SeekPrefix(fresh(o.A))
		}
		return drain(fmt.Sprintf("Reverse SeekPrefix(%q)", []byte(o.A)), it.Previous, reversed(m.withPrefix(o.A)), l.st)
	case "path":
		var it *art.PathIterator[int]
		if o.N&1 == 1 {
			it = l.root().PathIterator(fresh(o.A))
		} else {
			it = l.view().GetPathIterator(fresh(o.A))
		}
		return drain(fmt.Sprintf("PathIterator(%q)", []byte(o.A)), it.Next, m.pathTo(o.A), l.st)
	case "lp":
		var k []byte
		var v int
		var ok bool
		if l.x != nil {
			k, v, ok = l.x.LongestPrefix(fresh(o.A))
		} else {
			k, v, ok = l.t.LongestPrefix(fresh(o.A))
		}
		e, mok := m.longestPrefix(o.A)
		l.st.obs(mok)
		if ok != mok || !bytes.Equal(k, []byte(e.k)) || v != e.v {
			return fmt.Errorf("LongestPrefix(%q)=(%q,%d,%v), want (%q,%d,%v)", []byte(o.A), k, v, ok, e.k, e.v, mok)
		}
	case "min", "max":
		leaf := l.view().Minimum()
		if o.K == "max" {
			leaf = l.view().Maximum()
		}
		a := m.all()
		l.st.obs(len(a) > 0)
		if len(a) == 0 {
			if leaf != nil {
				return fmt.Errorf("%simum of an empty tree is not nil", o.K)
			}
			return nil
		}
		if leaf == nil {
			return fmt.Errorf("%simum of a tree with %d keys is nil", o.K, len(a))
		}
		want := a[0]
		if o.K == "max" {
			want = a[len(a)-1]
		}
		it := leaf.Iterator()
		it.SeekPrefix(nil)
		k, v, ok := it.Next()
		if !ok || !sameKV(k, v, want) {
			return fmt.Errorf("%simum is (%q,%d,%v), want %q=%d", o.K, k, v, ok, want.k, want.v)
		}
	}
	return nil
}

// genHistory makes a history that grows, churns and shrinks over one pool, so
// that every node size is crossed upwards and downwards, interleaving the
// queries produced by q.
type histOpts struct {
	dpx     int // per-mille of mutations that are DeletePrefix
	txns    bool
	queryP  int // per-mille chance of a query after each mutation
	endQ    int // queries at the end of each phase
	q       func(r *rand.Rand, p *pool) Op
	maxOps  int
	big     int // one in so many cases has thousands of keys
	absentP int // per-mille of deletes aimed at neighbourhood (mostly absent) keys
}

func genHistory(r *rand.Rand, h histOpts) ([]Op, string) {
	if h.big > 0 && r.Intn(h.big) == 0 {
		h.queryP = min(h.queryP, 4)
		h.endQ = 4
		return genHistoryOver(r, h, genBigPool(r))
	}
	return genHistoryOver(r, h, genPool(r))
}

func genHistoryOver(r *rand.Rand, h histOpts, p pool) ([]Op, string) {
	var ops []Op
	v := 1
	inTxn := false
	emitQ := func() {
		if h.q != nil {
			ops = append(ops, h.q(r, &p))
		}
	}
	mut := func(insP int) {
		x := r.Intn(1000)
		switch {
		case x < h.dpx:
			ops = append(ops, Op{K: "dpx", A: p.pfx(r)})
		case r.Intn(100) < insP:
			k := p.pick(r)
			if r.Intn(30) == 0 {
				k = p.near(r)
			}
			ops = append(ops, Op{K: "ins", A: cat(k), V: v})
			v++
		default:
			k := p.pick(r)
			if r.Intn(1000) < h.absentP {
				k = p.near(r)
			}
			ops = append(ops, Op{K: "del", A: cat(k)})
		}
		if h.queryP > 0 && r.Intn(1000) < h.queryP {
			emitQ()
		}
		if h.txns {
			if !inTxn && r.Intn(12) == 0 {
				ops = append(ops, Op{K: "begin", N: r.Intn(2)})
				inTxn = true
			} else if inTxn && r.Intn(10) == 0 {
				switch r.Intn(5) {
				case 0:
					ops = append(ops, Op{K: "abort"})
				default:
					ops = append(ops, Op{K: "commit", N: r.Intn(4)})
				}
				inTxn = false
			}
		}
	}
	endPhase := func() {
		for i := 0; i < h.endQ; i++ {
			emitQ()
		}
	}
	// phase 1: load. Either in a fixed order or at random.
	switch r.Intn(3) {
	case 0:
		for _, i := range r.Perm(len(p.keys)) {
			ops = append(ops, Op{K: "ins", A: cat(p.keys[i]), V: v})
			v++
			if h.queryP > 0 && r.Intn(1000) < h.queryP {
				emitQ()
			}
		}
	case 1:
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "begin", N: r.Intn(2)})
			inTxn = h.txns
			if !h.txns {
				ops = ops[:len(ops)-1]
			}
		}
		for i := 0; i < len(p.keys)*3/2; i++ {
			mut(90)
		}
	default:
		for i := 0; i < 10+r.Intn(30); i++ {
			mut(70)
		}
	}
	endPhase()
	rounds := 1 + r.Intn(3)
	for i := 0; i < rounds; i++ {
		if r.Intn(2) == 0 {
			for j, n := 0, r.Intn(2*len(p.keys)+10); j < n; j++ {
				mut(50)
			}
			endPhase()
		}
		// shrink: delete in random order, mostly exactly once each
		if r.Intn(4) > 0 {
			stop := r.Intn(len(p.keys) + 1)
			if r.Intn(3) == 0 {
				stop = len(p.keys)
			}
			for _, j := range r.Perm(len(p.keys))[:stop] {
				ops = append(ops, Op{K: "del", A: cat(p.keys[j])})
				if r.Intn(20) == 0 {
					mut(60)
				}
				if h.queryP > 0 && r.Intn(1000) < h.queryP {
					emitQ()
				}
			}
			endPhase()
		}
		if r.Intn(2) == 0 {
			for j, n := 0, r.Intn(len(p.keys)+5); j < n; j++ {
				mut(85)
			}
			endPhase()
		}
		if len(ops) > h.maxOps {
			break
		}
	}
	if inTxn {
		ops = append(ops, Op{K: "commit"})
	}
	endPhase()
	return ops, p.style
}
