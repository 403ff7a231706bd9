package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"weak"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

type payload struct {
	id  int
	pad [6]int
}

type retain struct {
	t    *art.RadixTree[*payload]
	x    *art.Txn[*payload]
	m    map[string]int
	xm   map[string]int
	refs map[int]weak.Pointer[payload]
	st   *Stats
}

//go:noinline
func (w *retain) make(id int) *payload {
	p := &payload{id: id}
	p.pad[0] = ^id
	w.refs[id] = weak.Make(p)
	return p
}

//go:noinline
func (w *retain) apply(o Op) {
	w.st.op(o.K)
	m := w.m
	if w.x != nil {
		m = w.xm
	}
	switch o.K {
	case "ins":
		p := w.make(o.V)
		if w.x != nil {
			w.x.Insert(fresh(o.A), p)
		} else {
			w.t, _, _ = w.t.Insert(fresh(o.A), p)
		}
		m[string(o.A)] = o.V
	case "del":
		if w.x != nil {
			w.x.Delete(fresh(o.A))
		} else {
			w.t, _, _ = w.t.Delete(fresh(o.A))
		}
		delete(m, string(o.A))
	case "dpx":
		if w.x != nil {
			w.x.DeletePrefix(fresh(o.A))
		} else {
			w.t, _ = w.t.DeletePrefix(fresh(o.A))
		}
		for k := range m {
			if len(k) >= len(o.A) && k[:len(o.A)] == string(o.A) {
				delete(m, k)
			}
		}
	case "begin":
		if w.x == nil {
			w.x = w.t.Txn()
			w.x.TrackMutate(o.N&1 == 1)
			w.xm = make(map[string]int, len(w.m))
			for k, v := range w.m {
				w.xm[k] = v
			}
		}
	case "commit":
		if w.x != nil {
			w.t = w.x.Commit()
			w.m, w.x, w.xm = w.xm, nil, nil
		}
	case "abort":
		w.x, w.xm = nil, nil
	case "watch":
		w.t.GetWatch(fresh(o.A))
	case "iter":
		it := w.t.Root().Iterator()
		it.SeekPrefix(fresh(o.A))
		for n := o.N; n > 0; n-- {
			if _, _, ok := it.Next(); !ok {
				break
			}
		}
	}
}

// gc checks which values are alive. Only the current tree (and transaction)
// is referenced at this point.
//
//go:noinline
func (w *retain) gc() error {
	runtime.GC()
	live := map[int]string{}
	for k, v := range w.m {
		live[v] = k
	}
	for k, v := range w.xm {
		live[v] = k
	}
	count := func() (dead int, leaked []int) {
		for id, ref := range w.refs {
			if _, ok := live[id]; ok {
				continue
			}
			if ref.Value() != nil {
				leaked = append(leaked, id)
			} else {
				dead++
			}
		}
		return
	}
	dead, leaked := count()
	// A dead value may survive one collection because of a stale word on some
	// stack; a value the tree references survives every collection.
	for i := 0; i < 4 && len(leaked) > 0; i++ {
		scrub(64)
		runtime.GC()
		dead, leaked = count()
	}
	if len(leaked) > 0 {
		return fmt.Errorf("%d of %d values that were deleted or overwritten are still reachable from a tree of %d keys (e.g. value %d)", len(leaked), len(leaked)+dead, len(w.m), leaked[0])
	}
	w.st.add("values_reclaimed", dead)
	w.st.add("collections", 1)
	w.st.obs(dead > 0)
	for id, ref := range w.refs {
		if _, ok := live[id]; !ok {
			delete(w.refs, id)
		} else if ref.Value() == nil {
			return fmt.Errorf("value %d of key %q was reclaimed while in the tree", id, live[id])
		}
	}
	for k, id := range w.m {
		v, ok := w.t.Get([]byte(k))
		if !ok || v == nil || v.id != id || v.pad[0] != ^id {
			return fmt.Errorf("Get(%q) wrong after collection, want value %d", k, id)
		}
	}
	w.st.add("values_alive", len(w.m))
	return nil
}

//go:noinline
func scrub(n int) int {
	var b [64]int
	b[n%64] = n
	if n == 0 {
		return b[0]
	}
	return scrub(n-1) + b[n%64]
}

func heapNow() uint64 {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

// churn updates, deletes and reinserts for many rounds and then compares the
// memory held by the tree with that of a tree built from the same content.
func churn(o Op, st *Stats) error {
	r := rand.New(rand.NewSource(int64(o.V)))
	p := genPool(r)
	for len(p.keys) < 200 {
		q := genPool(r)
		p.keys = append(p.keys, q.keys...)
	}
	t := art.NewRadixTree[int]()
	m := map[string]int{}
	for round := 0; round < o.N; round++ {
		x := t.Txn()
		x.TrackMutate(round%2 == 0)
		for i := 0; i < len(p.keys); i++ {
			k := p.pick(r)
			if r.Intn(2) == 0 {
				x.Insert(fresh(k), round)
				m[string(k)] = round
			} else {
				x.Delete(fresh(k))
				delete(m, string(k))
			}
			if i%16 == 0 {
				x.GetWatch(fresh(p.near(r)))
			}
		}
		t = x.Commit()
	}
	return compareHeld(t, m, o.N, st, func() { runtime.KeepAlive(p) })
}

// thin fills many wide nodes, then deletes almost everything below them again.
func thin(o Op, st *Stats) error {
	r := rand.New(rand.NewSource(int64(o.V)))
	fans := 60 + r.Intn(60)
	t := art.NewRadixTree[int]()
	m := map[string]int{}
	var groups [][][]byte
	x := t.Txn()
	for i := 0; i < fans; i++ {
		stem := cat([]byte{byte(i), byte(r.Intn(3))}, rndBytes(r, edgeLen(r)))
		var g [][]byte
		for _, b := range distinctBytes(r, []int{40, 60, 140, 256}[r.Intn(4)]) {
			k := cat(stem, []byte{b}, rndBytes(r, r.Intn(2)*r.Intn(12)))
			g = append(g, k)
			x.Insert(fresh(k), i)
			m[string(k)] = i
		}
		if r.Intn(2) == 0 {
			x.Insert(fresh(stem), i)
			m[string(stem)] = i
		}
		groups = append(groups, g)
		if r.Intn(8) == 0 {
			t = x.Commit()
			x = t.Txn()
		}
	}
	mode := r.Intn(3)
	x.TrackMutate(r.Intn(2) == 0)
	for _, g := range groups {
		for _, k := range g[1+r.Intn(5):] {
			switch {
			case mode == 0 || mode == 2 && r.Intn(2) == 0:
				x.Delete(fresh(k))
			default:
				x.DeletePrefix(fresh(k))
			}
			delete(m, string(k))
		}
		if r.Intn(8) == 0 {
			t = x.Commit()
			x = t.Txn()
		}
	}
	t = x.Commit()
	x, groups = nil, nil
	st.add("thinned_nodes", fans)
	return compareHeld(t, m, 1, st, func() {})
}

// nest stores long chains of prefixes, each with keys leaving it on either side,
// and then deletes almost all of them.
func nest(o Op, st *Stats) error {
	r := rand.New(rand.NewSource(int64(o.V)))
	m := map[string]int{}
	x := art.NewRadixTree[int]().Txn()
	x.TrackMutate(r.Intn(2) == 0)
	var keys [][]byte
	put := func(k []byte) {
		x.Insert(fresh(k), len(keys))
		m[string(k)] = len(keys)
		keys = append(keys, k)
	}
	for c, chains := 0, 1+r.Intn(2); c < chains; c++ {
		k := rndBytes(r, 1+r.Intn(3))
		step := 1 + r.Intn(3)
		if r.Intn(4) == 0 {
			step = 12 + r.Intn(4)
		}
		own, side := r.Intn(4), r.Intn(4)
		for i, n := 0, 300+r.Intn(500); i < n; i++ {
			k = cat(k, rndBytes(r, step))
			if own == 0 || r.Intn(own+1) > 0 {
				put(k)
			}
			if side > 0 && r.Intn(side+1) > 0 {
				put(cat(k[:len(k)-1], []byte{k[len(k)-1] ^ byte(1+r.Intn(255))}))
			}
		}
		put(k)
	}
	if r.Intn(2) == 0 {
		x = x.Commit().Txn()
		x.TrackMutate(r.Intn(2) == 0)
	}
	keep := 1 + r.Intn(12)
	order := r.Perm(len(keys))
	if r.Intn(3) == 0 {
		for i := range order {
			order[i] = i
		}
	}
	// the deepest stays, with a few others
	for j, i := range order {
		if i == len(keys)-1 || j%(len(keys)/keep+1) == 0 {
			continue
		}
		x.Delete(fresh(keys[i]))
		delete(m, string(keys[i]))
	}
	st.add("thinned_chains", 1)
	keys = nil
	t := x.Commit()
	x = nil
	return compareHeld(t, m, 1, st, func() {})
}

const heldSlack = 64 << 10

// compareHeld compares the memory held by t, which must not be referenced by
// the caller any more, with that of a tree built from its content.
func compareHeld(t *art.RadixTree[int], m map[string]int, rounds int, st *Stats, keep func()) error {
	for k, v := range m {
		if g, ok := t.Get([]byte(k)); !ok || g != v {
			return fmt.Errorf("Get(%q)=(%d,%v), want %d", k, g, ok, v)
		}
	}
	// the second tree, built directly
	withMap := heapNow()
	x := art.NewRadixTree[int]().Txn()
	for k, v := range m {
		x.Insert([]byte(k), v)
	}
	t2 := x.Commit()
	x = nil
	both := heapNow()
	fresh2 := int64(both) - int64(withMap)
	runtime.KeepAlive(t)
	n := t.Len()
	t = nil
	after := heapNow()
	churned := int64(both) - int64(after)
	runtime.KeepAlive(t2)
	keep()
	runtime.KeepAlive(m)
	st.add("churn_rounds", rounds)
	st.add("churned_tree_bytes", int(churned))
	st.add("rebuilt_tree_bytes", int(fresh2))
	st.obs(true)
	if fresh2 > 0 {
		maxIn(st, "max_held_percent_of_rebuilt", int(100*churned/fresh2))
	}
	if churned > 2*fresh2+heldSlack {
		return fmt.Errorf("after %d rounds of updates a tree of %d keys holds %d bytes; built directly it holds %d", rounds, n, churned, fresh2)
	}
	return nil
}

func init() {
	h := histOpts{txns: true, dpx: 25, queryP: 25, endQ: 1, absentP: 100, maxOps: 500,
		q: func(r *rand.Rand, p *pool) Op {
			switch r.Intn(4) {
			case 0:
				return Op{K: "watch", A: p.near(r)}
			case 1:
				return Op{K: "iter", A: p.pfx(r), N: r.Intn(20)}
			}
			return Op{K: "gc"}
		}}
	props = append(props, &Prop{ID: "C19", Quick: 6000, Thorough: 200000, MinObs: 1, Workers: 1,
		Rule:   fmt.Sprintf(caseRule, "one collection after which values were expected to be gone", "Observed: weak references to every value ever stored, after garbage collection with only the current tree (and open transaction) referenced; in churn, thin and nest cases the memory held by a tree after many rounds of updates, or after almost all keys of wide nodes or long chains were deleted, against that of a tree built directly."),
		Assume: []string{"a value unreachable from live roots is reclaimed within five forced collections"},
		Gen: func(r *rand.Rand) ([]Op, string) {
			if r.Intn(40) == 0 {
				return []Op{{K: "churn", V: int(r.Int31()), N: 20 + r.Intn(60)}}, "churn"
			}
			if r.Intn(60) == 0 {
				return []Op{{K: "nest", V: int(r.Int31())}}, "nest"
			}
			if r.Intn(60) == 0 {
				return []Op{{K: "thin", V: int(r.Int31())}}, "thin"
			}
			return genHistory(r, h)
		},
		Run: func(ops []Op, st *Stats) error {
			w := &retain{t: art.NewRadixTree[*payload](), m: map[string]int{}, refs: map[int]weak.Pointer[payload]{}, st: st}
			for i, o := range ops {
				switch o.K {
				case "churn":
					st.op("churn")
					if err := churn(o, st); err != nil {
						return err
					}
				case "nest":
					st.op("nest")
					if err := nest(o, st); err != nil {
						return err
					}
				case "thin":
					st.op("thin")
					if err := thin(o, st); err != nil {
						return err
					}
				case "gc":
					st.op("gc")
					if err := w.gc(); err != nil {
						return fmt.Errorf("at operation %d: %w", i, err)
					}
				default:
					w.apply(o)
				}
			}
			return w.gc()
		},
		Require: []string{"values_reclaimed", "values_alive", "churn_rounds", "thinned_nodes", "thinned_chains"}})
}
