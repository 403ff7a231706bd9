package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// crew runs goroutines, collects the first error, and turns panics into errors.
type crew struct {
	wg    sync.WaitGroup
	mu    sync.Mutex
	err   error
	stopF atomic.Bool
	stats []*Stats
}

func (c *crew) fail(err error) {
	c.mu.Lock()
	if c.err == nil {
		c.err = err
	}
	c.mu.Unlock()
	c.stopF.Store(true)
}

func (c *crew) goRun(name string, f func(st *Stats) error) {
	st := newStats()
	c.stats = append(c.stats, st)
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		defer func() {
			if e := recover(); e != nil {
				var keep []string
				for _, l := range strings.Split(string(debug.Stack()), "\n") {
					if strings.Contains(l, "/repo/") {
						keep = append(keep, strings.TrimSpace(l))
					}
				}
				if len(keep) > 8 {
					keep = keep[:8]
				}
				c.fail(fmt.Errorf("%s: panic: %v [%s]", name, e, strings.Join(keep, " | ")))
			}
		}()
		if err := f(st); err != nil {
			c.fail(fmt.Errorf("%s: %w", name, err))
		}
	}()
}

func (c *crew) wait(st *Stats) error {
	c.wg.Wait()
	for _, s := range c.stats {
		st.merge(s)
	}
	return c.err
}

type pub struct {
	t   *tree
	m   *model // frozen
	ver int
}

func freeze(m *model) *model {
	c := m.clone()
	c.all()
	return c
}

func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }

func smallPool(r *rand.Rand, n int) pool {
	p := genPool(r)
	if len(p.keys) > n {
		r.Shuffle(len(p.keys), func(i, j int) { p.keys[i], p.keys[j] = p.keys[j], p.keys[i] })
		p.keys = p.keys[:n]
	}
	return p
}

func loadTree(r *rand.Rand, p *pool) (*tree, *model) {
	t := art.NewRadixTree[int]()
	x := t.Txn()
	m := newModel()
	for _, j := range r.Perm(len(p.keys))[:len(p.keys)-r.Intn(len(p.keys)/2+1)] {
		x.Insert(fresh(p.keys[j]), 1000000+j)
		m.put(p.keys[j], 1000000+j)
	}
	m.all()
	return x.Commit(), m
}

// readSome checks a few random read operations on a published tree.
func readSome(r *rand.Rand, p *pool, t *tree, m *model, st *Stats) error {
	if t.Len() != len(m.m) {
		return fmt.Errorf("Len()=%d, want %d", t.Len(), len(m.m))
	}
	st.obs(true)
	for i := 0; i < 6; i++ {
		k := p.near(r)
		v, ok := t.Get(k)
		mv, mok := m.m[string(k)]
		if v != mv || ok != mok {
			return fmt.Errorf("Get(%q)=(%d,%v), want (%d,%v)", k, v, ok, mv, mok)
		}
	}
	switch r.Intn(12) {
	case 7:
		it := t.Root().ReverseIterator()
		return drain("ReverseIterator", it.Previous, reversed(m.all()), st)
	case 8:
		k := p.pfx(r)
		it := t.Root().ReverseIterator()
		it.SeekPrefixWatch(fresh(k))
		return drain(fmt.Sprintf("reverse SeekPrefix(%q)", k), it.Previous, reversed(m.withPrefix(k)), st)
	case 9:
		a := m.all()
		for j, leaf := range []*art.NodeLeaf[int]{t.Minimum(), t.Maximum()} {
			if leaf == nil || len(a) == 0 {
				if leaf != nil || len(a) > 0 {
					return fmt.Errorf("Minimum or Maximum of %d keys: nil is %v", len(a), leaf == nil)
				}
				continue
			}
			e := a[j*(len(a)-1)]
			it := leaf.Iterator()
			if err := drain("Minimum or Maximum", it.Next, []kv{e}, st); err != nil {
				return err
			}
		}
	case 10:
		// a snapshot, watched and read
		c := t.Clone()
		k := p.near(r)
		_, v, ok := c.GetWatch(fresh(k))
		mv, mok := m.m[string(k)]
		if v != mv || ok != mok {
			return fmt.Errorf("snapshot: GetWatch(%q)=(%d,%v), want (%d,%v)", k, v, ok, mv, mok)
		}
		it := c.Root().Iterator()
		return drain("Iterator on a snapshot", it.Next, m.all(), st)
	case 11:
		// a transaction that is only read from
		x := t.Txn()
		x.TrackMutate(r.Intn(2) == 0)
		k := p.near(r)
		_, v, ok := x.GetWatch(fresh(k))
		mv, mok := m.m[string(k)]
		if v != mv || ok != mok {
			return fmt.Errorf("transaction: GetWatch(%q)=(%d,%v), want (%d,%v)", k, v, ok, mv, mok)
		}
		x.Delete(fresh(append(k, 0xfd, 0xfc, 0xfb, byte(r.Intn(256)))))
		x.Notify()
	case 0:
		it := t.Root().Iterator()
		it.SeekPrefix(nil)
		return drain("Iterator", it.Next, m.all(), st)
	case 1:
		k := p.near(r)
		it := t.Root().LowerBoundIterator()
		it.SeekLowerBound(fresh(k))
		return drain(fmt.Sprintf("SeekLowerBound(%q)", k), it.Next, m.lower(k), st)
	case 2:
		k := p.near(r)
		it := t.Root().ReverseIterator()
		it.SeekReverseLowerBound(fresh(k))
		return drain(fmt.Sprintf("SeekReverseLowerBound(%q)", k), it.Previous, m.revLower(k), st)
	case 3:
		k := p.pfx(r)
		it := t.Root().Iterator()
		it.SeekPrefixWatch(fresh(k))
		return drain(fmt.Sprintf("SeekPrefix(%q)", k), it.Next, m.withPrefix(k), st)
	case 4:
		k := p.near(r)
		e, mok := m.longestPrefix(k)
		g, v, ok := t.LongestPrefix(fresh(k))
		if ok != mok || !bytes.Equal(g, []byte(e.k)) || v != e.v {
			return fmt.Errorf("LongestPrefix(%q)=(%q,%d,%v), want (%q,%d,%v)", k, g, v, ok, e.k, e.v, mok)
		}
	case 5:
		k := p.near(r)
		it := t.GetPathIterator(fresh(k))
		return drain(fmt.Sprintf("PathIterator(%q)", k), it.Next, m.pathTo(k), st)
	case 6:
		n := 0
		t.Walk(func(k []byte, v int) bool { n++; return false })
		if n != len(m.m) {
			return fmt.Errorf("Walk visited %d of %d entries", n, len(m.m))
		}
		t.DFS(func(n anode) {})
	}
	return nil
}

func writeSome(r *rand.Rand, p *pool, x *txn, m *model, v *int, n int) {
	for ; n > 0; n-- {
		k := cat(p.pick(r))
		if r.Intn(6) == 0 {
			k = p.near(r)
		}
		switch y := r.Intn(20); {
		case y == 0:
			k = p.pfx(r)
			x.DeletePrefix(fresh(k))
			m.delPrefix(k)
		case y < 9:
			x.Delete(fresh(k))
			m.del(k)
		default:
			*v++
			x.Insert(fresh(k), *v)
			m.put(k, *v)
		}
	}
}

// scenario A: one writer publishes versions, readers read them, watchers wait
// for changes.
func concPublish(r *rand.Rand, st *Stats) error {
	p := smallPool(r, 80)
	t, m := loadTree(r, &p)
	var cur atomic.Pointer[pub]
	cur.Store(&pub{t, freeze(m), 0})
	c := &crew{}
	done := make(chan struct{})
	commits := 10 + r.Intn(30)
	wr := sub(r)
	c.goRun("writer", func(st *Stats) error {
		defer close(done)
		v := 0
		for i := 1; i <= commits && !c.stopF.Load(); i++ {
			p0 := cur.Load()
			x := p0.t.Txn()
			x.TrackMutate(true)
			mm := p0.m.clone()
			writeSome(wr, &p, x, mm, &v, 1+wr.Intn(12))
			if wr.Intn(8) == 0 {
				st.add("abandoned", 1)
				continue
			}
			nt := x.CommitOnly()
			cur.Store(&pub{nt, freeze(mm), i})
			if wr.Intn(2) == 0 {
				runtime.Gosched()
			}
			x.Notify()
			st.add("published", 1)
			for j := wr.Intn(4); j > 0; j-- {
				runtime.Gosched()
			}
		}
		return nil
	})
	for i := 0; i < 3; i++ {
		rr := sub(r)
		c.goRun("reader", func(st *Stats) error {
			last := -1
			for n := 0; !c.stopF.Load(); n++ {
				q := cur.Load()
				if q.ver < last {
					return fmt.Errorf("published version went from %d to %d", last, q.ver)
				}
				last = q.ver
				if err := readSome(rr, &p, q.t, q.m, st); err != nil {
					return fmt.Errorf("version %d: %w", q.ver, err)
				}
				st.add("concurrent_reads", 1)
				select {
				case <-done:
					if n > 10 {
						return nil
					}
				default:
				}
			}
			return nil
		})
	}
	for i := 0; i < 3; i++ {
		rr := sub(r)
		c.goRun("watcher", func(st *Stats) error {
			for !c.stopF.Load() {
				q := cur.Load()
				var ch <-chan struct{}
				prefix := rr.Intn(3) == 0
				var k []byte
				if prefix {
					k = p.pfx(rr)
					ch = q.t.Root().Iterator().SeekPrefixWatch(fresh(k))
				} else {
					k = p.near(rr)
					ch, _, _ = q.t.GetWatch(fresh(k))
				}
				saw := content(q.m, prefix, string(k))
				final := false
				select {
				case <-ch:
				case <-done:
					final = true
				}
				n := cur.Load()
				now := content(n.m, prefix, string(k))
				if final {
					if now != saw && isOpen(ch) {
						return fmt.Errorf("watch of %q (prefix %v) taken on version %d still open at version %d although the content changed from %s to %s", k, prefix, q.ver, n.ver, clip(saw), clip(now))
					}
					st.obs(true)
					return nil
				}
				st.obs(true)
				st.add("wakeups", 1)
				if n.ver <= q.ver {
					return fmt.Errorf("watch of %q taken on version %d fired, but the published version is %d", k, q.ver, n.ver)
				}
				if !prefix && saw != "absent" && now == saw {
					return fmt.Errorf("watch of present key %q taken on version %d fired, but version %d has the same value", k, q.ver, n.ver)
				}
			}
			return nil
		})
	}
	return c.wait(st)
}

// scenario B: many goroutines ask a fresh tree for the same watch at once,
// while a writer changes the key.
func concSameChannel(r *rand.Rand, st *Stats) error {
	p := smallPool(r, 60)
	for round := 0; round < 6; round++ {
		t, m := loadTree(r, &p)
		var k []byte
		for i := 0; i < 8; i++ {
			k = p.near(r)
			if _, ok := m.m[string(k)]; ok == (round%2 == 0) {
				break
			}
		}
		prefix := round%3 == 2
		const n = 6
		chs := make([]<-chan struct{}, n)
		c := &crew{}
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			i := i
			rr := sub(r)
			c.goRun("watcher", func(st *Stats) error {
				<-start
				for j := rr.Intn(3); j > 0; j-- {
					runtime.Gosched()
				}
				if prefix {
					chs[i] = t.Root().Iterator().SeekPrefixWatch(fresh(k))
				} else {
					chs[i], _, _ = t.GetWatch(fresh(k))
				}
				return readSome(rr, &p, t, m, st)
			})
		}
		rr := sub(r)
		c.goRun("writer", func(st *Stats) error {
			<-start
			for j := rr.Intn(3); j > 0; j-- {
				runtime.Gosched()
			}
			x := t.Txn()
			x.TrackMutate(true)
			mm := m.clone()
			v := 0
			writeSome(rr, &p, x, mm, &v, 1+rr.Intn(6))
			x.Insert(fresh(k), -7)
			mm.put(k, -7)
			nt := x.Commit()
			return readSome(rr, &p, nt, mm, st)
		})
		close(start)
		if err := c.wait(st); err != nil {
			return err
		}
		for i := range chs {
			if chs[i] == nil {
				return fmt.Errorf("no channel for %q", k)
			}
			if chs[i] != chs[0] {
				return fmt.Errorf("two readers of one tree got different channels for %q (prefix %v)", k, prefix)
			}
			if isOpen(chs[i]) {
				return fmt.Errorf("channel for %q (prefix %v) still open after a concurrent transaction changed the key", k, prefix)
			}
		}
		st.obs(true)
		st.add("simultaneous_watches", 1)
	}
	return nil
}

// scenario C: independent branches and cloned transactions from one tree.
func concBranches(r *rand.Rand, st *Stats) error {
	p := smallPool(r, 80)
	t, m := loadTree(r, &p)
	base := t.Txn()
	base.TrackMutate(r.Intn(2) == 0)
	bm := m.clone()
	v0 := 0
	writeSome(r, &p, base, bm, &v0, 10)
	c := &crew{}
	start := make(chan struct{})
	var results [6]*pub
	for i := 0; i < 6; i++ {
		i := i
		rr := sub(r)
		var x *txn
		var mm *model
		mode := r.Intn(3)
		track := r.Intn(3) > 0
		switch mode {
		case 0:
			x, mm = base.Clone(), bm.clone()
		case 1:
			x, mm = t.Txn(), m.clone()
		default:
			mm = m.clone()
		}
		c.goRun(fmt.Sprintf("branch (mode %d, tracking %v)", mode, track), func(st *Stats) error {
			<-start
			if x == nil {
				x = t.Txn()
			}
			x.TrackMutate(track)
			v := (i + 1) * 1000
			tt := t
			for j := 0; j < 3; j++ {
				writeSome(rr, &p, x, mm, &v, 1+rr.Intn(10))
				tt = x.Commit()
				if err := observe("committed branch", tt, tt.Root(), mm, j, 0, st); err != nil {
					return err
				}
				st.add("branch_commits", 1)
				if rr.Intn(2) == 0 {
					k := p.near(rr)
					v++
					tt, _, _ = tt.Insert(fresh(k), v)
					mm.put(k, v)
					x = tt.Txn()
					x.TrackMutate(track)
				}
				if err := readSome(rr, &p, t, m, st); err != nil {
					return fmt.Errorf("shared base: %w", err)
				}
			}
			results[i] = &pub{tt, mm, 0}
			return nil
		})
	}
	rr := sub(r)
	c.goRun("owner of the cloned transaction", func(st *Stats) error {
		<-start
		v := 500000
		writeSome(rr, &p, base, bm, &v, 20)
		nt := base.Commit()
		return observe("owner", nt, nt.Root(), bm, 0, 2, st)
	})
	close(start)
	if err := c.wait(st); err != nil {
		return err
	}
	for i, q := range results {
		if q != nil {
			if err := observe(fmt.Sprintf("branch %d after all others finished", i), q.t, q.t.Root(), q.m, 0, 2, st); err != nil {
				return err
			}
		}
	}
	return observe("shared base after all branches", t, t.Root(), m, 0, 2, st)
}

// scenario D: transactions of several goroutines notify the same channels at
// the same time.
func concNotify(r *rand.Rand, st *Stats) error {
	p := smallPool(r, 20)
	t, m := loadTree(r, &p)
	k := cat(p.pick(r))
	ch, _, _ := t.GetWatch(fresh(k))
	c := &crew{}
	const n = 8
	var ready atomic.Int32
	for i := 0; i < n; i++ {
		i := i
		c.goRun("committer", func(st *Stats) error {
			x := t.Txn()
			x.TrackMutate(true)
			mm := m.clone()
			x.Insert(fresh(k), i)
			mm.put(k, i)
			ready.Add(1)
			for spin := 0; ready.Load() < n; spin++ {
				if spin > 1000 {
					runtime.Gosched()
				}
			}
			nt := x.Commit()
			return observe("committed", nt, nt.Root(), mm, 0, 0, st)
		})
	}
	if err := c.wait(st); err != nil {
		return err
	}
	if isOpen(ch) {
		return fmt.Errorf("watch of %q open after %d transactions changed it", k, n)
	}
	st.obs(true)
	st.add("simultaneous_notifications", 1)
	return nil
}

func init() {
	props = append(props, &Prop{ID: "C16", Quick: 12000, Thorough: 200000, MinObs: 1, Workers: 3, NoShrink: true,
		Rule:   "An evaluation is one concurrent execution (six to eight goroutines, seeded operations, schedule left to the runtime) of one of four scenarios, in a binary built with the race detector: a publishing writer with readers and watchers; simultaneous watches of one key with a writer; independent branches and cloned transactions from one tree; simultaneous notifications of one channel. It is non-trivial if at least one read or channel was compared; executions with the same seed count once. A race report ends the run as a violation.",
		Assume: []string{"schedules are those the Go runtime produces on this machine; the race detector generalises each over its happens-before order"},
		Gen: func(r *rand.Rand) ([]Op, string) {
			s := []string{"publish", "samechannel", "branches", "notify"}[r.Intn(4)]
			return []Op{{K: s, V: int(r.Int31())}}, s
		},
		Run: func(ops []Op, st *Stats) error {
			for _, o := range ops {
				st.op(o.K)
				r := rand.New(rand.NewSource(int64(o.V)))
				var err error
				switch o.K {
				case "publish":
					err = concPublish(r, st)
				case "samechannel":
					err = concSameChannel(r, st)
				case "branches":
					err = concBranches(r, st)
				case "notify":
					for i := 0; i < 10 && err == nil; i++ {
						err = concNotify(r, st)
					}
				}
				if err != nil {
					return err
				}
			}
			return nil
		},
		Require: []string{"wakeups", "published", "concurrent_reads", "simultaneous_watches", "branch_commits", "simultaneous_notifications", "abandoned"}})
}
