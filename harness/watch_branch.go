package main

import (
	"fmt"
	"math/rand"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// Branching histories: several transactions are open at once, on any earlier
// tree, and all of them track mutations. A watch taken on a tree is owed a
// notification by every transaction that descends from that tree. A clone of a
// transaction does not inherit what the original tracked, so it starts a line
// of its own.

type btree struct {
	t    *tree
	m    *model
	line map[*btree]bool // this tree and those it descends from
}

type btxn struct {
	x     *txn
	m     *model
	base  *btree          // nil for a clone
	wrote map[string]bool // effective writes since the last commit
}

func newBtxn(x *txn, m *model, base *btree) *btxn {
	x.TrackMutate(true)
	return &btxn{x, m, base, map[string]bool{}}
}

type bwatch struct {
	ch      <-chan struct{}
	prefix  bool
	arg     string
	saw     string
	present bool
	desc    string
	t       *btree // source, or
	x       *btxn
}

type brun struct {
	trees []*btree
	txns  []*btxn
	ws    []*bwatch
	verdicts
	st  *Stats
	seq int
}

func (b *brun) decide(w *bwatch, m *model, when string) (gone bool, err error) {
	if content(m, w.prefix, w.arg) == w.saw {
		return !isOpen(w.ch), nil
	}
	b.st.obs(true)
	b.st.add("branch_notifications_owed", 1)
	if isOpen(w.ch) && (w.prefix && b.pfx || !w.prefix && b.key) {
		return false, fmt.Errorf("%s: channel still open %s, although the content it watches changed from %s to %s", w.desc, when, clip(w.saw), clip(content(m, w.prefix, w.arg)))
	}
	return true, nil
}

func (b *brun) apply(o Op) error {
	b.seq++
	b.st.op(o.K)
	var x *btxn
	if len(b.txns) > 0 {
		x = b.txns[o.N%len(b.txns)]
	}
	switch o.K {
	case "bbegin":
		if len(b.txns) < 4 {
			base := b.trees[len(b.trees)-1-o.N%min(len(b.trees), 6)]
			b.txns = append(b.txns, newBtxn(base.t.Txn(), base.m.clone(), base))
		}
	case "bins":
		if x != nil {
			x.x.Insert(fresh(o.A), o.V)
			x.m.put(o.A, o.V)
			x.wrote[string(o.A)] = true
		}
	case "bdel":
		if x != nil {
			x.x.Delete(fresh(o.A))
			if _, ok := x.m.del(o.A); ok {
				x.wrote[string(o.A)] = true
			}
		}
	case "bdpx":
		if x != nil {
			x.x.DeletePrefix(fresh(o.A))
			for _, e := range x.m.withPrefix(o.A) {
				x.wrote[e.k] = true
			}
			x.m.delPrefix(o.A)
		}
	case "bclone":
		if x != nil && len(b.txns) < 4 {
			b.txns = append(b.txns, newBtxn(x.x.Clone(), x.m.clone(), nil))
			b.st.add("tracked_clones", 1)
		}
	case "bdrop":
		if x != nil {
			b.forget(x)
		}
	case "bcommit":
		if x == nil {
			return nil
		}
		n := &btree{m: x.m.clone(), line: map[*btree]bool{}}
		if x.base != nil {
			for t := range x.base.line {
				n.line[t] = true
			}
		}
		n.line[n] = true
		if o.N&16 == 16 {
			n.t = x.x.CommitOnly()
			x.x.Notify()
		} else {
			n.t = x.x.Commit()
		}
		b.trees = append(b.trees, n)
		b.st.add("branch_commits", 1)
		keep := b.ws[:0]
		var first error
		for _, w := range b.ws {
			gone := false
			if !isOpen(w.ch) {
				gone = true
				if b.early && len(x.wrote) == 0 && first == nil {
					first = fmt.Errorf("%s: channel closed by notifying a transaction that changed nothing", w.desc)
				}
				if b.precise && w.present && !x.wrote[w.arg] && first == nil {
					first = fmt.Errorf("%s: channel of a present key closed by a transaction that did not write it", w.desc)
				}
			} else if b.precise && w.present {
				b.st.obs(true)
				b.st.add("branch_kept_open_checks", 1)
			}
			if w.x == x || w.t != nil && n.line[w.t] {
				var err error
				if gone, err = b.decide(w, n.m, "after notification"); err != nil && first == nil {
					first = err
				}
				if w.x == x {
					w.x, w.t = nil, n
				}
			}
			if !gone {
				keep = append(keep, w)
			}
		}
		b.ws = keep
		if first != nil {
			return first
		}
		if o.N&32 == 32 {
			x.base = n
			x.wrote = map[string]bool{}
		} else {
			b.forget(x)
		}
	case "bwkey", "bwpfx":
		w := &bwatch{prefix: o.K == "bwpfx", arg: string(o.A)}
		var t *tree
		var m *model
		var root anode
		if x != nil && o.N&16 == 16 {
			w.x, m, t, root = x, x.m, x.x.GetTree(), x.x.Root()
			w.desc = "an open transaction"
		} else {
			i := len(b.trees) - 1 - (o.N/32)%len(b.trees)
			w.t = b.trees[i]
			m, t = w.t.m, w.t.t
			w.desc = fmt.Sprintf("tree %d of %d", i, len(b.trees))
			if o.N%5 == 0 {
				t = t.Clone()
				w.desc += ", copied"
			}
			root = t.Root()
		}
		if w.prefix {
			w.ch = root.Iterator().SeekPrefixWatch(fresh(o.A))
		} else {
			w.ch, _, _ = t.GetWatch(fresh(o.A))
			_, w.present = m.m[w.arg]
		}
		w.desc = fmt.Sprintf("%s %q on %s (op %d)", o.K[1:], []byte(o.A), w.desc, b.seq)
		w.saw = content(m, w.prefix, w.arg)
		if w.ch == nil {
			return fmt.Errorf("%s: no channel", w.desc)
		}
		if w.t != nil {
			for _, d := range b.trees {
				if d.line[w.t] {
					if _, err := b.decide(w, d.m, "when handed out"); err != nil {
						return err
					}
				}
			}
		}
		if isOpen(w.ch) && len(b.ws) < 120 {
			b.ws = append(b.ws, w)
		}
	}
	if b.early && o.K != "bcommit" {
		for _, w := range b.ws {
			if !isOpen(w.ch) {
				return fmt.Errorf("%s: channel closed by %q, which notifies nobody", w.desc, o.K)
			}
		}
		b.st.obs(true)
		b.st.add("branch_open_checks", len(b.ws))
	}
	return nil
}

func (b *brun) forget(x *btxn) {
	for i, y := range b.txns {
		if x == y {
			b.txns = append(b.txns[:i:i], b.txns[i+1:]...)
		}
	}
	keep := b.ws[:0]
	for _, w := range b.ws {
		if w.x != x {
			keep = append(keep, w)
		}
	}
	b.ws = keep
}

func branchRun(ops []Op, st *Stats, what verdicts) error {
	b := &brun{st: st, verdicts: what}
	t := &btree{t: art.NewRadixTree[int](), m: newModel(), line: map[*btree]bool{}}
	t.line[t] = true
	b.trees = []*btree{t}
	for i, o := range ops {
		if err := b.apply(o); err != nil {
			return err
		}
		if i == len(ops)/2 {
			b.trees[len(b.trees)-1].m.shapes(st.shapes)
		}
	}
	return nil
}

func genBranchWatch(r *rand.Rand, h watchOpts) ([]Op, string) {
	p := genPool(r)
	if len(p.keys) > 60 {
		r.Shuffle(len(p.keys), func(i, j int) { p.keys[i], p.keys[j] = p.keys[j], p.keys[i] })
		p.keys = p.keys[:60]
	}
	ops := []Op{{K: "branches"}, {K: "bbegin"}}
	v := 1
	for _, j := range r.Perm(len(p.keys))[:r.Intn(len(p.keys)+1)] {
		ops = append(ops, Op{K: "bins", A: cat(p.keys[j]), V: v})
		v++
	}
	ops = append(ops, Op{K: "bcommit"})
	var watched [][]byte
	key := func() []byte {
		if len(watched) > 0 && r.Intn(3) == 0 {
			return cat(watched[r.Intn(len(watched))])
		}
		return p.near(r)
	}
	for budget := len(ops) + 60 + r.Intn(200); len(ops) < budget; {
		n := r.Intn(1 << 12)
		switch x := r.Intn(100); {
		case x < 10:
			ops = append(ops, Op{K: "bbegin", N: n})
		case x < 40:
			ops = append(ops, Op{K: "bins", N: n, A: key(), V: v})
			v++
		case x < 53:
			ops = append(ops, Op{K: "bdel", N: n, A: key()})
		case x < 56:
			ops = append(ops, Op{K: "bdpx", N: n, A: p.pfx(r)})
		case x < 59:
			ops = append(ops, Op{K: "bclone", N: n})
		case x < 60:
			ops = append(ops, Op{K: "bdrop", N: n})
		case x < 70:
			ops = append(ops, Op{K: "bcommit", N: n})
		case r.Intn(h.keyW+h.pfxW) < h.pfxW:
			ops = append(ops, Op{K: "bwpfx", N: n, A: p.pfx(r)})
		default:
			ops = append(ops, Op{K: "bwkey", N: n, A: p.near(r)})
			watched = append(watched, ops[len(ops)-1].A)
		}
	}
	return ops, "branches over " + p.style
}
