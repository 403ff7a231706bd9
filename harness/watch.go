package main

import (
	"fmt"
	"math/rand"
	"strings"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

// watcher is one channel handed out by the library and what the caller saw
// when it got it.
type watcher struct {
	ch      <-chan struct{}
	prefix  bool
	arg     string
	present bool
	saw     string // content seen
	desc    string
	lost    bool // an untracked change intervened: no notification is owed
	written bool // the key has been written since
	closed  bool
	ver     int
	x       *wtxn // taken inside this open transaction
	seq     int
}

type wtxn struct {
	x       *txn
	m       *model
	tracked bool
	changed bool           // at least one effective write
	writes  map[string]int // key -> operation number of the last write
	ver     int
	gaveUp  bool // tracking was turned off on the way
	late    bool // tracking was turned on on the way
}

type wtree struct {
	t   *tree
	m   *model
	ver int
}

// wrun runs a linear history of transactions with watches.
type wrun struct {
	cur  wtree
	old  []wtree // earlier trees of the unbroken tracked history
	noti *model  // committed and notified content
	x    *wtxn
	pend *wtxn // committed, not yet notified
	ver  int
	seq  int
	ws   []*watcher
	st   *Stats
	verdicts
}

// verdicts are the decisions of a run.
type verdicts struct {
	key     bool // completeness of key watches
	pfx     bool // completeness of prefix watches
	early   bool // nothing fires outside notification
	precise bool // present keys' watches fire only when written
}

func isOpen(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return false
	default:
		return true
	}
}

func content(m *model, prefix bool, arg string) string {
	if !prefix {
		if v, ok := m.m[arg]; ok {
			return fmt.Sprint("=", v)
		}
		return "absent"
	}
	var sb strings.Builder
	for _, e := range m.all() {
		if strings.HasPrefix(e.k, arg) {
			fmt.Fprintf(&sb, "%q=%d,", e.k, e.v)
		}
	}
	return sb.String()
}

func newWrun(st *Stats) *wrun {
	w := &wrun{st: st}
	w.cur = wtree{art.NewRadixTree[int](), newModel(), 0}
	w.noti = w.cur.m
	return w
}

func (w *wrun) owed(wt *watcher) bool {
	return (wt.prefix && w.pfx) || (!wt.prefix && w.key)
}

// mustBeClosed checks the completeness obligation of one watcher against the
// notified content.
func (w *wrun) mustBeClosed(wt *watcher, when string) error {
	if wt.lost || wt.x != nil {
		return nil
	}
	now := content(w.noti, wt.prefix, wt.arg)
	if now == wt.saw {
		return nil
	}
	if w.owed(wt) {
		w.st.add("notifications_owed", 1)
	}
	w.st.obs(true)
	if wt.closed || !isOpen(wt.ch) {
		wt.closed = true
		return nil
	}
	if w.owed(wt) {
		return fmt.Errorf("%s: channel still open %s, although the content it watches changed from %s to %s", wt.desc, when, clip(wt.saw), clip(now))
	}
	wt.lost = true
	return nil
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// stillOpen checks that nothing fired outside a notification.
func (w *wrun) stillOpen(o Op) error {
	if !w.early {
		return nil
	}
	for _, wt := range w.ws {
		if !wt.closed && !isOpen(wt.ch) {
			return fmt.Errorf("%s: channel closed by %q, which notifies nobody", wt.desc, o.K)
		}
	}
	w.st.add("open_checks", len(w.ws))
	return nil
}

// notified is called after the notification of x.
func (w *wrun) notified(x *wtxn) error {
	w.noti = x.m
	w.st.add("notified_commits", 1)
	keep := w.ws[:0]
	var err error
	for _, wt := range w.ws {
		// has the key been written since?
		wasClosed := wt.closed
		if wt.x == x {
			wt.x = nil
			wt.ver = x.ver
			if s, ok := x.writes[wt.arg]; ok && s > wt.seq {
				wt.written = true
			}
		} else if wt.x == nil && x.ver > wt.ver {
			if _, ok := x.writes[wt.arg]; ok {
				wt.written = true
			}
		}
		if !wasClosed && !isOpen(wt.ch) {
			wt.closed = true
			if w.early && !(x.tracked && x.changed) && err == nil {
				err = fmt.Errorf("%s: channel closed by notifying a transaction that %s", wt.desc, map[bool]string{true: "changed nothing", false: "does not track mutations"}[x.tracked])
			}
			if w.precise && !wt.prefix && wt.present && !wt.written && err == nil {
				err = fmt.Errorf("%s: channel of a present key closed although the key was not written", wt.desc)
			}
		} else if w.precise && !wt.closed && !wt.prefix && wt.present && !wt.written {
			w.st.obs(true)
			w.st.add("kept_open_checks", 1)
		}
		if !x.tracked && x.changed {
			wt.lost = true
		}
		if e := w.mustBeClosed(wt, "after notification"); e != nil && err == nil {
			err = e
		}
		if !wt.closed {
			keep = append(keep, wt)
		} else {
			w.st.add("fired", 1)
		}
	}
	w.ws = keep
	return err
}

func (w *wrun) flushPending() error {
	if w.pend == nil {
		return nil
	}
	p := w.pend
	w.pend = nil
	p.x.Notify()
	return w.notified(p)
}

func (w *wrun) advance(t *tree, x *wtxn) {
	w.ver++
	x.ver = w.ver
	if !x.tracked && x.changed || x.late {
		w.old = nil
	} else {
		w.old = append(w.old, w.cur)
		if len(w.old) > 5 {
			w.old = w.old[1:]
		}
	}
	w.cur = wtree{t, x.m, w.ver}
	w.cur.m.all()
}

func (x *wtxn) wrote(k string, seq int) {
	x.writes[k] = seq
	x.changed = true
}

func (x *wtxn) put(k []byte, v, seq int) {
	x.m.put(k, v)
	x.wrote(string(k), seq)
}

func (x *wtxn) del(k []byte, seq int) {
	if _, ok := x.m.del(k); ok {
		x.wrote(string(k), seq)
	}
}

func (x *wtxn) delPrefix(p []byte, seq int) {
	for _, e := range x.m.withPrefix(p) {
		x.wrote(e.k, seq)
	}
	x.m.delPrefix(p)
}

func (w *wrun) apply(o Op) error {
	w.seq++
	w.st.op(o.K)
	switch o.K {
	case "tins", "tdel", "tdpx":
		// an untracked update of the current tree
		if w.x != nil {
			return nil
		}
		if err := w.flushPending(); err != nil {
			return err
		}
		x := &wtxn{m: w.cur.m.clone(), writes: map[string]int{}}
		var t *tree
		switch o.K {
		case "tins":
			t, _, _ = w.cur.t.Insert(fresh(o.A), o.V)
			x.put(o.A, o.V, w.seq)
		case "tdel":
			t, _, _ = w.cur.t.Delete(fresh(o.A))
			x.del(o.A, w.seq)
		case "tdpx":
			t, _ = w.cur.t.DeletePrefix(fresh(o.A))
			x.delPrefix(o.A, w.seq)
		}
		w.advance(t, x)
		return w.notified(x)
	case "begin":
		if w.x == nil {
			w.x = &wtxn{x: w.cur.t.Txn(), m: w.cur.m.clone(), tracked: o.N&1 == 1, writes: map[string]int{}}
			w.x.x.TrackMutate(w.x.tracked)
		} else if len(w.x.writes) == 0 && !w.x.gaveUp {
			w.x.tracked = o.N&1 == 1
			w.x.x.TrackMutate(w.x.tracked)
		}
	case "track":
		// start tracking: what was written so far is not notified,
		// nor what it restructured
		if w.x != nil && !w.x.tracked && !w.x.gaveUp {
			w.x.tracked = true
			w.x.late = w.x.changed
			w.x.x.TrackMutate(true)
			for _, wt := range w.ws {
				wt.lost = wt.lost || w.x.changed
			}
			w.st.add("tracking_started_late", 1)
		}
	case "ins":
		if w.x != nil {
			w.x.x.Insert(fresh(o.A), o.V)
			w.x.put(o.A, o.V, w.seq)
		}
	case "bulk":
		// a large batch of writes below a prefix
		if w.x != nil {
			for i := 0; i < o.N; i++ {
				k := []byte(fmt.Sprintf("%s%05d", []byte(o.A), i*7919%100000))
				w.x.x.Insert(k, o.V+i)
				w.x.put(fresh(k), o.V+i, w.seq)
			}
			w.st.add("bulk_transactions", 1)
		}
	case "del":
		if w.x != nil {
			w.x.x.Delete(fresh(o.A))
			w.x.del(o.A, w.seq)
		}
	case "dpx":
		if w.x != nil {
			w.x.x.DeletePrefix(fresh(o.A))
			w.x.delPrefix(o.A, w.seq)
		}
	case "untrack":
		// give up tracking: nothing this transaction did is notified
		if w.x != nil && w.x.tracked {
			w.x.tracked = false
			w.x.gaveUp = true
			w.x.x.TrackMutate(false)
		}
	case "clone":
		// an independent clone writes and is thrown away
		if w.x != nil {
			c := w.x.x.Clone()
			if o.N&1 == 1 {
				c.TrackMutate(true)
			}
			c.Insert(fresh(o.A), -1)
			if o.N&2 == 2 {
				c.DeletePrefix(fresh(o.A[:len(o.A)/2]))
			}
			if o.N&4 == 4 {
				c.CommitOnly()
			}
			w.st.add("clones_abandoned", 1)
		}
	case "abort":
		if w.x != nil {
			keep := w.ws[:0]
			if err := w.stillOpen(o); err != nil {
				return err
			}
			for _, wt := range w.ws {
				if wt.x != w.x {
					keep = append(keep, wt)
				}
			}
			w.ws = keep
			w.x = nil
			w.st.add("abandoned", 1)
		}
	case "commit":
		if w.x == nil {
			return nil
		}
		if err := w.flushPending(); err != nil {
			return err
		}
		x := w.x
		w.x = nil
		switch o.N % 4 {
		case 0, 1:
			t := x.x.Commit()
			w.advance(t, x)
			return w.after(o, x)
		case 2:
			t := x.x.CommitOnly()
			w.advance(t, x)
			if err := w.stillOpen(o); err != nil {
				return err
			}
			x.x.Notify()
			return w.after(o, x)
		default:
			// notification is delayed, other transactions may begin
			t := x.x.CommitOnly()
			w.advance(t, x)
			w.pend = x
			w.st.add("delayed_notifications", 1)
		}
	case "vast":
		w.st.add("vast_transactions", 1)
	case "notify":
		return w.flushPending()
	case "wkey", "wpfx":
		wt, err := w.take(o)
		if err != nil {
			return err
		}
		if len(w.ws) < 160 {
			w.ws = append(w.ws, wt)
		} else {
			w.ws[o.N%len(w.ws)] = wt
		}
		return nil
	}
	return w.stillOpen(o)
}

// after decides what a notified commit owes, and then what the transaction does
// if it is used further.
func (w *wrun) after(o Op, x *wtxn) error {
	if err := w.notified(x); err != nil {
		return err
	}
	if o.N&4 == 4 {
		// a second notification has nothing to tell
		x.x.Notify()
		if err := w.stillOpen(o); err != nil {
			return err
		}
		w.st.add("repeated_notifications", 1)
	}
	if o.N&8 == 8 && !x.gaveUp {
		// the transaction goes on from what it committed
		w.x = &wtxn{x: x.x, m: w.cur.m.clone(), tracked: x.tracked, writes: map[string]int{}}
		w.st.add("transactions_reused", 1)
	}
	return nil
}

func (w *wrun) take(o Op) (*watcher, error) {
	wt := &watcher{prefix: o.K == "wpfx", arg: string(o.A), ver: w.cur.ver, seq: w.seq}
	src := w.cur
	where := "the current tree"
	isOld := false
	var root anode
	switch fl := o.N % 8; {
	case fl < 3 && w.x != nil:
		src = wtree{w.x.x.GetTree(), w.x.m, 0}
		root = w.x.x.Root()
		where = "the open transaction"
		wt.x = w.x
	case fl == 3 && len(w.old) > 0:
		i := (o.N / 8) % len(w.old)
		src = w.old[i]
		wt.ver = src.ver
		where = fmt.Sprintf("the tree %d commits ago", len(w.old)-i)
		isOld = true
	}
	if wt.x == nil && w.x != nil && w.x.late {
		wt.lost = true
	}
	if wt.x == nil && o.N%5 == 0 {
		src.t = src.t.Clone()
		where += ", copied"
		w.st.add("watches_on_copies", 1)
	}
	if root == nil {
		root = src.t.Root()
	}
	if wt.prefix {
		if (o.N/8)%3 == 0 {
			wt.ch = root.ReverseIterator().SeekPrefixWatch(fresh(o.A))
			wt.desc = fmt.Sprintf("reverse prefix watch %q on %s", []byte(o.A), where)
		} else {
			wt.ch = root.Iterator().SeekPrefixWatch(fresh(o.A))
			wt.desc = fmt.Sprintf("prefix watch %q on %s", []byte(o.A), where)
		}
	} else {
		if wt.x != nil {
			wt.ch, _, _ = w.x.x.GetWatch(fresh(o.A))
		} else {
			wt.ch, _, _ = src.t.GetWatch(fresh(o.A))
		}
		_, wt.present = src.m.m[wt.arg]
		wt.desc = fmt.Sprintf("watch of %s key %q on %s", map[bool]string{true: "present", false: "absent"}[wt.present], []byte(o.A), where)
	}
	wt.desc += fmt.Sprintf(" (op %d)", w.seq)
	wt.saw = content(src.m, wt.prefix, wt.arg)
	w.st.add("watches_"+map[bool]string{true: "old_tree", false: strings.ReplaceAll(strings.TrimSuffix(strings.TrimPrefix(where, "the "), ", copied"), " ", "_")}[isOld], 1)
	if wt.ch == nil {
		if w.early || w.owed(wt) {
			return nil, fmt.Errorf("%s: no channel", wt.desc)
		}
		wt.closed = true
		return wt, nil
	}
	open := isOpen(wt.ch)
	if !open {
		wt.closed = true
	}
	if !isOld {
		w.st.obs(true)
		if w.early && !open {
			return nil, fmt.Errorf("%s: channel is closed when handed out", wt.desc)
		}
		if w.precise && !open && wt.present {
			return nil, fmt.Errorf("%s: channel of a present key is closed when handed out", wt.desc)
		}
	} else {
		if !open && w.precise && wt.present {
			// allowed only if the key has been written by a later commit
			if content(w.cur.m, false, wt.arg) == wt.saw {
				return nil, fmt.Errorf("%s: channel closed although the key has not been written since", wt.desc)
			}
		}
		if w.pend == nil {
			if err := w.mustBeClosed(wt, "when handed out"); err != nil {
				return nil, err
			}
		}
		// writes by commits after that tree count as writes since
		if content(w.cur.m, false, wt.arg) != wt.saw {
			wt.written = true
		}
	}
	return wt, nil
}

func watchRun(setup func(w *wrun)) func(ops []Op, st *Stats) error {
	return func(ops []Op, st *Stats) error {
		w := newWrun(st)
		setup(w)
		if len(ops) > 0 && ops[0].K == "branches" {
			return branchRun(ops, st, w.verdicts)
		}
		for i, o := range ops {
			if err := w.apply(o); err != nil {
				return err
			}
			if i == len(ops)/2 {
				w.cur.m.shapes(st.shapes)
			}
		}
		return w.flushPending()
	}
}

type watchOpts struct {
	keyW, pfxW int // relative frequency of watches
	untracked  bool
	bulk       int // one in so many cases has a huge transaction
}

func genWatch(r *rand.Rand, h watchOpts) ([]Op, string) {
	if h.bulk > 0 && r.Intn(h.bulk*8) == 0 {
		return genVastWatch(r, h)
	}
	if r.Intn(6) == 0 {
		return genBranchWatch(r, h)
	}
	p := genPool(r)
	if len(p.keys) > 150 && r.Intn(5) > 0 {
		r.Shuffle(len(p.keys), func(i, j int) { p.keys[i], p.keys[j] = p.keys[j], p.keys[i] })
		p.keys = p.keys[:150]
	}
	var ops []Op
	v := 1
	var watched [][]byte
	wr := func(insP int) {
		k := cat(p.pick(r))
		switch x := r.Intn(20); {
		case x < 5 && len(watched) > 0:
			k = cat(watched[r.Intn(len(watched))])
		case x < 7 && len(watched) > 0:
			k = cat(watched[r.Intn(len(watched))], rndBytes(r, 1+r.Intn(2)))
		case x < 8:
			k = p.near(r)
		}
		switch x := r.Intn(100); {
		case x < 3:
			ops = append(ops, Op{K: "dpx", A: p.pfx(r)})
		case x < 3+insP*97/100:
			ops = append(ops, Op{K: "ins", A: k, V: v})
			v++
		default:
			ops = append(ops, Op{K: "del", A: k})
		}
	}
	watch := func() {
		o := Op{K: "wkey", N: r.Intn(800)}
		if r.Intn(h.keyW+h.pfxW) < h.pfxW {
			o.K = "wpfx"
			o.A = p.pfx(r)
		} else {
			o.A = p.near(r)
		}
		if len(watched) < 60 {
			watched = append(watched, o.A)
		} else {
			watched[r.Intn(len(watched))] = o.A
		}
		ops = append(ops, o)
	}
	track := func() int {
		if h.untracked && r.Intn(3) == 0 {
			return 0
		}
		return 1
	}
	// load, sometimes
	if r.Intn(5) > 0 {
		ops = append(ops, Op{K: "begin", N: track()})
		for _, j := range r.Perm(len(p.keys))[:r.Intn(len(p.keys)+1)] {
			ops = append(ops, Op{K: "ins", A: cat(p.keys[j]), V: v})
			v++
		}
		ops = append(ops, Op{K: "commit"})
	}
	huge := h.bulk > 0 && r.Intn(h.bulk) == 0
	style := p.style
	if huge {
		style = "huge transaction over " + style
	}
	budget := len(ops) + 150 + r.Intn(450)
	for len(ops) < budget {
		for j := r.Intn(8); j > 0; j-- {
			watch()
		}
		if h.untracked && r.Intn(6) == 0 {
			k := []string{"tins", "tdel", "tdpx"}[r.Intn(3)]
			o := Op{K: k, A: p.near(r)}
			if k == "tins" {
				o.V = v
				v++
			} else if k == "tdpx" {
				o.A = p.pfx(r)
			}
			ops = append(ops, o)
			continue
		}
		ops = append(ops, Op{K: "begin", N: track()})
		n := 1 + r.Intn(3)
		switch r.Intn(6) {
		case 0:
			n = 5 + r.Intn(30)
		case 1:
			n = len(p.keys)
		case 2:
			if h.untracked {
				n = 0
			}
		}
		insP := []int{5, 50, 95}[r.Intn(3)]
		late := -1
		if !h.untracked && r.Intn(12) == 0 {
			ops[len(ops)-1].N = 0
			late = 1 + r.Intn(n)
			n += 1 + r.Intn(4)
		}
		if huge && r.Intn(4) == 0 {
			ops = append(ops, Op{K: "bulk", A: p.pfx(r), V: v, N: 1500 + r.Intn(3500)})
			v += 5000
		}
		for ; n > 0; n-- {
			if n == late {
				ops = append(ops, Op{K: "track"})
			}
			wr(insP)
			if r.Intn(5) == 0 {
				watch()
			}
			if r.Intn(12) == 0 {
				ops = append(ops, Op{K: "notify"})
			}
			if r.Intn(25) == 0 {
				ops = append(ops, Op{K: "clone", A: p.near(r), N: r.Intn(8)})
			}
		}
		if h.untracked && r.Intn(10) == 0 {
			// deletes that match nothing
			for j := 0; j < 3; j++ {
				ops = append(ops, Op{K: "del", A: append(p.near(r), rndBytes(r, 3)...)})
			}
		}
		if h.untracked && r.Intn(15) == 0 {
			ops = append(ops, Op{K: "untrack"})
		}
		if r.Intn(8) == 0 {
			ops = append(ops, Op{K: "abort"})
		} else {
			ops = append(ops, Op{K: "commit", N: r.Intn(16)})
		}
	}
	return ops, style
}

// genVastWatch has a transaction with tens of thousands of writes, which track
// many times as many channels.
func genVastWatch(r *rand.Rand, h watchOpts) ([]Op, string) {
	stem := rndBytes(r, r.Intn(14))
	n := 30000 + r.Intn(60000)
	v := 1
	ops := []Op{{K: "begin", N: 1}, {K: "bulk", A: stem, V: v, N: n}, {K: "commit"}}
	v += n
	key := func() []byte {
		return cat(stem, []byte(fmt.Sprintf("%05d", r.Intn(100000))))
	}
	for round := 1 + r.Intn(2); round > 0; round-- {
		var args [][]byte
		for j := 20 + r.Intn(30); j > 0; j-- {
			o := Op{K: "wkey", N: r.Intn(800), A: key()}
			if r.Intn(h.keyW+h.pfxW) < h.pfxW {
				o.K = "wpfx"
				o.A = o.A[:len(o.A)-r.Intn(3)]
			} else if r.Intn(4) == 0 {
				o.A = cat(o.A, rndBytes(r, 1))
			}
			args = append(args, o.A)
			ops = append(ops, o)
		}
		ops = append(ops, Op{K: "begin", N: 1})
		if r.Intn(3) == 0 {
			ops = append(ops, Op{K: "dpx", A: cat(stem, []byte{byte('0' + r.Intn(10))})})
		}
		n := 20000 + r.Intn(75000)
		ops = append(ops, Op{K: "bulk", A: stem, V: v, N: n})
		v += n
		for _, a := range args {
			switch r.Intn(3) {
			case 0:
				ops = append(ops, Op{K: "ins", A: cat(a), V: v})
				v++
			case 1:
				ops = append(ops, Op{K: "del", A: cat(a)})
			}
		}
		ops = append(ops, Op{K: "commit", N: r.Intn(3)}, Op{K: "vast"})
	}
	return ops, "vast transaction"
}

func init() {
	reqs := []string{"notified_commits", "fired", "abandoned", "delayed_notifications", "transactions_reused", "repeated_notifications", "watches_old_tree", "watches_open_transaction", "watches_current_tree"}
	add := func(id string, h watchOpts, setup func(w *wrun), quick, thorough int, what string, req ...string) {
		props = append(props, &Prop{ID: id, Quick: quick, Thorough: thorough, MinObs: 5,
			Rule: fmt.Sprintf(caseRule, "five checks of a watch channel", what),
			Gen:  func(r *rand.Rand) ([]Op, string) { return genWatch(r, h) },
			Run:  watchRun(setup), Require: append(req, reqs...)})
	}
	add("C12", watchOpts{keyW: 1, bulk: 400}, func(w *wrun) { w.key = true }, 120000, 1000000, "Observed: at every notification, every channel of a key whose committed content differs from what the watch saw.", "notifications_owed", "bulk_transactions", "vast_transactions", "branch_notifications_owed")
	add("C13", watchOpts{pfxW: 1, bulk: 400}, func(w *wrun) { w.pfx = true }, 60000, 1000000, "Observed: at every notification, every channel of a prefix whose committed entries differ from what the watch saw.", "notifications_owed", "bulk_transactions", "vast_transactions", "branch_notifications_owed")
	add("C14", watchOpts{keyW: 1, pfxW: 1, untracked: true}, func(w *wrun) { w.early = true }, 100000, 1000000, "Observed: every channel when handed out and after every single operation that must not notify.", "open_checks", "clones_abandoned", "branch_open_checks")
	add("C15", watchOpts{keyW: 1, bulk: 400}, func(w *wrun) { w.precise = true }, 120000, 1000000, "Observed: at every notification, every channel of a present key that was not written.", "kept_open_checks", "bulk_transactions", "vast_transactions", "branch_kept_open_checks")
}
