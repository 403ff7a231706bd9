package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	art "github.com/absolutelightning/go-immutable-adaptive-radix"
)

const (
	costSmall = 1000
	costLarge = 200000
)

// costFamilies are shapes of large key sets.
var costFamilies = []struct {
	name string
	key  func(r *rand.Rand, i int) []byte
}{
	{"random8", func(r *rand.Rand, i int) []byte { b := make([]byte, 8); r.Read(b); return b }},
	{"sequence", func(r *rand.Rand, i int) []byte { return []byte(fmt.Sprintf("user:%08d", i)) }},
	{"uuid", func(r *rand.Rand, i int) []byte {
		b := make([]byte, 16)
		r.Read(b)
		return []byte(fmt.Sprintf("%x", b))
	}},
	{"paths", func(r *rand.Rand, i int) []byte {
		return []byte(fmt.Sprintf("/srv/%d/n/%d/item-%d", r.Intn(40), r.Intn(300), r.Intn(100)))
	}},
	{"longprefix", func(r *rand.Rand, i int) []byte {
		return []byte(fmt.Sprintf("a/very/long/shared/prefix/of/all/keys/%07d/tail/that/does/not/branch", i*7))
	}},
	{"nested", func(r *rand.Rand, i int) []byte {
		b := make([]byte, 1+r.Intn(12))
		for j := range b {
			b[j] = "abcdef"[r.Intn(6)]
		}
		return b
	}},
}

type costSet struct {
	keys [][]byte
	t    *tree
}

var costCache = map[string]*costSet{}

func costTree(fam, n int) *costSet {
	id := fmt.Sprintf("%d/%d", fam, n)
	if s := costCache[id]; s != nil {
		return s
	}
	r := rand.New(rand.NewSource(int64(n)))
	seen := map[string]bool{}
	s := &costSet{}
	x := art.NewRadixTree[int]().Txn()
	for i := 0; i < n; i++ {
		k := costFamilies[fam].key(r, i)
		if !seen[string(k)] {
			seen[string(k)] = true
			s.keys = append(s.keys, k)
			x.Insert(fresh(k), i)
		}
	}
	s.t = x.Commit()
	costCache[id] = s
	return s
}

// absentFrom changes one byte of k so that it leaves the tree early or late.
func absentFrom(r *rand.Rand, k []byte) []byte {
	c := fresh(k)
	c[r.Intn(len(c))] ^= 0x80
	return c
}

var costSink any

// costOps are the operations measured. Each runs once on (t, k); a is an absent
// key near k.
var costOps = []struct {
	name string
	run  func(t *tree, k, a []byte)
}{
	{"Get", func(t *tree, k, a []byte) { t.Get(k); t.Get(a) }},
	{"Insert new", func(t *tree, k, a []byte) { n, _, _ := t.Insert(a, 1); costSink = n }},
	{"Insert existing", func(t *tree, k, a []byte) { n, _, _ := t.Insert(k, 1); costSink = n }},
	{"Delete", func(t *tree, k, a []byte) { n, _, _ := t.Delete(k); costSink = n }},
	{"Delete absent", func(t *tree, k, a []byte) { n, _, _ := t.Delete(a); costSink = n }},
	{"DeletePrefix absent", func(t *tree, k, a []byte) { n, _ := t.DeletePrefix(a); costSink = n }},
	{"DeletePrefix of one key", func(t *tree, k, a []byte) {
		n, _, _ := t.Insert(cat(a, a), 1)
		n, _ = n.DeletePrefix(cat(a, a[:1]))
		costSink = n
	}},
	{"Txn", func(t *tree, k, a []byte) { costSink = t.Txn() }},
	{"Txn with tracked writes", func(t *tree, k, a []byte) {
		x := t.Txn()
		x.TrackMutate(true)
		x.Insert(k, 2)
		x.Insert(a, 3)
		x.Delete(k)
		costSink = x.Commit()
	}},
	{"Txn.Clone", func(t *tree, k, a []byte) {
		x := t.Txn()
		x.Insert(k, 2)
		y := x.Clone()
		y.Insert(a, 2)
		costSink = y.CommitOnly()
	}},
	{"GetWatch", func(t *tree, k, a []byte) {
		c, _, _ := t.GetWatch(k)
		d, _, _ := t.GetWatch(a)
		costSink = c
		costSink = d
	}},
	{"SeekPrefix present, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().Iterator()
		it.SeekPrefix(k[:1+len(k)/2])
		steps(it.Next)
	}},
	{"SeekPrefixWatch absent, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().Iterator()
		it.SeekPrefixWatch(cat(a, k))
		steps(it.Next)
	}},
	{"iterate from the start, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().Iterator()
		it.SeekPrefix(nil)
		steps(it.Next)
	}},
	{"SeekLowerBound, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().LowerBoundIterator()
		it.SeekLowerBound(a)
		steps(it.Next)
	}},
	{"SeekLowerBound beyond the end", func(t *tree, k, a []byte) {
		it := t.Root().LowerBoundIterator()
		it.SeekLowerBound([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
		steps(it.Next)
	}},
	{"SeekReverseLowerBound, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().ReverseIterator()
		it.SeekReverseLowerBound(a)
		steps(it.Previous)
	}},
	{"SeekReverseLowerBound before the start", func(t *tree, k, a []byte) {
		it := t.Root().ReverseIterator()
		it.SeekReverseLowerBound([]byte{0})
		steps(it.Previous)
	}},
	{"ReverseIterator, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().ReverseIterator()
		steps(it.Previous)
	}},
	{"reverse SeekPrefix present, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().ReverseIterator()
		it.SeekPrefix(k[:1+len(k)/2])
		steps(it.Previous)
	}},
	{"reverse SeekPrefix absent, 5 steps", func(t *tree, k, a []byte) {
		it := t.Root().ReverseIterator()
		it.SeekPrefix(cat(a, k))
		steps(it.Previous)
	}},
	{"LongestPrefix", func(t *tree, k, a []byte) { t.LongestPrefix(a); t.LongestPrefix(cat(k, a)) }},
	{"PathIterator", func(t *tree, k, a []byte) {
		it := t.GetPathIterator(cat(k, a))
		for {
			if _, _, ok := it.Next(); !ok {
				break
			}
		}
	}},
	{"PathIterator absent", func(t *tree, k, a []byte) {
		it := t.Root().PathIterator(a)
		for {
			if _, _, ok := it.Next(); !ok {
				break
			}
		}
	}},
	{"Minimum and Maximum", func(t *tree, k, a []byte) { t.Minimum(); t.Maximum() }},
	{"Len", func(t *tree, k, a []byte) { t.Len() }},
	{"snapshot", func(t *tree, k, a []byte) { costSink = t.Clone() }},
	{"Walk stopped at once", func(t *tree, k, a []byte) { t.Walk(func(k []byte, v int) bool { return true }) }},
}

func steps(next func() ([]byte, int, bool)) {
	for i := 0; i < 5; i++ {
		if _, _, ok := next(); !ok {
			return
		}
	}
}

// scans are whole-tree operations; their cost is counted per key.
var costScans = []struct {
	name string
	run  func(t *tree) int
}{
	{"full iteration", func(t *tree) int { it := t.Root().Iterator(); it.SeekPrefix(nil); return drainCount(it.Next) }},
	{"full lower-bound iteration", func(t *tree) int {
		it := t.Root().LowerBoundIterator()
		it.SeekLowerBound([]byte{0})
		return drainCount(it.Next)
	}},
	{"full reverse iteration", func(t *tree) int { it := t.Root().ReverseIterator(); return drainCount(it.Previous) }},
	{"full Walk", func(t *tree) int {
		n := 0
		t.Walk(func([]byte, int) bool { n++; return false })
		return n
	}},
	{"DFS", func(t *tree) int { t.DFS(func(anode) {}); return t.Len() }},
	{"tracked overwrite of every key", func(t *tree) int {
		x := t.Txn()
		x.TrackMutate(true)
		n := 0
		t.Walk(func(k []byte, v int) bool { x.Insert(k, v+1); n++; return false })
		costSink = x.Commit()
		return n
	}},
	{"tracked deletion of every key", func(t *tree) int {
		x := t.Txn()
		x.TrackMutate(true)
		n := 0
		t.Walk(func(k []byte, v int) bool { x.Delete(k); n++; return false })
		costSink = x.Commit()
		return n
	}},
	{"rebuilding in one transaction", func(t *tree) int {
		x := art.NewRadixTree[int]().Txn()
		n := 0
		t.Walk(func(k []byte, v int) bool { x.Insert(k, v); n++; return false })
		costSink = x.Commit()
		return n
	}},
	{"DeletePrefix of everything, tracked", func(t *tree) int {
		n := t.Len()
		x := t.Txn()
		x.TrackMutate(true)
		x.DeletePrefix(nil)
		costSink = x.Commit()
		return n
	}},
}

func drainCount(next func() ([]byte, int, bool)) int {
	n := 0
	for {
		if _, _, ok := next(); !ok {
			return n
		}
		n++
	}
}

type cost struct {
	bytes, objs float64 // per operation, on average
	ns          float64 // per operation, best of several batches
}

// measure runs f in batches of n. It gives up after the batch that exceeds two
// seconds: the costs looked for are then plain already.
func measure(n int, batches int, f func(i int)) cost {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(4 << 30))
	var a, b runtime.MemStats
	best := 1e18
	ops := 0
	start := time.Now()
	runtime.ReadMemStats(&a)
	for j := 0; j < batches && time.Since(start) < 2*time.Second; j++ {
		s := time.Now()
		done := 0
		for done < n && time.Since(start) < 2*time.Second {
			f(done)
			done++
		}
		ops += done
		best = min(best, float64(time.Since(s).Nanoseconds())/float64(done))
	}
	runtime.ReadMemStats(&b)
	t := float64(ops)
	return cost{float64(b.TotalAlloc-a.TotalAlloc) / t, float64(b.Mallocs-a.Mallocs) / t, best}
}

// Bounds. A node of the widest kind takes a little over 4 KB, so copying a path
// in a large tree may cost tens of kilobytes where it costs hundreds of bytes in
// a small one; anything proportional to the size of the tree is far above.
const (
	costBytes = 96 << 10
	costObjs  = 400
	costNs    = 600e3
	// per key of a whole-tree operation, where a single step takes about 1 us
	costKeyNs    = 30e3
	costKeyBytes = 4 << 10
	costKeyObjs  = 60
)

func costCase(o Op, st *Stats) error {
	fam := o.N % len(costFamilies)
	r := rand.New(rand.NewSource(int64(o.V)))
	var c [2]cost
	lim := cost{costBytes, costObjs, costNs}
	what := string(o.A)
	for _, op := range costOps {
		if op.name != what {
			continue
		}
		for j, n := range []int{costSmall, costLarge} {
			s := costTree(fam, n)
			const batch = 30
			var ks, as [batch][]byte
			for i := range ks {
				ks[i] = s.keys[r.Intn(len(s.keys))]
				as[i] = absentFrom(r, ks[i])
			}
			c[j] = measure(batch, 4, func(i int) { op.run(s.t, fresh(ks[i]), fresh(as[i])) })
		}
	}
	for _, op := range costScans {
		if op.name != what {
			continue
		}
		lim = cost{costKeyBytes, costKeyObjs, costKeyNs}
		for j, n := range []int{costSmall, costLarge} {
			s := costTree(fam, n)
			batches := 10
			if j == 1 {
				batches = 1
			}
			x := measure(1, batches, func(i int) {
				if got := op.run(s.t); got != len(s.keys) {
					panic(fmt.Sprintf("%s visited %d of %d keys", what, got, len(s.keys)))
				}
			})
			k := float64(len(s.keys))
			c[j] = cost{x.bytes / k, x.objs / k, x.ns / k}
		}
	}
	costSink = nil
	st.obs(true)
	st.add("operations_compared", 1)
	maxIn(st, "max_bytes_per_op_large: "+what, int(c[1].bytes))
	maxIn(st, "max_ns_per_op_large: "+what, int(c[1].ns))
	in := fmt.Sprintf("%s on %s keys", what, costFamilies[fam].name)
	if c[1].bytes > 4*c[0].bytes+lim.bytes || c[1].objs > 4*c[0].objs+lim.objs {
		return fmt.Errorf("%s allocates %.0f bytes in %.0f objects on a tree of %d keys, and %.0f bytes in %.0f objects on one of %d", in, c[1].bytes, c[1].objs, costLarge, c[0].bytes, c[0].objs, costSmall)
	}
	if c[1].ns > 30*c[0].ns && c[1].ns > lim.ns {
		return fmt.Errorf("%s takes at least %.0f us on a tree of %d keys, and %.1f us on one of %d", in, c[1].ns/1e3, costLarge, c[0].ns/1e3, costSmall)
	}
	return nil
}

func maxIn(st *Stats, k string, v int) {
	if v > st.counters[k] {
		st.counters[k] = v
	}
}

func init() {
	var names []string
	for _, o := range costOps {
		names = append(names, o.name)
	}
	for _, o := range costScans {
		names = append(names, o.name)
	}
	sort.Strings(names)
	n := len(names) * len(costFamilies)
	props = append(props, &Prop{ID: "C18", Quick: 5 * n, Thorough: 60 * n, MinObs: 1, Workers: 1, NoShrink: true,
		Rule:   "An evaluation measures one operation on one family of keys with seeded arguments, on a tree of 1000 and a tree of 200000 keys: allocated bytes and objects (runtime allocation counters) and the best time of several batches. The operation fails if the large tree costs more than four times the small one plus 96 KB or 400 objects, or more than thirty times its time and 0.6 ms per operation. Whole-tree scans are counted per key. Each evaluation has different arguments and is non-trivial.",
		Assume: []string{"the time bound is forty times above what any operation takes; allocation bounds are deterministic"},
		GenAt: func(j int, r *rand.Rand) ([]Op, string) {
			// every operation on every family, in turn
			fam := (j / len(names)) % len(costFamilies)
			return []Op{{K: "measure", A: []byte(names[j%len(names)]), N: fam, V: int(r.Int31())}}, costFamilies[fam].name
		},
		Run: func(ops []Op, st *Stats) error {
			for _, o := range ops {
				st.op(o.K)
				if err := costCase(o, st); err != nil {
					return err
				}
			}
			return nil
		},
		Require: []string{"operations_compared"}})
}
