package main

import (
	"fmt"
	"math/rand"
)

func linRun(setup func(l *lin), final []string) func(ops []Op, st *Stats) error {
	return func(ops []Op, st *Stats) error {
		l := newLin(st)
		setup(l)
		for i, o := range ops {
			switch o.K {
			case "ins", "del", "dpx", "begin", "commit", "abort":
				if err := l.apply(o); err != nil {
					return err
				}
				if l.rets && (o.K == "ins" || o.K == "del") {
					if err := l.get(o.A); err != nil {
						return err
					}
				}
			default:
				if err := l.query(o); err != nil {
					return err
				}
			}
			if i == len(ops)*2/5 {
				l.model().shapes(st.shapes)
			}
		}
		for _, k := range final {
			if err := l.query(Op{K: k}); err != nil {
				return err
			}
		}
		return nil
	}
}

func q(kinds ...string) func(r *rand.Rand, p *pool) Op {
	return func(r *rand.Rand, p *pool) Op {
		k := kinds[r.Intn(len(kinds))]
		o := Op{K: k, N: r.Intn(4)}
		switch k {
		case "pfx", "rpfx", "dpx":
			o.A = p.pfx(r)
		case "get", "getw", "lb", "rlb", "path", "lp":
			o.A = p.near(r)
		case "part":
			o.A = p.near(r)
			if r.Intn(2) == 0 {
				o.A = p.pfx(r)
			}
			o.N = r.Intn(10000)
		case "walkstop":
			o.N = r.Intn(1000)
		}
		return o
	}
}

const caseRule = "An evaluation is one case: a history of operations drawn from one key pool by the seeded generator, executed on the library with the monitor watching. It is non-trivial if the monitor made at least %s; cases with an identical operation list count once. %s"

func init() {
	mk := func(id string, quick, thorough int, setup func(l *lin), h histOpts, final []string, what string) {
		if h.maxOps == 0 {
			h.maxOps = 1200
		}
		h.big = 150
		props = append(props, &Prop{ID: id, Quick: quick, Thorough: thorough, MinObs: 1,
			Rule: fmt.Sprintf(caseRule, "one observation with a non-empty expected result", what),
			Gen: func(r *rand.Rand) ([]Op, string) {
				ops, s := genHistory(r, h)
				// now and then the zero value, which is a value like any other
				for i := range ops {
					if ops[i].K == "ins" && r.Intn(25) == 0 {
						ops[i].V = 0
					}
				}
				return ops, s
			},
			Run: linRun(setup, final)})
	}
	mk("C01", 100000, 2000000, func(l *lin) { l.rets, l.cnt = true, true },
		histOpts{txns: true, queryP: 200, endQ: 1, absentP: 300, q: q("get", "get", "get", "audit")}, []string{"audit"},
		"Observed: the results of every Insert and Delete, Len after every operation, the key just written, random keys near the pool, and all keys at intervals.")
	mk("C02", 100000, 2000000, func(l *lin) {},
		histOpts{txns: true, queryP: 60, endQ: 3, absentP: 100, q: q("iter", "iterx", "walk", "walkstop", "dfs")}, []string{"iter", "walk", "dfs"},
		"Observed: complete iterations with and without a seek, complete and stopped walks, node visits, on trees and inside transactions.")
	mk("C03", 80000, 1500000, func(l *lin) {},
		histOpts{txns: true, queryP: 100, endQ: 20, absentP: 100, q: q("pfx")}, []string{"pfx"},
		"Observed: complete prefix iterations, with and without watch, over present, absent and partial prefixes.")
	mk("C04", 80000, 1500000, func(l *lin) {},
		histOpts{txns: true, queryP: 100, endQ: 20, absentP: 100, q: q("lb")}, []string{"lb"},
		"Observed: complete iterations from a lower bound in, near or beyond the key set.")
	mk("C05", 80000, 1500000, func(l *lin) {},
		histOpts{txns: true, queryP: 100, endQ: 20, absentP: 100, q: q("rlb", "rlb", "rpfx", "rev")}, []string{"rev", "rlb"},
		"Observed: complete reverse iterations, unbounded, from a bound, and by prefix.")
	mk("C06", 100000, 2000000, func(l *lin) {},
		histOpts{txns: true, queryP: 200, endQ: 20, absentP: 100, q: q("lp")}, []string{"lp"},
		"Observed: longest-prefix lookups on trees and transactions.")
	mk("C07", 80000, 1500000, func(l *lin) {},
		histOpts{txns: true, queryP: 200, endQ: 20, absentP: 100, q: q("path")}, []string{"path"},
		"Observed: complete path iterations.")
	mk("C08", 120000, 2500000, func(l *lin) { l.rets, l.cnt = true, true },
		histOpts{txns: true, dpx: 60, queryP: 30, endQ: 3, absentP: 100, q: q("audit", "dpx", "iter", "pfx", "rev")}, []string{"audit", "iter"},
		"Observed: the result of every DeletePrefix, all keys, iterations and the length afterwards.")
	mk("C09", 100000, 2000000, func(l *lin) {},
		histOpts{txns: true, queryP: 300, endQ: 2, absentP: 100, q: q("min", "max")}, []string{"min", "max"},
		"Observed: minimum and maximum after a third of all operations.")
}
