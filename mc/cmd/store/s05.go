package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/rep"
)

// orderMO checks what it is called with and answers partial merges by call number.
type orderMO struct {
	pattern int // bit i: the i-th partial merge since arming succeeds
	calls   int
	bad     string
}

func (m *orderMO) Name() string { return "order" }

// Operands merged partially are a list: \x02, then the operands separated by \x1f.
func operands(o []byte) [][]byte {
	if len(o) > 0 && o[0] == 2 {
		return bytes.Split(o[1:], []byte{0x1f})
	}
	return [][]byte{o}
}

// foldOrdered marks an absent key and closes every operand.
func foldOrdered(existing []byte, present bool, ops [][]byte) []byte {
	var b []byte
	for _, o := range ops {
		b = append(append(b, o...), ';')
	}
	return eng.MergeResult(existing, present, [][]byte{b})
}

// note checks that an operand belongs to the key: every non-empty operand of key k starts with k's first byte.
func (m *orderMO) note(what string, key []byte, ops ...[]byte) {
	for _, l := range ops {
		for _, o := range operands(l) {
			if len(key) > 0 && len(o) > 0 && o[0] != key[0] && m.bad == "" {
				m.bad = fmt.Sprintf("%s of key %q was given the operand %q of another key", what, key, o)
			}
		}
	}
}

func (m *orderMO) PartialMerge(key, l, r []byte) ([]byte, bool) {
	m.note("PartialMerge", key, l, r)
	i := m.calls
	m.calls++
	if m.pattern>>uint(i%16)&1 == 0 {
		return nil, false
	}
	return append([]byte{2}, bytes.Join(append(operands(l), operands(r)...), []byte{0x1f})...), true
}

func (m *orderMO) FullMerge(key, existing []byte, ops [][]byte) ([]byte, bool) {
	m.note("FullMerge", key, ops...)
	if len(ops) == 0 && m.bad == "" {
		m.bad = fmt.Sprintf("FullMerge of key %q without operands", key)
	}
	var all [][]byte
	for _, o := range ops {
		all = append(all, operands(o)...)
	}
	return foldOrdered(existing, existing != nil, all), true
}

func s05() {
	fold = foldOrdered
	r := rep.New("S05", "model_checking", "every sequence of up to four merges (three keys' worth of operands, including empty ones) on one batch, for every pattern of partial-merge answers and every prior value (absent, deleted, empty, present); every program of merges, sets, deletes, resets and executions up to the stated length; sweeps over the numbers of operands and keys and the lengths of operands, keys and existing values; the results are compared with an order-sensitive fold that distinguishes absent from empty")
	mg := func(k, v string) step { return step{k: kMerge, key: k, val: v} }
	exec := step{k: kExec}
	keys := []string{"a", "b", "c", "e", "zz"}
	alA := []step{mg("a", "a1"), mg("a", "a2"), mg("a", ""), mg("b", "b1"), mg("b", ""), {k: kSet, key: "c", val: "z"}}
	seqs := batches(alA, r.Pick(4, 5))
	priors := []eng.Model{{}, {"a": "", "b": ""}, {"a": "p", "b": "q"}, {"a": "", "c": "0"}}
	alB := []step{exec, mg("a", "a1"), mg("a", ""), mg("b", "b1"), {k: kReset}, {k: kSet, key: "a", val: "s"}, {k: kDel, key: "a"}, {k: kDel, key: "b"}}
	var pb [][]step
	for _, p := range progs(alB, r.Pick(6, 7), []step{exec}) {
		// since the last reset no key may be both merged and set or deleted (no order is specified for that)
		ok, from := true, 0
		for i, s := range p {
			if s.k == kReset || i == len(p)-1 {
				var ops []step
				for _, o := range p[from:i] {
					if o.k == kSet || o.k == kDel || o.k == kMerge {
						ops = append(ops, o)
					}
				}
				ok = ok && !mixed(ops)
				from = i + 1
			}
		}
		if ok {
			pb = append(pb, p)
		}
	}
	// two batches of which the first may set or delete the keys the second merges
	alC := []step{mg("a", "a1"), mg("a", ""), mg("b", "b1"), {k: kSet, key: "a", val: ""}, {k: kSet, key: "a", val: "s"}, {k: kDel, key: "a"}, {k: kDel, key: "b"}}
	cb := batches(alC, 2)
	var pc [][]step
	for _, x := range cb {
		for _, y := range cb {
			for _, z := range [][]step{{mg("a", "a2")}, {mg("a", "a2"), mg("a", "a3")}, {mg("b", "b2"), mg("a", "a2")}} {
				if mixed(x) || mixed(y) {
					continue
				}
				p := append([]step{}, x...)
				p = append(p, exec, step{k: kReset})
				p = append(p, y...)
				p = append(p, exec, step{k: kReset})
				p = append(p, z...)
				pc = append(pc, append(p, exec))
			}
		}
	}
	// two batch objects filled alternately
	var alD []step
	for b := 0; b < 2; b++ {
		for _, s := range []step{mg("a", fmt.Sprint("a", b)), mg("b", fmt.Sprint("b", b)), {k: kReset}, exec} {
			s.b = b
			alD = append(alD, s)
		}
	}
	pd := progs(alD, r.Pick(4, 5), []step{exec, {k: kExec, b: 1}})

	engines(eng.Names, func(name string) {
		p := newPool(r, name)
		one := func(d *db, init eng.Model, pat int, prog []step, local map[uint64]struct{}) string {
			mo := &orderMO{pattern: pat}
			d.mo.cur = mo
			defer func() { d.mo.cur = &eng.AppendMO{} }()
			if len(init) > 0 {
				if err := eng.Put(d.s, init); err != nil {
					return err.Error()
				}
			}
			x := &runner{r: r, d: d, st: init.Clone(), keys: keys, local: local}
			r.Trace(1)
			msg := x.run(prog)
			if mo.bad != "" {
				msg = mo.bad + "\n" + msg
			}
			if msg != "" {
				msg = fmt.Sprintf("prior contents %v, partial merges answered by the bits of %b (lowest first):\nprogram: %s\n%s", init, pat, progString(prog), msg)
			}
			return msg
		}
		type job struct {
			key  string
			init eng.Model
			pat  int
			prog []step
		}
		var jobs []job
		for i, s := range seqs {
			n := map[string]int{}
			for _, o := range s {
				if o.k == kMerge {
					n[o.key]++
				}
			}
			calls := 0
			for _, c := range n {
				calls += c - 1
			}
			for pi, init := range priors {
				for pat := 0; pat < 1<<uint(calls); pat++ {
					jobs = append(jobs, job{fmt.Sprintf("%s/seq/%d/%d/%b", name, i, pi, pat), init, pat, append(append([]step{}, s...), exec)})
				}
			}
		}
		for i, pr := range pb {
			for _, pat := range []int{0, 0xffff, 0x5555} {
				jobs = append(jobs, job{fmt.Sprintf("%s/prog/%d/%x", name, i, pat), eng.Model{}, pat, pr})
			}
		}
		for i, pr := range pc {
			jobs = append(jobs, job{fmt.Sprintf("%s/two/%d", name, i), eng.Model{"b": "q"}, []int{0, 0xffff}[i%2], pr})
		}
		for i, pr := range pd {
			for _, pat := range []int{0, 0xffff} {
				jobs = append(jobs, job{fmt.Sprintf("%s/objects/%d/%x", name, i, pat), eng.Model{"a": "p"}, pat, pr})
			}
		}
		shard(r, len(jobs), func(i int, local map[uint64]struct{}) {
			j := jobs[i]
			p.runCase(j.key, func(d *db) string { return one(d, j.init, j.pat, j.prog, local) })
			r.Sample(func() interface{} {
				return map[string]string{"engine": name, "program": progString(j.prog), "partial": fmt.Sprintf("%b", j.pat), "prior": j.init.String()}
			})
		})
		// counts: n operands of one key, n keys with two operands each
		ns := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1025}
		shard(r, len(ns)*3, func(i int, local map[uint64]struct{}) {
			n, pat := ns[i/3], []int{0, 0xffff, 0x3333}[i%3]
			p.runCase(fmt.Sprintf("%s/count/%d/%x", name, n, pat), func(d *db) string {
				var prog []step
				for k := 0; k < n; k++ {
					prog = append(prog, mg("a", fmt.Sprintf("a%d", k)))
				}
				return cut(one(d, eng.Model{"a": "p"}, pat, append(prog, exec), local))
			})
			p.runCase(fmt.Sprintf("%s/keys/%d/%x", name, n, pat), func(d *db) string {
				var prog []step
				init := eng.Model{}
				for k := 0; k < n; k++ {
					key := fmt.Sprintf("k%d", k)
					prog = append(prog, mg(key, fmt.Sprintf("k%d", k)))
					if k%3 == 0 {
						init[key] = "p"
					}
				}
				for k := n - 1; k >= 0; k-- {
					prog = append(prog, mg(fmt.Sprintf("k%d", k), fmt.Sprintf("kk%d", k)))
				}
				return cut(one(d, init, pat, append(prog, exec), local))
			})
		})
		// lengths of operands, keys and existing values
		lens := []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 70000, 300000}
		shard(r, len(lens)*3, func(i int, local map[uint64]struct{}) {
			n, pat := lens[i/3], []int{0, 0xffff, 0x5555}[i%3]
			for form := 0; form < 4; form++ {
				ka, kb, big, prior := "a", "b", strings.Repeat("x", n-1), "p"
				switch form {
				case 1:
					prior = strings.Repeat("p", n)
				case 2:
					big = ""
					if n > 4096 {
						continue
					}
					ka, kb = strings.Repeat("a", n), strings.Repeat("a", n)+"b"
				case 3:
					prior = ""
				}
				init := eng.Model{ka: prior}
				prog := []step{mg(ka, "a1"), mg(ka, "a"+big), mg(kb, kb[:1]+big), mg(ka, "a"+big+"y"), mg(ka, "a2"), mg(kb, kb[:1]+"2"), exec, mg(ka, "a3"), exec, {k: kReset}, mg(kb, kb[:1]+"3"), mg(kb, kb[:1]+big), exec}
				p.runCase(fmt.Sprintf("%s/length/%d/%x/%d", name, n, pat, form), func(d *db) string { return cut(one(d, init, pat, prog, local)) })
			}
		})
		p.closeAll()
	})
	r.Finish()
}

func cut(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[strings.LastIndex(s[:len(s)-1000], "\n")+1:]
	}
	return s
}
