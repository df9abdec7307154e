package main

import (
	"fmt"
	"strings"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"

	"verif/mc/eng"
	"verif/mc/mock"
	"verif/mc/rep"
)

// i09: the answers of an index depend on the contents of its store alone.
func i09() {
	r := rep.New("I09", "model_checking", "for each kind of index, every sequence (<=4 steps on the mock, <=3 on the real engines; thorough one more) of insertions of two geometries under two ids through either of two index objects with the same prefix and level, queries through either of them, replacing both objects by new ones (closing and reopening the store), deleting all entries of the store, taking and restoring a copy of its contents, and moving the contents to a store of another engine; at each query and at the end every cell and region query through the old objects and through a new one is compared with the set of entries")
	var cells []s2.CellID
	for _, g := range i06Shapes {
		cu, err := coverAt(g, i06Level)
		if err != nil {
			panic(err)
		}
		cells = append(cells, cu...)
	}
	cells = cellSet(append(cells, cells[0].Next(), cells[0].Prev()))
	const nops = 14
	names := []string{"A+0x", "A+0y", "A+1x", "A+1y", "B+0x", "B+0y", "B+1x", "B+1y", "A?", "B?", "reopen", "wipe", "copy", "restore/move"}
	ids := []string{"x", "y"}
	type job struct {
		kind int
		ops  []int
	}
	jobsOf := func(depth int) []job {
		var jobs []job
		for kind := 0; kind < 3; kind++ {
			for n := 1; n <= depth; n++ {
				product(nops, n, func(ix []int) { jobs = append(jobs, job{kind, append([]int{}, ix...)}) })
			}
		}
		return jobs
	}
	deep, shallow := jobsOf(r.Pick(4, 5)), jobsOf(3)
	for ei, name := range targets {
		name := name
		p := &pool{r: r, name: name}
		jobs := deep
		if name != "mock" {
			jobs = shallow
		}
		rep.Par(len(jobs), func(ji int) {
			j := jobs[ji]
			if r.Stop() {
				return
			}
			if name != "mock" && !r.Thorough() && len(j.ops) == 3 && (ji+ei)%8 != 0 {
				return // the longest ones are dealt to the engines in turn
			}
			p.run(fmt.Sprintf("%s/%d", name, ji), func(t *target) string {
				prefix := []string{"p", "ix\xff", "\x00"}[ji%3]
				fm, pm := flatModel{}, pointModel{}
				var cur store.KVStore = t.s
				var moved *target
				defer func() {
					if moved != nil {
						moved.close()
					}
				}()
				made := 0
				mk := func() *oneIndex {
					made++ // events come later through every second object
					o := &oneIndex{kind: j.kind, prefix: prefix, fm: fm, pm: pm, base: 500000000000000000 * int64(1+made%2)}
					switch j.kind {
					case 0:
						o.flat = index.NewS2FlatIdx(cur, []byte(prefix), i06Level)
					case 1:
						o.pt = index.NewS2PointIdx(cur, []byte(prefix))
					case 2:
						o.timed = index.NewS2FlatTimeIdx(cur, []byte(prefix), i06Level)
					}
					return o
				}
				objs := [2]*oneIndex{mk(), mk()}
				saved := eng.Model{}
				sfm, spm := flatModel{}, pointModel{}
				set := func(f flatModel, q pointModel) {
					for k := range fm {
						delete(fm, k)
					}
					for k := range pm {
						delete(pm, k)
					}
					copyModels(fm, pm, f, q)
				}
				hist := fmt.Sprintf("index of kind %d under %q:", j.kind, prefix)
				check := func(o *oneIndex, what string) string {
					if m := o.check(cells); m != "" {
						return hist + ", then queries through " + what + ":\n" + m
					}
					return ""
				}
				for _, a := range j.ops {
					hist += " " + names[a]
					r.Trans(1)
					switch {
					case a < 8:
						id := guard(ids[a%2])
						if m := objs[a/4].insert(a/2%2, id); m != "" {
							return hist + ": " + m
						}
						id.garbage()
					case a < 10:
						if m := check(objs[a-8], "that object"); m != "" {
							return m
						}
					case a == 10:
						if mt := active(t, moved); mt.mk == nil && mt.name != "gtreap" {
							if err := mt.s.Close(); err != nil {
								return hist + ": Close: " + err.Error()
							}
							s, err := eng.Open(mt.name, mt.dir, &eng.AppendMO{}, map[string]interface{}{"nosync": true})
							if err != nil {
								return hist + ": " + err.Error()
							}
							mt.s = s
							cur = s
						}
						objs = [2]*oneIndex{mk(), mk()}
					case a == 11:
						if m := replace(cur, eng.Model{}); m != "" {
							return hist + ": " + m
						}
						set(nil, nil)
					case a == 12:
						m, err := eng.Contents(cur)
						if err != nil {
							return hist + ": " + err.Error()
						}
						saved, sfm, spm = m, flatModel{}, pointModel{}
						copyModels(sfm, spm, fm, pm)
					case a == 13 && strings.Contains(hist, " copy"):
						if m := replace(cur, saved); m != "" {
							return hist + ": " + m
						}
						set(sfm, spm)
					case a == 13:
						m, err := eng.Contents(cur)
						if err != nil {
							return hist + ": " + err.Error()
						}
						if moved != nil {
							moved.close()
						}
						if name == "mock" && ji%16 != 0 {
							mm := mock.New()
							moved = &target{name: "mock", s: mm, mk: mm}
						} else if moved, err = openTarget(eng.Names[(ji/16+len(j.ops))%len(eng.Names)]); err != nil {
							moved = nil
							return hist + ": " + err.Error()
						}
						cur = moved.s
						if err := eng.Put(cur, m); err != nil {
							return hist + ": " + err.Error()
						}
						objs = [2]*oneIndex{mk(), mk()}
					}
				}
				if m := check(objs[0], "A"); m != "" {
					return m
				}
				if m := check(objs[1], "B"); m != "" {
					return m
				}
				if m := check(mk(), "a new object"); m != "" {
					return m
				}
				if moved != nil {
					if m := moved.trouble(); m != "" {
						return hist + ": " + m
					}
				}
				r.Trace(1)
				r.State(fmt.Sprint(j.kind, fm, pm))
				r.Sample(func() interface{} { return map[string]string{"store": name, "history": hist} })
				return ""
			})
		})
		p.closeAll()
	}
	r.Finish()
}

func active(t, moved *target) *target {
	if moved != nil {
		return moved
	}
	return t
}

func copyModels(f flatModel, q pointModel, ff flatModel, qq pointModel) {
	for c, s := range ff {
		n := idset{}
		for k, v := range s {
			n[k] = v
		}
		f[c] = n
	}
	for c, s := range qq {
		n := idset{}
		for k, v := range s {
			n[k] = v
		}
		q[c] = n
	}
}

// replace makes m the contents of s in one batch.
func replace(s store.KVStore, m eng.Model) string {
	old, err := eng.Contents(s)
	if err != nil {
		return err.Error()
	}
	w, err := s.Writer()
	if err != nil {
		return err.Error()
	}
	defer w.Close()
	b := w.NewBatch()
	defer b.Close()
	for _, k := range old.Keys() {
		if _, ok := m[k]; !ok {
			b.Delete([]byte(k))
		}
	}
	for _, k := range m.Keys() {
		b.Set([]byte(k), []byte(m[k]))
	}
	if err := w.ExecuteBatch(b); err != nil {
		return err.Error()
	}
	return ""
}
