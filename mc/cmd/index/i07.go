package main

import (
	"fmt"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/mock"
	"verif/mc/rep"
)

// faultOp is one index operation: run returns what a query returned (nil for insertions).
type faultOp struct {
	name  string
	write bool
	run   func(s *mock.Store) ([]index.GeoID, error)
}

func i07() {
	r := rep.New("I07", "fault_enumeration", "every operation of the three index kinds (all shapes, single cell, several cells, radius, rectangle, wrong levels, malformed geometries) on a strict mock store in several states (empty, populated, and holding corrupt entries under the prefix): the run without a fault tells which calls can fail, then every one of them and every pair of them is made to fail; the operation must return an error, leave all or none of its entries, return nothing partial, and close everything in order; also every sequence of up to four operations on the same index objects, with every call and pair of calls failing, each operation compared with its outcome on fresh objects; a case is distinct by operation, state and failing calls")
	const level = 10
	pl := place{46.8, -71.2}
	gds := shapes(pl.lat, pl.lng, level)
	// covers of about fifty to a few thousand cells
	for _, d := range []float64{0.4, 0.55, 1.2, 3} {
		gds = append(gds, shape(geodata.Geometry_POLYGON, pl.lat, pl.lng, pl.lat, pl.lng+d, pl.lat+d, pl.lng+d, pl.lat+d, pl.lng))
	}
	var ops []faultOp
	flat := func(s *mock.Store) *index.S2FlatIdx { return index.NewS2FlatIdx(s, []byte("F"), level) }
	pt := func(s *mock.Store) *index.S2PointIdx { return index.NewS2PointIdx(s, []byte("P")) }
	timed := func(s *mock.Store) *index.S2FlatTimeIdx { return index.NewS2FlatTimeIdx(s, []byte("T"), level) }
	bad := []*geodata.GeoData{nil, {}, shape(geodata.Geometry_POLYGON, 1, 2, 3), shape(geodata.Geometry_LINESTRING, 1, 2), {Geometry: &geodata.Geometry{Type: 77, Coordinates: []float64{1, 2}}}}
	for i, g := range append(append([]*geodata.GeoData{}, gds...), bad...) {
		i, g := i, g
		for _, id := range []string{"new", "id0", ""} {
			id := id
			nm := fmt.Sprintf("(shape %d, id %q)", i, id)
			ops = append(ops, faultOp{"GeoIndex" + nm, true, func(s *mock.Store) ([]index.GeoID, error) { return nil, flat(s).GeoIndex(g, []byte(id)) }},
				faultOp{"GeoTimeIndex" + nm, true, func(s *mock.Store) ([]index.GeoID, error) {
					return nil, timed(s).GeoTimeIndex(g, time.Unix(9, 0), []byte(id))
				}},
				faultOp{"GeoPointIndex" + nm, true, func(s *mock.Store) ([]index.GeoID, error) {
					_, err := pt(s).GeoPointIndex(g, []byte(id))
					return nil, err
				}})
			if i < len(gds) && len(g.Geometry.Coordinates) > 1 {
				ops = append(ops, faultOp{"PointIndex" + nm, true, func(s *mock.Store) ([]index.GeoID, error) {
					_, err := pt(s).PointIndex(g.Geometry.Coordinates[1], g.Geometry.Coordinates[0], []byte(id))
					return nil, err
				}})
			}
		}
	}
	var cells []s2.CellID
	for _, g := range gds[:7] {
		cu, err := coverAt(g, level)
		if err != nil {
			panic(err)
		}
		cells = append(cells, cu...)
	}
	cells = cellSet(cells)
	q := func(name string, f func(s *mock.Store) ([]index.GeoID, error)) {
		ops = append(ops, faultOp{name, false, f})
	}
	for _, c := range cells {
		c := c
		q(fmt.Sprintf("flat.GeoIdsAtCell(%v)", c), func(s *mock.Store) ([]index.GeoID, error) { return flat(s).GeoIdsAtCell(c) })
		q(fmt.Sprintf("point.GeoIdsAtCell(%v)", c), func(s *mock.Store) ([]index.GeoID, error) { return pt(s).GeoIdsAtCell(c) })
		q(fmt.Sprintf("time.GeoTimeIdsAtCell(%v)", c), func(s *mock.Store) ([]index.GeoID, error) {
			return timed(s).GeoTimeIdsAtCell(c, index.MaxGeoTime, index.MinGeoTime)
		})
	}
	groups := [][]s2.CellID{nil, cells[:1], cells[:2], cells, {cells[0], cells[0].Parent(3)}, {cells[0].ChildBegin(), cells[0]}, {cells[0].Parent(3)}}
	for i, g := range groups {
		g := g
		q(fmt.Sprintf("flat.GeoIdsAtCells(group %d)", i), func(s *mock.Store) ([]index.GeoID, error) { return flat(s).GeoIdsAtCells(g) })
		q(fmt.Sprintf("point.GeoIdsAtCells(group %d)", i), func(s *mock.Store) ([]index.GeoID, error) { return pt(s).GeoIdsAtCells(g) })
		q(fmt.Sprintf("time.GeoTimeIdsAtCells(group %d)", i), func(s *mock.Store) ([]index.GeoID, error) {
			return timed(s).GeoTimeIdsAtCells(g, index.MaxGeoTime, index.MinGeoTime)
		})
	}
	for _, ra := range []float64{0, 3000, 30000} {
		ra := ra
		q(fmt.Sprintf("flat.GeoIdsRadiusQuery(%v)", ra), func(s *mock.Store) ([]index.GeoID, error) {
			return flat(s).GeoIdsRadiusQuery(pl.lat, pl.lng, ra)
		})
		q(fmt.Sprintf("point.GeoIdsRadiusQuery(%v)", ra), func(s *mock.Store) ([]index.GeoID, error) {
			return pt(s).GeoIdsRadiusQuery(pl.lat, pl.lng, ra)
		})
		q(fmt.Sprintf("time.GeoTimeIdsRadiusQuery(%v)", ra), func(s *mock.Store) ([]index.GeoID, error) {
			return timed(s).GeoTimeIdsRadiusQuery(index.MaxGeoTime, index.MinGeoTime, pl.lat, pl.lng, ra)
		})
	}
	for _, d := range []float64{0.01, 0.3} {
		d := d
		q(fmt.Sprintf("point.GeoIdsRectQuery(%v)", d), func(s *mock.Store) ([]index.GeoID, error) {
			return pt(s).GeoIdsRectQuery(pl.lat+d, pl.lng+d, pl.lat-d, pl.lng-d)
		})
		q(fmt.Sprintf("time.GeoTimeIdsRectQuery(%v)", d), func(s *mock.Store) ([]index.GeoID, error) {
			return timed(s).GeoTimeIdsRectQuery(index.MaxGeoTime, index.MinGeoTime, pl.lat+d, pl.lng+d, pl.lat-d, pl.lng-d)
		})
	}
	// the states
	populate := func(s *mock.Store) {
		for i, g := range gds[:8] {
			id := []byte(fmt.Sprint("id", i))
			if err := flat(s).GeoIndex(g, id); err != nil {
				panic(err)
			}
			if err := timed(s).GeoTimeIndex(g, time.Unix(int64(i), 0), id); err != nil {
				panic(err)
			}
			if len(g.Geometry.Coordinates) > 1 {
				if _, err := pt(s).PointIndex(g.Geometry.Coordinates[1], g.Geometry.Coordinates[0], id); err != nil {
					panic(err)
				}
			}
		}
		s.Trouble()
	}
	states := []string{"empty", "populated", "corrupt first", "corrupt middle", "corrupt last"}
	var dumps []map[string]string
	for si := range states {
		s := mock.New()
		if si > 0 {
			populate(s)
		}
		if si > 1 {
			for i, k := range keysOf(s.Dump()) {
				// an entry cut short right after the cell (and time): it cannot be read back
				n := map[byte]int{'F': 9, 'P': 9, 'T': 17}[k[0]]
				switch {
				case si == 2: // sorts before the good entry
					s.Put(k[:n], "")
				case si == 3 && i%3 == 1:
					s.Put(k[:n], "")
				case si == 4 && i%5 == 4:
					s.Put(k[:n], "")
				}
			}
		}
		dumps = append(dumps, s.Dump())
	}
	rep.Par(len(ops), func(oi int) {
		op := ops[oi]
		var clean map[string]int // what it returns without unreadable entries
		for si, st := range states {
			if r.Stop() {
				return
			}
			run := func(fail []int) (ids []index.GeoID, err error, s *mock.Store, msg string) {
				s = mock.New()
				s.Restore(dumps[si])
				s.Arm(fail...)
				msg = rep.Guard(hang, func() string {
					ids, err = op.run(s)
					return ""
				})
				r.Eval(1)
				r.State(fmt.Sprint(op.name, st, fail))
				if msg == "" {
					if m := s.Trouble(); m != "" {
						msg = "misuse of the store: " + m
					}
				}
				return
			}
			where := fmt.Sprintf("%s/%s", op.name, st)
			if !r.Case(where) {
				continue
			}
			ids0, err0, s0, msg := run(nil)
			if si == 1 {
				clean = toSet(ids0)
			}
			if si > 1 && msg == "" && !op.write && err0 == nil {
				have := map[string]int{}
				for k, n := range toSet(ids0) {
					have[k] = n
				}
				for k := range clean {
					if have[k] == 0 {
						msg = fmt.Sprintf("it returned %v without an error; without the unreadable entries it returns %v", toSet(ids0), clean)
						break
					}
				}
			}
			after := s0.Dump()
			if msg == "" && op.write && err0 != nil && fmt.Sprint(after) != fmt.Sprint(dumps[si]) {
				msg = fmt.Sprintf("it returned an error (%v) but changed the store", err0)
			}
			if msg == "" && !op.write && fmt.Sprint(after) != fmt.Sprint(dumps[si]) {
				msg = "a query changed the store"
			}
			if msg == "" && err0 != nil && len(ids0) != 0 {
				msg = fmt.Sprintf("it returned ids %v along with the error %v", toSet(ids0), err0)
			}
			if msg != "" {
				r.Violate(where, "%s on a store in state %q, no injected failure: %s", op.name, st, msg)
				continue
			}
			n := s0.Calls
			var sets [][]int
			for i := 1; i <= n; i++ {
				sets = append(sets, []int{i})
				for j := i + 1; j <= n; j++ {
					sets = append(sets, []int{i, j})
				}
			}
			for _, f := range sets {
				ids, err, s, msg := run(f)
				log := s.CallLog
				got := s.Dump()
				switch {
				case msg != "":
				case err == nil && len(log) < f[0]:
					// the failing call was not reached this time: then it is an ordinary run
					if fmt.Sprint(got) != fmt.Sprint(after) || !same(toSet(ids), toSet(ids0)) {
						msg = "a different outcome without any failure"
					}
				case err == nil:
					msg = fmt.Sprintf("no error although the call %d of %v failed; it returned %v", f[0], log, toSet(ids))
				case len(ids) != 0:
					msg = fmt.Sprintf("ids %v were returned along with the error %v", toSet(ids), err)
				case fmt.Sprint(got) != fmt.Sprint(dumps[si]) && fmt.Sprint(got) != fmt.Sprint(after):
					msg = fmt.Sprintf("after the failure of call %d of %v, %d of %d new entries are stored", f[0], log, len(got)-len(dumps[si]), len(after)-len(dumps[si]))
				case fmt.Sprint(got) != fmt.Sprint(dumps[si]) && err != nil && op.write && len(after) != len(dumps[si]):
					msg = fmt.Sprintf("it returned the error %v but stored its entries", err)
				}
				if msg != "" {
					r.Violate(where+fmt.Sprint(f), "%s on a store in state %q, failing calls %v: %s", op.name, st, f, msg)
				}
				r.Sample(func() interface{} {
					return map[string]interface{}{"operation": op.name, "state": st, "failing": f, "calls": log}
				})
			}
		}
	})
	i07Sequences(r, gds[:3], cells, pl, level)
	r.Finish()
}

// trio are index objects used for several operations.
type trio struct {
	flat  *index.S2FlatIdx
	pt    *index.S2PointIdx
	timed *index.S2FlatTimeIdx
}

func newTrio(s *mock.Store, level int) *trio {
	return &trio{index.NewS2FlatIdx(s, []byte("F"), level), index.NewS2PointIdx(s, []byte("P")), index.NewS2FlatTimeIdx(s, []byte("T"), level)}
}

// i07Sequences: every sequence of operations on the same index objects, with every call and every pair of calls
// failing; an operation without a failing call must behave as on fresh index objects.
func i07Sequences(r *rep.R, gds []*geodata.GeoData, cells []s2.CellID, pl place, level int) {
	type op struct {
		name string
		run  func(x *trio) ([]index.GeoID, error)
	}
	max, min := index.MaxGeoTime, index.MinGeoTime
	ops := []op{
		{"flat.GeoIndex", func(x *trio) ([]index.GeoID, error) { return nil, x.flat.GeoIndex(gds[1], []byte("n1")) }},
		{"flat.GeoIndex(other)", func(x *trio) ([]index.GeoID, error) { return nil, x.flat.GeoIndex(gds[2], []byte("n2")) }},
		{"flat.GeoIndex(nil)", func(x *trio) ([]index.GeoID, error) { return nil, x.flat.GeoIndex(nil, []byte("n2")) }},
		{"time.GeoTimeIndex", func(x *trio) ([]index.GeoID, error) {
			return nil, x.timed.GeoTimeIndex(gds[1], time.Unix(7, 0), []byte("n1"))
		}},
		{"point.PointIndex", func(x *trio) ([]index.GeoID, error) {
			_, err := x.pt.PointIndex(pl.lat, pl.lng, []byte("n1"))
			return nil, err
		}},
		{"point.GeoPointIndex", func(x *trio) ([]index.GeoID, error) {
			_, err := x.pt.GeoPointIndex(gds[0], []byte("n3"))
			return nil, err
		}},
		{"flat.GeoIdsAtCell", func(x *trio) ([]index.GeoID, error) { return x.flat.GeoIdsAtCell(cells[0]) }},
		{"flat.GeoIdsAtCells", func(x *trio) ([]index.GeoID, error) { return x.flat.GeoIdsAtCells(cells[:3]) }},
		{"flat.GeoIdsRadiusQuery", func(x *trio) ([]index.GeoID, error) { return x.flat.GeoIdsRadiusQuery(pl.lat, pl.lng, 5000) }},
		{"point.GeoIdsAtCell", func(x *trio) ([]index.GeoID, error) { return x.pt.GeoIdsAtCell(cells[0].Parent(2)) }},
		{"point.GeoIdsAtCells", func(x *trio) ([]index.GeoID, error) { return x.pt.GeoIdsAtCells(cells[:3]) }},
		{"point.GeoIdsRadiusQuery", func(x *trio) ([]index.GeoID, error) { return x.pt.GeoIdsRadiusQuery(pl.lat, pl.lng, 5000) }},
		{"point.GeoIdsRectQuery", func(x *trio) ([]index.GeoID, error) {
			return x.pt.GeoIdsRectQuery(pl.lat+.1, pl.lng+.1, pl.lat-.1, pl.lng-.1)
		}},
		{"time.GeoTimeIdsAtCell", func(x *trio) ([]index.GeoID, error) { return x.timed.GeoTimeIdsAtCell(cells[0], max, min) }},
		{"time.GeoTimeIdsAtCells", func(x *trio) ([]index.GeoID, error) { return x.timed.GeoTimeIdsAtCells(cells[:3], max, min) }},
		{"time.GeoTimeIdsRectQuery", func(x *trio) ([]index.GeoID, error) {
			return x.timed.GeoTimeIdsRectQuery(max, min, pl.lat+.1, pl.lng+.1, pl.lat-.1, pl.lng-.1)
		}},
	}
	start := mock.New()
	x := newTrio(start, level)
	for i, g := range gds {
		id := []byte(fmt.Sprint("id", i))
		x.flat.GeoIndex(g, id)
		x.timed.GeoTimeIndex(g, time.Unix(int64(i), 0), id)
		x.pt.PointIndex(g.Geometry.Coordinates[1], g.Geometry.Coordinates[0], id)
	}
	base := start.Dump()
	var seqs [][]int
	for n := 2; n <= r.Pick(4, 5); n++ {
		product(len(ops), n, func(ix []int) { seqs = append(seqs, append([]int{}, ix...)) })
	}
	rep.Par(len(seqs), func(qi int) {
		seq := seqs[qi]
		if r.Stop() || !r.Case(fmt.Sprint("sequence/", seq)) {
			return
		}
		run := func(fail []int) (int, string) {
			s := mock.New()
			s.Restore(base)
			x := newTrio(s, level)
			s.Arm(fail...)
			k := &keeper{}
			hist := ""
			msg := rep.Guard(hang, func() string {
				for _, o := range seq {
					hist += " " + ops[o].name
					before := s.Dump()
					from := s.Calls
					ids, err := ops[o].run(x)
					to := s.Calls
					if m := s.Trouble(); m != "" {
						return "misuse of the store: " + m
					}
					got := fmt.Sprint(s.Dump())
					failed := false
					for _, f := range fail {
						failed = failed || f > from && f <= to
					}
					if failed {
						if err == nil {
							return fmt.Sprintf("no error although the store refused; it returned %v", toSet(ids))
						}
						if len(ids) > 0 {
							return fmt.Sprintf("ids %v were returned along with the error %v", toSet(ids), err)
						}
						if got != fmt.Sprint(before) {
							return fmt.Sprintf("it returned the error %v but changed the store", err)
						}
						continue
					}
					ref := mock.New()
					ref.Restore(before)
					wids, werr := ops[o].run(newTrio(ref, level))
					if (err == nil) != (werr == nil) || !same(toSet(ids), toSet(wids)) || got != fmt.Sprint(ref.Dump()) {
						return fmt.Sprintf("ids %v, error %v, contents as expected: %v; on fresh index objects: ids %v, error %v", toSet(ids), err, got == fmt.Sprint(ref.Dump()), toSet(wids), werr)
					}
					k.keep(ids)
				}
				return k.check()
			})
			r.Eval(1)
			r.State(fmt.Sprint(seq, fail))
			if msg != "" {
				r.Violate(fmt.Sprint("sequence/", seq, fail), "operations on the same index objects%s, failing calls %v: %s", hist, fail, msg)
			}
			return s.Calls, msg
		}
		n, msg := run(nil)
		if msg != "" {
			return
		}
		for i := 1; i <= n; i++ {
			if _, msg := run([]int{i}); msg != "" {
				return
			}
			for j := i + 1; j <= n; j++ {
				if _, msg := run([]int{i, j}); msg != "" {
					return
				}
			}
		}
	})
}

func keysOf(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sortStrings(k)
	return k
}
