package main

import (
	"fmt"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

var oddIDs = []string{"a", "ab", "\x00", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "a\x00"}

// flatModel: cell -> ids.
type flatModel map[s2.CellID]idset

func (m flatModel) add(cells []s2.CellID, id string) {
	for _, c := range cells {
		if m[c] == nil {
			m[c] = idset{}
		}
		m[c][id] = 1
	}
}

func (m flatModel) union(cells []s2.CellID) idset {
	u := idset{}
	for _, c := range cells {
		for id := range m[c] {
			u[id] = 1
		}
	}
	return u
}

// checkFlat compares every query over the cells with the model.
func checkFlat(idx *index.S2FlatIdx, level int, m flatModel, cells []s2.CellID, k *keeper, pairs bool) string {
	for _, c := range cells {
		ids, err := idx.GeoIdsAtCell(c)
		if err != nil {
			return fmt.Sprintf("GeoIdsAtCell(%v): %v", c, err)
		}
		want := m[c]
		if got := toSet(ids); !same(want, got) {
			return fmt.Sprintf("GeoIdsAtCell(%v): expected %v, observed %v", c, want, got)
		}
		k.keep(ids)
	}
	groups := [][]s2.CellID{nil, {}, cells, append(append([]s2.CellID{}, cells...), cells...)}
	if pairs {
		for i := range cells {
			for j := range cells {
				groups = append(groups, []s2.CellID{cells[i], cells[j]})
			}
		}
	}
	for _, g := range groups {
		ids, err := idx.GeoIdsAtCells(g)
		if err != nil {
			return fmt.Sprintf("GeoIdsAtCells(%v): %v", g, err)
		}
		if want, got := m.union(g), toSet(ids); !same(want, got) {
			return fmt.Sprintf("GeoIdsAtCells(%v): expected %v, observed %v", g, want, got)
		}
		k.keep(ids)
	}
	// other levels are refused, alone and among good cells
	for _, c := range cells {
		var bad []s2.CellID
		if level > 0 {
			bad = append(bad, c.Parent(level-1), c.Parent(0))
		}
		if level < 30 {
			bad = append(bad, c.ChildBegin(), c.RangeMin(), c.RangeMax())
		}
		for _, b := range bad {
			if b.Level() == level {
				continue
			}
			if ids, err := idx.GeoIdsAtCell(b); err == nil {
				return fmt.Sprintf("GeoIdsAtCell(%v) of level %d on an index of level %d: no error, ids %v", b, b.Level(), level, toSet(ids))
			}
			for _, g := range [][]s2.CellID{{b}, {c, b}, {b, c}} {
				if ids, err := idx.GeoIdsAtCells(g); err == nil {
					return fmt.Sprintf("GeoIdsAtCells(%v) on an index of level %d: no error, ids %v", g, level, toSet(ids))
				}
			}
		}
		if !pairs {
			break
		}
	}
	return k.check()
}

// insertion of a geometry.
type insertion struct {
	gd *geodata.GeoData
	id string
}

type bigScene struct {
	name  string
	level int
	ins   []insertion
}

// bigScenes are histories whose size in one dimension goes far beyond the small scopes.
func bigScenes(r *rep.R) []bigScene {
	var out []bigScene
	for _, n := range []int{41, 55, 56, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 1023, 1024, 1025, 4096, 30000} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*31 + n)
		}
		long := string(b)
		out = append(out, bigScene{fmt.Sprintf("ids of %d bytes", n), 10, []insertion{{point(1, 2), long}, {point(1, 2), long[:n-1]}, {point(1, 2), long[:n-1] + "\x00"}, {point(1, 2), "x" + long[1:]}, {point(1.5, 2.5), long}}})
	}
	for _, n := range []int{10, 99, 100, 101, 128, 256, 257, 999, 1000, 1001, 1025, r.Pick(2500, 20000)} {
		s := bigScene{fmt.Sprintf("%d ids in one cell", n), 10, nil}
		for i := 0; i < n; i++ {
			s.ins = append(s.ins, insertion{point(1, 2), fmt.Sprint("id", i*7919%n)})
		}
		out = append(out, s)
	}
	for _, d := range []float64{0.2, 0.6, 1.5, 3} { // tens to thousands of cells
		la, ln := 10.01, 20.02
		sq := func(d, o float64) *geodata.GeoData {
			return shape(geodata.Geometry_POLYGON, la+o, ln+o, la+o, ln+o+d, la+o+d, ln+o+d, la+o+d, ln+o)
		}
		out = append(out, bigScene{fmt.Sprintf("squares of %v degrees", d), 10, []insertion{
			{sq(d, 0), "one"}, {sq(d, d/2), "two"}, {point(la+d/2, ln+d/2), "p"}, {shape(geodata.Geometry_LINESTRING, la, ln, la+d, ln+d), "line"},
			{multi([]float64{la, ln, la, ln + d, la + d, ln}, []float64{la + d, ln + d, la + d, ln + 2*d, la + 2*d, ln + 2*d}), "multi"}}})
	}
	return out
}

type place struct{ lat, lng float64 }

// places: ordinary, cube face edges and corners, the antimeridian, the poles.
var places = []place{{46.8, -71.2}, {0, 45}, {35.26439, 45}, {10, 180}, {-10, -179.9999}, {89.5, 20}, {-89.9, -120}, {0, 0}}

func i01() {
	r := rep.New("I01", "model_checking", "every history of up to three indexing operations (seven shapes x ids, including repeated, refused and empty ids) at several places on the globe and index levels on the strict mock store, shorter ones on the real engines; after the history every cell of every cover and its neighbours is queried alone, in all pairs and together, wrong levels included, and compared with the map cell -> ids")
	type sc struct {
		pl    place
		level int
	}
	var scs []sc
	for _, p := range places {
		for _, l := range []int{0, 1, 3, 7, 10, 15, 18, 24, 29, 30} {
			scs = append(scs, sc{p, l})
		}
	}
	for _, name := range targets {
		p := &pool{r: r, name: name}
		rep.Par(len(scs), func(si int) {
			s := scs[si]
			gds := shapes(s.pl.lat, s.pl.lng, s.level)
			if s.level == 0 {
				gds = []*geodata.GeoData{gds[0], gds[2], gds[4]}
			}
			covers := make([][]s2.CellID, len(gds))
			var cells []s2.CellID
			for i, g := range gds {
				cu, err := coverAt(g, s.level)
				if err != nil {
					r.Violate(fmt.Sprintf("cover/%v/%d", s, i), "covering shape %d at %v failed: %v", i, s, err)
					return
				}
				covers[i] = cu
				if len(cu) > 40 {
					return // nothing to gain here
				}
				cells = append(cells, cu...)
			}
			// neighbours, and cells with nothing in them
			for _, c := range covers[0] {
				nb := c.EdgeNeighbors()
				cells = append(cells, nb[:]...)
				cells = append(cells, c.Next(), c.Prev())
			}
			valid := cells[:0]
			for _, c := range cells {
				if c.IsValid() && c.Level() == s.level {
					valid = append(valid, c)
				}
			}
			cells = cellSet(valid)
			type op struct {
				g  int
				id string
			}
			var al []op
			nid := 2
			if name == "mock" {
				nid = 3
			}
			for g := range gds {
				for i := 0; i < nid; i++ {
					al = append(al, op{g, oddIDs[(i+g/3)%len(oddIDs)]})
				}
			}
			depth := 2
			if name == "mock" {
				depth = r.Pick(2, 3)
				if si%3 == 0 {
					depth = 3
				}
			} else if !r.Thorough() {
				if si%4 != 0 {
					return
				}
			}
			local := map[uint64]struct{}{}
			for n := 1; n <= depth; n++ {
				product(len(al), n, func(ix []int) {
					if r.Stop() {
						return
					}
					key := fmt.Sprintf("%s/%d/%v", name, si, ix)
					hist := ""
					p.run(key, func(t *target) string {
						idx := index.NewS2FlatIdx(t.s, []byte("P"), s.level)
						m := flatModel{}
						k := &keeper{}
						for _, a := range ix {
							o := al[a]
							hist += fmt.Sprintf(" index(shape %d, %q)", o.g, o.id)
							if err := idx.GeoIndex(gds[o.g], []byte(o.id)); err != nil {
								return hist + ": " + err.Error()
							}
							m.add(covers[o.g], o.id)
							r.Trans(1)
						}
						cu, err := idx.Covering(gds[al[ix[0]].g])
						if err != nil || fmt.Sprint(cellSet(cu)) != fmt.Sprint(cellSet(covers[al[ix[0]].g])) {
							return fmt.Sprintf("Covering: %v, error %v, expected %v", cu, err, covers[al[ix[0]].g])
						}
						if msg := checkFlat(idx, s.level, m, cells, k, n == 1 && name == "mock"); msg != "" {
							return fmt.Sprintf("level %d, place %v, history%s:\n%s", s.level, s.pl, hist, msg)
						}
						local[rep.Hash(fmt.Sprint(si, m))] = struct{}{}
						r.Trace(1)
						return ""
					})
					r.Sample(func() interface{} {
						return map[string]interface{}{"store": name, "level": s.level, "place": s.pl, "history": hist}
					})
				})
			}
			r.States(local)
		})
		p.closeAll()
	}
	// long ids, many ids in one cell, geometries of many cells, queries of many cells
	for _, name := range targets {
		p := &pool{r: r, name: name}
		for _, s := range bigScenes(r) {
			s := s
			p.run(name+"/"+s.name, func(t *target) string {
				idx := index.NewS2FlatIdx(t.s, []byte("P"), s.level)
				m := flatModel{}
				var cells []s2.CellID
				for i, in := range s.ins {
					if err := idx.GeoIndex(in.gd, []byte(in.id)); err != nil {
						return fmt.Sprintf("%s: insertion %d: %v", s.name, i, err)
					}
					cu, err := coverAt(in.gd, s.level)
					if err != nil {
						return err.Error()
					}
					m.add(cu, in.id)
					cells = append(cells, cu...)
					r.Trans(1)
				}
				cells = cellSet(cells)
				r.State(s.name)
				r.Trace(1)
				if msg := checkFlat(idx, s.level, m, cells, &keeper{}, false); msg != "" {
					if len(msg) > 2000 {
						msg = msg[:2000]
					}
					return s.name + ": " + msg
				}
				return ""
			})
		}
		p.closeAll()
	}
	// refused insertions store nothing; ids of every length up to 20 and every byte value
	p := &pool{r: r, name: "mock"}
	p.run("mock/ids", func(t *target) string {
		idx := index.NewS2FlatIdx(t.s, []byte("P"), 10)
		m := flatModel{}
		k := &keeper{}
		g := point(1, 2)
		cu, _ := coverAt(g, 10)
		for _, id := range [][]byte{nil, {}} {
			if err := idx.GeoIndex(g, id); err == nil {
				return "an empty id was accepted"
			}
		}
		if len(t.mk.Dump()) != 0 {
			return "a refused insertion stored something"
		}
		for b := 0; b < 256; b++ {
			for n := 1; n <= 3; n++ {
				id := make([]byte, n)
				for i := range id {
					id[i] = byte(b)
				}
				if err := idx.GeoIndex(g, id); err != nil {
					return err.Error()
				}
				m.add(cu, string(id))
			}
		}
		for n := 4; n <= 40; n++ {
			id := make([]byte, n)
			for i := range id {
				id[i] = byte(i * 7)
			}
			if err := idx.GeoIndex(g, id); err != nil {
				return err.Error()
			}
			m.add(cu, string(id))
			r.Trans(1)
		}
		return checkFlat(idx, 10, m, cu, k, true)
	})
	r.Finish()
}
