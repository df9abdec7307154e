package main

import (
	"fmt"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

// pointModel: leaf -> ids.
type pointModel map[s2.CellID]idset

func (m pointModel) add(leaf s2.CellID, id string) {
	if m[leaf] == nil {
		m[leaf] = idset{}
	}
	m[leaf][id] = 1
}

// at: every (position, id) in the cell once.
func (m pointModel) at(c s2.CellID) idset {
	u := idset{}
	for l, ids := range m {
		if c.RangeMin() <= l && l <= c.RangeMax() {
			for id := range ids {
				u[id]++
			}
		}
	}
	return u
}

func (m pointModel) union(cells []s2.CellID) idset {
	u := idset{}
	for _, c := range cells {
		for id := range m.at(c) {
			u[id] = 1
		}
	}
	return u
}

type pos struct {
	lat, lng float64
	leaf     s2.CellID
}

// posOf finds coordinates that lie in the leaf.
func posOf(leaf s2.CellID) (pos, bool) {
	ll := leaf.LatLng()
	p := pos{ll.Lat.Degrees(), ll.Lng.Degrees(), leaf}
	return p, s2.CellIDFromLatLng(s2.LatLngFromDegrees(p.lat, p.lng)) == leaf
}

func checkPoints(idx *index.S2PointIdx, m pointModel, cells []s2.CellID, k *keeper, pairs bool) string {
	for _, c := range cells {
		ids, err := idx.GeoIdsAtCell(c)
		if err != nil {
			return fmt.Sprintf("GeoIdsAtCell(%v): %v", c, err)
		}
		if want, got := m.at(c), toSet(ids); !same(want, got) {
			return fmt.Sprintf("GeoIdsAtCell(%v), level %d: expected %v, observed %v", c, c.Level(), want, got)
		}
		k.keep(ids)
	}
	groups := [][]s2.CellID{nil, {}, cells}
	if pairs {
		for i := range cells {
			for j := range cells {
				groups = append(groups, []s2.CellID{cells[i], cells[j]})
			}
		}
	} else {
		for i := range cells {
			groups = append(groups, []s2.CellID{cells[i], cells[len(cells)-1-i]})
		}
	}
	for _, g := range groups {
		ids, err := idx.GeoIdsAtCells(g)
		if err != nil {
			return fmt.Sprintf("GeoIdsAtCells(%v): %v", g, err)
		}
		if want, got := m.union(g), toSet(ids); !same(want, got) {
			return fmt.Sprintf("GeoIdsAtCells(%v): expected %v, observed %v", g, want, got)
		}
		k.keep(ids)
	}
	return k.check()
}

func i02() {
	r := rep.New("I02", "model_checking", "for cells of every level on every face (first, last, middle, around antimeridian and poles): every history of up to three insertions over the first and last leaf of the cell, the leaves just outside and inner ones, with several ids and repetitions, through both insertion functions, on the strict mock and the real engines; every ancestor, the neighbours, faces and leaves are queried alone and together and compared with the model; returned keys are compared with computed ones")
	var bases []s2.CellID
	for f := 0; f < 6; f++ {
		c := s2.CellIDFromFace(f)
		for l := 0; l <= 30; l++ {
			if r.Thorough() || (l+f)%2 == 0 || l <= 2 || l >= 28 {
				bases = append(bases, c.ChildBeginAtLevel(l), c.ChildEndAtLevel(l).Prev())
				mid := s2.CellIDFromFacePosLevel(f, 0x155555555555555, l)
				bases = append(bases, mid)
			}
		}
	}
	for _, pl := range places {
		for l := 0; l <= 30; l++ {
			if r.Thorough() || l%2 == 1 {
				bases = append(bases, s2.CellIDFromLatLng(s2.LatLngFromDegrees(pl.lat, pl.lng)).Parent(l))
			}
		}
	}
	bases = cellSet(bases)
	r.Extra["cells"] = len(bases)
	for _, name := range targets {
		p := &pool{r: r, name: name}
		rep.Par(len(bases), func(bi int) {
			base := bases[bi]
			if name != "mock" && !r.Thorough() && bi%4 != 0 {
				return
			}
			lo, hi := base.RangeMin(), base.RangeMax()
			mid := s2.CellID((uint64(lo)/2 + uint64(hi)/2) | 1)
			var ps []pos
			for _, l := range []s2.CellID{lo, hi, lo.Prev(), hi.Next(), mid, lo.Next(), hi.Prev()} {
				if !l.IsValid() || !l.IsLeaf() {
					continue
				}
				if q, ok := posOf(l); ok {
					ps = append(ps, q)
				}
			}
			if len(ps) < 2 {
				return
			}
			var cells []s2.CellID
			for _, q := range ps[:min(len(ps), 4)] {
				for l := 0; l <= 30; l++ {
					if l == base.Level() || l == 0 || l == 30 || l == base.Level()+1 || l == base.Level()-1 || (l+bi)%6 == 0 {
						cells = append(cells, q.leaf.Parent(l))
					}
				}
			}
			for _, c := range []s2.CellID{base.Next(), base.Prev(), lo.Next(), hi.Prev()} {
				if c.IsValid() {
					cells = append(cells, c)
				}
			}
			for f := 0; f < 6; f++ {
				cells = append(cells, s2.CellIDFromFace(f))
			}
			cells = cellSet(cells)
			type op struct {
				p   int
				id  string
				geo bool
			}
			var al []op
			for i := range ps {
				al = append(al, op{i, oddIDs[i%2], i%2 == 0})
				if i < 3 {
					al = append(al, op{i, oddIDs[3], i%2 == 1})
				}
			}
			depth := 2
			if name == "mock" && (r.Thorough() || bi%3 == 0) {
				depth = 3
			}
			local := map[uint64]struct{}{}
			for n := 1; n <= depth; n++ {
				product(len(al), n, func(ix []int) {
					if r.Stop() {
						return
					}
					key := fmt.Sprintf("%s/%s/%v", name, base.ToToken(), ix)
					hist := ""
					p.run(key, func(t *target) string {
						idx := index.NewS2PointIdx(t.s, []byte("P"))
						m := pointModel{}
						k := &keeper{}
						for _, a := range ix {
							o := al[a]
							q := ps[o.p]
							hist += fmt.Sprintf(" insert(%v,%v leaf %v, %q)", q.lat, q.lng, q.leaf, o.id)
							var kb, kb2 []byte
							var err, err2 error
							if o.geo {
								kb, err = idx.GeoPointIndex(point(q.lat, q.lng), []byte(o.id))
								kb2 = idx.PointKey(q.lat, q.lng, []byte(o.id))
							} else {
								kb, err = idx.PointIndex(q.lat, q.lng, []byte(o.id))
								kb2, err2 = idx.GeoPointKey(point(q.lat, q.lng), []byte(o.id))
							}
							if err != nil || err2 != nil {
								return fmt.Sprint(hist, ": ", err, err2)
							}
							if string(kb) != string(kb2) {
								return fmt.Sprintf("%s: the key returned on insertion is %x, the computed one %x", hist, kb, kb2)
							}
							rd, err := t.s.Reader()
							if err != nil {
								return err.Error()
							}
							v, err := rd.Get(kb)
							rd.Close()
							if err != nil || v == nil {
								return fmt.Sprintf("%s: nothing is stored under the returned key %x (error %v)", hist, kb, err)
							}
							m.add(q.leaf, o.id)
							r.Trans(1)
						}
						if msg := checkPoints(idx, m, cells, k, n == 1 && bi%9 == 0 && name == "mock"); msg != "" {
							return fmt.Sprintf("cell %v (level %d), history%s:\n%s", base, base.Level(), hist, msg)
						}
						local[rep.Hash(fmt.Sprint(m))] = struct{}{}
						r.Trace(1)
						return ""
					})
					r.Sample(func() interface{} {
						return map[string]interface{}{"store": name, "cell": base.String(), "history": hist}
					})
				})
			}
			r.States(local)
		})
		p.closeAll()
	}
	// long ids, and many points in few cells
	for _, name := range targets {
		p := &pool{r: r, name: name}
		for _, s := range bigScenes(r) {
			s := s
			p.run(name+"/"+s.name, func(t *target) string {
				idx := index.NewS2PointIdx(t.s, []byte("P"))
				m := pointModel{}
				var cells []s2.CellID
				for i, in := range s.ins {
					co := in.gd.Geometry.Coordinates
					if in.gd.Geometry.Type != geodata.Geometry_POINT {
						continue
					}
					// every third insertion on a place of its own
					lat, lng := co[1]+float64(i%3)*1e-7*float64(i), co[0]
					k, err := idx.PointIndex(lat, lng, []byte(in.id))
					if err != nil {
						return fmt.Sprintf("%s: insertion %d: %v", s.name, i, err)
					}
					if string(k) != string(idx.PointKey(lat, lng, []byte(in.id))) {
						return fmt.Sprintf("%s: insertion %d: the returned key is not the computed one", s.name, i)
					}
					leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
					m.add(leaf, in.id)
					if i < 5 {
						for l := 0; l <= 30; l += 3 {
							cells = append(cells, leaf.Parent(l))
						}
					}
					r.Trans(1)
				}
				if len(cells) == 0 {
					return ""
				}
				r.State(s.name)
				r.Trace(1)
				if msg := checkPoints(idx, m, cellSet(cells), &keeper{}, false); msg != "" {
					if len(msg) > 2000 {
						msg = msg[:2000]
					}
					return s.name + ": " + msg
				}
				return ""
			})
		}
		// a query of very many cells
		p.run(name+"/many cells", func(t *target) string {
			idx := index.NewS2PointIdx(t.s, []byte("P"))
			m := pointModel{}
			var cells []s2.CellID
			for i := 0; i < 300; i++ {
				lat, lng := float64(i*37%160)-80, float64(i*101%358)-179
				if _, err := idx.PointIndex(lat, lng, []byte(fmt.Sprint(i))); err != nil {
					return err.Error()
				}
				leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng))
				m.add(leaf, fmt.Sprint(i))
				for l := 3; l <= 30; l += 9 {
					cells = append(cells, leaf.Parent(l))
				}
			}
			for n := 1; n <= len(cells); n += 1 + n/3 {
				ids, err := idx.GeoIdsAtCells(cells[:n])
				if err != nil {
					return err.Error()
				}
				if got, want := toSet(ids), m.union(cells[:n]); !same(got, want) {
					return fmt.Sprintf("GeoIdsAtCells of %d cells: %d ids expected, %d observed", n, len(want), len(got))
				}
				r.Trans(1)
			}
			return ""
		})
		p.closeAll()
	}
	r.Finish()
}
