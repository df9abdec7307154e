package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/eng"
	"verif/mc/rep"
)

// guarded gives a copy of b whose spare capacity is filled with a canary; check tells whether anything changed.
type guarded struct {
	b, whole []byte
	want     []byte
}

func guard(s string) *guarded {
	g := &guarded{whole: append([]byte(s), 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3)}
	g.b = g.whole[:len(s)]
	g.want = append([]byte{}, g.whole...)
	return g
}

func (g *guarded) check(what string) string {
	if !bytes.Equal(g.whole, g.want) {
		return fmt.Sprintf("%s changed from %q to %q", what, g.want, g.whole)
	}
	return ""
}

func (g *guarded) garbage() {
	for i := range g.whole {
		g.whole[i] = 'Z'
	}
	g.want = append([]byte{}, g.whole...)
}

type coordGuard struct {
	c, whole, want []float64
}

func guardCoords(c []float64) *coordGuard {
	g := &coordGuard{whole: append(append([]float64{}, c...), 7, 7, 7, 7)}
	g.c = g.whole[:len(c)]
	g.want = append([]float64{}, g.whole...)
	return g
}

func (g *coordGuard) check() string {
	for i := range g.whole {
		if g.whole[i] != g.want[i] {
			return fmt.Sprintf("coordinates changed from %v to %v", g.want, g.whole)
		}
	}
	return ""
}

// oneIndex is an index of one kind under a prefix with its model.
type oneIndex struct {
	kind   int
	prefix string
	flat   *index.S2FlatIdx
	pt     *index.S2PointIdx
	timed  *index.S2FlatTimeIdx
	fm     flatModel
	pm     pointModel
	base   int64 // of the times of events
}

const i06Level = 10

// wideCells: all faces, and the first and last cells of them at some levels.
var wideCells = func() []s2.CellID {
	var out []s2.CellID
	for f := 0; f < 6; f++ {
		c := s2.CellIDFromFace(f)
		out = append(out, c, c.ChildBeginAtLevel(1), c.ChildEndAtLevel(1).Prev(), c.RangeMin(), c.RangeMax(), c.ChildEndAtLevel(15).Prev())
	}
	return out
}()

var i06Shapes = shapes(35.2, 44.9, i06Level)[:3]

func (o *oneIndex) insert(g int, id *guarded) string {
	gd := i06Shapes[g]
	cg := guardCoords(gd.Geometry.Coordinates)
	in := &geodata.GeoData{Geometry: &geodata.Geometry{Type: gd.Geometry.Type, Coordinates: cg.c}}
	var err error
	switch o.kind {
	case 0:
		err = o.flat.GeoIndex(in, id.b)
		cu, _ := coverAt(gd, i06Level)
		o.fm.add(cu, string(id.b))
	case 1:
		var k []byte
		ll := s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0])
		if g == 0 {
			k, err = o.pt.GeoPointIndex(in, id.b)
		} else {
			k, err = o.pt.PointIndex(ll.Lat.Degrees(), ll.Lng.Degrees(), id.b)
		}
		o.pm.add(s2.CellIDFromLatLng(ll), string(id.b))
		if err == nil {
			// the returned key is the caller's: scribbling on it must not matter
			k = append(k, "scribble"...)
			for i := range k {
				k[i] = 'k'
			}
		}
	case 2:
		err = o.timed.GeoTimeIndex(in, time.Unix(0, o.base+int64(g)), id.b)
		cu, _ := coverAt(gd, i06Level)
		o.fm.add(cu, string(id.b))
	}
	if err != nil {
		return err.Error()
	}
	return cg.check()
}

func (o *oneIndex) check(cells []s2.CellID) string {
	for _, c := range append([]s2.CellID{}, cells...) {
		var ids []index.GeoID
		var err error
		var want idset
		switch o.kind {
		case 0:
			ids, err = o.flat.GeoIdsAtCell(c)
			want = o.fm[c]
		case 1:
			ids, err = o.pt.GeoIdsAtCell(c)
			want = o.pm.at(c)
		case 2:
			ids, err = o.timed.GeoTimeIdsAtCell(c, index.MaxGeoTime, time.Unix(0, -1))
			want = o.fm[c]
			if err == nil {
				got := toSet(ids)
				for id := range got {
					got[id] = 1
				}
				if same(got, want) {
					ids, err = o.timed.GeoTimeIdsAtCell(c, index.MaxGeoTime, time.Unix(0, math.MinInt64))
				}
			}
		}
		if err != nil {
			return fmt.Sprintf("index of kind %d under %q, cell %v: %v", o.kind, o.prefix, c, err)
		}
		got := toSet(ids)
		if o.kind == 2 {
			for id := range got {
				got[id] = 1
			}
		}
		if !same(got, want) {
			return fmt.Sprintf("index of kind %d under %q, cell %v: expected %v, observed %v", o.kind, o.prefix, c, want, got)
		}
	}
	if o.kind == 1 {
		// cells of every level from the faces down, with and without a point inside
		for _, c := range wideCells {
			ids, err := o.pt.GeoIdsAtCell(c)
			if err != nil {
				return fmt.Sprintf("index of kind %d under %q, cell %v: %v", o.kind, o.prefix, c, err)
			}
			if got, want := toSet(ids), o.pm.at(c); !same(got, want) {
				return fmt.Sprintf("index of kind %d under %q, cell %v: expected %v, observed %v", o.kind, o.prefix, c, want, got)
			}
		}
		ids, err := o.pt.GeoIdsAtCells(wideCells)
		if err != nil {
			return fmt.Sprintf("index of kind %d under %q, many cells: %v", o.kind, o.prefix, err)
		}
		if got, want := toSet(ids), o.pm.union(wideCells); !same(got, want) {
			return fmt.Sprintf("index of kind %d under %q, many cells: expected %v, observed %v", o.kind, o.prefix, want, got)
		}
	}
	// the region forms, over everything around
	var ids []index.GeoID
	var err error
	all := idset{}
	switch o.kind {
	case 0:
		ids, err = o.flat.GeoIdsRadiusQuery(35.2, 44.9, 12000)
		for _, s := range o.fm {
			for id := range s {
				all[id] = 1
			}
		}
	case 1:
		ids, err = o.pt.GeoIdsRectQuery(35.3, 45.05, 35.1, 44.75)
		for _, s := range o.pm {
			for id := range s {
				all[id]++
			}
		}
		if err == nil && same(toSet(ids), all) {
			ids, err = o.pt.GeoIdsRadiusQuery(35.2, 44.9, 12000)
		}
		if err == nil && same(toSet(ids), all) {
			ids, err = o.pt.GeoIdsRadiusQuery(0, 0, 3e7)
		}
		if err == nil && same(toSet(ids), all) {
			ids, err = o.pt.GeoIdsRectQuery(90, 179.9, -90, -179.9)
		}
	case 2:
		ids, err = o.timed.GeoTimeIdsRadiusQuery(index.MaxGeoTime, time.Unix(0, -1), 35.2, 44.9, 12000)
		for _, s := range o.fm {
			for id := range s {
				all[id] = 1
			}
		}
		if err == nil && same(toSet(ids), all) {
			ids, err = o.timed.GeoTimeIdsRectQuery(index.MaxGeoTime, time.Unix(0, -1), 35.3, 45.05, 35.1, 44.75)
		}
	}
	if err != nil {
		return fmt.Sprintf("index of kind %d under %q, region query: %v", o.kind, o.prefix, err)
	}
	if got := toSet(ids); !same(got, all) {
		return fmt.Sprintf("index of kind %d under %q, region query: expected %v, observed %v", o.kind, o.prefix, all, got)
	}
	return ""
}

func i06() {
	r := rep.New("I06", "model_checking", "every pair of index kinds under every pair of prefixes from an adversarial set (no one a prefix of the other; adjacent, differing in the last byte, of different lengths, all 0x00 or 0xff, equal to cell bytes), in a store that also holds foreign entries around every key range; every history of up to three insertions through the two indexes, with ids equal to key fragments, all argument slices carrying canaries in their spare capacity and overwritten after the call; every query of both indexes and every foreign entry is checked; strict mock and real engines")
	var cells []s2.CellID
	for _, g := range i06Shapes {
		cu, err := coverAt(g, i06Level)
		if err != nil {
			panic(err)
		}
		cells = append(cells, cu...)
	}
	cells = append(cells, cells[0].Next(), cells[0].Prev())
	cells = cellSet(cells)
	be := func(c s2.CellID) string {
		var b [8]byte
		for i := range b {
			b[i] = byte(uint64(c) >> (56 - 8*uint(i)))
		}
		return string(b[:])
	}
	prefixes := []string{"a", "b", "ab\x00", "ab\x01", "\x00", "\xff", "\xff\xfe", "c" + be(cells[0]), be(cells[0])[:3], "d\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"}
	ids := []string{"x", be(cells[0]) + "y", "a", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"}
	type job struct {
		p1, p2 string
		k1, k2 int
		ops    []int
		real   int // longest history on the real engines
	}
	var jobs []job
	for i, p1 := range prefixes {
		for j, p2 := range prefixes {
			if strings.HasPrefix(p1, p2) || strings.HasPrefix(p2, p1) {
				continue
			}
			for k1 := 0; k1 < 3; k1++ {
				for k2 := 0; k2 < 3; k2++ {
					for n := 1; n <= 3; n++ {
						product(4, n, func(ix []int) {
							real := 1
							if (i+3)%len(prefixes) == j {
								real = 2
							}
							jobs = append(jobs, job{p1, p2, k1, k2, append([]int{}, ix...), real})
						})
					}
				}
			}
		}
	}
	r.Extra["prefix_pairs"] = len(prefixes) * (len(prefixes) - 1)
	for _, name := range targets {
		p := &pool{r: r, name: name}
		rep.Par(len(jobs), func(ji int) {
			j := jobs[ji]
			if r.Stop() || name != "mock" && !r.Thorough() && len(j.ops) > j.real {
				return
			}
			p.run(fmt.Sprintf("%s/%d", name, ji), func(t *target) string {
				foreign := eng.Model{}
				for _, px := range []string{j.p1, j.p2} {
					// neighbours of the prefix: never extensions of it
					last := px[len(px)-1]
					if last < 0xff {
						foreign[px[:len(px)-1]+string([]byte{last + 1})] = "above"
						foreign[px[:len(px)-1]+string([]byte{last + 1})+be(cells[0])+"id"] = "above"
					}
					if last > 0 {
						foreign[px[:len(px)-1]+string([]byte{last - 1})+"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"] = "below"
						foreign[px[:len(px)-1]+string([]byte{last - 1})] = ""
					}
					if len(px) > 1 {
						foreign[px[:len(px)-1]] = "shorter"
					}
				}
				foreign["zz"+be(cells[0])+"id"] = "z"
				for k := range foreign {
					if strings.HasPrefix(k, j.p1) || strings.HasPrefix(k, j.p2) || k == "" {
						delete(foreign, k)
					}
				}
				if err := eng.Put(t.s, foreign); err != nil {
					return err.Error()
				}
				// both prefixes cut out of one array
				arena := guard(j.p1 + j.p2)
				g1, g2 := arena.b[:len(j.p1)], arena.b[len(j.p1):]
				mk := func(kind int, prefix []byte) *oneIndex {
					o := &oneIndex{kind: kind, prefix: string(prefix), fm: flatModel{}, pm: pointModel{}}
					switch kind {
					case 0:
						o.flat = index.NewS2FlatIdx(t.s, prefix, i06Level)
					case 1:
						o.pt = index.NewS2PointIdx(t.s, prefix)
					case 2:
						o.timed = index.NewS2FlatTimeIdx(t.s, prefix, i06Level)
					}
					return o
				}
				both := []*oneIndex{mk(j.k1, g1), mk(j.k2, g2)}
				if ji%2 == 1 {
					arena.garbage() // the caller reuses the slices
				}
				hist := fmt.Sprintf("indexes of kind %d under %q and %d under %q", j.k1, j.p1, j.k2, j.p2)
				for n, a := range j.ops {
					id := guard(ids[(a/2+n+ji)%len(ids)])
					g := (a/2 + n) % len(i06Shapes)
					hist += fmt.Sprintf(", insert shape %d id %q through index %d", g, id.b, a%2)
					if msg := both[a%2].insert(g, id); msg != "" {
						return hist + ": " + msg
					}
					if msg := id.check("the id"); msg != "" {
						return hist + ": " + msg
					}
					if msg := arena.check("the prefix"); msg != "" {
						return hist + ": " + msg
					}
					id.garbage()
					r.Trans(1)
					for _, o := range both {
						if msg := o.check(cells); msg != "" {
							return hist + ":\n" + msg
						}
					}
				}
				rd, err := t.s.Reader()
				if err != nil {
					return err.Error()
				}
				defer rd.Close()
				seen := 0
				kvs, err := eng.ScanAll(rd)
				if err != nil {
					return err.Error()
				}
				for _, kv := range kvs {
					w, ok := foreign[kv[0]]
					switch {
					case ok && w != kv[1]:
						return fmt.Sprintf("%s: the foreign entry %q changed to %q", hist, kv[0], kv[1])
					case ok:
						seen++
					case !strings.HasPrefix(kv[0], j.p1) && !strings.HasPrefix(kv[0], j.p2):
						return fmt.Sprintf("%s: entry %q under neither prefix", hist, kv[0])
					}
				}
				if seen != len(foreign) {
					return fmt.Sprintf("%s: %d of %d foreign entries are left", hist, seen, len(foreign))
				}
				r.Trace(1)
				r.State(fmt.Sprint(j.p1, j.p2, j.k1, j.k2, both[0].fm, both[1].fm, both[0].pm, both[1].pm))
				r.Sample(func() interface{} { return map[string]string{"store": name, "history": hist} })
				return arena.check("the prefix")
			})
		})
		p.closeAll()
	}
	prefixLengths(r, cells)
	r.Finish()
}

// prefixLengths checks every kind of index under prefixes of every length, between two foreign entries.
func prefixLengths(r *rep.R, cells []s2.CellID) {
	fills := []byte{'p', 0x00, 0xff, 0x7f}
	type job struct {
		kind, n int
		fill    byte
	}
	var jobs []job
	for n := 0; n <= r.Pick(130, 600); n++ {
		for kind := 0; kind < 3; kind++ {
			for _, f := range fills {
				if n > 0 || f == 'p' {
					jobs = append(jobs, job{kind, n, f})
				}
			}
		}
	}
	for _, n := range []int{255, 256, 257, 1000, 1023, 1024, 4096} {
		for kind := 0; kind < 3; kind++ {
			jobs = append(jobs, job{kind, n, 'p'})
		}
	}
	for _, name := range targets {
		p := &pool{r: r, name: name}
		rep.Par(len(jobs), func(ji int) {
			if r.Stop() {
				return
			}
			j := jobs[ji]
			p.run(fmt.Sprintf("%s/prefix/%d/%d/%x", name, j.kind, j.n, j.fill), func(t *target) string {
				prefix := strings.Repeat(string([]byte{j.fill}), j.n)
				foreign := eng.Model{}
				if j.n > 0 {
					if j.fill < 0xff {
						foreign[prefix[:j.n-1]+string([]byte{j.fill + 1})] = "above"
					}
					if j.fill > 0 {
						foreign[prefix[:j.n-1]+string([]byte{j.fill - 1})+"\xff\xff\xff\xff\xff\xff\xff\xff\xff"] = "below"
					}
					if j.n > 1 {
						foreign[prefix[:j.n-1]] = "shorter"
					}
				}
				if err := eng.Put(t.s, foreign); err != nil {
					return err.Error()
				}
				g := guard(prefix)
				o := &oneIndex{kind: j.kind, prefix: prefix, fm: flatModel{}, pm: pointModel{}}
				switch j.kind {
				case 0:
					o.flat = index.NewS2FlatIdx(t.s, g.b, i06Level)
				case 1:
					o.pt = index.NewS2PointIdx(t.s, g.b)
				case 2:
					o.timed = index.NewS2FlatTimeIdx(t.s, g.b, i06Level)
				}
				what := fmt.Sprintf("index of kind %d under %d bytes %x", j.kind, j.n, j.fill)
				for n := 0; n < 4; n++ {
					id := guard([]string{"x", "\xff\xff", "\x00", "pppppppppppp"}[n])
					if msg := o.insert(n%len(i06Shapes), id); msg != "" {
						return what + ": " + msg
					}
					if msg := id.check("the id"); msg != "" {
						return what + ": " + msg
					}
					r.Trans(1)
					if msg := o.check(cells); msg != "" {
						return what + ": " + msg
					}
				}
				rd, err := t.s.Reader()
				if err != nil {
					return err.Error()
				}
				defer rd.Close()
				kvs, err := eng.ScanAll(rd)
				if err != nil {
					return err.Error()
				}
				seen := 0
				for _, kv := range kvs {
					if w, ok := foreign[kv[0]]; ok {
						if w != kv[1] {
							return fmt.Sprintf("%s: the foreign entry %q changed to %q", what, kv[0], kv[1])
						}
						seen++
					} else if !strings.HasPrefix(kv[0], prefix) {
						return fmt.Sprintf("%s: entry %q is not under the prefix", what, kv[0])
					}
				}
				if seen != len(foreign) {
					return fmt.Sprintf("%s: %d of %d foreign entries are left", what, seen, len(foreign))
				}
				r.Trace(1)
				r.State(what)
				return g.check("the prefix")
			})
		})
		p.closeAll()
	}
}
