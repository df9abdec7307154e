package main

import (
	"fmt"
	"math"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"

	"verif/mc/mock"
	"verif/mc/rep"
)

// finite tells whether all values are ordinary numbers.
func finite(c []float64) bool {
	for _, v := range c {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return false
		}
	}
	return true
}

// ringOK tells whether the coordinates are a ring: complete, finite, at least three distinct vertices.
func ringOK(c []float64) bool {
	if len(c)%2 != 0 || !finite(c) {
		return false
	}
	d := map[[2]float64]bool{}
	for i := 0; i < len(c); i += 2 {
		d[[2]float64{c[i], c[i+1]}] = true
	}
	return len(d) >= 3
}

// wellFormed is the oracle.
func wellFormed(g *geodata.Geometry) bool {
	if g == nil {
		return false
	}
	switch g.Type {
	case geodata.Geometry_POINT:
		return len(g.Coordinates) == 2 && finite(g.Coordinates)
	case geodata.Geometry_LINESTRING:
		return len(g.Coordinates) >= 4 && len(g.Coordinates)%2 == 0 && finite(g.Coordinates)
	case geodata.Geometry_POLYGON:
		return ringOK(g.Coordinates)
	case geodata.Geometry_MULTIPOLYGON:
		for _, x := range g.Geometries {
			if x == nil || !ringOK(x.Coordinates) {
				return false
			}
		}
		return len(g.Geometries) > 0
	}
	return false
}

func g05() {
	r := rep.New("G05", "exploration", "every geometry type (known and unknown) x every list of up to five (thorough seven) coordinates from {0, 1, -2, NaN} and longer ones from patterns (repeated, collinear, infinite, odd), multi-polygons of up to three parts drawn from good and bad rings, missing geometries; every malformed one must be refused by every covering, bounding, conversion, key and indexing function without panic or hang and with nothing stored, and every function must survive the well-formed ones; also every layout x coordinate count of go-geom objects")
	types := []geodata.Geometry_Type{0, 1, 2, 3, 4, 99, -1}
	nan, inf := math.NaN(), math.Inf(1)
	var lists [][]float64
	alpha := []float64{0, 1, -2, nan}
	var rec func(c []float64, max int)
	rec = func(c []float64, max int) {
		lists = append(lists, append([]float64(nil), c...))
		if len(c) < max {
			for _, v := range alpha {
				rec(append(c, v), max)
			}
		}
	}
	rec(nil, r.Pick(5, 7))
	base := [][]float64{
		{0, 0, 1, 0, 1, 1}, {0, 0, 1, 0, 1, 1, 0, 0}, {0, 0, 1, 0, 0, 0}, {0, 0, 0, 0, 0, 0}, {5, 5, 5, 5, 5, 5, 5, 5}, {1, 1, 2, 2, 1, 1, 2, 2},
		{0, 0, 1, 1, 0, 0, 1, 1, 0, 0}, {0, 0, 1, 0, 1, 1, 0}, {0, 0, 1, 0, 1, 1, 0, 0, 7}, {0, 0, 1, 0, 2, 0}, {0, 0, 1, 0, 2, 0, 0, 0}, {0, 0, 2, 2, 0, 2, 2, 0},
		{0, 0, 0, 90, 90, 0}, {10, 10, 10, 10, 20, 10, 20, 20}, {10, 10, 20, 10, 20, 10, 20, 20, 10, 10}, {0, 0, 0, 0, 1, 1, 1, 1, 0, 0}, {180, 0, -179, 0, 179, 1, 180, 0},
		{0, 10, 1, 10, 1, 11, 0, 11}, {0, 10, 1, 10, 1, 11, 0, 11, 0, 10}, {0, -90, 10, -89, 20, -89},
		// rings of two distinct positions on the sphere
		{3, 4, 5, 6, 3, 4, 5, 6, 3, 4, 5, 6}, {-1, -1, 3, 3}, {-1, -1, 3, 3, -1, -1},
	}
	for _, b := range base {
		lists = append(lists, b)
		for i := range b {
			for _, v := range []float64{nan, inf, -inf} {
				c := append([]float64(nil), b...)
				c[i] = v
				lists = append(lists, c)
			}
			lists = append(lists, append([]float64(nil), b[:i]...))
		}
	}
	var geoms []*geodata.Geometry
	for _, t := range types {
		for _, l := range lists {
			if t == geodata.Geometry_MULTIPOLYGON {
				geoms = append(geoms, &geodata.Geometry{Type: t, Coordinates: l})
				geoms = append(geoms, &geodata.Geometry{Type: t, Geometries: []*geodata.Geometry{{Type: geodata.Geometry_POLYGON, Coordinates: l}}})
				continue
			}
			geoms = append(geoms, &geodata.Geometry{Type: t, Coordinates: l})
		}
	}
	ring := func(c ...float64) *geodata.Geometry {
		return &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: c}
	}
	parts := []*geodata.Geometry{ring(0, 0, 1, 0, 1, 1), ring(0, 10, 1, 10, 1, 11, 0, 11, 0, 10), nil, ring(), ring(0, 0, 1, 1), ring(0, 0, 1, 1, 0, 0), ring(0, 0, 1, 0, 1), ring(0, 0, 1, 0, 1, nan), ring(inf, 0, 1, 0, 1, 1), ring(5, 5, 5, 5, 5, 5), ring(2, 2, 3, 3, 2, 2, 3, 3)}
	for a := range parts {
		for b := range parts {
			geoms = append(geoms, &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON, Geometries: []*geodata.Geometry{parts[a], parts[b]}})
			for c := range parts {
				geoms = append(geoms, &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON, Geometries: []*geodata.Geometry{parts[a], parts[b], parts[c]}})
			}
		}
	}
	// long ones, with the trouble at every stage
	for _, n := range []int{32, 64, 65, 200, 600} {
		c := make([]float64, 0, 2*n+1)
		for i := 0; i < n; i++ {
			s, k := math.Sincos(2 * math.Pi * float64(i) / float64(n))
			c = append(c, 10+3*k, 20+3*s)
		}
		mk := func(c []float64) {
			for _, t := range types {
				if t == geodata.Geometry_MULTIPOLYGON {
					geoms = append(geoms, &geodata.Geometry{Type: t, Geometries: []*geodata.Geometry{ring(0, 0, 1, 0, 1, 1), ring(c...)}})
				} else {
					geoms = append(geoms, &geodata.Geometry{Type: t, Coordinates: c})
				}
			}
		}
		mk(c)
		mk(append(append([]float64(nil), c...), 7))
		mk(c[:len(c)-1])
		step := 1
		if n > 100 {
			step = 7
		}
		for i := 0; i < len(c); i += step {
			for _, v := range []float64{nan, inf} {
				d := append([]float64(nil), c...)
				d[i] = v
				mk(d)
			}
		}
		for _, k := range []int{1, 2} { // the same one or two positions all along
			var d []float64
			for i := 0; i < n; i++ {
				d = append(d, float64(i%k), 5)
			}
			mk(d)
		}
	}
	for _, n := range []int{4, 9, 33} {
		for at := 0; at < n; at++ {
			for _, bad := range parts {
				var ps []*geodata.Geometry
				for i := 0; i < n; i++ {
					ps = append(ps, ring(float64(i), 0, float64(i)+1, 0, float64(i)+1, 1))
				}
				ps[at] = bad
				geoms = append(geoms, &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON, Geometries: ps})
			}
		}
	}
	geoms = append(geoms, nil)
	levels := []int{0, 7}
	for gi := range geoms {
		if r.Stop() {
			break
		}
		key := fmt.Sprintf("geom%d", gi)
		if !r.Case(key) {
			continue
		}
		ok := wellFormed(geoms[gi])
		gd := &geodata.GeoData{Geometry: geoms[gi]}
		// a unit ring of three positions on one meridian or at a pole is fine for the oracle, whatever the answer
		msg := rep.Guard(hang, func() string { return attempts(r, gd, ok, levels) })
		if msg != "" {
			r.Violate(key, "geometry %v (well-formed: %v)\n%s", geoms[gi], ok, msg)
		}
		r.State(fmt.Sprint(geoms[gi]))
		r.Sample(func() interface{} {
			return map[string]interface{}{"geometry": fmt.Sprint(geoms[gi]), "wellformed": ok}
		})
	}
	if r.Case("nil") {
		msg := rep.Guard(hang, func() string { return attempts(r, nil, false, levels) })
		if msg != "" {
			r.Violate("nil", "no GeoData at all\n%s", msg)
		}
	}
	// go-geom objects of every layout and count
	for _, l := range []geom.Layout{geom.NoLayout, geom.XY, geom.XYZ, geom.XYM, geom.XYZM, 5} {
		for n := 0; n <= 12; n++ {
			for bad := -1; bad < n; bad++ {
				f := make([]float64, n)
				for i := range f {
					f[i] = float64(i*i%7) + 0.25*float64(i)
				}
				if bad >= 0 {
					f[bad] = nan
				}
				gs := []geom.T{geom.NewLineStringFlat(l, f), geom.NewPolygonFlat(l, f, []int{n})}
				if n > 0 {
					gs = append(gs, geom.NewPolygonFlat(l, f, nil))
				}
				if l == geom.XY || n >= l.Stride() {
					gs = append(gs, geom.NewPointFlat(l, f))
				}
				for k, g := range gs {
					key := fmt.Sprintf("geom/%v/%d/%d/%d", l, n, bad, k)
					if r.Stop() || !r.Case(key) {
						continue
					}
					msg := rep.Guard(hang, func() string {
						r.Eval(2)
						gd := &geodata.GeoData{}
						err := geodata.GeomToGeoData(g, gd)
						if err == nil && !wellFormed(gd.Geometry) {
							return fmt.Sprintf("accepted as %v", gd)
						}
						if err != nil && gd.Geometry != nil {
							return fmt.Sprintf("refused, yet stored %v", gd)
						}
						gd = &geodata.GeoData{}
						if e2 := geodata.GeoJSONFeatureToGeoData(&geojson.Feature{Geometry: g}, gd); (err == nil) != (e2 == nil) {
							return fmt.Sprintf("as geometry: %v; as feature: %v", err, e2)
						}
						return ""
					})
					if msg != "" {
						r.Violate(key, "%T of layout %v, %v\n%s", g, l, f, msg)
					}
					r.State(key)
				}
			}
		}
	}
	for _, f := range []func() error{
		func() error { return geodata.GeomToGeoData(nil, &geodata.GeoData{}) },
		func() error { return geodata.GeoJSONFeatureToGeoData(&geojson.Feature{}, &geodata.GeoData{}) },
		func() error { return geodata.GeoJSONFeatureToGeoData(nil, &geodata.GeoData{}) },
	} {
		msg := rep.Catch(func() string {
			if f() == nil {
				return "accepted"
			}
			return ""
		})
		if msg != "" {
			r.Violate("nothing", "no geometry\n%s", msg)
		}
	}
	r.Finish()
}

// attempts runs every entry point.
func attempts(r *rep.R, gd *geodata.GeoData, ok bool, levels []int) string {
	g := gd.GetGeometry()
	isPoint := g != nil && g.Type == geodata.Geometry_POINT
	good := &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{3, 4}}}
	type call struct {
		name string
		bad  bool // must be refused
		ok   bool // must be accepted
		f    func() error
	}
	var calls []call
	add := func(name string, bad, ok bool, f func() error) { calls = append(calls, call{name, bad, ok, f}) }
	for _, l := range levels {
		cv := &s2.RegionCoverer{MinLevel: l, MaxLevel: l + 2, MaxCells: 8}
		add("Cover", !ok, false, func() error { _, err := gd.Cover(cv); return err })
		add("InteriorCover", !ok, false, func() error { _, err := gd.InteriorCover(cv); return err })
		add("GeoDataToCoverCellUnion", !ok, false, func() error { _, err := geodata.GeoDataToCoverCellUnion(gd, cv); return err })
	}
	add("GeoDataToRect", !ok || isPoint, false, func() error { _, err := geodata.GeoDataToRect(gd); return err })
	add("GeoDataToGeom", !ok, false, func() error { _, err := geodata.GeoDataToGeom(gd); return err })
	add("ToGeoJSONFeatureCollection", !ok, ok, func() error { _, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd}); return err })
	add("ToGeoJSONFeatureCollection after a good one", !ok, ok, func() error { _, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{good, gd}); return err })
	add("PointsToGeoJSONPolyLines", !ok || !isPoint, ok && isPoint, func() error { _, err := geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{good, gd}); return err })
	if g != nil && (g.Type == geodata.Geometry_POLYGON || g.Type == geodata.Geometry_POINT) && finite(g.Coordinates) {
		add("LoopFromCoordinates", g.Type == geodata.Geometry_POLYGON && !ok, false, func() error {
			if geodata.LoopFromCoordinates(g.Coordinates) == nil || geodata.LoopFromCoordinatesAndCCW(g.Coordinates, true) == nil {
				return fmt.Errorf("nil")
			}
			return nil
		})
	}
	m := mock.New()
	stored := 0
	must := func(name string, bad, ok bool, f func(m *mock.Store) error) {
		add(name, bad, ok, func() error {
			m = mock.New()
			err := f(m)
			stored = len(m.Dump())
			if err != nil && stored > 0 {
				return fmt.Errorf("STORED: %v, yet %d entries were stored", err, stored)
			}
			if err == nil && stored == 0 {
				return fmt.Errorf("STORED: success, yet nothing was stored")
			}
			return err
		})
	}
	for _, l := range levels {
		must("S2FlatIdx.GeoIndex", !ok, false, func(m *mock.Store) error { return index.NewS2FlatIdx(m, []byte("f"), l).GeoIndex(gd, []byte("id")) })
		must("S2FlatTimeIdx.GeoTimeIndex", !ok, false, func(m *mock.Store) error {
			return index.NewS2FlatTimeIdx(m, []byte("t"), l).GeoTimeIndex(gd, time.Unix(5, 0), []byte("id"))
		})
		add("S2FlatIdx.Covering", !ok, false, func() error { _, err := index.NewS2FlatIdx(mock.New(), nil, l).Covering(gd); return err })
		add("S2FlatTimeIdx.Covering", !ok, false, func() error { _, err := index.NewS2FlatTimeIdx(mock.New(), nil, l).Covering(gd); return err })
	}
	must("S2PointIdx.GeoPointIndex", !ok || !isPoint, ok && isPoint, func(m *mock.Store) error {
		_, err := index.NewS2PointIdx(m, []byte("p")).GeoPointIndex(gd, []byte("id"))
		return err
	})
	add("S2PointIdx.GeoPointKey", !ok || !isPoint, ok && isPoint, func() error {
		_, err := index.NewS2PointIdx(mock.New(), []byte("p")).GeoPointKey(gd, []byte("id"))
		return err
	})
	if isPoint && len(g.Coordinates) == 2 {
		must("S2PointIdx.PointIndex", !ok, ok, func(m *mock.Store) error {
			_, err := index.NewS2PointIdx(m, []byte("p")).PointIndex(g.Coordinates[1], g.Coordinates[0], []byte("id"))
			return err
		})
	}
	var before proto.Message
	if gd != nil && clean(gd) {
		before = proto.Clone(gd)
	}
	for _, c := range calls {
		r.Eval(1)
		var err error
		if p := rep.Catch(func() string { err = c.f(); return "" }); p != "" {
			return c.name + ": " + p
		}
		if err != nil && len(err.Error()) > 7 && err.Error()[:7] == "STORED:" {
			return c.name + ": " + err.Error()
		}
		if err == nil && c.bad {
			return c.name + " accepted it"
		}
		if err != nil && c.ok {
			return c.name + " refused it: " + err.Error()
		}
		if t := m.Trouble(); t != "" {
			return c.name + ": misuse of the store: " + t
		}
	}
	if before != nil && !proto.Equal(before, gd) {
		return "the geometry was modified"
	}
	return ""
}

// clean tells whether the message can be compared (no NaN, no nil parts).
func clean(gd *geodata.GeoData) bool {
	g := gd.Geometry
	if g == nil {
		return true
	}
	if !finite(g.Coordinates) {
		return false
	}
	for _, x := range g.Geometries {
		if x == nil || !finite(x.Coordinates) {
			return false
		}
	}
	return true
}
