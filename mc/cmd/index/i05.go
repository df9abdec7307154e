package main

import (
	"fmt"
	"math"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s1"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

// geo is a geometry with its own independent description.
type geo struct {
	name  string
	gd    *geodata.GeoData
	parts []part
	when  int64
	cover []s2.CellID
}

// part is a point, a chain of edges, or the inside of a ring.
type part struct {
	verts  []vec
	closed bool
	center vec // inside the ring
}

func slerp(a, b vec, f float64) vec {
	w := angle(a, b)
	if w < 1e-12 {
		return a
	}
	s := math.Sin(w)
	x, y := math.Sin((1-f)*w)/s, math.Sin(f*w)/s
	return vec{a.x*x + b.x*y, a.y*x + b.y*y, a.z*x + b.z*y}
}

// samples of every edge and, for rings, of the inside.
func (p part) samples(n int) []vec {
	if len(p.verts) == 1 {
		return p.verts
	}
	var out []vec
	m := len(p.verts) - 1
	if p.closed {
		m++
	}
	for i := 0; i < m; i++ {
		a, b := p.verts[i], p.verts[(i+1)%len(p.verts)]
		for j := 0; j <= n; j++ {
			out = append(out, slerp(a, b, float64(j)/float64(n)))
		}
	}
	if p.closed { // rings used here are star-shaped around their centre
		edge := out
		for _, e := range edge {
			for j := 0; j < n; j++ {
				out = append(out, slerp(p.center, e, float64(j)/float64(n)))
			}
		}
	}
	return out
}

// gnomonic projection of v around c; ok is false on the far side.
func gnomonic(c, v vec) (x, y float64, ok bool) {
	up := vec{0, 0, 1}
	if math.Abs(c.z) > 0.9 {
		up = vec{1, 0, 0}
	}
	e := up.cross(c)
	n := e.norm()
	e = vec{e.x / n, e.y / n, e.z / n}
	f := c.cross(e)
	d := v.dot(c)
	if d <= 1e-9 {
		return 0, 0, false
	}
	return v.dot(e) / d, v.dot(f) / d, true
}

// contains tells whether the ring (smaller than a hemisphere around its centre) contains v.
func (p part) contains(v vec) bool {
	if !p.closed {
		return false
	}
	x, y, ok := gnomonic(p.center, v)
	if !ok {
		return false
	}
	in := false
	n := len(p.verts)
	for i := 0; i < n; i++ {
		x1, y1, _ := gnomonic(p.center, p.verts[i])
		x2, y2, _ := gnomonic(p.center, p.verts[(i+1)%n])
		if (y1 > y) != (y2 > y) && x < (x2-x1)*(y-y1)/(y2-y1)+x1 {
			in = !in
		}
	}
	return in
}

// pd is a position relative to a centre: bearing and distance.
type pd struct{ b, d float64 }

func build(t geodata.Geometry_Type, c place, rings [][]pd, centers []pd, name string) geo {
	g := geo{name: name}
	var gs []*geodata.Geometry
	for i, ring := range rings {
		var p part
		co := []float64{}
		for _, q := range ring {
			la, ln := destination(c.lat, c.lng, q.b, q.d)
			co = append(co, ln, la)
			p.verts = append(p.verts, vecOf(la, ln))
		}
		if t == geodata.Geometry_POLYGON || t == geodata.Geometry_MULTIPOLYGON {
			p.closed = true
			la, ln := destination(c.lat, c.lng, centers[i].b, centers[i].d)
			p.center = vecOf(la, ln)
		}
		g.parts = append(g.parts, p)
		gs = append(gs, &geodata.Geometry{Type: t, Coordinates: co})
	}
	if t == geodata.Geometry_MULTIPOLYGON {
		for _, x := range gs {
			x.Type = geodata.Geometry_POLYGON
		}
		g.gd = &geodata.GeoData{Geometry: &geodata.Geometry{Type: t, Geometries: gs}}
	} else {
		g.gd = &geodata.GeoData{Geometry: gs[0]}
	}
	return g
}

// geosAround builds geometries meeting the circle in every way.
func geosAround(c place, r float64) []geo {
	var out []geo
	T, L, P, M := geodata.Geometry_POINT, geodata.Geometry_LINESTRING, geodata.Geometry_POLYGON, geodata.Geometry_MULTIPOLYGON
	none := []pd{{}}
	for b := 0; b < 8; b++ {
		B := float64(b)*45 + 7
		for _, f := range []float64{0.2, 0.9, 0.99, 1.01, 1.2, 3} {
			if b%2 == 0 {
				out = append(out, build(T, c, [][]pd{{{B, f * r}}}, none, fmt.Sprintf("point %v %v", B, f)))
			}
			if b%2 == 1 || f > 0.9 {
				out = append(out, build(L, c, [][]pd{{{B, f * r}, {B + 3, (f + .8) * r}}}, none, fmt.Sprintf("outward line %v %v", B, f)))
			}
		}
		for _, f := range []float64{0.5, 0.97, 1.03, 1.5} {
			// chord: its middle is at distance f*r, its ends far outside
			w := 60.0
			out = append(out, build(L, c, [][]pd{{{B - w, f * r / math.Cos(w*math.Pi/180)}, {B + w, f * r / math.Cos(w*math.Pi/180)}}}, none, fmt.Sprintf("chord %v %v", B, f)))
			// a triangle pointing at the circle from outside
			tri := []pd{{B, f * r}, {B + 12, (f + 1) * r}, {B - 12, (f + 1) * r}}
			if b%2 == 0 {
				tri[1], tri[2] = tri[2], tri[1]
			}
			out = append(out, build(P, c, [][]pd{tri}, []pd{{B, (f + .7) * r}}, fmt.Sprintf("triangle %v %v", B, f)))
		}
	}
	square := func(B, d float64) []pd { return []pd{{B, d}, {B + 90, d}, {B + 180, d}, {B + 270, d}} }
	rev := func(x []pd) []pd {
		var y []pd
		for i := len(x) - 1; i >= 0; i-- {
			y = append(y, x[i])
		}
		return y
	}
	// containing the whole circle; inside it; crossing it
	out = append(out, build(P, c, [][]pd{square(20, 2.5*r)}, none, "around"), build(P, c, [][]pd{rev(square(30, 2.2*r))}, none, "around, reversed"),
		build(P, c, [][]pd{square(0, 0.4*r)}, none, "within"), build(L, c, [][]pd{{{10, 2.5 * r}, {190, 2.5 * r}}}, none, "across"),
		build(L, c, [][]pd{{{10, 2.5 * r}, {100, 2.5 * r}, {220, 2.5 * r}}}, none, "bent across"),
		build(M, c, [][]pd{{{90, 2 * r}, {95, 2.4 * r}, {85, 2.4 * r}}, {{270, 0.8 * r}, {262, 1.9 * r}, {278, 1.9 * r}}}, []pd{{90, 2.25 * r}, {270, 1.6 * r}}, "multi, second part in"),
		build(M, c, [][]pd{{{45, 0.8 * r}, {53, 1.9 * r}, {37, 1.9 * r}}, {{200, 2 * r}, {195, 2.4 * r}, {205, 2.4 * r}}}, []pd{{45, 1.6 * r}, {200, 2.25 * r}}, "multi, first part in"))
	return out
}

func (a vec) point() s2.Point { return s2.PointFromCoords(a.x, a.y, a.z) }

func i05() {
	r := rep.New("I05", "exploration", "at every place x index level x query size: about ninety points, lines, polygons and multi-polygons that meet the queried circle or rectangle in every way (a vertex, only an edge, only the interior, barely, not at all) are indexed on the strict mock; radius queries of the cover index and radius and rectangle queries of the time index (with time windows) must return everything of which a part is inside by an independent spherical oracle, and nothing without a cover cell meeting the region, each id once")
	mult := []float64{0.06, 0.3, 0.7, 1.3, 2.2}
	levels := []int{2, 3, 4, 6, 7, 9, 10, 12, 14, 16, 18, 20, 22}
	pls := append([]place{{-33.9, 151.2}, {89.99, 77}, {64, -179.99}}, places...)
	if r.Thorough() {
		mult = append(mult, 0.1, 1.7, 3.5)
		levels = append(levels, 5, 8, 11, 13, 15, 17, 19, 21)
		pls = append(pls, place{-60, 90}, place{45, 0}, place{20, -45}, place{-35.264, -135}, place{70, 179})
	}
	type sc struct {
		pl    place
		level int
		r     float64
	}
	var scs []sc
	for _, p := range pls {
		for _, l := range levels {
			for _, m := range mult {
				ra := m * cellDeg(l) * math.Pi / 180 * earthR
				if ra < 2.6e6 {
					scs = append(scs, sc{p, l, ra})
				}
			}
		}
	}
	// regions much smaller than a cell, on its corners and edges
	for _, pl := range pls {
		for _, l := range levels {
			c := s2.CellFromCellID(s2.CellIDFromLatLng(s2.LatLngFromDegrees(pl.lat, pl.lng)).Parent(l))
			for k := 0; k < 4; k++ {
				a, b := vec{c.Vertex(k).X, c.Vertex(k).Y, c.Vertex(k).Z}, vec{c.Vertex((k + 1) % 4).X, c.Vertex((k + 1) % 4).Y, c.Vertex((k + 1) % 4).Z}
				for _, f := range []float64{0, 0.5, 0.37} {
					v := slerp(a, b, f)
					la, ln := v.latlng()
					for _, m := range []float64{0.02, 1e-3, 2e-5} {
						ra := m * cellDeg(l) * math.Pi / 180 * earthR
						if ra > 2 && ra < 2.6e6 {
							scs = append(scs, sc{place{la, ln}, l, ra})
						}
					}
				}
			}
		}
	}
	p := &pool{r: r, name: "mock"}
	rep.Par(len(scs), func(si int) {
		if r.Stop() {
			return
		}
		s := scs[si]
		p.run(fmt.Sprintf("mock/%d", si), func(t *target) string {
			flat := index.NewS2FlatIdx(t.s, []byte("F"), s.level)
			timed := index.NewS2FlatTimeIdx(t.s, []byte("T"), s.level)
			gs := geosAround(s.pl, s.r)
			for i := range gs {
				g := &gs[i]
				g.when = int64(i%5) * 1000
				id := []byte(fmt.Sprintf("id%d", i))
				cu, err := coverAt(g.gd, s.level)
				if err != nil {
					return fmt.Sprintf("%s: cover: %v", g.name, err)
				}
				g.cover = cu
				if err := flat.GeoIndex(g.gd, id); err != nil {
					return fmt.Sprintf("%s: %v", g.name, err)
				}
				if err := timed.GeoTimeIndex(g.gd, time.Unix(0, g.when), id); err != nil {
					return fmt.Sprintf("%s: %v", g.name, err)
				}
			}
			samples := make([][]vec, len(gs))
			for i, g := range gs {
				for _, p := range g.parts {
					samples[i] = append(samples[i], p.samples(24)...)
				}
			}
			compare := func(what string, ids []index.GeoID, err error, must func(i int) bool, may func(c s2.CellID) bool, from, to int64) string {
				if err != nil {
					return what + ": " + err.Error()
				}
				got := toSet(ids)
				n := 0
				for i, g := range gs {
					id := fmt.Sprintf("id%d", i)
					inTime := g.when <= from && g.when > to
					switch {
					case got[id] > 1:
						return fmt.Sprintf("%s: %s reported %d times", what, g.name, got[id])
					case got[id] == 0 && inTime && must(i):
						return fmt.Sprintf("%s: geometry %q %v has a part inside but was not returned", what, g.name, g.gd)
					case got[id] == 1:
						n++
						ok := false
						for _, c := range g.cover {
							ok = ok || may(c)
						}
						if !ok || !inTime {
							return fmt.Sprintf("%s: geometry %q (event time %d) was returned although no cell of its cover meets the region (or its time is out of range)", what, g.name, g.when)
						}
					}
					delete(got, id)
				}
				if len(got) > 0 {
					return fmt.Sprintf("%s: unknown ids %v", what, got)
				}
				r.Eval(1)
				r.State(what)
				r.Sample(func() interface{} {
					return map[string]interface{}{"query": what, "level": s.level, "found": n, "of": len(gs)}
				})
				return ""
			}
			const all = math.MaxInt64
			for qi, f := range []float64{1, 0.15, 0.98, 1.4, 0} {
				for bi, off := range []float64{0, 0.3} {
					if bi > 0 && qi > 1 {
						continue
					}
					la, ln := destination(s.pl.lat, s.pl.lng, 33, off*s.r)
					ra := f * s.r
					c := vecOf(la, ln)
					slack := 0.03 + ra*1e-6
					must := func(i int) bool {
						for _, v := range samples[i] {
							if angle(c, v)*earthR < ra-slack {
								return true
							}
						}
						for _, p := range gs[i].parts {
							if p.closed && f > 0 && p.contains(c) {
								return true
							}
						}
						return false
					}
					cap := s2.CapFromCenterAngle(c.point(), s1.Angle((ra*1.0001+0.5)/earthR))
					may := func(id s2.CellID) bool { return cap.IntersectsCell(s2.CellFromCellID(id)) }
					what := fmt.Sprintf("level %d, radius %v m around (%v,%v)", s.level, ra, la, ln)
					ids, err := flat.GeoIdsRadiusQuery(la, ln, ra)
					if msg := compare("cover index, "+what, ids, err, must, may, all, math.MinInt64); msg != "" {
						return msg
					}
					for _, w := range [][2]int64{{all, math.MinInt64}, {3000, 1000}} {
						ids, err = timed.GeoTimeIdsRadiusQuery(time.Unix(0, w[0]), time.Unix(0, w[1]), la, ln, ra)
						if msg := compare(fmt.Sprintf("time index (%d,%d], %s", w[1], w[0], what), ids, err, must, may, w[0], w[1]); msg != "" {
							return msg
						}
					}
				}
			}
			// rectangles around the place
			d := s.r / earthR * 180 / math.Pi
			for _, f := range [][4]float64{{-.7, -.7, .7, .7}, {-.1, -.1, .1, .1}, {0, 0, 1, .5}, {-1, -.05, 1, .05}, {-.05, -1, .05, 1}} {
				bllat, urlat := math.Max(-90, s.pl.lat+f[0]*d), math.Min(90, s.pl.lat+f[2]*d)
				co := math.Max(math.Cos(s.pl.lat*math.Pi/180), 0.02)
				if d/co > 60 {
					continue
				}
				wrap := func(x float64) float64 {
					if x > 180 {
						return x - 360
					}
					if x < -180 {
						return x + 360
					}
					return x
				}
				bllng, urlng := wrap(s.pl.lng+f[1]*d/co), wrap(s.pl.lng+f[3]*d/co)
				if s.level > 16 && d/co > 200*cellDeg(s.level) {
					continue
				}
				must := func(i int) bool {
					for _, v := range samples[i] {
						la, ln := v.latlng()
						if inRect(la, ln, urlat, urlng, bllat, bllng) == inside {
							return true
						}
					}
					ln := bllng + (f[3]-f[1])*d/co/2
					for _, p := range gs[i].parts {
						if p.closed && p.contains(vecOf((urlat+bllat)/2, ln)) {
							return true
						}
					}
					return false
				}
				rect := s2.Rect{Lat: s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, 0)).AddPoint(s2.LatLngFromDegrees(urlat, 0)).Lat,
					Lng: s1.IntervalFromEndpoints(bllng*math.Pi/180, urlng*math.Pi/180)}
				rect.Lat = rect.Lat.Expanded(1e-8).Intersection(s2.FullRect().Lat)
				rect.Lng = rect.Lng.Expanded(1e-8)
				may := func(id s2.CellID) bool { return rect.IntersectsCell(s2.CellFromCellID(id)) }
				for _, w := range [][2]int64{{all, math.MinInt64}, {2000, 0}} {
					ids, err := timed.GeoTimeIdsRectQuery(time.Unix(0, w[0]), time.Unix(0, w[1]), urlat, urlng, bllat, bllng)
					if msg := compare(fmt.Sprintf("time index (%d,%d], level %d, rect ur %v,%v bl %v,%v", w[1], w[0], s.level, urlat, urlng, bllat, bllng), ids, err, must, may, w[0], w[1]); msg != "" {
						return msg
					}
				}
			}
			return ""
		})
	})
	// wide rectangles, wrapping ones, and large circles over a coarse world of points and lines
	world(r, 4)
	world(r, 7)
	parts := []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, r.Pick(130, 400)}
	rep.Par(len(parts), func(i int) {
		if !r.Stop() {
			manyParts(r, parts[i])
		}
	})
	r.Finish()
}

func world(r *rep.R, level int) {
	p := &pool{r: r, name: "mock"}
	type e struct {
		lat, lng float64
		c        s2.CellID
	}
	var es []e
	for lat := -84.0; lat <= 84; lat += 12 {
		for lng := -179.0; lng < 180; lng += 11 {
			es = append(es, e{lat, lng, s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng)).Parent(level)})
		}
	}
	lngs := []float64{-180, -120, -60.1, 0, 30, 89.9, 150.5, 179.9}
	lats := []float64{-90, -30.5, 0, 40.25, 90}
	if level > 4 {
		// regions of up to all of the cells: fewer of them
		lngs, lats = []float64{-120, -0.5, 10, 150.5}, []float64{-80, -30.5, 0, 40.25}
	}
	p.run(fmt.Sprint("mock/world", level), func(t *target) string {
		flat := index.NewS2FlatIdx(t.s, []byte("F"), level)
		timed := index.NewS2FlatTimeIdx(t.s, []byte("T"), level)
		for i, x := range es {
			id := []byte(fmt.Sprint("w", i))
			if err := flat.GeoIndex(point(x.lat, x.lng), id); err != nil {
				return err.Error()
			}
			if err := timed.GeoTimeIndex(point(x.lat, x.lng), time.Unix(5, 0), id); err != nil {
				return err.Error()
			}
		}
		compare := func(what string, ids []index.GeoID, err error, in func(x e) verdict, may func(c s2.CellID) bool) string {
			if err != nil {
				return what + ": " + err.Error()
			}
			got := toSet(ids)
			r.Eval(1)
			r.State(what)
			for i, x := range es {
				n := got[fmt.Sprint("w", i)]
				if n > 1 || n == 0 && in(x) == inside || n == 1 && !may(x.c) {
					return fmt.Sprintf("%s: point (%v,%v) reported %d times", what, x.lat, x.lng, n)
				}
			}
			return ""
		}
		for _, a := range lats {
			for _, b := range lats {
				for _, w := range lngs {
					for _, ea := range lngs {
						if a > b || math.Abs(w-ea) == 360 {
							continue
						}
						rect := s2.Rect{Lat: s2.RectFromLatLng(s2.LatLngFromDegrees(a, 0)).AddPoint(s2.LatLngFromDegrees(b, 0)).Lat.Expanded(1e-8).Intersection(s2.FullRect().Lat),
							Lng: s1.IntervalFromEndpoints(w*math.Pi/180, ea*math.Pi/180).Expanded(1e-8)}
						ids, err := timed.GeoTimeIdsRectQuery(index.MaxGeoTime, index.MinGeoTime, b, ea, a, w)
						if msg := compare(fmt.Sprintf("time index, level %d, rect ur %v,%v bl %v,%v", level, b, ea, a, w), ids, err,
							func(x e) verdict { return inRect(x.lat, x.lng, b, ea, a, w) },
							func(c s2.CellID) bool { return rect.IntersectsCell(s2.CellFromCellID(c)) }); msg != "" {
							return msg
						}
					}
				}
			}
		}
		for _, pl := range places {
			for _, ra := range []float64{1e6, 5e6, 10018754, 12e6, 16e6, 19.5e6, 20037508, 3e7} {
				cap := s2.CapFromCenterAngle(s2.PointFromLatLng(s2.LatLngFromDegrees(pl.lat, pl.lng)), s1.Angle(math.Min(math.Pi, (ra*1.0001+0.5)/earthR)))
				in := func(x e) verdict { return inRadius(meters(pl.lat, pl.lng, x.lat, x.lng), ra) }
				may := func(c s2.CellID) bool { return cap.IntersectsCell(s2.CellFromCellID(c)) || ra > 19e6 }
				ids, err := flat.GeoIdsRadiusQuery(pl.lat, pl.lng, ra)
				if msg := compare(fmt.Sprintf("cover index, level %d, radius %v around %v", level, ra, pl), ids, err, in, may); msg != "" {
					return msg
				}
				ids, err = timed.GeoTimeIdsRadiusQuery(index.MaxGeoTime, index.MinGeoTime, pl.lat, pl.lng, ra)
				if msg := compare(fmt.Sprintf("time index, level %d, radius %v around %v", level, ra, pl), ids, err, in, may); msg != "" {
					return msg
				}
			}
		}
		return ""
	})
}
