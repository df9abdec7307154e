package main

import (
	"fmt"
	"math"

	"github.com/akhenakh/oureadb/index"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

const earthR = 40075017 / (2 * math.Pi)

type vec struct{ x, y, z float64 }

func vecOf(lat, lng float64) vec {
	a, b := lat*math.Pi/180, lng*math.Pi/180
	return vec{math.Cos(a) * math.Cos(b), math.Cos(a) * math.Sin(b), math.Sin(a)}
}

func (a vec) cross(b vec) vec {
	return vec{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}
}
func (a vec) dot(b vec) float64 { return a.x*b.x + a.y*b.y + a.z*b.z }
func (a vec) norm() float64     { return math.Sqrt(a.dot(a)) }
func (a vec) latlng() (float64, float64) {
	return math.Atan2(a.z, math.Hypot(a.x, a.y)) * 180 / math.Pi, math.Atan2(a.y, a.x) * 180 / math.Pi
}

// angle between two unit vectors, accurate everywhere.
func angle(a, b vec) float64 { return math.Atan2(a.cross(b).norm(), a.dot(b)) }

// meters between two positions.
func meters(lat1, lng1, lat2, lng2 float64) float64 {
	return angle(vecOf(lat1, lng1), vecOf(lat2, lng2)) * earthR
}

// destination travels d meters from a position at a bearing.
func destination(lat, lng, bearing, d float64) (float64, float64) {
	b, a := bearing*math.Pi/180, d/earthR
	c := vecOf(lat, lng)
	l := lng * math.Pi / 180
	e := vec{-math.Sin(l), math.Cos(l), 0}
	n := c.cross(e)
	sa, ca := math.Sin(a), math.Cos(a)
	sb, cb := math.Sin(b), math.Cos(b)
	t := func(c, n, e float64) float64 { return c*ca + (n*cb+e*sb)*sa }
	return vec{t(c.x, n.x, e.x), t(c.y, n.y, e.y), t(c.z, n.z, e.z)}.latlng()
}

// verdict of the oracle: inside, outside, or too close to the boundary to tell.
type verdict int8

const (
	outside verdict = -1
	either  verdict = 0
	inside  verdict = 1
)

// radiusSlack is how close to the boundary either answer is fine: the leaf of a position is about a centimetre wide.
func radiusSlack(radius float64) float64 { return 0.03 + radius*1e-8 }

func inRadius(dist, radius float64) verdict {
	s := radiusSlack(radius)
	// chord arithmetic loses precision near the antipode
	if x := math.Pi*earthR - radius; x < 1000 {
		s += 1
	}
	switch {
	case dist <= radius-s:
		return inside
	case dist > radius+s:
		return outside
	}
	return either
}

const degSlack = 3e-7

func inRect(lat, lng, urlat, urlng, bllat, bllng float64) verdict {
	v := inside
	in := func(x, lo, hi float64) verdict {
		switch {
		case x > lo+degSlack && x < hi-degSlack:
			return inside
		case x < lo-degSlack || x > hi+degSlack:
			return outside
		}
		return either
	}
	v = in(lat, bllat, urlat)
	if v == outside {
		return v
	}
	if math.Abs(lat) > 89.9999 {
		return either // the longitude of a leaf there is arbitrary
	}
	width := urlng - bllng
	if width < 0 {
		width += 360
	}
	degSlack := degSlack / math.Cos(lat*math.Pi/180)
	off := math.Mod(lng-bllng+720, 360)
	w := inside
	switch {
	case width >= 360-1e-9:
	case off > 360-degSlack || off < degSlack || math.Abs(off-width) < degSlack:
		w = either
	case off > width:
		w = outside
	}
	if w < v {
		return w
	}
	return v
}

func i03() {
	r := rep.New("I03", "exploration", "every query centre (poles, antimeridian, cube corners, ordinary) x radius (zero to beyond half the circumference) over an index holding, for that query, points at 16 bearings and distances just inside and outside the circle plus a world grid; every rectangle of a lattice of corners (wrapping, wider than half the globe, degenerate, touching the poles) over the grid and points just inside and outside its edges; compared with great-circle distance and interval oracles written independently; a case is distinct when its answer set is; on the strict mock and all real engines")
	type entry struct {
		lat, lng float64
		id       string
	}
	// a world grid, offset so that grid points are not on rectangle edges
	var grid []entry
	for lat := -88.0; lat <= 88; lat += 16 {
		for lng := -179.0; lng < 180; lng += 14.5 {
			grid = append(grid, entry{lat, lng, fmt.Sprintf("g%v/%v", lat, lng)})
		}
	}
	for _, e := range []entry{{90, 0, "north"}, {-90, 0, "south"}, {0, 180, "anti"}, {0, -179.99, "antiw"}, {0, 0, "zero"}, {89.99, 10, "n89"}, {-89.99, -100, "s89"}, {45, 179.999, "am45"}, {35.2643897, 45, "corner"}} {
		grid = append(grid, e)
	}
	const common = "common"
	insert := func(idx *index.S2PointIdx, es []entry) string {
		for _, e := range es {
			// every position also carries an id common to all
			for _, id := range []string{e.id, common} {
				if _, err := idx.PointIndex(e.lat, e.lng, []byte(id)); err != nil {
					return err.Error()
				}
			}
		}
		return ""
	}
	compare := func(what string, ids []index.GeoID, es []entry, want func(e entry) (verdict, float64)) string {
		got := toSet(ids)
		leaves := map[s2.CellID]verdict{}
		for _, e := range es {
			v, d := want(e)
			n := got[e.id]
			leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(e.lat, e.lng))
			if o, ok := leaves[leaf]; ok && o != v {
				leaves[leaf] = either
			} else {
				leaves[leaf] = v
			}
			switch {
			case n > 1:
				return fmt.Sprintf("%s: %q (%v,%v) reported %d times", what, e.id, e.lat, e.lng, n)
			case v == inside && n == 0:
				return fmt.Sprintf("%s: %q at (%v,%v) is inside (distance %v) but was not returned", what, e.id, e.lat, e.lng, d)
			case v == outside && n == 1:
				return fmt.Sprintf("%s: %q at (%v,%v) is outside (distance %v) but was returned", what, e.id, e.lat, e.lng, d)
			}
			delete(got, e.id)
		}
		lo, hi := 0, 0
		for _, v := range leaves {
			switch v {
			case inside:
				lo++
				hi++
			case either:
				hi++
			}
		}
		if n := got[common]; n < lo || n > hi {
			return fmt.Sprintf("%s: an id indexed at every position was returned %d times, expected %d to %d times", what, n, lo, hi)
		}
		delete(got, common)
		if len(got) > 0 {
			return fmt.Sprintf("%s: unknown ids %v", what, got)
		}
		return ""
	}
	centers := []place{{46.8, -71.2}, {90, 0}, {-90, 30}, {89.999, 120}, {-89.5, -60}, {0, 180}, {0, -179.9999}, {10, 179.99}, {35.2643897, 45}, {-35.2643897, -135}, {0, 45}, {0, 0}, {45, 0}, {60, -180}, {-33.9, 151.2}, {1e-7, 1e-7}}
	radii := []float64{0, 0.5, 1, 3, 10, 33, 100, 1000, 2000, 5000, 20000, 100000, 500000, 1e6, 3e6, 5e6, 8e6, 10018754, 11e6, 15e6, 19e6, 20e6, 20037508, 20037600, 3e7}
	for lat := -85.0; lat <= 85; lat += float64(r.Pick(34, 17)) {
		for lng := -175.0; lng < 180; lng += float64(r.Pick(70, 35)) {
			centers = append(centers, place{lat, lng})
		}
	}
	if r.Thorough() {
		radii = append(radii, 0.1, 5, 50, 200, 333, 750, 10000, 50000, 200000, 2e6, 4e6, 6e6, 9e6, 10018753, 10018755, 12e6, 13e6, 17e6, 18e6, 19.9e6, 20037000)
	}
	type rc struct {
		c place
		r float64
	}
	var rcs []rc
	aligned := alignedRegions(r)
	for _, a := range aligned {
		for _, ra := range a.radii {
			rcs = append(rcs, rc{a.center, ra})
		}
	}
	for _, c := range centers {
		for _, ra := range radii {
			rcs = append(rcs, rc{c, ra})
		}
	}
	for _, name := range targets {
		p := &pool{r: r, name: name}
		rep.Par(len(rcs), func(i int) {
			if name != "mock" && name != "gtreap" && !r.Thorough() && i%6 != 0 || r.Stop() {
				return
			}
			q := rcs[i]
			p.run(fmt.Sprintf("%s/radius/%v/%v", name, q.c, q.r), func(t *target) string {
				idx := index.NewS2PointIdx(t.s, []byte("P"))
				es := append([]entry{}, grid...)
				es = append(es, entry{q.c.lat, q.c.lng, "center"}, entry{q.c.lat, q.c.lng, "center2"})
				if i < len(aligned)*alignedRadii {
					for pi, pt := range aligned[i/alignedRadii].around {
						es = append(es, entry{pt.lat, pt.lng, fmt.Sprintf("around%d", pi)})
					}
				}
				s := radiusSlack(q.r) * 1.5
				for b := 0; b < 16; b++ {
					for di, d := range []float64{q.r - s, q.r + s, q.r * 0.5, q.r * 0.99, q.r * 1.01, q.r * 0.999, q.r * 1.001, q.r * 1.2, q.r + 1, q.r - 1} {
						if d > 0 && d < math.Pi*earthR {
							la, ln := destination(q.c.lat, q.c.lng, float64(b)*22.5+0.1, d)
							es = append(es, entry{la, ln, fmt.Sprintf("b%d/%d", b, di)})
						}
					}
				}
				if msg := insert(idx, es); msg != "" {
					return msg
				}
				ids, err := idx.GeoIdsRadiusQuery(q.c.lat, q.c.lng, q.r)
				if err != nil {
					return err.Error()
				}
				r.Eval(1)
				r.State(fmt.Sprint(q))
				r.Sample(func() interface{} {
					return map[string]interface{}{"store": name, "center": q.c, "radius": q.r, "found": len(ids)}
				})
				return compare(fmt.Sprintf("radius %v m around (%v,%v)", q.r, q.c.lat, q.c.lng), ids, es, func(e entry) (verdict, float64) {
					d := meters(q.c.lat, q.c.lng, e.lat, e.lng)
					return inRadius(d, q.r), d
				})
			})
		})
		p.closeAll()
	}
	// rectangles
	lats := []float64{-90, -60.5, -10, 0, 0.001, 47.25, 89.5, 90}
	lngs := []float64{-180, -179.5, -120, -60.1, -0.01, 0, 30, 89.9, 120.5, 179.9, 180}
	if r.Thorough() {
		lats = append(lats, -89.999, -45, -0.0001, 10, 10.001, 45, 80)
		lngs = append(lngs, -179.9999, -90, -45, -0.00001, 0.5, 45, 45.0005, 90, 135, 170)
	}
	var rqs []rq
	around := map[rq][]place{}
	for _, a := range aligned {
		for _, q := range a.rects {
			rqs = append(rqs, q)
			around[q] = a.around
		}
	}
	for _, a := range lats {
		for _, b := range lats {
			if a > b {
				continue
			}
			for _, w := range lngs {
				for _, e := range lngs {
					rqs = append(rqs, rq{b, e, a, w})
				}
			}
		}
	}
	for _, small := range []place{{46.8, -71.2}, {0, 180}, {0, 0}, {89.9, 10}, {-45, -180}, {35.26, 45}} {
		for _, h := range []float64{1e-5, 1e-3, 0.1} {
			for _, w := range []float64{1e-5, 1e-3, 0.1, 10} {
				e := small.lng + w
				if e > 180 {
					e -= 360
				}
				rqs = append(rqs, rq{math.Min(90, small.lat+h), e, small.lat, small.lng})
			}
		}
	}
	for _, name := range targets {
		p := &pool{r: r, name: name}
		rep.Par(len(rqs), func(i int) {
			if name != "mock" && name != "gtreap" && !r.Thorough() && i%6 != 0 || r.Stop() {
				return
			}
			q := rqs[i]
			// the same meridian written twice: a line or the whole globe, both readings occur
			if math.Abs(math.Abs(q.urlng-q.bllng)-360) < 1e-9 {
				return
			}
			p.run(fmt.Sprintf("%s/rect/%v", name, q), func(t *target) string {
				idx := index.NewS2PointIdx(t.s, []byte("P"))
				es := append([]entry{}, grid...)
				width := q.urlng - q.bllng
				if width < 0 {
					width += 360
				}
				for pi, pt := range around[q] {
					es = append(es, entry{pt.lat, pt.lng, fmt.Sprintf("around%d", pi)})
				}
				for ai, fa := range []float64{-1, 0.001, 0.3, 0.5, 0.999, 2} {
					for bi, fb := range []float64{-1, 0.001, 0.3, 0.5, 0.999, 2} {
						la := q.bllat + fa*(q.urlat-q.bllat)
						ln := q.bllng + fb*width
						if fa < 0 {
							la = q.bllat - 1e-5
						} else if fa > 1 {
							la = q.urlat + 1e-5
						}
						if fb < 0 {
							ln = q.bllng - 1e-5
						} else if fb > 1 {
							ln = q.bllng + width + 1e-5
						}
						if la < -90 || la > 90 {
							continue
						}
						es = append(es, entry{la, math.Mod(ln+900, 360) - 180, fmt.Sprintf("r%d/%d", ai, bi)})
					}
				}
				if msg := insert(idx, es); msg != "" {
					return msg
				}
				ids, err := idx.GeoIdsRectQuery(q.urlat, q.urlng, q.bllat, q.bllng)
				if err != nil {
					return err.Error()
				}
				r.Eval(1)
				r.State(fmt.Sprint(q))
				return compare(fmt.Sprintf("rect %+v", q), ids, es, func(e entry) (verdict, float64) {
					return inRect(e.lat, e.lng, q.urlat, q.urlng, q.bllat, q.bllng), 0
				})
			})
		})
		p.closeAll()
	}
	for _, name := range targets {
		n := r.Pick(7000, 30000)
		if name == "boltdb" || name == "badger" || name == "goleveldb" {
			n = r.Pick(600, 5000)
		}
		manyPoints(r, name, n)
	}
	r.Finish()
}

type rq struct{ urlat, urlng, bllat, bllng float64 }

// region has circles and rectangles aligned with the corners and edges of a cell, and the positions next to these.
type region struct {
	center place
	radii  []float64
	rects  []rq
	around []place
}

const alignedRadii = 6

// alignedRegions has a region for each of the largest cells, and for cells of every level around the places.
func alignedRegions(r *rep.R) []region {
	var cells []s2.CellID
	for f := 0; f < 6; f++ {
		c := s2.CellIDFromFace(f)
		for l := 0; l <= r.Pick(2, 3); l++ {
			for x := c.ChildBeginAtLevel(l); x != c.ChildEndAtLevel(l); x = x.Next() {
				cells = append(cells, x)
			}
		}
	}
	for _, pl := range places {
		for l := 3; l <= 18; l++ {
			cells = append(cells, s2.CellIDFromLatLng(s2.LatLngFromDegrees(pl.lat, pl.lng)).Parent(l))
		}
	}
	v := func(p s2.Point) vec { return vec{p.X, p.Y, p.Z} }
	norm := func(a vec) vec { n := a.norm(); return vec{a.x / n, a.y / n, a.z / n} }
	var out []region
	for _, id := range cellSet(cells) {
		c := s2.CellFromCellID(id)
		var g region
		g.center.lat, g.center.lng = v(c.Center()).latlng()
		var corner, edge float64
		minlat, maxlat := 90.0, -90.0
		var lngs []float64
		for k := 0; k < 4; k++ {
			a, b := v(c.Vertex(k)), v(c.Vertex((k+1)%4))
			m := norm(vec{a.x + b.x, a.y + b.y, a.z + b.z})
			la, ln := a.latlng()
			minlat, maxlat = math.Min(minlat, la), math.Max(maxlat, la)
			lngs = append(lngs, ln)
			corner = math.Max(corner, angle(v(c.Center()), a)*earthR)
			edge = math.Max(edge, angle(v(c.Center()), m)*earthR)
			for _, p := range []vec{a, m} {
				for _, f := range []float64{0.5, 0.9, 0.99, 1.01, 1.1, 1.5} { // from the centre to the position and beyond
					o := v(c.Center())
					x := norm(vec{o.x + (p.x-o.x)*f, o.y + (p.y-o.y)*f, o.z + (p.z-o.z)*f})
					la, ln := x.latlng()
					g.around = append(g.around, place{la, ln})
				}
			}
		}
		for _, d := range []float64{corner, edge} {
			g.radii = append(g.radii, d*0.999, d, d*1.001)
		}
		// the western and the eastern corner: the smallest interval with all
		best, w, e := 361.0, 0.0, 0.0
		for _, x := range lngs {
			far := 0.0
			fe := x
			for _, y := range lngs {
				if d := math.Mod(y-x+720, 360); d > far {
					far, fe = d, y
				}
			}
			if far < best {
				best, w, e = far, x, fe
			}
		}
		wrap := func(x float64) float64 { return math.Mod(x+900, 360) - 180 }
		for _, m := range []float64{-1e-3, 1e-3, 0.02} {
			d := m * (maxlat - minlat)
			if best < 350 && maxlat+d <= 90 && minlat-d >= -90 {
				g.rects = append(g.rects, rq{maxlat + d, wrap(e + d), minlat - d, wrap(w - d)})
			}
		}
		out = append(out, g)
	}
	return out
}
