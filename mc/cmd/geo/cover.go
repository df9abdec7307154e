package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

// shape is a geometry to cover.
type shape struct {
	name  string
	parts []part
}

func (s shape) String() string { return s.name }

func reversed(v []xy) []xy {
	o := make([]xy, len(v))
	for i := range v {
		o[len(v)-1-i] = v[i]
	}
	return o
}

func rotated(v []xy, k int) []xy { return append(append([]xy{}, v[k:]...), v[:k]...) }

var (
	ringCache  = map[int][][]xy{}
	ringCacheM sync.Mutex
)

func ringsUpTo(n int) [][]xy {
	ringCacheM.Lock()
	defer ringCacheM.Unlock()
	if ringCache[n] == nil {
		ringCache[n] = rings(n, true)
	}
	return ringCache[n]
}

// lines are all chains of 1..max lattice points without immediate repetition, each also with a repeated vertex.
func lines(max int) [][]xy {
	var out [][]xy
	var rec func(cur []xy)
	rec = func(cur []xy) {
		if len(cur) > 0 {
			out = append(out, append([]xy{}, cur...))
		}
		if len(cur) == 2 {
			out = append(out, []xy{cur[0], cur[0], cur[1]}, []xy{cur[0], cur[1], cur[1]})
		}
		if len(cur) == max {
			return
		}
		for _, p := range lattice {
			if len(cur) == 0 || cur[len(cur)-1] != p {
				rec(append(cur, p))
			}
		}
	}
	rec(nil)
	return out
}

type bigShape struct {
	name   string
	v      []xy
	closed bool
}

// bigShapes are rings and lines of many vertices: stars, combs and spirals, which turn both ways, from several first
// vertices and in both directions.
func bigShapes(lines bool) []bigShape {
	var out []bigShape
	add := func(name string, v []xy) {
		n := len(v)
		out = append(out, bigShape{name + "/fwd", v, true}, bigShape{name + "/rev", reversed(rotated(v, 1)), true}, bigShape{name + "/mid", rotated(v, n/2), true},
			bigShape{name + "/closed", append(rotated(v, n/3), v[n/3]), true})
	}
	for _, n := range []int{8, 12, 20, 33 * 2, 100, 256, 600} {
		var star []xy
		for i := 0; i < n; i++ {
			s, c := math.Sincos(2*math.Pi*float64(i)/float64(n) + 0.1)
			k := 1.0
			if i%2 == 1 {
				k = 0.35
			}
			star = append(star, xy{c * k, s * k})
		}
		add(fmt.Sprintf("star%d", n), star)
		var round []xy
		for i := 0; i < n; i++ {
			s, c := math.Sincos(-2*math.Pi*float64(i)/float64(n) + 0.3)
			round = append(round, xy{c, s})
		}
		add(fmt.Sprintf("round%d", n), round)
	}
	for _, teeth := range []int{2, 3, 8, 40} {
		var comb []xy
		w := 2 / float64(2*teeth-1)
		for i := 0; i < teeth; i++ {
			x := -1 + 2*w*float64(i)
			if i > 0 {
				comb = append(comb, xy{x, -0.7})
			}
			comb = append(comb, xy{x, 1}, xy{x + w, 1})
			if i < teeth-1 {
				comb = append(comb, xy{x + w, -0.7})
			}
		}
		comb = append(comb, xy{1, -1}, xy{-1, -1})
		add(fmt.Sprintf("comb%d", teeth), comb)
	}
	for _, turns := range []int{1, 2, 5} {
		var a, b []xy
		for i := 0; i <= turns*12; i++ {
			t := float64(i) / 12
			s, c := math.Sincos(2 * math.Pi * t)
			k := (t + 0.3) / (float64(turns) + 0.8)
			d := (t + 0.75) / (float64(turns) + 0.8)
			a = append(a, xy{c * k, s * k})
			b = append(b, xy{c * d, s * d})
		}
		add(fmt.Sprintf("spiral%d", turns), append(append([]xy{}, a...), reversed(b)...))
		if lines {
			out = append(out, bigShape{fmt.Sprintf("spiralline%d", turns), a, false})
		}
	}
	if lines {
		for _, n := range []int{5, 17, 64, 100, 256, 600} {
			var z []xy
			for i := 0; i < n; i++ {
				z = append(z, xy{-1 + 2*float64(i)/float64(n-1), float64(i%2) * 0.5})
			}
			out = append(out, bigShape{fmt.Sprintf("zigzag%d", n), z, false})
		}
		for _, b := range out {
			if b.closed && strings.HasSuffix(b.name, "/fwd") {
				out = append(out, bigShape{b.name + "/line", append(append([]xy{}, b.v...), b.v[0]), false})
			}
		}
	}
	return out
}

// shapesIn enumerates the family in one frame.
func shapesIn(fr *frame, ringMax, lineMax, multiStep int, f func(s shape)) {
	for i, v := range ringsUpTo(ringMax) {
		name := fmt.Sprintf("%s/ring%d", fr.name, i)
		if i%3 == 1 { // closing vertex repeated
			f(shape{name, []part{{fr, append(append([]xy{}, v...), v[0]), true}}})
		} else {
			f(shape{name, []part{{fr, rotated(v, i%len(v)), true}}})
		}
	}
	if lineMax > 0 {
		for i, v := range lines(lineMax) {
			f(shape{fmt.Sprintf("%s/line%d", fr.name, i), []part{{fr, v, false}}})
		}
		// lines going around
		for i, v := range ringsUpTo(4) {
			f(shape{fmt.Sprintf("%s/around%d", fr.name, i), []part{{fr, append(append([]xy{}, v...), v[0]), false}}})
		}
	}
	for _, b := range bigShapes(lineMax > 0) {
		f(shape{fmt.Sprintf("%s/%s", fr.name, b.name), []part{{fr, b.v, b.closed}}})
	}
	// pairs and triples of triangles, in frames side by side
	tri := ringsUpTo(3)
	if multiStep > 0 {
		o := *fr
		o.c = fr.up(xy{2.6, 0.3})
		o.e = o.c.cross(fr.f).cross(o.c).unit()
		o.f = o.c.cross(o.e)
		o.t = fr.t * 0.7
		q := o
		q.c = fr.up(xy{-0.2, -2.8})
		q.e = q.c.cross(fr.f).cross(q.c).unit()
		q.f = q.c.cross(q.e)
		q.t = fr.t * 0.3
		for i := range tri {
			for j := i % multiStep; j < len(tri); j += multiStep {
				s := shape{fmt.Sprintf("%s/multi%d-%d", fr.name, i, j), []part{{fr, tri[i], true}, {&o, tri[j], true}}}
				if (i+j)%2 == 0 {
					s.parts = append(s.parts, part{&q, tri[(i*7+j)%len(tri)], true})
				}
				if (i+j)%5 == 0 {
					s.parts[0], s.parts[1] = s.parts[1], s.parts[0]
				}
				f(s)
			}
		}
	}
}

// uncloses drops a repeated closing vertex.
func (p part) open() part {
	if n := len(p.v); p.closed && n > 1 && p.v[0] == p.v[n-1] {
		p.v = p.v[:n-1]
	}
	return p
}

func (p part) eps() float64 { return 1e-12 + 6e-15/p.fr.t }

// ranges of leaf cells, sorted and merged.
type ranges [][2]uint64

func rangesOf(cu []s2.CellID) ranges {
	var r ranges
	for _, c := range cu {
		r = append(r, [2]uint64{uint64(c.RangeMin()), uint64(c.RangeMax())})
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	var out ranges
	for _, x := range r {
		if n := len(out); n > 0 && x[0] <= out[n-1][1]+2 {
			if x[1] > out[n-1][1] {
				out[n-1][1] = x[1]
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

func (r ranges) has(c s2.CellID) bool {
	lo, hi := uint64(c.RangeMin()), uint64(c.RangeMax())
	i := sort.Search(len(r), func(i int) bool { return r[i][1] >= hi })
	return i < len(r) && r[i][0] <= lo
}

// covered tells whether a position is in the cover, within rounding.
func covered(rs ranges, cu []s2.CellID, v vec) bool {
	p := v.point()
	if rs.has(s2.CellIDFromLatLng(s2.LatLngFromPoint(p))) || rs.has(s2.CellFromPoint(p).ID()) {
		return true
	}
	for _, c := range cu {
		if float64(s2.CellFromCellID(c).Distance(p)) < 1e-28 { // squared chord
			return true
		}
	}
	return false
}

func ids(cu []s2.CellID) string {
	s := fmt.Sprintf("%d cells", len(cu))
	for i, c := range cu {
		if i == 12 {
			return s + " ..."
		}
		s += " " + c.ToToken()
	}
	return s
}

func describe(gd *geodata.GeoData) string {
	g := gd.Geometry
	s := fmt.Sprintf("%v %v", g.Type, g.Coordinates)
	for _, x := range g.Geometries {
		s += fmt.Sprintf(" %v", x.Coordinates)
	}
	return s
}

// judgeCover applies the oracle of G01.
func judgeCover(s shape, cv *s2.RegionCoverer, cu []s2.CellID) string {
	for _, c := range cu {
		if s.parts[0].closed || len(s.parts[0].v) > 1 {
			if !allowed(cv, c) {
				return fmt.Sprintf("cell %s of level %d is not at an allowed level", c.ToToken(), c.Level())
			}
		} else if !c.IsValid() || c.Level() != cv.MinLevel {
			return fmt.Sprintf("cell %s of level %d for a point", c.ToToken(), c.Level())
		}
	}
	rs := rangesOf(cu)
	for pi, p := range s.parts {
		p = p.open()
		for _, v := range p.samples(9) {
			if !covered(rs, cu, v) {
				la, ln := v.latlng()
				return fmt.Sprintf("the position lat %v lng %v of part %d is not covered", la, ln, pi)
			}
		}
	}
	for _, c := range cu {
		ok := false
		for _, p := range s.parts {
			p = p.open()
			q := p.fr.quad(c)
			if !q.ok {
				// partly behind the horizon of the frame: only a cell far away is certain not to meet the shape
				cell := s2.CellFromCellID(c)
				far := 0.0
				for i := 0; i < 4; i++ {
					if a := angle(of(cell.Center()), of(cell.Vertex(i))); a > far {
						far = a
					}
				}
				reach := 0.0
				for _, v := range p.v {
					if a := angle(p.fr.c, p.fr.up(v)); a > reach {
						reach = a
					}
				}
				ok = angle(of(cell.Center()), p.fr.c) <= reach+far+1e-6
			} else {
				ok = p.meets(q, p.eps())
			}
			if ok {
				break
			}
		}
		if !ok {
			return fmt.Sprintf("cell %s of the cover does not meet the geometry", c.ToToken())
		}
	}
	return ""
}

// longShapes are lines and rings of thousands of vertices of which only every 97th matters to the extent, in all 97
// ways, so that leaving out or taking apart a long list of coordinates anywhere shows; and multi-polygons of many parts.
func longShapes(fr *frame, r *rep.R, f func(s shape)) {
	const m = 97
	for _, n := range []int{r.Pick(2200, 5000)} {
		for k := 0; k < m; k++ {
			// clusters of m points along a spiral, joined by long edges
			var ln, ring []xy
			for i := 0; i < n; i++ {
				j := float64((i + k) / m)
				s, c := math.Sincos(j * 0.9)
				ds, dc := math.Sincos(float64(i) * 2.4)
				ln = append(ln, xy{c*(0.3+j*0.03) + 0.002*dc, s*(0.3+j*0.03) + 0.002*ds})
				s, c = math.Sincos(2 * math.Pi * float64(i) / float64(n))
				d := 0.4
				if (i+k)%m == 0 {
					d = 1
				}
				ring = append(ring, xy{c * d, s * d})
			}
			f(shape{fmt.Sprintf("%s/clusters%d-%d", fr.name, n, k), []part{{fr, ln, false}}})
			if k%2 == 1 {
				ring = reversed(ring)
			}
			f(shape{fmt.Sprintf("%s/spikes%d-%d", fr.name, n, k), []part{{fr, ring, true}}})
		}
	}
	tri := ringsUpTo(3)
	for _, n := range []int{4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 70, 100, 101, 128, 129, 150, r.Pick(200, 1100)} {
		for k := 0; k < 3; k++ {
			s := shape{name: fmt.Sprintf("%s/parts%d-%d", fr.name, n, k)}
			for i := 0; i < n; i++ {
				o := *fr
				j := (i*7 + k*5) % n // not in the order of places
				if n%7 == 0 {
					j = n - 1 - i
				}
				o.c = fr.up(xy{float64(j%15)*2.6 - 20, float64(j/15)*2.6 - 20})
				o.e = o.c.cross(fr.f).cross(o.c).unit()
				o.f = o.c.cross(o.e)
				s.parts = append(s.parts, part{&o, tri[(i*13+k)%len(tri)], true})
			}
			f(s)
		}
	}
}

// overLong runs f for every long shape at a place.
func overLong(r *rep.R, f func(fr *frame, s shape) string) {
	fr := newFrame(48.85, 2.35, 0.3, 0.004)
	fr.name = "long"
	var all []shape
	longShapes(fr, r, func(s shape) { all = append(all, s) })
	rep.Par(len(all), func(i int) {
		s := all[i]
		if r.Stop() || !r.Case(s.name) {
			return
		}
		if msg := rep.Catch(func() string { return f(fr, s) }); msg != "" {
			r.Violate(s.name, "shape %s: %s", s.name, msg)
		}
	})
}

// over runs f for every shape of every frame on all cores.
func over(r *rep.R, ringMax, lineMax, multiStep int, f func(fr *frame, s shape) string) {
	frs := frames(r)
	ringsUpTo(ringMax)
	ringsUpTo(3)
	const split = 8
	rep.Par(len(frs)*split, func(k int) {
		fr := frs[k/split]
		n := -1
		shapesIn(fr, ringMax, lineMax, multiStep, func(s shape) {
			n++
			if n%split != k%split || r.Stop() || !r.Case(s.name) {
				return
			}
			msg := rep.Catch(func() string { return f(fr, s) })
			if msg != "" {
				r.Violate(s.name, "shape %s: %s\n%s", s.name, describe(gdOf(s.parts...)), msg)
			}
		})
	})
}

func g01() {
	r := rep.New("G01", "exploration", "every simple polygon of a 3x3 lattice of the tangent plane (both orientations; up to 5 vertices quick, 7 thorough; convex or not, closed or open), every line of up to 3 (thorough 4) lattice points, points, and pairs and triples of triangles, at 12 places (face centres and corners, antimeridian, poles, ordinary) x scales from 50 degrees down to metres x coverer settings; in the tangent plane great circles are straight, so containment, levels and superfluous cells are judged by exact planar geometry")
	r.Extra["rings"] = len(ringsUpTo(7))
	judge := func(fr *frame, s shape, cvs []*s2.RegionCoverer) string {
		gd := gdOf(s.parts...)
		for i, cv := range cvs {
			what := func(m string) string { return fmt.Sprintf("coverer %s: %s", cvName(cv), m) }
			cu, err := gd.Cover(cv)
			if err != nil {
				return what("error " + err.Error())
			}
			r.Eval(1)
			if msg := judgeCover(s, cv, cu); msg != "" {
				return what(msg + "\ncover " + ids(cu))
			}
			if i == 1 {
				cu2, err := geodata.GeoDataToCoverCellUnion(gd, cv)
				if err != nil || !equal(cu, cu2) {
					return what(fmt.Sprintf("GeoDataToCoverCellUnion gives %s (error %v), Cover gives %s", ids(cu2), err, ids(cu)))
				}
			}
			r.Sample(func() interface{} {
				return map[string]interface{}{"shape": describe(gd), "coverer": cvName(cv), "cover": ids(cu)}
			})
		}
		r.State(s.name)
		return ""
	}
	over(r, 7, r.Pick(3, 4), r.Pick(11, 5), func(fr *frame, s shape) string { return judge(fr, s, coverers(fr.t)) })
	overLong(r, func(fr *frame, s shape) string {
		cv := coverers(fr.t)
		if len(s.parts) > 1 {
			return judge(fr, s, []*s2.RegionCoverer{cv[2], cv[0], cv[4]})
		}
		return judge(fr, s, []*s2.RegionCoverer{cv[1], cv[4]})
	})
	r.Finish()
}

func equal(a, b []s2.CellID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func g02() {
	r := rep.New("G02", "exploration", "the family of G01 (polygons, multi-polygons and lines) with coverer settings fine enough to have interior cells; every interior cell is checked against exact planar geometry (its corners inside the ring, no edge of the ring crossing it, the ring not within it), its level, and membership in the ordinary cover; at a fixed level every cell clearly inside must be there; a line must have none")
	f := func(fr *frame, s shape) string {
		gd := gdOf(s.parts...)
		if len(s.parts[0].v) == 1 {
			return ""
		}
		l := coverers(fr.t)[0].MinLevel
		lv := func(x int) int {
			if x < 0 {
				return 0
			}
			if x > 30 {
				return 30
			}
			return x
		}
		cvs := []*s2.RegionCoverer{
			{MinLevel: lv(l + 2), MaxLevel: lv(l + 2), MaxCells: 100000},
			{MinLevel: lv(l - 1), MaxLevel: lv(l + 2), MaxCells: 40},
			{MinLevel: lv(l), MaxLevel: lv(l + 3), MaxCells: 9, LevelMod: 3},
			{MinLevel: lv(l + 1), MaxLevel: lv(l + 3), MaxCells: 30, LevelMod: 2},
		}
		if r.Thorough() {
			cvs = append(cvs, &s2.RegionCoverer{MinLevel: lv(l + 3), MaxLevel: lv(l + 3), MaxCells: 100000}, &s2.RegionCoverer{MinLevel: 0, MaxLevel: lv(l + 3), MaxCells: 8})
		}
		for i, cv := range cvs {
			what := func(m string) string { return fmt.Sprintf("coverer %s: %s", cvName(cv), m) }
			cu, err := gd.InteriorCover(cv)
			if err != nil {
				return what("error " + err.Error())
			}
			r.Eval(1)
			if !s.parts[0].closed {
				if len(cu) > 0 {
					return what("a line has interior cells: " + ids(cu))
				}
				continue
			}
			out, err := gd.Cover(cv)
			if err != nil {
				return what("cover: " + err.Error())
			}
			rs := rangesOf(out)
			for _, c := range cu {
				if !allowed(cv, c) {
					return what(fmt.Sprintf("cell %s of level %d is not at an allowed level", c.ToToken(), c.Level()))
				}
				if !rs.has(c) {
					return what(fmt.Sprintf("interior cell %s is not in the cover %s", c.ToToken(), ids(out)))
				}
				ok := false
				for _, p := range s.parts {
					p = p.open()
					q := p.fr.quad(c)
					ok = ok || q.ok && p.holds(q, p.eps()) >= 0
				}
				if !ok {
					return what(fmt.Sprintf("interior cell %s is not inside the polygon; interior cover %s", c.ToToken(), ids(cu)))
				}
			}
			if cv.MinLevel == cv.MaxLevel {
				got := rangesOf(cu)
				for _, c := range out {
					for _, p := range s.parts {
						p = p.open()
						q := p.fr.quad(c)
						if q.ok && p.holds(q, p.eps()) > 0 && !got.has(c) {
							return what(fmt.Sprintf("cell %s is inside the polygon but not in its interior cover %s", c.ToToken(), ids(cu)))
						}
					}
				}
			}
			if len(cu) > 0 {
				r.State(fmt.Sprintf("%s/%d", s.name, i))
			}
			r.Sample(func() interface{} {
				return map[string]interface{}{"shape": describe(gd), "coverer": cvName(cv), "interior": ids(cu)}
			})
		}
		return ""
	}
	over(r, 7, r.Pick(2, 3), r.Pick(17, 7), f)
	overLong(r, f)
	r.Finish()
}
