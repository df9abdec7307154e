// Command geo decides the geometry properties G01-G06 by exhaustive enumeration of bounded families of shapes.
package main

import (
	"fmt"
	"math"
	"os"
	"time"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

func main() {
	checks := map[string]func(){"G01": g01, "G02": g02, "G03": g03, "G04": g04, "G05": g05, "G06": g06}
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check")
		os.Exit(2)
	}
	f()
}

const hang = 60 * time.Second

type vec struct{ x, y, z float64 }

func vecOf(lat, lng float64) vec {
	a, b := lat*math.Pi/180, lng*math.Pi/180
	return vec{math.Cos(a) * math.Cos(b), math.Cos(a) * math.Sin(b), math.Sin(a)}
}
func (a vec) cross(b vec) vec {
	return vec{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}
}
func (a vec) dot(b vec) float64 { return a.x*b.x + a.y*b.y + a.z*b.z }
func (a vec) norm() float64     { return math.Sqrt(a.dot(a)) }
func (a vec) mul(f float64) vec { return vec{a.x * f, a.y * f, a.z * f} }
func (a vec) add(b vec) vec     { return vec{a.x + b.x, a.y + b.y, a.z + b.z} }
func (a vec) unit() vec         { return a.mul(1 / a.norm()) }
func (a vec) point() s2.Point   { return s2.PointFromCoords(a.x, a.y, a.z) }
func of(p s2.Point) vec         { return vec{p.X, p.Y, p.Z} }
func angle(a, b vec) float64    { return math.Atan2(a.cross(b).norm(), a.dot(b)) }
func (a vec) latlng() (float64, float64) {
	return math.Atan2(a.z, math.Hypot(a.x, a.y)) * 180 / math.Pi, math.Atan2(a.y, a.x) * 180 / math.Pi
}

// xy is a position in a tangent plane, in units of the lattice spacing. Great circles are its straight lines.
type xy struct{ x, y float64 }

func (a xy) sub(b xy) xy { return xy{a.x - b.x, a.y - b.y} }
func cross(a, b, c xy) float64 {
	return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x)
}

// frame is a tangent plane at a place, turned by rot, with a lattice spacing t.
type frame struct {
	name    string
	c, e, f vec
	t       float64
}

func newFrame(lat, lng, rot, t float64) *frame {
	c := vecOf(lat, lng)
	up := vec{0, 0, 1}
	if math.Abs(c.z) > 0.99 {
		up = vec{1, 0, 0}
	}
	e := up.cross(c).unit()
	f := c.cross(e)
	s, k := math.Sincos(rot)
	return &frame{fmt.Sprintf("%v,%v/rot%v/t%v", lat, lng, rot, t), c, e.mul(k).add(f.mul(s)), f.mul(k).add(e.mul(-s)), t}
}

// up lifts a position of the plane to the sphere.
func (fr *frame) up(p xy) vec {
	return fr.c.add(fr.e.mul(p.x * fr.t)).add(fr.f.mul(p.y * fr.t)).unit()
}

// down projects to the plane; ok is false on the far side.
func (fr *frame) down(v vec) (xy, bool) {
	d := v.dot(fr.c)
	if d <= 1e-6 {
		return xy{}, false
	}
	return xy{v.dot(fr.e) / d / fr.t, v.dot(fr.f) / d / fr.t}, true
}

// lattice is the 3x3 lattice.
var lattice = func() []xy {
	var l []xy
	for x := -1.0; x <= 1; x++ {
		for y := -1.0; y <= 1; y++ {
			l = append(l, xy{x, y})
		}
	}
	return l
}()

// between tells whether b is on the segment a-c.
func between(a, b, c xy) bool {
	return cross(a, c, b) == 0 && math.Min(a.x, c.x) <= b.x && b.x <= math.Max(a.x, c.x) && math.Min(a.y, c.y) <= b.y && b.y <= math.Max(a.y, c.y)
}

func sgn(x float64) int {
	if x > 0 {
		return 1
	}
	if x < 0 {
		return -1
	}
	return 0
}

// touch tells whether segments ab and cd have a common point.
func touch(a, b, c, d xy) bool {
	if between(a, c, b) || between(a, d, b) || between(c, a, d) || between(c, b, d) {
		return true
	}
	return sgn(cross(a, b, c)) != sgn(cross(a, b, d)) && sgn(cross(c, d, a)) != sgn(cross(c, d, b)) &&
		sgn(cross(a, b, c))*sgn(cross(a, b, d)) != 0 && sgn(cross(c, d, a))*sgn(cross(c, d, b)) != 0
}

// simple tells whether the ring is a simple polygon without straight corners.
func simple(r []xy) bool {
	n := len(r)
	for i := 0; i < n; i++ {
		a, b, c := r[i], r[(i+1)%n], r[(i+2)%n]
		if cross(a, b, c) == 0 {
			return false
		}
		for j := i + 2; j < n; j++ {
			if i == 0 && j == n-1 {
				continue
			}
			if touch(a, b, r[j], r[(j+1)%n]) {
				return false
			}
		}
	}
	return true
}

// rings are all simple polygons of the lattice with up to max vertices, one per cycle (no rotations; both
// orientations when both is set).
func rings(max int, both bool) [][]xy {
	var out [][]xy
	var cur []int
	used := make([]bool, len(lattice))
	var rec func()
	rec = func() {
		if n := len(cur); n >= 3 && (both || cur[1] < cur[n-1]) {
			r := make([]xy, n)
			for i, k := range cur {
				r[i] = lattice[k]
			}
			if simple(r) {
				out = append(out, r)
			}
		}
		if len(cur) == max {
			return
		}
		for k := range lattice {
			if used[k] || len(cur) > 0 && k < cur[0] {
				continue
			}
			used[k] = true
			cur = append(cur, k)
			rec()
			cur = cur[:len(cur)-1]
			used[k] = false
		}
	}
	rec()
	return out
}

func area(r []xy) float64 {
	s := 0.0
	for i := range r {
		a, b := r[i], r[(i+1)%len(r)]
		s += a.x*b.y - a.y*b.x
	}
	return s / 2
}

// in tells whether p is inside the ring.
func in(r []xy, p xy) bool {
	k := false
	for i := range r {
		a, b := r[i], r[(i+1)%len(r)]
		if (a.y > p.y) != (b.y > p.y) && p.x < (b.x-a.x)*(p.y-a.y)/(b.y-a.y)+a.x {
			k = !k
		}
	}
	return k
}

// dist of p to the segment ab.
func dist(p, a, b xy) float64 {
	d := b.sub(a)
	l := d.x*d.x + d.y*d.y
	f := 0.0
	if l > 0 {
		f = math.Max(0, math.Min(1, ((p.x-a.x)*d.x+(p.y-a.y)*d.y)/l))
	}
	return math.Hypot(p.x-a.x-f*d.x, p.y-a.y-f*d.y)
}

// chain of edges of a ring or a line.
func edges(r []xy, closed bool) [][2]xy {
	var out [][2]xy
	for i := 0; i+1 < len(r); i++ {
		out = append(out, [2]xy{r[i], r[i+1]})
	}
	if closed {
		out = append(out, [2]xy{r[len(r)-1], r[0]})
	}
	if len(r) == 1 {
		out = append(out, [2]xy{r[0], r[0]})
	}
	return out
}

// segDist is the distance between two segments.
func segDist(a, b, c, d xy) float64 {
	if sgn(cross(a, b, c)) != sgn(cross(a, b, d)) && sgn(cross(c, d, a)) != sgn(cross(c, d, b)) {
		return 0
	}
	return math.Min(math.Min(dist(a, c, d), dist(b, c, d)), math.Min(dist(c, a, b), dist(d, a, b)))
}

// quad is a cell projected to the plane.
type quad struct {
	v  [4]xy
	ok bool // wholly on the near side
}

func (fr *frame) quad(id s2.CellID) quad {
	var q quad
	q.ok = true
	c := s2.CellFromCellID(id)
	for i := 0; i < 4; i++ {
		p, ok := fr.down(of(c.Vertex(i)))
		q.v[i] = p
		q.ok = q.ok && ok
	}
	return q
}

// shape is a lattice shape: rings (closed) or lines, each in its own frame.
type part struct {
	fr     *frame
	v      []xy
	closed bool
}

// meets tells whether the cell is not clearly away from the part.
func (p part) meets(q quad, eps float64) bool {
	for _, e := range edges(p.v, p.closed) {
		for i := 0; i < 4; i++ {
			if segDist(e[0], e[1], q.v[i], q.v[(i+1)%4]) <= eps {
				return true
			}
		}
	}
	if p.closed && in(p.v, q.v[0]) {
		return true
	}
	return in(q.v[:], p.v[0])
}

// inside tells +1 if the cell is wholly inside the ring, -1 if not, 0 if too close to tell.
func (p part) holds(q quad, eps float64) int {
	for _, e := range edges(p.v, true) {
		for i := 0; i < 4; i++ {
			d := segDist(e[0], e[1], q.v[i], q.v[(i+1)%4])
			if d <= eps {
				// touching or crossing: only a proper crossing is certain
				c := q.v[i]
				n := q.v[(i+1)%4]
				// pull the cell's edge towards the cell's middle
				m := xy{(q.v[0].x + q.v[1].x + q.v[2].x + q.v[3].x) / 4, (q.v[0].y + q.v[1].y + q.v[2].y + q.v[3].y) / 4}
				sz := math.Hypot(c.x-m.x, c.y-m.y)
				if sz < 20*eps {
					return 0
				}
				k := 4 * eps / sz
				c = xy{c.x + (m.x-c.x)*k, c.y + (m.y-c.y)*k}
				n = xy{n.x + (m.x-n.x)*k, n.y + (m.y-n.y)*k}
				if segDist(e[0], e[1], c, n) == 0 {
					return -1
				}
				return 0
			}
		}
	}
	if !in(p.v, q.v[0]) || in(q.v[:], p.v[0]) {
		return -1
	}
	return 1
}

// coords of the part in degrees.
func (p part) coords() []float64 {
	c := make([]float64, 0, 2*len(p.v))
	for _, v := range p.v {
		la, ln := p.fr.up(v).latlng()
		c = append(c, ln, la)
	}
	return c
}

// sample positions on the edges and, for rings, inside.
func (p part) samples(n int) []vec {
	var out []vec
	for _, e := range edges(p.v, p.closed) {
		for j := 0; j <= n; j++ {
			f := float64(j) / float64(n)
			out = append(out, p.fr.up(xy{e[0].x + (e[1].x-e[0].x)*f, e[0].y + (e[1].y-e[0].y)*f}))
		}
	}
	if p.closed {
		for x := -0.987; x < 1; x += 0.1713 {
			for y := -0.983; y < 1; y += 0.1691 {
				if in(p.v, xy{x, y}) {
					out = append(out, p.fr.up(xy{x, y}))
				}
			}
		}
	}
	return out
}

func gdOf(parts ...part) *geodata.GeoData {
	g := &geodata.Geometry{}
	switch {
	case len(parts) > 1:
		g.Type = geodata.Geometry_MULTIPOLYGON
		for _, p := range parts {
			g.Geometries = append(g.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: p.coords()})
		}
	case parts[0].closed:
		g.Type = geodata.Geometry_POLYGON
		g.Coordinates = parts[0].coords()
	case len(parts[0].v) == 1:
		g.Type = geodata.Geometry_POINT
		g.Coordinates = parts[0].coords()
	default:
		g.Type = geodata.Geometry_LINESTRING
		g.Coordinates = parts[0].coords()
	}
	return &geodata.GeoData{Geometry: g}
}

// setting of the coverer, relative to the lattice spacing.
func coverers(t float64) []*s2.RegionCoverer {
	l := int(math.Round(math.Log2(1 / t))) // a cell of this level is about as wide as the spacing
	at := func(x int) int { return int(math.Max(0, math.Min(30, float64(x)))) }
	return []*s2.RegionCoverer{
		{MinLevel: at(l), MaxLevel: at(l)},
		{MinLevel: at(l + 2), MaxLevel: at(l + 2), MaxCells: 8},
		{MinLevel: at(l - 3), MaxLevel: at(l - 3), MaxCells: 1000},
		{MinLevel: at(l - 2), MaxLevel: at(l + 2), MaxCells: 6},
		{MinLevel: at(l - 1), MaxLevel: at(l + 2), MaxCells: 60, LevelMod: 2},
		{MinLevel: at(l - 4), MaxLevel: at(l + 3), MaxCells: 20, LevelMod: 3},
		{MinLevel: at(l + 3), MaxLevel: at(l + 3), MaxCells: 5000},
	}
}

func cvName(c *s2.RegionCoverer) string {
	return fmt.Sprintf("min%d max%d mod%d cells%d", c.MinLevel, c.MaxLevel, c.LevelMod, c.MaxCells)
}

func allowed(c *s2.RegionCoverer, id s2.CellID) bool {
	l := id.Level()
	mod := c.LevelMod
	if mod < 1 {
		mod = 1
	}
	return id.IsValid() && l >= c.MinLevel && l <= c.MaxLevel && (l-c.MinLevel)%mod == 0
}

type at struct{ lat, lng float64 }

var places = []at{{0, 0}, {35.264389682754654, 45}, {0, 45}, {10, 180}, {90, 0}, {-90, 0}, {89.4, 165}, {48.85, 2.35}, {-33.9, 151.2}, {0, -90}, {-20, -179.9}, {60.3, -135}}

func frames(r *rep.R) []*frame {
	var out []*frame
	ts := []float64{0.9, 0.11, 0.004, 3e-6}
	if r.Thorough() {
		ts = append(ts, 0.4, 0.03, 2e-4, 1e-5, 1.7e-7)
	}
	for i, p := range places {
		for j, t := range ts {
			out = append(out, newFrame(p.lat, p.lng, float64((i*5+j*3)%8)*0.39, t))
			if r.Thorough() {
				out = append(out, newFrame(p.lat, p.lng, 0, t))
			}
		}
	}
	return out
}
