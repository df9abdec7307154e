package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"

	"verif/mc/rep"
)

// guarded is a geometry whose coordinates have spare capacity filled with a marker, and a copy of it.
type guarded struct {
	gd   *geodata.GeoData
	copy proto.Message
	full [][]float64
	want [][]float64
}

func guard(gd *geodata.GeoData) *guarded {
	g := &guarded{gd: gd}
	hold := func(c []float64) []float64 {
		full := make([]float64, len(c)+6)
		copy(full, c)
		for i := len(c); i < len(full); i++ {
			full[i] = 12345.5
		}
		g.full = append(g.full, full)
		g.want = append(g.want, append([]float64(nil), full...))
		return full[:len(c)]
	}
	gd.Geometry.Coordinates = hold(gd.Geometry.Coordinates)
	for _, x := range gd.Geometry.Geometries {
		x.Coordinates = hold(x.Coordinates)
	}
	g.copy = proto.Clone(gd)
	return g
}

func (g *guarded) check() string {
	if !proto.Equal(g.gd, g.copy) {
		return fmt.Sprintf("the geometry was modified: %v, was %v", g.gd, g.copy)
	}
	for i := range g.full {
		for j := range g.full[i] {
			if math.Float64bits(g.full[i][j]) != math.Float64bits(g.want[i][j]) {
				return fmt.Sprintf("memory of the caller beyond the coordinates was overwritten: %v, was %v", g.full[i], g.want[i])
			}
		}
	}
	return ""
}

func sorted(cu []s2.CellID) []s2.CellID {
	o := append([]s2.CellID(nil), cu...)
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// answer of one operation on a geometry.
func answer(op int, gd *geodata.GeoData, cvs []*s2.RegionCoverer) string {
	switch {
	case op == 0:
		rc, err := geodata.GeoDataToRect(gd)
		if err != nil {
			return "rect: refused"
		}
		return fmt.Sprintf("rect: %.12g %.12g %.12g %.12g", rc.Lat.Lo, rc.Lat.Hi, rc.Lng.Lo, rc.Lng.Hi)
	case op%2 == 1:
		cu, err := gd.Cover(cvs[op/2%len(cvs)])
		if err != nil {
			return "cover: " + err.Error()
		}
		return fmt.Sprintf("cover %s: %v", cvName(cvs[op/2%len(cvs)]), sorted(cu))
	default:
		cu, err := gd.InteriorCover(cvs[op/2%len(cvs)])
		if err != nil {
			return "interior: " + err.Error()
		}
		return fmt.Sprintf("interior cover %s: %v", cvName(cvs[op/2%len(cvs)]), sorted(cu))
	}
}

// turns are ways to write the same longitudes outside -180 to 180.
var turns = []string{"360 more", "360 less", "the western ones 360 more", "the eastern ones 360 less"}

func turn(gd *geodata.GeoData, how int) {
	one := func(c []float64) {
		for i := 0; i+1 < len(c); i += 2 {
			switch {
			case how == 0, how == 2 && c[i] < 0:
				c[i] += 360
			case how == 1, how == 3 && c[i] >= 0:
				c[i] -= 360
			}
		}
	}
	one(gd.Geometry.Coordinates)
	for _, x := range gd.Geometry.Geometries {
		one(x.Coordinates)
	}
}

// lookAlikes answers for pairs of geometries that have much in common one after the other, in both orders: an answer
// depends on its own geometry only. Alone, because what is looked for is state kept by the package.
func lookAlikes(r *rep.R) {
	for _, fr := range []*frame{newFrame(48.85, 2.35, 0.3, 0.004), newFrame(10, 180, 1.1, 0.11)} {
		for _, n := range []int{3, 4, 5, 8, 16, 40, 300} {
			var fam []part
			base := make([]xy, n)
			for i := range base {
				s, c := math.Sincos(2*math.Pi*float64(i)/float64(n) + 0.2)
				base[i] = xy{c * 0.7, s * 0.7}
			}
			addv := func(v []xy) { fam = append(fam, part{fr, v, true}) }
			addv(base)
			// one inner vertex elsewhere
			for _, k := range []int{1, n / 2, n - 2} {
				for _, d := range []float64{1.8, 0.5, 1.3} {
					v := append([]xy{}, base...)
					v[k] = xy{v[k].x * d, v[k].y * d}
					addv(v)
				}
			}
			// first or last elsewhere
			for _, k := range []int{0, n - 1} {
				v := append([]xy{}, base...)
				v[k] = xy{v[k].x * 1.6, v[k].y * 1.6}
				addv(v)
			}
			// twice as large, shifted, upside down, without a vertex, with one more
			for how := 0; how < 4; how++ {
				v := append([]xy{}, base...)
				for i := range v {
					switch how {
					case 0:
						v[i] = xy{v[i].x * 1.4, v[i].y * 1.4}
					case 1:
						v[i].x += 0.5
					case 2:
						v[i].y = -v[i].y * 1.2
					case 3:
						v[i].x *= 0.4
					}
				}
				addv(v)
			}
			if n > 3 {
				addv(append(append([]xy{}, base[:n/2]...), base[n/2+1:]...))
			}
			addv(append(append(append([]xy{}, base[:n/2]...), xy{(base[n/2-1].x + base[n/2].x) * 0.75, (base[n/2-1].y + base[n/2].y) * 0.75}), base[n/2:]...))
			addv(append(append([]xy{}, base...), base[0]))
			// the same as lines
			for _, p := range fam[:4] {
				fam = append(fam, part{fr, p.v, false})
			}
			cv := coverers(fr.t)
			cvs := []*s2.RegionCoverer{cv[1], cv[4]}
			ask := func(i, op int) string { return answer(op, gdOf(fam[i]), cvs) }
			for op := 0; op < 5; op++ {
				first := make([]string, len(fam))
				for i := range fam {
					first[i] = ask(i, op)
				}
				key := fmt.Sprintf("%s/alike%d/%d", fr.name, n, op)
				if r.Stop() || !r.Case(key) {
					continue
				}
				for i := range fam {
					for j := range fam {
						before := ask(i, op)
						r.Eval(2)
						got := ask(j, op)
						if got != first[j] || before != first[i] {
							r.Violate(key, "geometries of %d vertices: %v after %v (operation %d) gives\n%s\nand after another one\n%s", n, fam[j].coords(), fam[i].coords(), op, got, first[j])
							i, j = len(fam), len(fam)
						}
						if j >= len(fam) {
							break
						}
					}
					if i >= len(fam) {
						break
					}
				}
			}
		}
	}
}

func g03() {
	r := rep.New("G03", "exploration", "every ring of the lattice family (both orientations, up to 4 vertices and a fifth of those with 5; thorough: up to 6) at every place and scale: all rotations, reversals and closings of the ring must give the cover, interior cover and bounding rectangle of the first form; every sequence of three of these operations on one geometry (with spare capacity behind its coordinates) must leave the geometry and the memory behind it untouched and give each time the answer a fresh copy gives; lines and multi-polygons likewise")
	f := func(fr *frame, s shape) string {
		cv := coverers(fr.t)
		cvs := []*s2.RegionCoverer{cv[1], cv[3], cv[5]}
		const nops = 7
		big := len(s.parts[0].open().v) > 7
		if !r.Thorough() && len(s.parts[0].open().v) > 4 && rep.Hash(s.name)%5 > 0 {
			return "" // quick: every ring of up to four vertices, a fifth of the larger ones
		}
		fresh := func(parts ...part) []string {
			var a []string
			for op := 0; op < nops; op++ {
				a = append(a, answer(op, gdOf(parts...), cvs))
			}
			return a
		}
		base := fresh(s.parts...)
		r.State(s.name)
		// every sequence of three operations on the same object
		if r.Thorough() || rep.Hash(s.name)%6 == 0 {
			for a := 0; a < nops; a++ {
				for b := 0; b < nops; b++ {
					g := guard(gdOf(s.parts...))
					for i, op := range []int{a, b, a} {
						if got := answer(op, g.gd, cvs); got != base[op] {
							return fmt.Sprintf("operations %d %d %d on one geometry: answer %d is\n%s\na fresh copy gives\n%s", a, b, a, i, got, base[op])
						}
						if m := g.check(); m != "" {
							return m
						}
						r.Eval(1)
					}
				}
			}
		} else {
			g := guard(gdOf(s.parts...))
			for op := 0; op < nops; op++ {
				if got := answer(op, g.gd, cvs); got != base[op] {
					return fmt.Sprintf("after %d operations on one geometry:\n%s\na fresh copy gives\n%s", op, got, base[op])
				}
				if m := g.check(); m != "" {
					return m
				}
				r.Eval(1)
			}
		}
		// longitudes a turn or two away: whatever the answers are, the geometry stays as it was and gives the same
		// answers as a fresh copy
		if (!big || r.Thorough()) && fr.t > 1e-5 { // in smaller ones the rounding of the sum would deform the ring
			for ti := range turns {
				mk := func() *geodata.GeoData {
					gd := gdOf(s.parts...)
					turn(gd, ti)
					return gd
				}
				g := guard(mk())
				for op := 0; op < 4; op++ {
					want := answer(op, mk(), cvs)
					for k := 0; k < 2; k++ {
						r.Eval(1)
						if got := answer(op, g.gd, cvs); got != want {
							return fmt.Sprintf("longitudes written %s (%v):\n%s\na fresh copy gives\n%s", turns[ti], g.gd, got, want)
						}
						if m := g.check(); m != "" {
							return fmt.Sprintf("longitudes written %s: %s", turns[ti], m)
						}
					}
				}
			}
		}
		if !s.parts[0].closed {
			return ""
		}
		// other spellings of the same rings
		forms := func(p part) []part {
			p = p.open()
			var out []part
			step := 1
			if big && !r.Thorough() {
				step = (len(p.v) + 3) / 4
			}
			for k := 0; k < len(p.v); k += step {
				v := rotated(p.v, k)
				for _, w := range [][]xy{v, reversed(v)} {
					out = append(out, part{p.fr, w, true}, part{p.fr, append(append([]xy{}, w...), w[0]), true})
				}
			}
			return out
		}
		for pi, p := range s.parts {
			for fi, f := range forms(p) {
				parts := append([]part{}, s.parts...)
				parts[pi] = f
				ops := nops
				if !r.Thorough() {
					ops = 4
				}
				for op := 0; op < ops; op++ {
					r.Eval(1)
					if got := answer(op, gdOf(parts...), cvs); got != base[op] {
						return fmt.Sprintf("part %d spelled differently (%d: %v)\ngives %s\ninstead of %s", pi, fi, parts[pi].coords(), got, base[op])
					}
				}
			}
		}
		r.Sample(func() interface{} {
			return map[string]interface{}{"shape": describe(gdOf(s.parts...)), "answers": base[:2]}
		})
		return ""
	}
	over(r, r.Pick(5, 6), r.Pick(2, 3), r.Pick(149, 17), f)
	overLong(r, func(fr *frame, s shape) string {
		if !r.Thorough() && rep.Hash(s.name)%16 > 0 {
			return ""
		}
		return f(fr, s)
	})
	lookAlikes(r)
	r.Finish()
}

// extent of a part: latitudes, and longitudes relative to ref; ok is false when a pole is on or inside it.
func (p part) extent() (latlo, lathi float64) {
	latlo, lathi = 4, -4
	see := func(v vec) {
		l := math.Atan2(v.z, math.Hypot(v.x, v.y))
		latlo, lathi = math.Min(latlo, l), math.Max(lathi, l)
	}
	for _, e := range edges(p.v, p.closed) {
		a, b := p.fr.up(e[0]), p.fr.up(e[1])
		see(a)
		see(b)
		n := a.cross(b)
		if n.norm() < 1e-16 {
			continue
		}
		n = n.unit()
		// the highest and lowest points of the great circle
		m := vec{0, 0, 1}.add(n.mul(-n.z))
		if m.norm() < 1e-12 {
			continue
		}
		for _, h := range []vec{m.unit(), m.unit().mul(-1)} {
			if a.cross(h).dot(n) > 0 && h.cross(b).dot(n) > 0 {
				see(h)
			}
		}
	}
	if p.closed {
		if q, ok := p.fr.down(vec{0, 0, 1}); ok && in(p.v, q) {
			lathi = math.Pi / 2
		}
		if q, ok := p.fr.down(vec{0, 0, -1}); ok && in(p.v, q) {
			latlo = -math.Pi / 2
		}
	}
	return
}

// poleDist is how close the part comes to a pole, in lattice units; 0 inside.
func (p part) poleDist() float64 {
	d := math.Inf(1)
	for _, z := range []float64{1, -1} {
		q, ok := p.fr.down(vec{0, 0, z})
		if !ok {
			continue
		}
		if p.closed && in(p.v, q) {
			return 0
		}
		for _, e := range edges(p.v, p.closed) {
			d = math.Min(d, dist(q, e[0], e[1]))
		}
	}
	return d
}

func g06() {
	r := rep.New("G06", "exploration", "every ring and line of the lattice family at every place and scale: the bounding rectangle must contain every vertex, positions on every edge and inside, and must equal the extent computed independently (great-circle latitude extremes, unwrapped longitudes, poles); points and multi-polygons are refused, lines and polygons clear of the poles never are")
	f := func(fr *frame, s shape) string {
		gd := gdOf(s.parts...)
		rc, err := geodata.GeoDataToRect(gd)
		r.Eval(1)
		p := s.parts[0].open()
		if len(s.parts) > 1 || len(s.parts[0].v) == 1 {
			// refused is all that is promised; containing would be fine too
			if err == nil {
				for _, p := range s.parts {
					for _, v := range p.open().samples(6) {
						if !rectHas(rc, v) {
							return fmt.Sprintf("rectangle %v does not contain %v", rc, v)
						}
					}
				}
			}
			return ""
		}
		r.State(s.name)
		pd := p.poleDist()
		if err != nil {
			if !p.closed {
				return "a line was refused: " + err.Error()
			}
			// the library's reference position is half a degree from the north pole
			q, ok := fr.down(vec{-0.0099994664350250197, 0.0025924542609324121, 0.99994664350250195})
			if pd > 0 && !(ok && (in(p.v, q) || near(p, q))) {
				return "a polygon clear of the poles was refused: " + err.Error()
			}
			return ""
		}
		for _, v := range p.samples(16) {
			if !rectHas(rc, v) {
				la, ln := v.latlng()
				return fmt.Sprintf("rectangle %v does not contain the position lat %v lng %v of the geometry", rc, la, ln)
			}
		}
		lo, hi := p.extent()
		const tol = 2e-9
		if rc.Lat.Lo < lo-tol || rc.Lat.Hi > hi+tol {
			return fmt.Sprintf("latitudes of the rectangle %v, of the geometry %v to %v", rc, lo*180/math.Pi, hi*180/math.Pi)
		}
		if pd*math.Tan(1)*fr.t < 1e-6 || pd < 1e-6 {
			return "" // all longitudes meet at the pole
		}
		// longitudes, unwrapped along the geometry
		wl, wh, at := 0.0, 0.0, 0.0
		first := p.fr.up(p.v[0])
		_, l0 := first.latlng()
		prev := l0 * math.Pi / 180
		for _, e := range edges(p.v, p.closed) {
			for j := 1; j <= 64; j++ {
				f := float64(j) / 64
				v := p.fr.up(xy{e[0].x + (e[1].x-e[0].x)*f, e[0].y + (e[1].y-e[0].y)*f})
				_, l := v.latlng()
				l *= math.Pi / 180
				at += math.Remainder(l-prev, 2*math.Pi)
				prev = l
				wl, wh = math.Min(wl, at), math.Max(wh, at)
			}
		}
		width := wh - wl
		got := rc.Lng.Length()
		if width < 2*math.Pi-1e-6 && got > width+tol+1e-12/math.Max(1e-6, pd*fr.t) {
			return fmt.Sprintf("the rectangle %v spans %v degrees of longitude, the geometry %v", rc, got*180/math.Pi, width*180/math.Pi)
		}
		r.Sample(func() interface{} {
			return map[string]interface{}{"shape": describe(gd), "rect": rc.String()}
		})
		return ""
	}
	over(r, 7, r.Pick(3, 4), r.Pick(19, 7), f)
	overLong(r, f)
	r.Finish()
}

func near(p part, q xy) bool {
	for _, e := range edges(p.v, true) {
		if dist(q, e[0], e[1]) < 1e-6 {
			return true
		}
	}
	return false
}

func rectHas(rc s2.Rect, v vec) bool {
	la, ln := v.latlng()
	la, ln = la*math.Pi/180, ln*math.Pi/180
	const tol = 1e-14
	if la < rc.Lat.Lo-tol || la > rc.Lat.Hi+tol {
		return false
	}
	if math.Abs(la) > math.Pi/2-1e-9 {
		return true
	}
	tl := 1e-14 / math.Cos(la)
	return rc.Lng.Expanded(tl).Contains(math.Remainder(ln, 2*math.Pi))
}
