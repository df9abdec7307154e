// Command index decides the index properties I01-I07 by exhaustive enumeration of bounded histories, geometries,
// queries and faults.
package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"

	"verif/mc/eng"
	"verif/mc/mock"
	"verif/mc/rep"
)

func main() {
	checks := map[string]func(){"I01": i01, "I02": i02, "I03": i03, "I04": i04, "I05": i05, "I06": i06, "I07": i07, "I09": i09}
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check")
		os.Exit(2)
	}
	f()
}

const hang = 60 * time.Second

type idset map[string]int

func (s idset) String() string {
	var k []string
	for id, n := range s {
		if n == 1 {
			k = append(k, fmt.Sprintf("%q", id))
		} else {
			k = append(k, fmt.Sprintf("%q x%d", id, n))
		}
	}
	sort.Strings(k)
	return "{" + strings.Join(k, " ") + "}"
}

func same(a, b idset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, n := range a {
		if b[k] != n {
			return false
		}
	}
	return true
}

func toSet(ids []index.GeoID) idset {
	s := idset{}
	for _, id := range ids {
		s[string(id)]++
	}
	return s
}

// keeper remembers ids handed out, which must never change.
type keeper struct {
	got  []index.GeoID
	want []string
}

func (k *keeper) keep(ids []index.GeoID) {
	for _, id := range ids {
		k.got = append(k.got, id)
		k.want = append(k.want, string(id))
	}
}

func (k *keeper) check() string {
	for i, id := range k.got {
		if string(id) != k.want[i] {
			return fmt.Sprintf("an id returned earlier changed from %q to %q", k.want[i], id)
		}
	}
	return ""
}

// target is a store under an index.
type target struct {
	name string
	s    store.KVStore
	mk   *mock.Store
	dir  string
	used int
}

// trouble reports misuse of the mock store.
func (t *target) trouble() string {
	if t.mk == nil {
		return ""
	}
	if m := t.mk.Trouble(); m != "" {
		return "misuse of the store: " + m
	}
	return ""
}

func openTarget(name string) (*target, error) {
	if name == "mock" {
		m := mock.New()
		return &target{name: name, s: m, mk: m}, nil
	}
	d := eng.Scratch()
	s, err := eng.Open(name, d, &eng.AppendMO{}, map[string]interface{}{"nosync": true})
	if err != nil {
		return nil, err
	}
	return &target{name: name, s: s, dir: d}, nil
}

func (t *target) close() {
	if t.mk == nil {
		s := t.s
		rep.Guard(hang, func() string { s.Close(); return "" })
		os.RemoveAll(t.dir)
	}
}

type pool struct {
	r    *rep.R
	name string
	mu   sync.Mutex
	free []*target
}

// run executes one case on an empty store.
func (p *pool) run(key string, fn func(t *target) string) {
	if !p.r.Case(key) || p.r.Stop() {
		return
	}
	var t *target
	p.mu.Lock()
	if n := len(p.free); n > 0 && p.name != "mock" {
		t = p.free[n-1]
		p.free = p.free[:n-1]
	}
	p.mu.Unlock()
	if t == nil {
		var err error
		if t, err = openTarget(p.name); err != nil {
			p.r.Violate(key, "%s: %v", key, err)
			return
		}
	}
	msg := rep.Guard(hang, func() string {
		if p.name != "mock" {
			if err := eng.Clear(t.s); err != nil {
				return "emptying the store: " + err.Error()
			}
		}
		m := fn(t)
		if m == "" {
			m = t.trouble()
		}
		return m
	})
	if msg != "" {
		p.r.Violate(key, "store %s, case %s:\n%s", p.name, key, msg)
		if msg != rep.Blocked {
			t.close()
		}
		return
	}
	t.used++
	if t.used > 2000 {
		t.close()
		return
	}
	p.mu.Lock()
	p.free = append(p.free, t)
	p.mu.Unlock()
}

func (p *pool) closeAll() {
	for _, t := range p.free {
		t.close()
	}
	p.free = nil
}

// targets are the stores the checks run on: the strict mock first.
var targets = []string{"mock", "gtreap", "boltdb", "goleveldb", "badger"}

func product(k, n int, f func(ix []int)) {
	ix := make([]int, n)
	for {
		f(ix)
		i := n - 1
		for i >= 0 {
			ix[i]++
			if ix[i] < k {
				break
			}
			ix[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func point(lat, lng float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
}

func shape(t geodata.Geometry_Type, latlng ...float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: t, Coordinates: swap(latlng)}}
}

func swap(ll []float64) []float64 {
	c := make([]float64, len(ll))
	for i := 0; i+1 < len(ll); i += 2 {
		c[i], c[i+1] = ll[i+1], ll[i]
	}
	return c
}

func multi(rings ...[]float64) *geodata.GeoData {
	g := &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON}
	for _, r := range rings {
		g.Geometries = append(g.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: swap(r)})
	}
	return &geodata.GeoData{Geometry: g}
}

// cellDeg is roughly the size of a cell of the level in degrees.
func cellDeg(level int) float64 { return 72 / math.Pow(2, float64(level)) }

// shapes around a place, about one cell of the level in size.
func shapes(lat, lng float64, level int) []*geodata.GeoData {
	d := cellDeg(level)
	if d > 20 {
		d = 20
	}
	e := d / math.Max(math.Cos(lat*math.Pi/180), 0.05) // the same in longitude
	ln := func(x float64) float64 {
		x = lng + x*e
		for x > 180 {
			x -= 360
		}
		for x < -180 {
			x += 360
		}
		return x
	}
	// keep clear of the poles
	lat = math.Max(-89.95+1.2*d, math.Min(89.95-1.2*d, lat))
	la := func(y float64) float64 { return lat + y*d }
	L, P := geodata.Geometry_LINESTRING, geodata.Geometry_POLYGON
	return []*geodata.GeoData{
		point(lat, lng),
		shape(P, la(-.4), ln(-.4), la(-.4), ln(.4), la(.4), ln(.4), la(.4), ln(-.4)), // ccw
		shape(L, lat, lng, la(.3), ln(.9)),
		multi([]float64{la(0), ln(0), la(.2), ln(.1), la(-.1), ln(.3)}, []float64{la(1), ln(1), la(1.1), ln(1), la(1), ln(1.1)}),
		point(la(.3), ln(.3)),
		shape(P, la(-.5), ln(-.5), la(.5), ln(-.5), la(.5), ln(.5), la(0), ln(0), la(-.5), ln(.5), la(-.5), ln(-.5)), // concave, clockwise, closed
		shape(L, la(-.1), ln(0), la(.1), ln(0), la(0), ln(.6), la(-.8), ln(.6)),
	}
}

func coverAt(gd *geodata.GeoData, level int) ([]s2.CellID, error) {
	cu, err := gd.Cover(&s2.RegionCoverer{MinLevel: level, MaxLevel: level})
	return cu, err
}

func cellSet(lists ...[]s2.CellID) []s2.CellID {
	m := map[s2.CellID]bool{}
	var out []s2.CellID
	for _, l := range lists {
		for _, c := range l {
			if !m[c] {
				m[c] = true
				out = append(out, c)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
