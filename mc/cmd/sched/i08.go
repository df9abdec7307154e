package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
	"verif/mc/sched"
)

// Two neighbouring cells at level 10 and places in them.
const level = 10

var (
	cellA = s2.CellIDFromLatLng(s2.LatLngFromDegrees(48.8, 2.3)).Parent(level)
	cellB = cellA.EdgeNeighbors()[1]
	posA  = s2.LatLngFromPoint(cellA.Point())
	posB  = s2.LatLngFromPoint(cellB.Point())
	posA2 = s2.LatLngFromPoint(cellA.Children()[0].Point())
	time1 = time.Unix(1000, 5)
	time2 = time.Unix(2000, 7)
	tFrom = time.Unix(3000, 0)
	tTo   = time.Unix(500, 0)
)

func deg(l s2.LatLng) (lat, lng float64) { return l.Lat.Degrees(), l.Lng.Degrees() }

func pointData(l s2.LatLng) *geodata.GeoData {
	lat, lng := deg(l)
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
}

func lineData(a, b s2.LatLng) *geodata.GeoData {
	alat, alng := deg(a)
	blat, blng := deg(b)
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{alng, alat, blng, blat}}}
}

func triangle(l s2.LatLng) *geodata.GeoData {
	lat, lng := deg(l)
	const d = 0.001
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: []float64{lng - d, lat - d, lng + d, lat - d, lng, lat + d}}}
}

// idxSet is what a program works on: indexes sharing one store.
type idxSet struct {
	flat  *index.S2FlatIdx
	point *index.S2PointIdx
	tm    *index.S2FlatTimeIdx
	s     store.KVStore
}

// idxOp is one call. what names the entries it inserts ("flat A id"), or the query returns ids.
type idxOp struct {
	name   string
	insert func(x *idxSet, id string) error
	adds   []string // entries, id appended
	query  func(x *idxSet) ([]index.GeoID, error)
	sees   []string // entries the query asks for
	set    bool     // the several-cells forms report an id once
}

func cells(a ...s2.CellID) []s2.CellID { return a }

var idxOps = map[string][]*idxOp{
	"flat": {
		{name: "GeoIndex(point A)", adds: []string{"fA"}, insert: func(x *idxSet, id string) error { return x.flat.GeoIndex(pointData(posA), index.GeoID(id)) }},
		{name: "GeoIndex(line A-B)", adds: []string{"fA", "fB"}, insert: func(x *idxSet, id string) error { return x.flat.GeoIndex(lineData(posA, posB), index.GeoID(id)) }},
		{name: "GeoIndex(triangle B)", adds: []string{"fB"}, insert: func(x *idxSet, id string) error { return x.flat.GeoIndex(triangle(posB), index.GeoID(id)) }},
		{name: "GeoIdsAtCell(A)", sees: []string{"fA"}, query: func(x *idxSet) ([]index.GeoID, error) { return x.flat.GeoIdsAtCell(cellA) }},
		{name: "GeoIdsAtCell(B)", sees: []string{"fB"}, query: func(x *idxSet) ([]index.GeoID, error) { return x.flat.GeoIdsAtCell(cellB) }},
		{name: "GeoIdsAtCells(A,B)", set: true, sees: []string{"fA", "fB"}, query: func(x *idxSet) ([]index.GeoID, error) { return x.flat.GeoIdsAtCells(cells(cellA, cellB)) }},
		{name: "GeoIdsRadiusQuery(B)", set: true, sees: []string{"fB"}, query: func(x *idxSet) ([]index.GeoID, error) {
			lat, lng := deg(posB)
			return x.flat.GeoIdsRadiusQuery(lat, lng, 10)
		}},
	},
	"point": {
		{name: "PointIndex(A)", adds: []string{"pA"}, insert: func(x *idxSet, id string) error {
			lat, lng := deg(posA)
			k, err := x.point.PointIndex(lat, lng, index.GeoID(id))
			if err == nil && !bytes.Equal(k, x.point.PointKey(lat, lng, index.GeoID(id))) {
				return fmt.Errorf("PointIndex returned another key")
			}
			return err
		}},
		{name: "GeoPointIndex(B)", adds: []string{"pB"}, insert: func(x *idxSet, id string) error {
			_, err := x.point.GeoPointIndex(pointData(posB), index.GeoID(id))
			return err
		}},
		{name: "GeoIdsAtCell(A)", sees: []string{"pA"}, query: func(x *idxSet) ([]index.GeoID, error) { return x.point.GeoIdsAtCell(cellA) }},
		{name: "GeoIdsAtCells(B,A)", set: true, sees: []string{"pA", "pB"}, query: func(x *idxSet) ([]index.GeoID, error) { return x.point.GeoIdsAtCells(cells(cellB, cellA)) }},
		{name: "GeoIdsRadiusQuery(A)", sees: []string{"pA"}, query: func(x *idxSet) ([]index.GeoID, error) {
			lat, lng := deg(posA)
			return x.point.GeoIdsRadiusQuery(lat, lng, 10)
		}},
		{name: "GeoIdsRectQuery(A+B)", sees: []string{"pA", "pB"}, query: func(x *idxSet) ([]index.GeoID, error) {
			alat, alng := deg(posA)
			blat, blng := deg(posB)
			return x.point.GeoIdsRectQuery(max(alat, blat)+0.001, max(alng, blng)+0.001, min(alat, blat)-0.001, min(alng, blng)-0.001)
		}},
	},
	"time": {
		{name: "GeoTimeIndex(A,1)", adds: []string{"tA1"}, insert: func(x *idxSet, id string) error { return x.tm.GeoTimeIndex(pointData(posA), time1, index.GeoID(id)) }},
		{name: "GeoTimeIndex(line A-B,2)", adds: []string{"tA2", "tB2"}, insert: func(x *idxSet, id string) error {
			return x.tm.GeoTimeIndex(lineData(posA, posB), time2, index.GeoID(id))
		}},
		{name: "GeoTimeIdsAtCell(A)", sees: []string{"tA1", "tA2"}, query: func(x *idxSet) ([]index.GeoID, error) { return x.tm.GeoTimeIdsAtCell(cellA, tFrom, tTo) }},
		{name: "GeoTimeIdsAtCell(A,1)", sees: []string{"tA1"}, query: func(x *idxSet) ([]index.GeoID, error) { return x.tm.GeoTimeIdsAtCell(cellA, time.Unix(1500, 0), tTo) }},
		{name: "GeoTimeIdsAtCells(A,B)", set: true, sees: []string{"tA1", "tA2", "tB1", "tB2"}, query: func(x *idxSet) ([]index.GeoID, error) {
			return x.tm.GeoTimeIdsAtCells(cells(cellA, cellB), tFrom, tTo)
		}},
		{name: "GeoTimeIdsRadiusQuery(B)", set: true, sees: []string{"tB1", "tB2"}, query: func(x *idxSet) ([]index.GeoID, error) {
			lat, lng := deg(posB)
			return x.tm.GeoTimeIdsRadiusQuery(tFrom, tTo, lat, lng, 10)
		}},
		{name: "GeoTimeIdsRectQuery(A)", set: true, sees: []string{"tA1", "tA2"}, query: func(x *idxSet) ([]index.GeoID, error) {
			lat, lng := deg(posA)
			return x.tm.GeoTimeIdsRectQuery(tFrom, tTo, lat+0.001, lng+0.001, lat-0.001, lng-0.001)
		}},
	},
}

// freshSet makes indexes over a new in-memory store, filled with one entry of each kind.
func freshSet(prefixLen int) *idxSet {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		panic(err)
	}
	pre := func(c string) []byte {
		// spare capacity, as a caller's slice may have
		b := make([]byte, 0, prefixLen+64)
		for len(b) < prefixLen {
			b = append(b, c...)
		}
		return b
	}
	x := &idxSet{s: s, flat: index.NewS2FlatIdx(s, pre("f"), level), point: index.NewS2PointIdx(s, pre("p")), tm: index.NewS2FlatTimeIdx(s, pre("t"), level)}
	return x
}

// preload: the entries every execution starts from.
var preload = []struct{ kind, op, id string }{
	{"flat", "GeoIndex(line A-B)", "old"}, {"flat", "GeoIndex(point A)", "o2"},
	{"point", "PointIndex(A)", "old"}, {"point", "GeoPointIndex(B)", "o2"},
	{"time", "GeoTimeIndex(line A-B,2)", "old"}, {"time", "GeoTimeIndex(A,1)", "o2"},
}

func findOp(kind, name string) *idxOp {
	for _, o := range idxOps[kind] {
		if o.name == name {
			return o
		}
	}
	panic(name)
}

// template stores: the preloaded contents by prefix length.
type filled struct {
	contents [][2][]byte
	init     map[string]string
}

var templates = map[int]*filled{}

func template(prefixLen int) *filled {
	if f := templates[prefixLen]; f != nil {
		return f
	}
	x := freshSet(prefixLen)
	f := &filled{init: map[string]string{}}
	for _, p := range preload {
		o := findOp(p.kind, p.op)
		if err := o.insert(x, p.id); err != nil {
			panic(err)
		}
		for _, a := range o.adds {
			f.init[a+" "+p.id] = ""
		}
	}
	rd, err := x.s.Reader()
	if err != nil {
		panic(err)
	}
	it := rd.RangeIterator(nil, nil)
	for {
		k, v, ok := it.Current()
		if !ok {
			break
		}
		f.contents = append(f.contents, [2][]byte{append([]byte{}, k...), append([]byte{}, v...)})
		it.Next()
	}
	it.Close()
	rd.Close()
	templates[prefixLen] = f
	return f
}

type held struct {
	op   string
	ids  []index.GeoID
	copy []string
}

type kindOp struct {
	kind string
	op   *idxOp
}

func indexProgram(threads [][]kindOp, prefixLen int) func() ([]func(), func() string) {
	return func() ([]func(), func() string) {
		tpl := template(prefixLen)
		x := freshSet(prefixLen)
		w, _ := x.s.Writer()
		b := w.NewBatch()
		for _, kv := range tpl.contents {
			b.Set(kv[0], kv[1])
		}
		if err := w.ExecuteBatch(b); err != nil {
			panic(err)
		}
		var mu sync.Mutex
		var calls []*call
		var problems []string
		var kept []held
		problem := func(f string, a ...interface{}) {
			m := fmt.Sprintf(f, a...)
			sched.Quietly(func() {
				mu.Lock()
				problems = append(problems, m)
				mu.Unlock()
			})
		}
		runOp := func(ko kindOp, id string) {
			o := ko.op
			sc := sched.Current()
			c := &call{name: ko.kind + " " + o.name}
			if o.insert != nil {
				c.from = sc.Clock()
				err := o.insert(x, id)
				c.to = sc.Clock()
				if err != nil {
					problem("%s: %v", c.name, err)
					return
				}
				c.describes = "id " + id
				c.apply = func(st map[string]string) map[string]string {
					n := map[string]string{}
					for k := range st {
						n[k] = ""
					}
					for _, a := range o.adds {
						n[a+" "+id] = ""
					}
					return n
				}
			} else {
				c.from = sc.Clock()
				ids, err := o.query(x)
				c.to = sc.Clock()
				if err != nil {
					problem("%s: %v", c.name, err)
					return
				}
				var got []string
				for _, i := range ids {
					got = append(got, string(i))
				}
				h := held{c.name, ids, append([]string{}, got...)}
				sched.Quietly(func() {
					mu.Lock()
					kept = append(kept, h)
					mu.Unlock()
				})
				sort.Strings(got)
				c.describes = fmt.Sprintf("-> %q", got)
				c.fits = func(st map[string]string) bool { return equal(got, o.expect(st)) }
			}
			sched.Quietly(func() {
				mu.Lock()
				calls = append(calls, c)
				mu.Unlock()
			})
		}
		var bodies []func()
		for ti, ops := range threads {
			bodies = append(bodies, func() {
				for oi, o := range ops {
					// ids of different lengths
					id := fmt.Sprintf("%c%d", 'A'+ti, oi)
					if ti == 1 {
						id += "long"
					}
					runOp(o, id)
				}
			})
		}
		judge := func() string {
			// the final contents, read one by one
			st := map[string]string{}
			var bad string
			for _, q := range []struct{ kind, name, entry string }{
				{"flat", "GeoIdsAtCell(A)", "fA"}, {"flat", "GeoIdsAtCell(B)", "fB"}, {"point", "GeoIdsAtCell(A)", "pA"},
				{"point", "GeoIdsAtCells(B,A)", ""}, {"time", "GeoTimeIdsAtCell(A,1)", "tA1"}, {"time", "GeoTimeIdsAtCell(A)", ""},
				{"time", "GeoTimeIdsRadiusQuery(B)", "tB2"},
			} {
				ids, err := findOp(q.kind, q.name).query(x)
				if err != nil {
					bad = fmt.Sprintf("afterwards: %s %s: %v", q.kind, q.name, err)
				}
				e := q.entry
				for _, i := range ids {
					switch q.name {
					case "GeoIdsAtCells(B,A)":
						e = "pB"
						if _, ok := st["pA "+string(i)]; ok {
							continue
						}
					case "GeoTimeIdsAtCell(A)":
						e = "tA2"
						if _, ok := st["tA1 "+string(i)]; ok {
							continue
						}
					}
					if _, dup := st[e+" "+string(i)]; dup {
						bad = fmt.Sprintf("afterwards: %s %s returns %q twice", q.kind, q.name, i)
					}
					st[e+" "+string(i)] = ""
				}
			}
			sort.Slice(calls, func(i, j int) bool { return calls[i].from < calls[j].from })
			var o strings.Builder
			for _, c := range calls {
				o.WriteString(c.name + c.describes)
			}
			observed[rep.Hash(o.String())] = struct{}{}
			if len(problems) > 0 {
				return strings.Join(problems, "; ") + history(calls)
			}
			for _, h := range kept {
				for i, id := range h.ids {
					if string(id) != h.copy[i] {
						return fmt.Sprintf("%s: the returned id %q later reads %q%s", h.op, h.copy[i], id, history(calls))
					}
				}
			}
			if bad != "" {
				return bad + history(calls)
			}
			if !linear(calls, tpl.init, func(f map[string]string) bool { return same(st, f) }) {
				return fmt.Sprintf("no sequential order of the calls explains the outcome\n  at first %s%s\n  at last %s", show(tpl.init), history(calls), show(st))
			}
			return ""
		}
		return bodies, judge
	}
}

// expect lists, sorted, the ids the query has to return in state st.
func (o *idxOp) expect(st map[string]string) []string {
	var r []string
	seen := map[string]bool{}
	for k := range st {
		for _, e := range o.sees {
			if strings.HasPrefix(k, e+" ") {
				id := k[len(e)+1:]
				if o.set && seen[id] {
					continue
				}
				seen[id] = true
				r = append(r, id)
			}
		}
	}
	sort.Strings(r)
	return r
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func i08(thorough bool) []*program {
	var progs []*program
	add := func(bound, prefixLen int, threads [][]kindOp) {
		var ts []string
		for _, t := range threads {
			var os []string
			for _, o := range t {
				os = append(os, o.kind+"."+o.op.name)
			}
			ts = append(ts, strings.Join(os, ";"))
		}
		limit := 100000
		if thorough {
			limit = 400000
		}
		progs = append(progs, &program{name: fmt.Sprintf("%s/prefix of %d", strings.ReplaceAll(strings.Join(ts, " | "), " ", "_"), prefixLen), bound: bound, maxRuns: limit, mk: indexProgram(threads, prefixLen)})
	}
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	for _, kind := range []string{"flat", "point", "time"} {
		ops := idxOps[kind]
		for i, a := range ops {
			for _, b := range ops[i:] {
				// two queries take the most steps; they can only disturb each other through shared buffers
				bound := pick(2, 3)
				if a.query != nil && b.query != nil {
					bound = pick(1, 2)
				}
				add(bound, 1, [][]kindOp{{{kind, a}}, {{kind, b}}})
				if a.insert != nil || b.insert != nil || thorough {
					// append to a slice of this length grows it with room for what follows
					add(bound, 33, [][]kindOp{{{kind, a}}, {{kind, b}}})
				}
			}
		}
		// three threads: two insertions and a query, and two insertions before and around a query
		for _, q := range ops {
			if q.query == nil {
				continue
			}
			add(pick(1, 2), 1, [][]kindOp{{{kind, ops[0]}}, {{kind, ops[1]}}, {{kind, q}}})
			add(pick(1, 2), 1, [][]kindOp{{{kind, ops[1]}, {kind, ops[0]}}, {{kind, q}}})
			add(pick(1, 2), 1, [][]kindOp{{{kind, ops[1]}}, {{kind, q}, {kind, q}}})
		}
	}
	// different indexes on one store
	for _, p := range [][2]string{{"flat", "point"}, {"flat", "time"}, {"point", "time"}} {
		for _, a := range []int{1, 3} {
			for _, b := range []int{1, 3} {
				add(1, 1, [][]kindOp{{{p[0], idxOps[p[0]][a]}}, {{p[1], idxOps[p[1]][b]}}})
			}
		}
	}
	return progs
}
