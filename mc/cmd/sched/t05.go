package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/gorilla/mux"
	"github.com/twpayne/go-geom/encoding/geojson"

	"verif/mc/rep"
)

// pureOp is a call that keeps nothing; it returns how its answer reads.
type pureOp struct {
	name string
	do   func() func() string
	kind string
}

// what the calls are given; all of them share it
type pureIn struct {
	point, point2, line, line2, long, poly, poly2, polyCW, multi, bad *geodata.GeoData
	coarse, fine, inner                                         *s2.RegionCoverer
	feats                                                       map[string]*geojson.Feature
	cuA, cuB                                                    s2.CellUnion
	router                                                      http.Handler
}

func geo(t geodata.Geometry_Type, c ...float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: t, Coordinates: c}}
}

func props(kv ...interface{}) map[string]*spb.Value {
	m := map[string]*spb.Value{}
	for i := 0; i < len(kv); i += 2 {
		v := &spb.Value{}
		switch x := kv[i+1].(type) {
		case string:
			v.Kind = &spb.Value_StringValue{StringValue: x}
		case float64:
			v.Kind = &spb.Value_NumberValue{NumberValue: x}
		case bool:
			v.Kind = &spb.Value_BoolValue{BoolValue: x}
		}
		m[kv[i].(string)] = v
	}
	return m
}

func makePureIn() *pureIn {
	in := &pureIn{
		point:  geo(geodata.Geometry_POINT, 2.3, 48.8),
		point2: geo(geodata.Geometry_POINT, -60.5, -3.25),
		line:   geo(geodata.Geometry_LINESTRING, 2.3, 48.8, 2.31, 48.81, 2.33, 48.80),
		line2:  geo(geodata.Geometry_LINESTRING, 2.3, 48.8, 2.28, 48.79, 2.33, 48.80),
		long:   geo(geodata.Geometry_LINESTRING, 2.3, 48.8, 2.31, 48.81, 2.33, 48.80, 2.34, 48.82, 2.36, 48.81, 2.37, 48.83, 2.4, 48.8),
		poly:   geo(geodata.Geometry_POLYGON, 2.3, 48.8, 2.34, 48.8, 2.34, 48.83, 2.3, 48.83, 2.3, 48.8),
		// shares its first and last positions, its size and its box with poly
		poly2:  geo(geodata.Geometry_POLYGON, 2.3, 48.8, 2.34, 48.81, 2.33, 48.83, 2.3, 48.82, 2.3, 48.8),
		polyCW: geo(geodata.Geometry_POLYGON, 2.3, 48.8, 2.3, 48.83, 2.34, 48.83, 2.34, 48.8),
		multi:  &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON}},
		bad:    geo(geodata.Geometry_POLYGON, 2.3, 48.8, 2.34, 48.8),
		coarse: &s2.RegionCoverer{MinLevel: 9, MaxLevel: 11, MaxCells: 4},
		fine:   &s2.RegionCoverer{MinLevel: 12, MaxLevel: 12, MaxCells: 4},
		inner:  &s2.RegionCoverer{MinLevel: 10, MaxLevel: 14, MaxCells: 4},
		feats:  map[string]*geojson.Feature{},
		cuA:    s2.CellUnion{s2.CellIDFromToken("47e66c"), s2.CellIDFromToken("47e664"), s2.CellIDFromToken("47e67")},
		cuB:    s2.CellUnion{s2.CellIDFromToken("47e664"), s2.CellIDFromToken("1"), s2.CellIDFromToken("47e66c")},
	}
	in.poly.Properties = props("name", "a", "n", 1.5)
	in.line.Properties = props("name", "line", "ok", true)
	in.point.Properties = props("name", "first", "n", 1.0)
	in.point2.Properties = props("name", "second", "m", 2.0)
	in.multi.Geometry.Geometries = []*geodata.Geometry{in.poly.Geometry, geo(geodata.Geometry_POLYGON, 3, 10, 3.05, 10, 3, 10.05).Geometry}
	for n, t := range map[string]string{
		"point":   `{"type":"Feature","geometry":{"type":"Point","coordinates":[2.3,48.8,7]},"properties":{"name":"p","n":3}}`,
		"line":    `{"type":"Feature","geometry":{"type":"LineString","coordinates":[[2.3,48.8,1],[2.31,48.81,2]]},"properties":{"name":"l"}}`,
		"polygon": `{"type":"Feature","geometry":{"type":"Polygon","coordinates":[[[2.3,48.8],[2.34,48.8],[2.3,48.83],[2.3,48.8]]]},"properties":{"k":true}}`,
		"multi":   `{"type":"Feature","geometry":{"type":"MultiPolygon","coordinates":[[[[2.3,48.8],[2.34,48.8],[2.3,48.83],[2.3,48.8]]],[[[5,5],[6,5],[5,6],[5,5]]]]},"properties":{}}`,
		"several": `{"type":"Feature","geometry":{"type":"MultiPoint","coordinates":[[2.3,48.8],[2.34,48.8]]},"properties":{"k":1}}`,
	} {
		f := &geojson.Feature{}
		if err := f.UnmarshalJSON([]byte(t)); err != nil {
			panic(err)
		}
		in.feats[n] = f
	}
	m := mux.NewRouter()
	m.HandleFunc("/api/s2cells", s2tools.S2CellQueryHandler)
	m.HandleFunc("/api/geojson/{min_level:[0-9]+}/{max_level:[0-9]+}/{max_cells:[0-9]+}", s2tools.GeoJSONToCellHandler).Methods("POST")
	in.router = m
	return in
}

func failed(err error) string {
	if err != nil {
		return "error"
	}
	return ""
}

func cellText(cu s2.CellUnion) string {
	var b strings.Builder
	for _, c := range cu {
		b.WriteString(c.ToToken() + " ")
	}
	return b.String()
}

func dataText(gd *geodata.GeoData) string {
	var b strings.Builder
	var g func(x *geodata.Geometry)
	g = func(x *geodata.Geometry) {
		if x == nil {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(&b, "%v %v", x.Type, x.Coordinates)
		for _, y := range x.Geometries {
			b.WriteString(" (")
			g(y)
			b.WriteString(")")
		}
	}
	g(gd.Geometry)
	var ks []string
	for k := range gd.Properties {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%v", k, gd.Properties[k])
	}
	return b.String()
}

// text reads everything the calls are given.
func (in *pureIn) text() string {
	var b strings.Builder
	for _, gd := range []*geodata.GeoData{in.point, in.point2, in.line, in.line2, in.long, in.poly, in.poly2, in.polyCW, in.multi, in.bad} {
		b.WriteString(dataText(gd) + "\n")
	}
	for _, c := range []*s2.RegionCoverer{in.coarse, in.fine, in.inner} {
		fmt.Fprintf(&b, "%+v\n", *c)
	}
	var ns []string
	for n := range in.feats {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		t, err := in.feats[n].MarshalJSON()
		b.WriteString(string(t) + failed(err) + "\n")
	}
	b.WriteString(cellText(in.cuA) + "\n" + cellText(in.cuB))
	return b.String()
}

func pureOps(in *pureIn) []*pureOp {
	var ops []*pureOp
	add := func(kind, name string, do func() func() string) { ops = append(ops, &pureOp{name, do, kind}) }
	cover := func(n string, gd *geodata.GeoData, c *s2.RegionCoverer, cn string) {
		add("geo", "Cover("+n+","+cn+")", func() func() string {
			cu, err := gd.Cover(c)
			return func() string { return cellText(cu) + failed(err) }
		})
	}
	cover("line", in.line, in.coarse, "coarse")
	cover("line2", in.line2, in.fine, "fine")
	cover("long", in.long, in.inner, "inner")
	cover("poly", in.poly, in.inner, "inner")
	cover("poly", in.poly, in.coarse, "coarse")
	cover("poly", in.poly, in.fine, "fine")
	cover("poly2", in.poly2, in.fine, "fine")
	cover("polyCW", in.polyCW, in.fine, "fine")
	cover("multi", in.multi, in.fine, "fine")
	cover("point", in.point, in.fine, "fine")
	cover("bad", in.bad, in.fine, "fine")
	for n, gd := range map[string]*geodata.GeoData{"poly": in.poly, "poly2": in.poly2} {
		add("geo", "InteriorCover("+n+")", func() func() string {
			cu, err := gd.InteriorCover(in.inner)
			return func() string { return cellText(cu) + failed(err) }
		})
	}
	for n, gd := range map[string]*geodata.GeoData{"poly": in.poly, "poly2": in.poly2, "line": in.line, "line2": in.line2} {
		add("geo", "GeoDataToRect("+n+")", func() func() string {
			r, err := geodata.GeoDataToRect(gd)
			return func() string { return fmt.Sprintf("%v %s", r, failed(err)) }
		})
	}
	for n, f := range in.feats {
		add("geo", "GeoJSONFeatureToGeoData("+n+")", func() func() string {
			gd := &geodata.GeoData{}
			err := geodata.GeoJSONFeatureToGeoData(f, gd)
			return func() string { return dataText(gd) + failed(err) }
		})
	}
	jsonOp := func(name string, f func() ([]byte, error)) {
		add("geo", name, func() func() string {
			b, err := f()
			return func() string { return string(b) + failed(err) }
		})
	}
	jsonOp("ToGeoJSONFeatureCollection(poly,line)", func() ([]byte, error) {
		return geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{in.poly, in.line})
	})
	jsonOp("ToGeoJSONFeatureCollection(multi,point)", func() ([]byte, error) {
		return geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{in.multi, in.point})
	})
	jsonOp("PointsToGeoJSONPolyLines(point,point2)", func() ([]byte, error) {
		return geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{in.point, in.point2})
	})
	jsonOp("PointsToGeoJSONPolyLines(point2,point,point)", func() ([]byte, error) {
		return geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{in.point2, in.point, in.point})
	})
	for n, gd := range map[string]*geodata.GeoData{"poly": in.poly, "line2": in.line2} {
		add("geo", "GeoDataToGeom("+n+")", func() func() string {
			g, err := geodata.GeoDataToGeom(gd)
			return func() string { return fmt.Sprintf("%T %v %s", g, g.FlatCoords(), failed(err)) }
		})
	}
	for _, t := range []string{"47e66c", "2/03311", "5179068250066026496", "2/04"} {
		add("tools", "ParseCellID("+t+")", func() func() string {
			c := s2tools.ParseCellID(t)
			return func() string {
				if c == nil {
					return "nil"
				}
				return c.ToToken()
			}
		})
	}
	add("tools", "CellUnionUnion(A,B)", func() func() string {
		cu := s2tools.CellUnionUnion(in.cuA, in.cuB)
		return func() string { return cellText(cu) }
	})
	add("tools", "CellUnionUnion(B)", func() func() string {
		cu := s2tools.CellUnionUnion(in.cuB)
		return func() string { return cellText(cu) }
	})
	add("tools", "CellUnionMissing(A,B)", func() func() string {
		cu := s2tools.CellUnionMissing(in.cuA, in.cuB)
		return func() string { return cellText(cu) }
	})
	add("tools", "CellUnionMissing(B,A)", func() func() string {
		cu := s2tools.CellUnionMissing(in.cuB, in.cuA)
		return func() string { return cellText(cu) }
	})
	for n, cu := range map[string]s2.CellUnion{"A": in.cuA, "B": in.cuB[:2]} {
		add("tools", "CellUnionToGeoJSON("+n+")", func() func() string {
			b := s2tools.CellUnionToGeoJSON(cu)
			return func() string { return string(b) }
		})
		add("tools", "CellUnionToTokens("+n+")", func() func() string {
			l := s2tools.CellUnionToTokens(cu)
			return func() string { return strings.Join(l, " ") }
		})
	}
	request := func(method, path, body string) {
		add("http", strings.TrimSpace(method+" "+path+" "+fmt.Sprintf("%08x", uint32(rep.Hash(body)))), func() func() string {
			w := httptest.NewRecorder()
			in.router.ServeHTTP(w, httptest.NewRequest(method, "http://example.com"+path, strings.NewReader(body)))
			return func() string {
				return fmt.Sprint(w.Code, " ", w.Header().Get("Content-Type"), " ", w.Body.String())
			}
		})
	}
	fc := func(g string) string {
		return `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{"a":1},"geometry":` + g + `}]}`
	}
	request("GET", "/api/s2cells?cells=47e66c,47e664", "")
	request("GET", "/api/s2cells?cells=1", "")
	request("GET", "/api/s2cells?cells=47e66c,zz", "")
	poly := fc(`{"type":"Polygon","coordinates":[[[2.3,48.8],[2.34,48.8],[2.3,48.83],[2.3,48.8]]]}`)
	line := fc(`{"type":"LineString","coordinates":[[2.3,48.8],[2.31,48.81]]}`)
	request("POST", "/api/geojson/8/10/2", poly)
	request("POST", "/api/geojson/11/11/2", poly)
	request("POST", "/api/geojson/8/10/2", line)
	request("POST", "/api/geojson/8/10/2", poly[:60])
	request("POST", "/api/geojson/31/10/2", line)
	sort.Slice(ops, func(i, j int) bool { return ops[i].kind+ops[i].name < ops[j].kind+ops[j].name })
	return ops
}

// alone prints what the i-th operation answers in a process of its own.
func alone(i int) {
	json.NewEncoder(os.Stdout).Encode(pureOps(makePureIn())[i].do()())
	os.Exit(0)
}

func aloneFile() string { return filepath.Join(os.Getenv("VERIF_SCRATCH"), "alone.json") }

// askAlone notes the answers of all operations, each given in a process of its own.
func askAlone() {
	n := len(pureOps(makePureIn()))
	out := make([]string, n)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(os.Args[0], "T05")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_ALONE=%d", i))
			var e bytes.Buffer
			cmd.Stderr = &e
			b, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(b, &out[i])
			}
			if err != nil {
				// what is wrong with a call on its own is for other checks
				out[i] = "died"
			}
		}()
	}
	wg.Wait()
	b, _ := json.Marshal(out)
	if err := os.WriteFile(aloneFile(), b, 0644); err != nil {
		panic(err)
	}
}

func t05(thorough bool) []*program {
	in := makePureIn()
	ops := pureOps(in)
	given := in.text()
	var want []string
	expect := func(i int) string {
		if want == nil {
			b, err := os.ReadFile(aloneFile())
			if err == nil {
				err = json.Unmarshal(b, &want)
			}
			if err != nil || len(want) != len(ops) {
				panic("no answers of the calls alone")
			}
		}
		return want[i]
	}
	type answer struct {
		op    int
		first string
		late  func() string
	}
	mk := func(threads [][]int) func() ([]func(), func() string) {
		return func() ([]func(), func() string) {
			expect(0)
			got := make([][]answer, len(threads))
			var bodies []func()
			for ti, t := range threads {
				got[ti] = make([]answer, 0, len(t))
				bodies = append(bodies, func() {
					for _, i := range t {
						late := ops[i].do()
						a := answer{i, late(), late}
						got[ti] = append(got[ti], a)
					}
				})
			}
			judge := func() string {
				for ti := range got {
					for _, a := range got[ti] {
						if a.first != expect(a.op) {
							return fmt.Sprintf("thread %d: %s answers\n  %s\nalone it answers\n  %s", ti, ops[a.op].name, a.first, expect(a.op))
						}
						if l := a.late(); l != a.first {
							return fmt.Sprintf("thread %d: the answer of %s was\n  %s\nand has become\n  %s", ti, ops[a.op].name, a.first, l)
						}
					}
				}
				if t := in.text(); t != given {
					a, b := strings.Split(given, "\n"), strings.Split(t, "\n")
					for k := range a {
						if k >= len(b) || a[k] != b[k] {
							return "what the calls were given has changed: it was\n  " + a[k] + "\nand is\n  " + strings.Join(b[k:min(k+1, len(b))], "")
						}
					}
					return "what the calls were given has changed"
				}
				observed[0] = struct{}{}
				return ""
			}
			return bodies, judge
		}
	}
	var progs []*program
	add := func(bound int, threads [][]int) {
		var ts []string
		for _, t := range threads {
			var os []string
			for _, i := range t {
				os = append(os, ops[i].name)
			}
			ts = append(ts, strings.Join(os, ";"))
		}
		limit := 20000
		if thorough {
			limit = 400000
		}
		progs = append(progs, &program{name: strings.ReplaceAll(strings.Join(ts, " | "), " ", "_"), bound: bound, maxRuns: limit, mk: mk(threads)})
	}
	bound := 1
	if thorough {
		bound = 2
	}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			add(bound, [][]int{{i}, {j}})
		}
	}
	// one call after another
	for i := range ops {
		for j := range ops {
			for k := range ops {
				if ops[i].kind == ops[j].kind && (k == i || thorough || k == j) {
					add(0, [][]int{{i, j, k}})
				}
			}
		}
	}
	return progs
}
