package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"

	"verif/mc/rep"
)

// pv is a property value: what goes in, and what must come out (nil: nothing; bad: refused).
type pv struct {
	in   interface{}
	want interface{}
	bad  bool
}

var values = []pv{
	{in: true, want: true}, {in: false, want: false}, {in: 0.0, want: 0.0}, {in: -1.5, want: -1.5}, {in: 1e300, want: 1e300},
	{in: 42, want: 42.0}, {in: -7, want: -7.0}, {in: "", want: ""}, {in: "é \"x\" 42", want: "é \"x\" 42"}, {in: "true", want: "true"}, {in: 123456789.123456789, want: 123456789.123456789},
	{in: 5e-324, want: 5e-324}, {in: 1 << 53, want: 9007199254740992.0}, {in: -9007199254740993.0, want: -9007199254740992.0}, {in: "<&>\u2028\x00\n", want: "<&>\u2028\x00\n"}, {in: strings.Repeat("long", 500), want: strings.Repeat("long", 500)}, {in: "0", want: "0"}, {in: "null", want: "null"},
	{in: nil}, {in: map[string]interface{}{"a": 1.0}, bad: true}, {in: []interface{}{1.0}, bad: true},
}

const good = 18 // the others are dropped or refused

// props is a map of properties and the expected result.
type props struct {
	in   map[string]interface{}
	want map[string]interface{}
	bad  bool
}

// allProps are all maps over two keys.
func allProps() []props {
	out := []props{{in: nil, want: map[string]interface{}{}}}
	for i := -1; i < len(values); i++ {
		for j := -1; j < len(values); j++ {
			p := props{map[string]interface{}{}, map[string]interface{}{}, false}
			for k, x := range []int{i, j} {
				if x < 0 {
					continue
				}
				key := []string{"name", "é k"}[k]
				p.in[key] = values[x].in
				if values[x].want != nil {
					p.want[key] = values[x].want
				}
				p.bad = p.bad || values[x].bad
			}
			out = append(out, p)
		}
	}
	// many keys, and unusual ones
	for _, n := range []int{3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 200} {
		for first := 0; first < good; first++ {
			p := props{map[string]interface{}{}, map[string]interface{}{}, false}
			for k := 0; k < n; k++ {
				v := values[(first+k)%good]
				p.in[fmt.Sprint("key", k)], p.want[fmt.Sprint("key", k)] = v.in, v.want
			}
			out = append(out, p)
			for _, i := range []int{good, good + 1} { // and one that is dropped or refused
				q := props{map[string]interface{}{}, map[string]interface{}{}, values[i].bad}
				for k, v := range p.in {
					q.in[k], q.want[k] = v, p.want[k]
				}
				q.in["other"] = values[i].in
				out = append(out, q)
			}
		}
	}
	for _, key := range []string{"", " ", "type", "geometry", "coordinates", "properties", "id", "null", "a.b", "0", "é", "\n", "<&>", strings.Repeat("k", 300)} {
		for _, v := range values[:good] {
			out = append(out, props{map[string]interface{}{key: v.in, "x": "y"}, map[string]interface{}{key: v.want, "x": "y"}, false})
		}
	}
	return out
}

// gcase is a geometry to convert.
type gcase struct {
	name string
	g    geom.T
	typ  geodata.Geometry_Type
	want []float64 // nil: refused
	long bool
}

var ringsLL = [][][2]float64{
	{{0, 0}, {10, 0}, {10, 10}, {0, 0}},
	{{-71.22759461402893, 46.79841427927054}, {-71.22, 46.81}, {-71.25, 46.8}, {-71.24, 46.79}, {-71.22759461402893, 46.79841427927054}},
	{{179.5, -10}, {-179.5, -10}, {-179.5, 10}, {179.5, 10}, {179.5, -10}},
	{{1, 1}, {2, 1}, {2, 2}},
	{{180, 89.5}, {-60, 85.25}, {60.125, 80.0625}, {180, 89.5}},
}

func flat(lls [][2]float64, stride, salt int) ([]float64, []float64) {
	var f, want []float64
	for i, p := range lls {
		f = append(f, p[0], p[1])
		want = append(want, p[0], p[1])
		for k := 2; k < stride; k++ {
			f = append(f, float64(100*k+i+salt)+0.5)
		}
	}
	return f, want
}

func allGeoms(long bool) []gcase {
	var out []gcase
	layouts := []geom.Layout{geom.XY, geom.XYZ, geom.XYM, geom.XYZM}
	lngs, lats := []float64{-180, -71.22759461402893, 0, 1e-9, 179.99999999}, []float64{-90, -33.9, 0, 1e-9, 89.9999}
	for _, l := range layouts {
		st := l.Stride()
		for i, x := range lngs {
			for j, y := range lats {
				f, w := flat([][2]float64{{x, y}}, st, i*j)
				out = append(out, gcase{fmt.Sprintf("point %v %v", l, f), geom.NewPointFlat(l, f), geodata.Geometry_POINT, w, false})
			}
		}
		// lines: all lists of two or three positions out of six
		pos := [][2]float64{{0, 0}, {-180, 10}, {179.25, -80.5}, {1.1, 2.2}, {-71.22759461402893, 46.79841427927054}, {10, 0}}
		for n := 2; n <= 4; n++ {
			if n == 4 && !long {
				break
			}
			ix := make([]int, n)
			for {
				var lls [][2]float64
				for _, k := range ix {
					lls = append(lls, pos[k])
				}
				f, w := flat(lls, st, n)
				out = append(out, gcase{fmt.Sprintf("line %v %v", l, f), geom.NewLineStringFlat(l, f), geodata.Geometry_LINESTRING, w, false})
				k := n - 1
				for ; k >= 0; k-- {
					if ix[k]++; ix[k] < len(pos) {
						break
					}
					ix[k] = 0
				}
				if k < 0 {
					break
				}
			}
		}
		// polygons with up to two holes
		for i, o := range ringsLL {
			for holes := 0; holes <= 2; holes++ {
				f, w := flat(o, st, i)
				ends := []int{len(f)}
				for h := 0; h < holes; h++ {
					hf, _ := flat(ringsLL[(i+h+1)%len(ringsLL)], st, h)
					f = append(f, hf...)
					ends = append(ends, len(f))
				}
				out = append(out, gcase{fmt.Sprintf("polygon %v %d holes %v", l, holes, f), geom.NewPolygonFlat(l, f, ends), geodata.Geometry_POLYGON, w, false})
			}
		}
	}
	// long lines and rings
	for _, l := range layouts {
		for _, n := range []int{5, 8, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 4096, 5000} {
			var lls [][2]float64
			for i := 0; i < n; i++ {
				a := 2 * math.Pi * float64(i) / float64(n)
				lls = append(lls, [2]float64{-71.3 + math.Cos(a), 46.8 + math.Sin(a)})
			}
			f, w := flat(lls, l.Stride(), n)
			out = append(out, gcase{fmt.Sprintf("line of %d %v", n, l), geom.NewLineStringFlat(l, f), geodata.Geometry_LINESTRING, w, n > 40})
			f, w = flat(append(lls, lls[0]), l.Stride(), n)
			out = append(out, gcase{fmt.Sprintf("ring of %d %v", n, l), geom.NewPolygonFlat(l, f, []int{len(f)}), geodata.Geometry_POLYGON, w, n > 40})
		}
	}
	// unsupported, or incomplete
	f, _ := flat(ringsLL[0], 2, 0)
	out = append(out,
		gcase{name: "multipoint", g: geom.NewMultiPointFlat(geom.XY, f)},
		gcase{name: "multiline", g: geom.NewMultiLineStringFlat(geom.XY, f, []int{len(f)})},
		gcase{name: "multipolygon", g: geom.NewMultiPolygonFlat(geom.XY, f, [][]int{{len(f)}})},
		gcase{name: "collection", g: geom.NewGeometryCollection()},
		gcase{name: "linear ring", g: geom.NewLinearRingFlat(geom.XY, f)},
		gcase{name: "empty point", g: geom.NewPointEmpty(geom.XY)},
		gcase{name: "empty point without layout", g: geom.NewPointEmpty(geom.NoLayout)},
		gcase{name: "empty line", g: geom.NewLineString(geom.XY)},
		gcase{name: "line of one", g: geom.NewLineStringFlat(geom.XY, []float64{1, 2})},
		gcase{name: "line XYZ of one", g: geom.NewLineStringFlat(geom.XYZ, []float64{1, 2, 3})},
		gcase{name: "line XYZM of one", g: geom.NewLineStringFlat(geom.XYZM, []float64{1, 2, 3, 4})},
		gcase{name: "empty polygon", g: geom.NewPolygon(geom.XY)},
		gcase{name: "polygon of two", g: geom.NewPolygonFlat(geom.XY, []float64{1, 2, 3, 4, 1, 2}, []int{6})},
		gcase{name: "polygon XYZ of two", g: geom.NewPolygonFlat(geom.XYZ, []float64{1, 2, 9, 3, 4, 9, 1, 2, 9}, []int{9})},
		gcase{name: "polygon of one", g: geom.NewPolygonFlat(geom.XY, []float64{1, 2}, []int{2})},
		gcase{name: "polygon, empty outer ring", g: geom.NewPolygonFlat(geom.XY, f, []int{0, len(f)})},
		gcase{name: "nil"},
	)
	return out
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func propsOf(gd *geodata.GeoData) map[string]interface{} {
	m := map[string]interface{}{}
	for k, v := range gd.Properties {
		switch x := v.GetKind().(type) {
		case *spb.Value_BoolValue:
			m[k] = x.BoolValue
		case *spb.Value_NumberValue:
			m[k] = x.NumberValue
		case *spb.Value_StringValue:
			m[k] = x.StringValue
		default:
			m[k] = fmt.Sprintf("%T", x)
		}
	}
	return m
}

// jfeature is a decoded GeoJSON feature.
type jfeature struct {
	Type     string
	Geometry struct {
		Type        string
		Coordinates json.RawMessage
	}
	Properties map[string]interface{}
}

func decode(b []byte) ([]jfeature, error) {
	var fc struct {
		Type     string
		Features []jfeature
	}
	if err := json.Unmarshal(b, &fc); err != nil {
		return nil, err
	}
	if fc.Type != "FeatureCollection" {
		return nil, fmt.Errorf("type %q", fc.Type)
	}
	return fc.Features, nil
}

// matches compares a GeoJSON feature with a geometry given as flat pairs (parts for multi-polygons).
func (f jfeature) matches(t geodata.Geometry_Type, parts [][]float64, want map[string]interface{}) string {
	if f.Type != "Feature" {
		return fmt.Sprintf("type %q", f.Type)
	}
	name := map[geodata.Geometry_Type]string{0: "Point", 1: "Polygon", 2: "MultiPolygon", 3: "LineString"}[t]
	if f.Geometry.Type != name {
		return fmt.Sprintf("geometry type %q, want %q", f.Geometry.Type, name)
	}
	pairs := func(c []float64) interface{} {
		o := []interface{}{}
		for i := 0; i < len(c); i += 2 {
			o = append(o, []interface{}{c[i], c[i+1]})
		}
		return o
	}
	var w interface{}
	switch t {
	case geodata.Geometry_POINT:
		w = []interface{}{parts[0][0], parts[0][1]}
	case geodata.Geometry_LINESTRING:
		w = pairs(parts[0])
	case geodata.Geometry_POLYGON:
		w = []interface{}{pairs(parts[0])}
	default:
		o := []interface{}{}
		for _, p := range parts {
			o = append(o, []interface{}{pairs(p)})
		}
		w = o
	}
	var got interface{}
	if err := json.Unmarshal(f.Geometry.Coordinates, &got); err != nil {
		return err.Error()
	}
	if !reflect.DeepEqual(got, w) {
		return fmt.Sprintf("coordinates %v, want %v", got, w)
	}
	p := f.Properties
	if p == nil {
		p = map[string]interface{}{}
	}
	if !reflect.DeepEqual(p, want) {
		return fmt.Sprintf("properties %v, want %v", p, want)
	}
	return ""
}

func overProto(gd *geodata.GeoData) (*geodata.GeoData, error) {
	b, err := proto.Marshal(gd)
	if err != nil {
		return nil, err
	}
	o := &geodata.GeoData{}
	return o, proto.Unmarshal(b, o)
}

// back checks everything that can be derived from a converted feature.
func back(gd *geodata.GeoData, t geodata.Geometry_Type, want []float64, wp map[string]interface{}) string {
	if gd.Geometry == nil || gd.Geometry.Type != t || !sameFloats(gd.Geometry.Coordinates, want) || len(gd.Geometry.Geometries) > 0 {
		return fmt.Sprintf("geometry %v, want %v %v", gd.Geometry, t, want)
	}
	if p := propsOf(gd); !reflect.DeepEqual(p, wp) {
		return fmt.Sprintf("properties %v, want %v", p, wp)
	}
	if p := geodata.PropertiesToJSONMap(gd.Properties); !reflect.DeepEqual(p, wp) {
		return fmt.Sprintf("properties as JSON map %v, want %v", p, wp)
	}
	g, err := geodata.GeoDataToGeom(gd)
	if err != nil {
		return "GeoDataToGeom: " + err.Error()
	}
	ok := g.Layout() == geom.XY && sameFloats(g.FlatCoords(), want)
	switch x := g.(type) {
	case *geom.Point:
		ok = ok && t == geodata.Geometry_POINT
	case *geom.LineString:
		ok = ok && t == geodata.Geometry_LINESTRING
	case *geom.Polygon:
		ok = ok && t == geodata.Geometry_POLYGON && x.NumLinearRings() == 1 && sameFloats(x.LinearRing(0).FlatCoords(), want)
	default:
		ok = false
	}
	if !ok {
		return fmt.Sprintf("GeoDataToGeom gives %T %v, want %v %v", g, g.FlatCoords(), t, want)
	}
	b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd})
	if err != nil {
		return "ToGeoJSONFeatureCollection: " + err.Error()
	}
	fs, err := decode(b)
	if err != nil || len(fs) != 1 {
		return fmt.Sprintf("exported %s (%v)", b, err)
	}
	if m := fs[0].matches(t, [][]float64{want}, wp); m != "" {
		return "exported: " + m
	}
	return ""
}

func g04() {
	r := rep.New("G04", "exploration", "every geometry of a bounded family (points over special coordinates; all lines of 2-3 of six positions; polygons with 0-2 holes; layouts XY, XYZ, XYM, XYZM; unsupported and incomplete ones; and long lines and rings up to 5,000 vertices) x every property map over two keys and 21 values, maps of up to 200 keys and unusual keys (every geometry with a fixed subset of the maps, every map with a fixed subset of the geometries), given as object and as GeoJSON text, converted onto fresh and used targets, with and without protobuf in between, and back through every export; multi-polygons, lists of features and lists of points exported")
	ps := allProps()
	gs := allGeoms(r.Thorough())
	targets := []func() *geodata.GeoData{
		func() *geodata.GeoData { return &geodata.GeoData{} },
		func() *geodata.GeoData {
			return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON, Geometries: []*geodata.Geometry{{Type: geodata.Geometry_POLYGON, Coordinates: []float64{1, 1, 2, 1, 2, 2}}}}}
		},
		func() *geodata.GeoData {
			return &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{7, 8}}, Properties: map[string]*spb.Value{}}
		},
	}
	one := func(key string, g gcase, p props, ti int, text bool) {
		if r.Stop() || !r.Case(key) {
			return
		}
		msg := rep.Catch(func() string {
			gd := targets[ti]()
			before := proto.Clone(gd).(*geodata.GeoData)
			f := &geojson.Feature{Geometry: g.g, Properties: p.in}
			if text && g.g != nil {
				b, err := json.Marshal(f)
				if err != nil {
					return "" // the library cannot express it
				}
				f = &geojson.Feature{}
				if json.Unmarshal(b, f) != nil {
					return ""
				}
				if g.want != nil && f.Geometry.Layout().Stride() != g.g.Layout().Stride() {
					return ""
				}
			}
			var flatBefore []float64
			if f.Geometry != nil && g.name != "collection" {
				flatBefore = append(flatBefore, f.Geometry.FlatCoords()...)
			}
			err := geodata.GeoJSONFeatureToGeoData(f, gd)
			r.Eval(1)
			if flatBefore != nil && !sameFloats(flatBefore, f.Geometry.FlatCoords()) {
				return "the feature was modified"
			}
			if g.want == nil || p.bad {
				if err == nil {
					return fmt.Sprintf("accepted as %v", gd)
				}
				if !proto.Equal(&geodata.GeoData{Geometry: gd.Geometry}, &geodata.GeoData{Geometry: before.Geometry}) {
					return fmt.Sprintf("refused (%v), yet the target's geometry changed from %v to %v", err, before.Geometry, gd.Geometry)
				}
				return ""
			}
			if err != nil {
				return "refused: " + err.Error()
			}
			if m := back(gd, g.typ, g.want, p.want); m != "" {
				return m
			}
			o, err := overProto(gd)
			if err != nil {
				return "protobuf: " + err.Error()
			}
			if m := back(o, g.typ, g.want, p.want); m != "" {
				return "after protobuf: " + m
			}
			if !proto.Equal(gd, o) {
				return "changed by the exports"
			}
			return ""
		})
		if msg != "" {
			r.Violate(key, "feature %s, properties %v, target %d, as text %v\n%s", g.name, p.in, ti, text, msg)
		}
		r.State(g.name + fmt.Sprint(p.want, p.bad))
		r.Sample(func() interface{} {
			return map[string]interface{}{"geometry": g.name, "properties": fmt.Sprint(p.in), "expected": fmt.Sprint(g.want, p.want)}
		})
	}
	// every geometry x a few property maps x targets x form; every property map x a few geometries
	var some []int
	for i := range ps {
		if i%29 == 0 || r.Thorough() && i%9 == 0 {
			some = append(some, i)
		}
	}
	rep.Par(len(gs), func(gi int) {
		for ti := range targets {
			for x, pi := range some {
				if gs[gi].long && x%16 > 0 {
					continue
				}
				one(fmt.Sprintf("g%d/p%d/t%d/o", gi, pi, ti), gs[gi], ps[pi], ti, false)
				one(fmt.Sprintf("g%d/p%d/t%d/x", gi, pi, ti), gs[gi], ps[pi], ti, true)
			}
		}
	})
	var few []int
	for i, n := 0, len(gs); i < n; i += 1 + n/r.Pick(17, 60) {
		few = append(few, i)
	}
	few = append(few, len(gs)-1, len(gs)-4)
	rep.Par(len(ps), func(pi int) {
		for _, gi := range few {
			for ti := range targets {
				one(fmt.Sprintf("g%d/p%d/t%d/o", gi, pi, ti), gs[gi], ps[pi], ti, false)
				one(fmt.Sprintf("g%d/p%d/t%d/x", gi, pi, ti), gs[gi], ps[pi], ti, true)
			}
		}
	})
	exports(r)
	r.Finish()
}

// exports checks multi-polygons, feature lists and point lists.
func exports(r *rep.R) {
	val := func(m map[string]interface{}) map[string]*spb.Value {
		gd := &geodata.GeoData{}
		if geodata.PropertiesToGeoData(&geojson.Feature{Properties: m}, gd) != nil {
			panic("properties")
		}
		return gd.Properties
	}
	type item struct {
		gd    *geodata.GeoData
		parts [][]float64
		want  map[string]interface{}
		bad   bool
	}
	ringOf := func(k int) []float64 { f, _ := flat(ringsLL[k], 2, 0); return f }
	mp := func(ks ...int) item {
		it := item{gd: &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON}}, want: map[string]interface{}{}}
		for _, k := range ks {
			it.gd.Geometry.Geometries = append(it.gd.Geometry.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: ringOf(k)})
			it.parts = append(it.parts, ringOf(k))
		}
		return it
	}
	pt := func(x, y float64, m map[string]interface{}) item {
		if m == nil {
			m = map[string]interface{}{}
		}
		return item{gd: &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{x, y}}, Properties: val(m)}, parts: [][]float64{{x, y}}, want: m}
	}
	items := []item{
		pt(1, 2, nil), pt(-180, 90, map[string]interface{}{"a": "b"}), pt(1, 2, map[string]interface{}{"n": 4.5, "t": true, "f": false}), pt(0, 0, nil),
		{gd: &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{1, 2, 3, 4}}}, parts: [][]float64{{1, 2, 3, 4}}, want: map[string]interface{}{}},
		{gd: &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: ringOf(1)}, Properties: val(map[string]interface{}{"x": ""})}, parts: [][]float64{ringOf(1)}, want: map[string]interface{}{"x": ""}},
		mp(0, 1), mp(3), mp(2, 3, 0, 4), mp(1, 1),
		{gd: &geodata.GeoData{}, bad: true}, {gd: &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON}}, bad: true},
	}
	var lists [][]int
	lists = append(lists, nil)
	for a := range items {
		lists = append(lists, []int{a})
		for b := range items {
			lists = append(lists, []int{a, b})
			for c := range items {
				lists = append(lists, []int{a, b, c})
				if a < 5 && b < 5 && c < 5 {
					for d := range items[:5] {
						lists = append(lists, []int{a, b, c, d})
					}
				}
			}
		}
	}
	for _, l := range lists {
		key := "list" + strings.Trim(fmt.Sprint(l), "[]")
		if r.Stop() || !r.Case(strings.ReplaceAll(key, " ", "_")) {
			continue
		}
		msg := rep.Catch(func() string {
			var gds []*geodata.GeoData
			var copies []proto.Message
			bad, pts := false, true
			var co []float64
			for _, k := range l {
				gds = append(gds, items[k].gd)
				copies = append(copies, proto.Clone(items[k].gd))
				bad = bad || items[k].bad
				pts = pts && !items[k].bad && items[k].gd.Geometry.Type == geodata.Geometry_POINT
				if pts {
					co = append(co, items[k].parts[0]...)
				}
			}
			r.Eval(2)
			b, err := geodata.ToGeoJSONFeatureCollection(gds)
			if bad != (err != nil) {
				return fmt.Sprintf("feature collection: error %v", err)
			}
			if err == nil {
				fs, err := decode(b)
				if err != nil || len(fs) != len(l) {
					return fmt.Sprintf("exported %s (%v)", b, err)
				}
				for i, k := range l {
					if m := fs[i].matches(items[k].gd.Geometry.Type, items[k].parts, items[k].want); m != "" {
						return fmt.Sprintf("feature %d: %s in %s", i, m, b)
					}
				}
			}
			if len(l) > 0 {
				b, err = geodata.PointsToGeoJSONPolyLines(gds)
				if pts != (err == nil) {
					return fmt.Sprintf("polyline: error %v", err)
				}
				if err == nil {
					var f jfeature
					if err := json.Unmarshal(b, &f); err != nil {
						return fmt.Sprintf("polyline %s: %v", b, err)
					}
					if m := f.matches(geodata.Geometry_LINESTRING, [][]float64{co}, items[l[0]].want); m != "" {
						return "polyline: " + m
					}
				}
			} else if b, err := geodata.PointsToGeoJSONPolyLines(nil); err == nil && !json.Valid(b) {
				return "polyline of nothing: " + string(b)
			}
			for i := range gds {
				if !proto.Equal(gds[i], copies[i]) {
					return "an input was modified"
				}
			}
			return ""
		})
		if msg != "" {
			r.Violate(key, "list of features %v\n%s", l, msg)
		}
		r.State(key)
	}
	// large multi-polygons: every order of four rings
	for i := 0; i < 625; i++ {
		it := mp(i%5, i/5%5, i/25%5, i/125)
		b, err := geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{it.gd})
		r.Eval(1)
		if err != nil {
			r.Violate("mp", "multi-polygon refused: %v", err)
			break
		}
		fs, err := decode(b)
		if err != nil || len(fs) != 1 {
			r.Violate("mp", "multi-polygon exported as %s", b)
			break
		}
		if m := fs[0].matches(geodata.Geometry_MULTIPOLYGON, it.parts, it.want); m != "" {
			r.Violate("mp", "multi-polygon: %s", m)
			break
		}
	}
}
