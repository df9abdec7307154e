package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"mime"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	"github.com/gorilla/mux"

	"verif/mc/rep"
)

// server answers requests: in process, or the real program on the loopback network.
type server struct {
	h    http.Handler
	base string
	wrap func(io.Reader) io.Reader // how the body arrives
}

type reply struct {
	code int
	body []byte
	typ  string // of the content
	err  string
}

func (a reply) isJSON() string {
	if t, _, err := mime.ParseMediaType(a.typ); err != nil || t != "application/json" {
		return fmt.Sprintf("the answer is JSON, but its content type is %q", a.typ)
	}
	return ""
}

func (s *server) do(method, path string, body []byte) reply {
	if s.h != nil {
		var out reply
		if m := rep.Guard(hang, func() string {
			var rd io.Reader = bytes.NewReader(body)
			if s.wrap != nil {
				rd = s.wrap(rd)
			}
			req := httptest.NewRequest(method, "http://example.com"+path, rd)
			w := httptest.NewRecorder()
			s.h.ServeHTTP(w, req)
			out = reply{code: w.Code, body: w.Body.Bytes(), typ: w.Header().Get("Content-Type")}
			return ""
		}); m != "" {
			return reply{err: m}
		}
		return out
	}
	req, err := http.NewRequest(method, s.base+path, bytes.NewReader(body))
	if err != nil {
		return reply{err: err.Error()}
	}
	c := http.Client{Timeout: 60 * time.Second}
	resp, err := c.Do(req)
	if err != nil {
		return reply{err: err.Error()}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return reply{err: err.Error()}
	}
	return reply{code: resp.StatusCode, body: b, typ: resp.Header.Get("Content-Type")}
}

// body of a covering request and the region it denotes (nil: malformed).
type body struct {
	name   string
	text   string
	region s2.Region
	point  bool
	any    bool // unspecified: any answer but a panic
	tiny   bool // may be covered at fine levels
}

func loop(ll ...float64) *s2.Loop {
	var p []s2.Point
	for i := 0; i < len(ll); i += 2 {
		p = append(p, s2.PointFromLatLng(s2.LatLngFromDegrees(ll[i+1], ll[i])))
	}
	l := s2.LoopFromPoints(p)
	l.Normalize()
	return l
}

func polyline(ll ...float64) *s2.Polyline {
	var p s2.Polyline
	for i := 0; i < len(ll); i += 2 {
		p = append(p, s2.PointFromLatLng(s2.LatLngFromDegrees(ll[i+1], ll[i])))
	}
	return &p
}

func feature(geometry, props string) string {
	return `{"type":"Feature","properties":` + props + `,"geometry":` + geometry + `}`
}

func collection(fs ...string) string {
	return `{"type":"FeatureCollection","features":[` + strings.Join(fs, ",") + `]}`
}

func bodies() []body {
	pt := `{"type":"Point","coordinates":[2.3212,48.9001]}`
	tri := `{"type":"Polygon","coordinates":[[[2.1,48.1],[2.4,48.1],[2.3,48.4],[2.1,48.1]]]}`
	geo := func(name, g string, rg s2.Region) body {
		return body{name: name, text: collection(feature(g, "{}")), region: rg}
	}
	point := func(lng, lat float64) body {
		return body{name: fmt.Sprint("point ", lng, lat), text: collection(feature(fmt.Sprintf(`{"type":"Point","coordinates":[%v,%v]}`, lng, lat), "{}")),
			region: s2.PointFromLatLng(s2.LatLngFromDegrees(lat, lng)), point: true, tiny: true}
	}
	out := []body{
		point(2.3212, 48.9001), point(-180, 90), point(179.999, -45), point(0, 0), point(-71.22759461402893, 46.79841427927054),
		geo("triangle", tri, loop(2.1, 48.1, 2.4, 48.1, 2.3, 48.4)),
		geo("clockwise", `{"type":"Polygon","coordinates":[[[2.1,48.1],[2.3,48.4],[2.4,48.1],[2.1,48.1]]]}`, loop(2.1, 48.1, 2.4, 48.1, 2.3, 48.4)),
		geo("concave", `{"type":"Polygon","coordinates":[[[0,0],[0.25,0.25],[0.5,0],[0.5,0.5],[0,0.5],[0,0]]]}`, loop(0, 0, 0.25, 0.25, 0.5, 0, 0.5, 0.5, 0, 0.5)),
		geo("with altitudes", `{"type":"Polygon","coordinates":[[[2.1,48.1,50],[2.4,48.1,60],[2.3,48.4,70],[2.1,48.1,50]]]}`, loop(2.1, 48.1, 2.4, 48.1, 2.3, 48.4)),
		geo("antimeridian", `{"type":"Polygon","coordinates":[[[179.8,0],[-179.8,0],[-179.8,0.2],[179.8,0.2],[179.8,0]]]}`, loop(179.8, 0, -179.8, 0, -179.8, 0.2, 179.8, 0.2)),
		geo("line", `{"type":"LineString","coordinates":[[0,0],[1,1],[2,0]]}`, polyline(0, 0, 1, 1, 2, 0)),
		geo("line across", `{"type":"LineString","coordinates":[[179,1],[-179.5,-1]]}`, polyline(179, 1, -179.5, -1)),
	}
	small := geo("tiny triangle", `{"type":"Polygon","coordinates":[[[2.1,48.1],[2.1000001,48.1],[2.1,48.1000001],[2.1,48.1]]]}`, loop(2.1, 48.1, 2.1000001, 48.1, 2.1, 48.1000001))
	small.tiny = true
	out = append(out, small,
		body{name: "properties", text: collection(feature(tri, `{"a":1,"b":"x","c":true,"d":null}`)), region: loop(2.1, 48.1, 2.4, 48.1, 2.3, 48.4)},
		body{name: "spaces", text: " \n" + strings.ReplaceAll(collection(feature(tri, "{}")), ",", " ,\n") + "\n", region: loop(2.1, 48.1, 2.4, 48.1, 2.3, 48.4)},
		body{name: "null properties", text: collection(feature(tri, "null")), region: loop(2.1, 48.1, 2.4, 48.1, 2.3, 48.4)},
	)
	bad := func(name, text string) { out = append(out, body{name: name, text: text}) }
	bad("nothing", "")
	for _, s := range []string{"{", "null", "[]", "{}", "1", `"x"`, "x", `{"type":"FeatureCollection"}`, `{"features":null}`, "[1,2", "\x00", "{\"features\":{}}", `{"features":[1]}`} {
		bad("text "+s, s)
	}
	bad("no feature", collection())
	bad("two features", collection(feature(tri, "{}"), feature(tri, "{}")))
	bad("three features", collection(feature(pt, "{}"), feature(pt, "{}"), feature(pt, "{}")))
	bad("null feature", collection("null"))
	bad("null and a feature", collection("null", feature(tri, "{}")))
	bad("empty feature", collection("{}"))
	bad("feature without geometry", collection(`{"type":"Feature","properties":{}}`))
	bad("wrong feature type", collection(`{"type":"Point","coordinates":[1,2]}`))
	for _, g := range []string{
		"null", "{}", `{"type":"Circle","coordinates":[1,2]}`, `{"type":"Point"}`, `{"type":"Point","coordinates":[]}`, `{"type":"Point","coordinates":[1]}`, `{"type":"Point","coordinates":["a","b"]}`,
		`{"type":"Point","coordinates":null}`, `{"type":"Point","coordinates":[[1,2]]}`, `{"type":"Point","coordinates":[1e999,2]}`,
		`{"type":"LineString","coordinates":[]}`, `{"type":"LineString","coordinates":[[1,2]]}`, `{"type":"LineString","coordinates":[[1],[2]]}`, `{"type":"LineString","coordinates":[[1,2],[3]]}`, `{"type":"LineString"}`,
		`{"type":"Polygon"}`, `{"type":"Polygon","coordinates":[]}`, `{"type":"Polygon","coordinates":[[]]}`, `{"type":"Polygon","coordinates":[[[1,2]]]}`, `{"type":"Polygon","coordinates":[[[1,2],[3,4]]]}`,
		`{"type":"Polygon","coordinates":[[[1,2],[3,4],[1,2]]]}`, `{"type":"Polygon","coordinates":[[[1,1],[1,1],[1,1],[1,1]]]}`, `{"type":"Polygon","coordinates":[[[1,2],[3],[5,6],[1,2]]]}`, `{"type":"Polygon","coordinates":[[1,2],[3,4],[5,6]]}`,
		`{"type":"Polygon","coordinates":[[],[[0,0],[1,0],[1,1],[0,0]]]}`,
		`{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}`, `{"type":"MultiLineString","coordinates":[[[1,2],[3,4]]]}`, `{"type":"MultiPolygon","coordinates":[[[[0,0],[1,0],[1,1],[0,0]]]]}`,
		`{"type":"GeometryCollection","geometries":[]}`, `{"type":"GeometryCollection","geometries":[{"type":"Point","coordinates":[1,2]}]}`,
	} {
		bad("geometry "+g, collection(feature(g, "{}")))
	}
	bad("nested property", collection(feature(tri, `{"a":{"b":1}}`)))
	bad("list property", collection(feature(tri, `{"a":[1]}`)))
	bad("wrong properties", collection(feature(tri, `[1]`)))
	// every proper prefix of a good body
	for _, s := range []string{collection(feature(pt, "{}")), collection(feature(tri, `{"a":"é"}`))} {
		for i := 1; i < len(s); i++ {
			bad(fmt.Sprintf("cut at %d: %s", i, s[:i]), s[:i])
		}
	}
	return out
}

// largeBodies are good features of up to megabytes.
func largeBodies(r *rep.R) []body {
	var out []body
	circle := func(n int, f float64) ([]float64, string) {
		var ll []float64
		var sb strings.Builder
		for i := 0; i < n; i++ {
			s, c := math.Sincos(2 * math.Pi * float64(i) / float64(n))
			x, y := 20+f*c, 30+f*s
			ll = append(ll, x, y)
			fmt.Fprintf(&sb, "[%s,%s],", strconv.FormatFloat(x, 'g', -1, 64), strconv.FormatFloat(y, 'g', -1, 64))
		}
		return ll, sb.String()
	}
	for _, n := range []int{50, 90, 100, 110, 200, 500, 800, 900, 1000, 1600, 1700, 1800, 5000, r.Pick(30000, 200000)} {
		ll, s := circle(n, 3)
		out = append(out, body{name: fmt.Sprintf("ring of %d", n), text: collection(feature(`{"type":"Polygon","coordinates":[[`+s+fmt.Sprintf("[%v,%v]]]}", ll[0], ll[1]), "{}")), region: loop(ll...)},
			body{name: fmt.Sprintf("line of %d", n), text: collection(feature(`{"type":"LineString","coordinates":[`+strings.TrimSuffix(s, ",")+"]}", "{}")), region: polyline(ll...)})
		var props []string
		for i := 0; i < n; i++ {
			props = append(props, fmt.Sprintf(`"p%d":"%s"`, i, strings.Repeat("v", i%90)))
		}
		out = append(out, body{name: fmt.Sprintf("%d properties", n), text: collection(feature(`{"type":"Polygon","coordinates":[[[2.1,48.1],[2.4,48.1],[2.3,48.4],[2.1,48.1]]]}`, "{"+strings.Join(props, ",")+"}")), region: loop(2.1, 48.1, 2.4, 48.1, 2.3, 48.4)},
			body{name: fmt.Sprintf("property of %d bytes", n*40), text: collection(feature(`{"type":"Point","coordinates":[2.3212,48.9001]}`, `{"p":"`+strings.Repeat("0123456789", n*4)+`"}`)), region: s2.PointFromLatLng(s2.LatLngFromDegrees(48.9001, 2.3212)), point: true})
	}
	return out
}

// damaged bodies: any answer but a panic.
func damaged() []body {
	var out []body
	for _, s := range []string{collection(feature(`{"type":"Polygon","coordinates":[[[2.1,48.1],[2.4,48.1],[2.3,48.4],[2.1,48.1]]]}`, `{"a":1}`)), collection(feature(`{"type":"LineString","coordinates":[[1,2],[3,4]]}`, `{}`))} {
		for i := range s {
			out = append(out, body{name: fmt.Sprintf("without byte %d", i), text: s[:i] + s[i+1:], any: true})
			for _, c := range "]}[,0-9\"e" {
				out = append(out, body{name: fmt.Sprintf("byte %d is %c", i, c), text: s[:i] + string(c) + s[i+1:], any: true})
			}
		}
	}
	return out
}

func cover(b body, min, max, cells int) []uint64 {
	var cu s2.CellUnion
	if b.point {
		cu = s2.CellUnion{s2.CellIDFromLatLng(s2.LatLngFromPoint(b.region.(s2.Point))).Parent(min)}
		if p, ok := b.region.(s2.Point); ok && b.name == "point -180 90" {
			cu[0] = s2.CellFromPoint(p).ID().Parent(min)
		}
	} else {
		cv := &s2.RegionCoverer{MinLevel: min, MaxLevel: max, MaxCells: cells}
		cu = cv.Covering(b.region)
	}
	out := make([]uint64, len(cu))
	for i, c := range cu {
		out[i] = uint64(c)
	}
	return out
}

func sameSet(b []byte, ids []uint64) string {
	fs, err := decode(b)
	if err != nil {
		return fmt.Sprintf("%v in %.200s", err, b)
	}
	want := map[string]bool{}
	for _, id := range ids {
		want[tokenOf(id)] = true
	}
	var got []uint64
	seen := map[string]bool{}
	for _, f := range fs {
		t, _ := f.Properties["id"].(string)
		id, ok := fromToken(t)
		if !ok || !want[t] || seen[t] {
			return fmt.Sprintf("the answer has the cell %q; the cover is %x", t, ids)
		}
		seen[t] = true
		got = append(got, id)
	}
	if len(got) != len(ids) {
		return fmt.Sprintf("%d cells answered, the cover has %d: %x", len(got), len(ids), ids)
	}
	return sameCells(b, got)
}

func t04() {
	r := rep.New("T04", "exploration", "cell endpoint: every list of up to three of fourteen tokens, good and bad, and malformed queries; covering endpoint: every level pair from a set of good and out-of-range values x cell limits x bodies (good features of every type, missing, several, null, unsupported and degenerate ones, every prefix of good bodies, every single-byte deletion and replacement); answers against parsers and covers of the check's own; in process through the router, without router variables, and (a subset) against the real mapdebugger program on the loopback network")
	m := mux.NewRouter()
	m.HandleFunc("/api/s2cells", s2tools.S2CellQueryHandler)
	m.HandleFunc("/api/geojson/{min_level}/{max_level}/{max_cells}", s2tools.GeoJSONToCellHandler)
	in := &server{h: m}
	run := func(key string, s *server, method, path string, bd []byte, judge func(reply) string) {
		if r.Stop() || !r.Case(strings.Join(strings.Fields(key), "_")) {
			return
		}
		r.Eval(1)
		a := s.do(method, path, bd)
		msg := a.err
		if msg == "" {
			msg = judge(a)
		}
		if msg != "" {
			r.Violate(key, "%s %s\nbody %s\n%s", method, path, bd, msg)
		}
		r.State(path + string(bd))
	}
	cellReq := func(pre string, s *server, toks []string) {
		want := []uint64{}
		ok := true
		for _, t := range toks {
			id, v := fromToken(t)
			ok = ok && v
			want = append(want, id)
		}
		q := url.QueryEscape(strings.Join(toks, ","))
		run(pre+"cells/"+q, s, "GET", "/api/s2cells?cells="+q, nil, func(a reply) string {
			if !ok {
				if a.code != 400 {
					return fmt.Sprintf("status %d, want 400", a.code)
				}
				return ""
			}
			if a.code != 200 {
				return fmt.Sprintf("status %d: %s", a.code, a.body)
			}
			if m := a.isJSON(); m != "" {
				return m
			}
			return sameCells(a.body, want)
		})
	}
	toks := []string{"47e66f", "47e664", "1", "b", "3", "0000000000000001", "bfffffffffffffff", "X", "", "0", "zz", "c1", "47e66", " 47e664", "2/033", "5180950467127017472", "47e66f00000000000", "é", "d", "47e670"}
	for n := 1; n <= 3; n++ {
		ix := make([]int, n)
		for {
			var l []string
			for _, i := range ix {
				l = append(l, toks[i])
			}
			cellReq("", in, l)
			k := n - 1
			for ; k >= 0; k-- {
				if ix[k]++; ix[k] < len(toks) {
					break
				}
				ix[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
	// long lists, and every cell of a level as token
	var many []string
	for f := 0; f < 6; f++ {
		for i := 0; i < 64; i++ {
			t := tokenOf(idOf(f, strconv.Itoa(i/16)+strconv.Itoa(i/4%4)+strconv.Itoa(i%4)))
			many = append(many, t)
			cellReq("", in, []string{t})
		}
	}
	cellReq("", in, many)
	for i := 0; i < len(many); i += 7 {
		cellReq("", in, append(append(append([]string{}, many[:i]...), "zz"), many[i:]...))
	}
	for _, q := range []string{"", "?", "?cells", "?cells=", "?cell=47e664", "?cells=,", "?cells=47e664,", "?cells=,47e664", "?cells=47e664;47e66f", "?Cells=47e664", "?cells=47e664%2C%2C47e66f", "?cells=%zz"} {
		run("query"+q, in, "GET", "/api/s2cells"+q, nil, func(a reply) string {
			if a.code != 400 {
				return fmt.Sprintf("status %d, want 400", a.code)
			}
			return ""
		})
	}

	levels := []string{"0", "1", "5", "9", "11", "30", "31", "32", "60", "99", "-1", "x", "+3x", "1.5", "18446744073709551616", "99999999999999999999"}
	limits := []string{"0", "1", "8", "100", "4294967296", "x", "-1", "-8", "99999999999999999999"}
	num := func(s string) (int, bool) {
		v, err := strconv.Atoi(s)
		return v, err == nil && v >= 0
	}
	coverReq := func(pre string, s *server, b body, min, max, lim string) {
		mn, ok1 := num(min)
		mx, ok2 := num(max)
		li, ok3 := num(lim)
		good := ok1 && ok2 && ok3 && mn <= 30 && mx <= 30 && (b.region != nil || b.any)
		path := fmt.Sprintf("/api/geojson/%s/%s/%s", min, max, lim)
		if good && (mn > mx || b.any || mx > 11) && !b.tiny {
			if mn > 11 || mx > 11 && li > 100 {
				return // would be covered with millions of cells
			}
			if mn > mx || b.any {
				run(pre+path+b.name, s, "POST", path, []byte(b.text), func(a reply) string {
					if a.code != 200 && a.code != 400 {
						return fmt.Sprintf("status %d", a.code)
					}
					return ""
				})
				return
			}
		}
		var want []uint64
		if good && mn <= mx {
			want = cover(b, mn, mx, li)
		}
		run(pre+path+b.name, s, "POST", path, []byte(b.text), func(a reply) string {
			if !good {
				if a.code != 400 {
					return fmt.Sprintf("status %d, want 400", a.code)
				}
				return ""
			}
			if mn > mx {
				return ""
			}
			if a.code != 200 {
				return fmt.Sprintf("status %d: %s", a.code, a.body)
			}
			if m := a.isJSON(); m != "" {
				return m
			}
			return sameSet(a.body, want)
		})
	}
	bs := bodies()
	for bi, b := range bs {
		if bi > 80 && !r.Thorough() { // the cut ones
			coverReq("", in, b, "4", "9", "8")
			continue
		}
		for _, mn := range levels {
			for _, mx := range levels {
				for _, lim := range limits {
					coverReq("", in, b, mn, mx, lim)
				}
			}
		}
	}
	for _, b := range damaged() {
		coverReq("", in, b, "4", "9", "8")
	}
	// large bodies: around the sizes buffers have, and far beyond
	for _, b := range largeBodies(r) {
		coverReq("large/", in, b, "4", "7", "20")
		coverReq("large/", in, b, "6", "6", "0")
	}
	// lists of thousands of cells
	for _, n := range []int{127, 128, 129, 1000, 4097, 10000} {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, many[i*7%len(many)])
		}
		cellReq("large/", in, l)
		cellReq("large/", in, append(l, "zz"))
	}
	// bodies arriving in pieces, or breaking off
	for _, b := range bs[:60] {
		for name, f := range map[string]func(io.Reader) io.Reader{"bytewise": iotest.OneByteReader, "halves": iotest.HalfReader, "with EOF": iotest.DataErrReader} {
			coverReq(name+"/", &server{h: m, wrap: f}, b, "4", "9", "8")
		}
		end := strings.LastIndex(b.text, "}")
		for _, at := range []int{0, 1, end / 2, end} {
			if at < 0 {
				continue
			}
			broken := b
			broken.region, broken.any = nil, false
			coverReq(fmt.Sprintf("breaking at %d/", at), &server{h: m, wrap: func(rd io.Reader) io.Reader {
				return io.MultiReader(io.LimitReader(rd, int64(at)), iotest.ErrReader(errors.New("connection lost")))
			}}, broken, "4", "9", "8")
		}
	}
	// handlers called without the router
	for _, h := range []http.HandlerFunc{s2tools.GeoJSONToCellHandler, s2tools.S2CellQueryHandler} {
		run("bare", &server{h: h}, "POST", "/9/9/0", []byte(bs[0].text), func(a reply) string {
			if a.code != 400 {
				return fmt.Sprintf("status %d, want 400", a.code)
			}
			return ""
		})
	}
	program(r, func(s *server) {
		for i := range toks {
			if !strings.ContainsAny(toks[i], " é") {
				cellReq("program/", s, []string{toks[i]})
				cellReq("program/", s, []string{"47e664", toks[i]})
			}
		}
		for i, b := range bs {
			if i%3 == 0 || i < 40 {
				coverReq("program/", s, b, "2", "9", "8")
				coverReq("program/", s, b, "31", "9", "8")
			}
		}
		coverReq("program/", s, bs[5], "3", "8", "5")
		coverReq("program/", s, bs[5], "8", "8", "3")
		for _, b := range largeBodies(r) {
			coverReq("program/large/", s, b, "4", "7", "20")
		}
		coverReq("program/", s, bs[7], "0", "11", "100")
		run("program/after", s, "GET", "/api/s2cells?cells=47e664", nil, func(a reply) string { return sameCells(a.body, []uint64{0x47e664 << 40}) })
	})
	r.Finish()
}

// program runs the real mapdebugger.
func program(r *rep.R, f func(s *server)) {
	bin := filepath.Join(os.Getenv("VERIF_SCRATCH"), "mapdebugger")
	if os.Getenv("VERIF_SCRATCH") == "" {
		r.Extra["program"] = "not run: no scratch directory"
		return
	}
	if out, err := exec.Command("go", "build", "-o", bin, "github.com/akhenakh/oureadb/cmd/mapdebugger").CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "building mapdebugger: %v\n%s", err, out)
		os.Exit(2)
	}
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Extra["program"] = "not run: " + err.Error()
			return
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		cmd := exec.Command(bin, "-httpPort", strconv.Itoa(port))
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			r.Extra["program"] = "not run: " + err.Error()
			return
		}
		go func() { done <- cmd.Wait() }()
		up := false
		for i := 0; i < 100 && !up; i++ {
			c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err == nil {
				c.Close()
				up = true
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		exited := false
		select {
		case <-done:
			exited = true
		default:
		}
		if !up || exited {
			cmd.Process.Kill()
			continue
		}
		f(&server{base: fmt.Sprintf("http://127.0.0.1:%d", port)})
		cmd.Process.Kill()
		<-done
		r.Extra["program"] = "run on the loopback network"
		return
	}
	r.Violate("program/start", "mapdebugger did not start listening on the port given by -httpPort in five attempts")
}
