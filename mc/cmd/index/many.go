package main

import (
	"fmt"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

// manyPoints fills a point index with n points of a dense field and compares regions holding from none to all of them.
func manyPoints(r *rep.R, name string, n int) {
	p := &pool{r: r, name: name}
	p.run(fmt.Sprintf("%s/field%d", name, n), func(t *target) string {
		idx := index.NewS2PointIdx(t.s, []byte("P"))
		type pt struct{ lat, lng float64 }
		pts := make([]pt, n)
		for i := range pts {
			// along a spiral up to five kilometres from the centre
			la, ln := destination(46.8, -71.2, float64(i)*2.399963, 5000*float64(i)/float64(n))
			pts[i] = pt{la, ln}
			if _, err := idx.PointIndex(la, ln, []byte(fmt.Sprint("f", i))); err != nil {
				return err.Error()
			}
			r.Trans(1)
		}
		compare := func(what string, ids []index.GeoID, err error, in func(x pt) verdict) string {
			if err != nil {
				return what + ": " + err.Error()
			}
			r.Eval(1)
			r.Trace(1)
			r.State(what)
			got := toSet(ids)
			must, missing, extra, twice := 0, 0, 0, 0
			for i, x := range pts {
				c := got[fmt.Sprint("f", i)]
				v := in(x)
				if v == inside {
					must++
				}
				switch {
				case c > 1:
					twice++
				case c == 0 && v == inside:
					missing++
				case c == 1 && v == outside:
					extra++
				}
				delete(got, fmt.Sprint("f", i))
			}
			if missing+extra+twice+len(got) > 0 {
				return fmt.Sprintf("%s over %d points: %d are inside; %d missing, %d outside returned, %d returned more than once, %d unknown", what, n, must, missing, extra, twice, len(got))
			}
			return ""
		}
		for _, ra := range []float64{0.5, 10, 100, 333, 900, 1500, 2500, 3600, 4999, 5001, 20000} {
			for _, off := range []float64{0, 2500, 7000} {
				la, ln := destination(46.8, -71.2, 1.1, off)
				ids, err := idx.GeoIdsRadiusQuery(la, ln, ra)
				if m := compare(fmt.Sprintf("radius %v at %v m from the centre", ra, off), ids, err, func(x pt) verdict { return inRadius(meters(la, ln, x.lat, x.lng), ra) }); m != "" {
					return m
				}
			}
		}
		for _, d := range []float64{0.001, 0.01, 0.03, 0.1} {
			for _, o := range []pt{{0, 0}, {0.5, 0.5}, {-1, 0}, {0.3, -0.9}} {
				bla, bln, ula, uln := 46.8+d*(o.lat-1), -71.2+d*1.4*(o.lng-1), 46.8+d*(o.lat+1), -71.2+d*1.4*(o.lng+1)
				ids, err := idx.GeoIdsRectQuery(ula, uln, bla, bln)
				if m := compare(fmt.Sprintf("rectangle %v %v to %v %v", bla, bln, ula, uln), ids, err, func(x pt) verdict { return inRect(x.lat, x.lng, ula, uln, bla, bln) }); m != "" {
					return m
				}
			}
		}
		// cells of every level, alone and all together
		leaf := s2.CellIDFromLatLng(s2.LatLngFromDegrees(46.8, -71.2))
		for l := 0; l <= 30; l++ {
			c := leaf.Parent(l)
			in := func(x pt) verdict {
				if c.Contains(s2.CellIDFromLatLng(s2.LatLngFromDegrees(x.lat, x.lng))) {
					return inside
				}
				return outside
			}
			ids, err := idx.GeoIdsAtCell(c)
			if m := compare(fmt.Sprintf("cell of level %d", l), ids, err, in); m != "" {
				return m
			}
			ids, err = idx.GeoIdsAtCells([]s2.CellID{c, leaf, c})
			if m := compare(fmt.Sprintf("cells of level %d and 30", l), ids, err, in); m != "" {
				return m
			}
		}
		return ""
	})
	p.closeAll()
}

// manyEvents fills one cell of a time index with n events and compares windows holding from none to all of them.
func manyEvents(r *rep.R, name string, n int) {
	p := &pool{r: r, name: name}
	p.run(fmt.Sprintf("%s/events%d", name, n), func(t *target) string {
		idx := index.NewS2FlatTimeIdx(t.s, []byte("T"), 12)
		gd := point(46.8, -71.2)
		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(46.8, -71.2)).Parent(12)
		const t0 = 1483228800000000000
		when := func(i int) int64 { return t0 + int64(i/3)*1000000007 } // three events at a time
		for i := 0; i < n; i++ {
			j := i * 7919 % n
			if n%7919 == 0 {
				j = i
			}
			if err := idx.GeoTimeIndex(gd, time.Unix(0, when(j)), []byte(fmt.Sprint("e", j))); err != nil {
				return err.Error()
			}
			r.Trans(1)
		}
		for _, w := range [][2]int{{0, n}, {n / 2, n}, {0, n / 2}, {n / 3, n/3 + 30}, {n / 3, n/3 + 600}, {5, 5}, {0, 1}, {n - 4, n}, {1, n - 1}} {
			to, from := when(w[0])-1, when(w[1])
			for how := 0; how < 3; how++ {
				var ids []index.GeoID
				var err error
				tf, tt := time.Unix(0, from), time.Unix(0, to)
				switch how {
				case 0:
					ids, err = idx.GeoTimeIdsAtCell(c, tf, tt)
				case 1:
					ids, err = idx.GeoTimeIdsAtCells([]s2.CellID{c, c.Next(), c}, tf, tt)
				case 2:
					ids, err = idx.GeoTimeIdsRadiusQuery(tf, tt, 46.8, -71.2, 100)
				}
				if err != nil {
					return err.Error()
				}
				r.Eval(1)
				r.Trace(1)
				got := toSet(ids)
				must, missing, extra, twice := 0, 0, 0, 0
				for i := 0; i < n; i++ {
					k := fmt.Sprint("e", i)
					in := when(i) > to && when(i) <= from
					if in {
						must++
					}
					switch {
					case got[k] > 1:
						twice++
					case in && got[k] == 0:
						missing++
					case !in && got[k] > 0:
						extra++
					}
					delete(got, k)
				}
				if missing+extra+twice+len(got) > 0 {
					return fmt.Sprintf("%d events at one cell, window (%d,%d], query kind %d: %d are in the window; %d missing, %d others returned, %d returned more than once, %d unknown", n, to, from, how, must, missing, extra, twice, len(got))
				}
				r.State(fmt.Sprint(n, w, how))
			}
		}
		return ""
	})
	p.closeAll()
}

// manyParts indexes multi-polygons of n parts and long lines, and asks around every part.
func manyParts(r *rep.R, n int) {
	p := &pool{r: r, name: "mock"}
	for _, level := range []int{8, 11} {
		p.run(fmt.Sprintf("mock/parts%d/%d", n, level), func(t *target) string {
			flat := index.NewS2FlatIdx(t.s, []byte("F"), level)
			timed := index.NewS2FlatTimeIdx(t.s, []byte("T"), level)
			d := cellDeg(level)
			at := func(i int) place { return place{-40 + 3*d*float64(i/12), 20 + 3*d*float64(i%12)} }
			order := func(i int) int { return (i*5 + 3) % n }
			if n%5 == 0 {
				order = func(i int) int { return n - 1 - i }
			}
			var rings [][]float64
			line := []float64{}
			for i := 0; i < n; i++ {
				a := at(order(i))
				rings = append(rings, []float64{a.lat - d/5, a.lng - d/5, a.lat - d/5, a.lng + d/5, a.lat + d/5, a.lng})
				b := at(i)
				for k := 0; k < 40; k++ { // forty points of the line about each place
					line = append(line, b.lat+d/50*float64(k%2), b.lng+d/100*float64(k%3))
				}
			}
			for id, gd := range map[string]*geodata.GeoData{"multi": multi(rings...), "line": shape(geodata.Geometry_LINESTRING, line...)} {
				if id == "multi" && n < 2 {
					continue
				}
				if err := flat.GeoIndex(gd, []byte(id)); err != nil {
					return fmt.Sprintf("%s of %d parts: %v", id, n, err)
				}
				if err := timed.GeoTimeIndex(gd, time.Unix(7, 0), []byte(id)); err != nil {
					return fmt.Sprintf("%s of %d parts: %v", id, n, err)
				}
			}
			ra := d * 111000 / 3
			for i := 0; i < n; i++ {
				a := at(i)
				ids, err := flat.GeoIdsRadiusQuery(a.lat, a.lng, ra)
				ids2, err2 := timed.GeoTimeIdsRadiusQuery(index.MaxGeoTime, index.MinGeoTime, a.lat, a.lng, ra)
				ids3, err3 := timed.GeoTimeIdsRectQuery(index.MaxGeoTime, index.MinGeoTime, a.lat+d/4, a.lng+d/4, a.lat-d/4, a.lng-d/4)
				r.Eval(3)
				for k, x := range []struct {
					ids []index.GeoID
					err error
				}{{ids, err}, {ids2, err2}, {ids3, err3}} {
					if x.err != nil {
						return x.err.Error()
					}
					got := toSet(x.ids)
					if got["line"] != 1 || n > 1 && got["multi"] != 1 {
						return fmt.Sprintf("level %d: a multi-polygon and a line, each with %d places: around place %d query kind %d returns %v", level, n, i, k, got)
					}
				}
			}
			r.Trace(1)
			r.State(fmt.Sprint("parts", n, level))
			return ""
		})
	}
}
