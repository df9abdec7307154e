package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

type event struct {
	g    int
	t    int64
	id   string
	zone int
}

// checkTimes compares every query with the events.
func checkTimes(idx *index.S2FlatTimeIdx, level int, evs []event, covers [][]s2.CellID, cells []s2.CellID, times []int64, k *keeper) string {
	at := func(c s2.CellID, from, to int64) (idset, idset) { // with and without repetition
		multi, once := idset{}, idset{}
		seen := map[string]bool{}
		for _, e := range evs {
			key := fmt.Sprint(e.t, e.id)
			if e.t > from || e.t <= to {
				continue
			}
			for _, x := range covers[e.g] {
				if x == c && !seen[key] {
					seen[key] = true
					multi[e.id]++
					once[e.id] = 1
				}
			}
		}
		return multi, once
	}
	for _, from := range times {
		for _, to := range times {
			tf, tt := time.Unix(0, from), time.Unix(0, to)
			all := idset{}
			for _, c := range cells {
				ids, err := idx.GeoTimeIdsAtCell(c, tf, tt)
				if err != nil {
					return fmt.Sprintf("GeoTimeIdsAtCell(%v, %d, %d): %v", c, from, to, err)
				}
				multi, once := at(c, from, to)
				if got := toSet(ids); !same(got, multi) && !same(got, once) {
					return fmt.Sprintf("GeoTimeIdsAtCell(%v, %d, %d): expected %v, observed %v", c, from, to, multi, got)
				}
				// from future to past: an id is listed no earlier than where its latest event in the range puts it
				if msg := newestFirst(ids, evs, covers, c, from, to); msg != "" {
					return fmt.Sprintf("GeoTimeIdsAtCell(%v, %d, %d): %s", c, from, to, msg)
				}
				k.keep(ids)
				for id := range once {
					all[id] = 1
				}
			}
			for _, g := range [][]s2.CellID{cells, append(append([]s2.CellID{}, cells...), cells...)} {
				ids, err := idx.GeoTimeIdsAtCells(g, tf, tt)
				if err != nil {
					return fmt.Sprintf("GeoTimeIdsAtCells(%v, %d, %d): %v", g, from, to, err)
				}
				if got := toSet(ids); !same(got, all) {
					return fmt.Sprintf("GeoTimeIdsAtCells(%v, %d, %d): expected %v, observed %v", g, from, to, all, got)
				}
				k.keep(ids)
			}
			if ids, err := idx.GeoTimeIdsAtCells(nil, tf, tt); err != nil || len(ids) != 0 {
				return fmt.Sprintf("GeoTimeIdsAtCells(nil): %v %v", ids, err)
			}
		}
	}
	c := cells[0]
	var bad []s2.CellID
	if level > 0 {
		bad = append(bad, c.Parent(level-1))
	}
	if level < 30 {
		bad = append(bad, c.ChildBegin(), c.RangeMax())
	}
	for _, b := range bad {
		if ids, err := idx.GeoTimeIdsAtCell(b, index.MaxGeoTime, index.MinGeoTime); err == nil {
			return fmt.Sprintf("GeoTimeIdsAtCell(%v) of level %d on an index of level %d: no error, ids %v", b, b.Level(), level, ids)
		}
		for _, g := range [][]s2.CellID{{b}, {c, b}, {b, c}} {
			if ids, err := idx.GeoTimeIdsAtCells(g, index.MaxGeoTime, index.MinGeoTime); err == nil {
				return fmt.Sprintf("GeoTimeIdsAtCells(%v): no error, ids %v", g, ids)
			}
		}
	}
	return k.check()
}

// newestFirst checks that the ids of one cell can be matched with its events from the latest to the earliest.
func newestFirst(ids []index.GeoID, evs []event, covers [][]s2.CellID, c s2.CellID, from, to int64) string {
	times := map[string][]int64{} // per id, latest first
	for _, e := range evs {
		if e.t > from || e.t <= to {
			continue
		}
		in, dup := false, false
		for _, x := range covers[e.g] {
			in = in || x == c
		}
		for _, t := range times[e.id] {
			dup = dup || t == e.t
		}
		if in && !dup {
			times[e.id] = append(times[e.id], e.t)
		}
	}
	for _, ts := range times {
		sort.Slice(ts, func(i, j int) bool { return ts[i] > ts[j] })
	}
	used := map[string]int{}
	last := int64(math.MaxInt64)
	for i, id := range ids {
		n := used[string(id)]
		used[string(id)]++
		if n >= len(times[string(id)]) {
			return fmt.Sprintf("id %q is listed more often than it has events", id)
		}
		t := times[string(id)][n]
		if t > last {
			return fmt.Sprintf("the ids are not listed from the latest event to the earliest: number %d of %q, events %v", i+1, ids, times)
		}
		last = t
	}
	return ""
}

func i04() {
	r := rep.New("I04", "model_checking", "every history of up to three timed insertions (shapes x event times including both representable extremes, around the epoch, before 1970 and byte boundaries x ids) on the strict mock (shorter on the real engines); every cell of the covers and neighbours with every ordered pair of bounds from the same set of times plus their neighbours, alone and together, wrong levels included, compared with the interval (earlier, later]")
	if !index.MaxGeoTime.Equal(time.Unix(0, math.MaxInt64)) || !index.MinGeoTime.Equal(time.Unix(0, 0)) {
		r.Violate("helpers", "MaxGeoTime %v / MinGeoTime %v are not the documented extremes", index.MaxGeoTime, index.MinGeoTime)
	}
	zones := []*time.Location{time.UTC, time.FixedZone("x", 5*3600+1800), time.FixedZone("y", -11*3600)}
	times := []int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1, 0, 1, 255, 256, 1483228800000000000, 1483228800000001500, math.MaxInt64 - 1, math.MaxInt64}
	qtimes := append([]int64{2, 254, 257, -2, 1483228800000000001, 1483228799999999999, 1483228800000001499, 1483228800000001000, 1483228800000001501}, times...)
	type sc struct {
		pl    place
		level int
	}
	var scs []sc
	for i, l := range []int{10, 0, 18, 30, 5} {
		scs = append(scs, sc{places[i%len(places)], l})
		if r.Thorough() {
			scs = append(scs, sc{places[(i+3)%len(places)], l}, sc{places[(i+5)%len(places)], l})
		}
	}
	for _, name := range targets {
		p := &pool{r: r, name: name}
		for si, s := range scs {
			gds := shapes(s.pl.lat, s.pl.lng, s.level)
			gds = gds[:3]
			if s.level == 0 {
				gds = gds[:1]
			}
			var covers [][]s2.CellID
			var cells []s2.CellID
			for i, g := range gds {
				cu, err := coverAt(g, s.level)
				if err != nil {
					r.Violate(fmt.Sprintf("cover/%v/%d", s, i), "covering shape %d at %v failed: %v", i, s, err)
					return
				}
				covers = append(covers, cu)
				cells = append(cells, cu...)
			}
			cells = append(cells, covers[0][0].Next())
			cells = cellSet(cells)
			if len(cells) > 12 {
				cells = cells[:12]
			}
			var al []event
			for ti, t := range times {
				al = append(al, event{ti % len(gds), t, oddIDs[ti%2], ti % 3})
				if ti%3 == 0 {
					al = append(al, event{(ti + 1) % len(gds), t, oddIDs[3], 0}, event{ti % len(gds), t, "\x00\x00", 1})
				}
			}
			depth := 2
			if name == "mock" && si == 0 {
				depth = 3
			}
			var jobs [][]int
			for n := 1; n <= depth; n++ {
				product(len(al), n, func(ix []int) {
					jobs = append(jobs, append([]int{}, ix...))
				})
			}
			rep.Par(len(jobs), func(j int) {
				if r.Stop() {
					return
				}
				ix := jobs[j]
				p.run(fmt.Sprintf("%s/%d/%v", name, si, ix), func(t *target) string {
					idx := index.NewS2FlatTimeIdx(t.s, []byte("T"), s.level)
					var evs []event
					for _, a := range ix {
						e := al[a]
						if err := idx.GeoTimeIndex(gds[e.g], time.Unix(0, e.t).In(zones[e.zone]), []byte(e.id)); err != nil {
							return err.Error()
						}
						evs = append(evs, e)
						r.Trans(1)
					}
					qt := qtimes
					if len(ix) > 1 && !r.Thorough() { // the bounds around the events, and the extremes
						qt = []int64{math.MinInt64, math.MaxInt64, 0}
						for _, e := range evs {
							qt = append(qt, e.t)
							if e.t > math.MinInt64 {
								qt = append(qt, e.t-1)
							}
							if e.t < math.MaxInt64 {
								qt = append(qt, e.t+1)
							}
						}
					}
					r.Trace(1)
					r.State(fmt.Sprint(si, evs))
					r.Sample(func() interface{} {
						return map[string]interface{}{"store": name, "level": s.level, "events": fmt.Sprint(evs)}
					})
					if msg := checkTimes(idx, s.level, evs, covers, cells, qt, &keeper{}); msg != "" {
						return fmt.Sprintf("level %d, events (shape, unix ns, id, zone) %v:\n%s", s.level, evs, msg)
					}
					return ""
				})
			})
		}
		p.closeAll()
	}
	p := &pool{r: r, name: "mock"}
	p.run("mock/empty-id", func(t *target) string {
		idx := index.NewS2FlatTimeIdx(t.s, []byte("T"), 10)
		for _, id := range [][]byte{nil, {}} {
			if err := idx.GeoTimeIndex(point(1, 2), time.Unix(0, 5), id); err == nil || len(t.mk.Dump()) != 0 {
				return "an empty id was accepted"
			}
		}
		return ""
	})
	// ids of many lengths, and ids that differ in their last byte or by one at the end
	for _, name := range targets {
		p := &pool{r: r, name: name}
		gds := []*geodata.GeoData{point(46.8, -71.2), shape(geodata.Geometry_LINESTRING, 46.8, -71.2, 46.8, -71.0)}
		var covers [][]s2.CellID
		for _, g := range gds {
			cu, err := coverAt(g, 10)
			if err != nil {
				r.Violate("long/cover", "covering %v failed: %v", g, err)
				return
			}
			covers = append(covers, cu)
		}
		lengths := []int{1000, 4095, 4096, 4097, 30000}
		for n := 2; n <= 40; n++ {
			lengths = append(lengths, n)
		}
		for _, n := range []int{64, 128, 256, 512, 1024} {
			lengths = append(lengths, n-1, n, n+1)
		}
		for _, n := range lengths {
			p.run(fmt.Sprintf("%s/ids_of_%d_bytes", name, n), func(t *target) string {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i*31 + n)
				}
				id := string(b)
				idx := index.NewS2FlatTimeIdx(t.s, []byte("T"), 10)
				evs := []event{{0, 5, id, 0}, {0, 5, id[:n-1], 0}, {1, 5, id + "\x00", 1}, {1, -7, id, 0}, {0, 1 << 60, "x" + id[1:], 2}, {1, 6, id, 0}}
				for _, e := range evs {
					if err := idx.GeoTimeIndex(gds[e.g], time.Unix(0, e.t).In(zones[e.zone]), []byte(e.id)); err != nil {
						return err.Error()
					}
					r.Trans(1)
				}
				r.Trace(1)
				r.State(fmt.Sprint("long", n))
				msg := checkTimes(idx, 10, evs, covers, cellSet(covers...), []int64{math.MinInt64, math.MaxInt64, -7, 4, 5, 6}, &keeper{})
				if len(msg) > 3000 {
					msg = msg[:3000]
				}
				return msg
			})
		}
		p.closeAll()
	}
	for _, n := range []int{30, 300, 1200, r.Pick(5000, 20000)} {
		for _, name := range targets {
			if n > 300 && name != "mock" && name != "gtreap" && !r.Thorough() || n > 5000 && name == "boltdb" {
				continue
			}
			manyEvents(r, name, n)
		}
	}
	r.Finish()
}
