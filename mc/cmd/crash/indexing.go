package main

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"

	"verif/mc/mock"
)

var indexNames = map[byte]string{'f': "cover index of a polygon", 'g': "time index of a line", 'h': "point index", 'i': "cover index of a large polygon", 'j': "cover index of a very large polygon"}

func indexing(a byte) bool { return indexNames[a] != "" }

// perform runs one action of a history on s.
func perform(s store.KVStore, a byte, seq int) error {
	if !indexing(a) {
		return execute(s, batchOps(a, seq))
	}
	id := index.GeoID(fmt.Sprintf("id%d", seq))
	switch a {
	case 'f':
		return index.NewS2FlatIdx(s, []byte("flat"), 12).GeoIndex(shape(geodata.Geometry_POLYGON, 2, 48, 2.08, 48, 2.08, 48.06, 2, 48.06), id)
	case 'g':
		return index.NewS2FlatTimeIdx(s, []byte("time"), 12).GeoTimeIndex(shape(geodata.Geometry_LINESTRING, 2, 48, 2.3, 48.1), time.Unix(int64(1000+seq), 7), id)
	case 'h':
		_, err := index.NewS2PointIdx(s, []byte("pt")).GeoPointIndex(shape(geodata.Geometry_POINT, 2, 48), id)
		return err
	case 'i':
		return index.NewS2FlatIdx(s, []byte("flat"), 14).GeoIndex(shape(geodata.Geometry_POLYGON, 2, 48, 2.1, 48, 2.1, 48.1, 2, 48.1), id)
	case 'j': // more than a thousand cells
		return index.NewS2FlatIdx(s, []byte("flat"), 15).GeoIndex(shape(geodata.Geometry_POLYGON, 2, 48, 2.1, 48, 2.1, 48.1, 2, 48.1), id)
	}
	panic(string(a))
}

func shape(t geodata.Geometry_Type, c ...float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: t, Coordinates: c}}
}

var (
	entriesMu sync.Mutex
	entriesOf = map[string][]op{}
)

// entries are what an indexing call leaves in an empty store.
func entries(a byte, seq int) []op {
	entriesMu.Lock()
	defer entriesMu.Unlock()
	key := fmt.Sprint(a, seq)
	if o, ok := entriesOf[key]; ok {
		return o
	}
	m := mock.New()
	if err := perform(m, a, seq); err != nil {
		panic(err)
	}
	time.Sleep(20 * time.Millisecond) // anything written late belongs to the call as well
	var ops []op
	for k, v := range m.Dump() {
		ops = append(ops, op{'s', k, v})
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].k < ops[j].k })
	entriesOf[key] = ops
	return ops
}
