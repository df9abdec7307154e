package main

import (
	"reflect"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"

	"verif/mc/eng"
)

func openRaw(name string, c conf) (store.KVStore, error) {
	mo := &eng.AppendMO{}
	switch name {
	case "gtreap":
		return gtreap.New(mo, c)
	case "boltdb":
		return boltdb.New(mo, c)
	case "goleveldb":
		return goleveldb.New(mo, c)
	}
	return badger.New(mo, c)
}

func isNil(x interface{}) bool { v := reflect.ValueOf(x); return v.Kind() == reflect.Ptr && v.IsNil() }
