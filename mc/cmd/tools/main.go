// Command tools decides the properties of the cell tools T01-T04 by exhaustive enumeration of bounded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"

	"verif/mc/rep"
)

func main() {
	checks := map[string]func(){"T01": t01, "T02": t02, "T03": t03, "T04": t04}
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check")
		os.Exit(2)
	}
	f()
}

const hang = 60 * time.Second

// The cell id arithmetic below is written from the definition of the ids, not with the library under the code.

// valid tells whether an id is a cell: a face below 6 and its lowest set bit at an even position.
func valid(id uint64) bool {
	return id>>61 < 6 && id&-id&0x1555555555555555 != 0
}

// idOf builds the id of a face and path.
func idOf(face int, path string) uint64 {
	id := uint64(face) << 61
	for i, c := range path {
		id |= uint64(c-'0') << uint(59-2*i)
	}
	return id | 1<<uint(60-2*len(path))
}

func tokenOf(id uint64) string {
	t := strings.TrimRight(fmt.Sprintf("%016x", id), "0")
	if t == "" {
		return "X"
	}
	return t
}

// fromToken reads a token.
func fromToken(s string) (uint64, bool) {
	if len(s) == 0 || len(s) > 16 {
		return 0, false
	}
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return 0, false
		}
	}
	id, err := strconv.ParseUint(s+strings.Repeat("0", 16-len(s)), 16, 64)
	return id, err == nil && valid(id)
}

// parse is the oracle of ParseCellID.
func parse(s string) (uint64, bool) {
	if i := strings.IndexByte(s, '/'); i >= 0 {
		if i != 1 || s[0] < '0' || s[0] > '5' || len(s)-2 > 30 {
			return 0, false
		}
		for _, c := range s[2:] {
			if c < '0' || c > '3' {
				return 0, false
			}
		}
		return idOf(int(s[0]-'0'), s[2:]), true
	}
	if id, ok := fromToken(s); ok {
		return id, true
	}
	if s == "" || len(s) > 40 {
		return 0, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	id, err := strconv.ParseUint(s, 10, 64)
	return id, err == nil && valid(id)
}

// cells are all cells down to depth and, for every face, deep paths of every length: constant, alternating, and all
// pairs of first and last digits.
func cells(depth int, f func(face int, path string)) {
	var rec func(face int, path string)
	rec = func(face int, path string) {
		f(face, path)
		if len(path) < depth {
			for c := '0'; c <= '3'; c++ {
				rec(face, path+string(c))
			}
		}
	}
	for face := 0; face < 6; face++ {
		rec(face, "")
		for n := depth + 1; n <= 30; n++ {
			for a := '0'; a <= '3'; a++ {
				for b := '0'; b <= '3'; b++ {
					for z := '0'; z <= '3'; z++ {
						f(face, strings.Repeat(string(a)+string(b), 15)[:n-1]+string(z))
					}
				}
			}
		}
	}
}

func t01() {
	r := rep.New("T01", "exploration", "every cell down to depth 7 (thorough 9) and, on every face and for every deeper level, all alternating paths, in all three notations and, for the shallow and deepest ones and every 11th other, their damaged forms (a character dropped, doubled, replaced or appended); every string up to length 4 (thorough 5) over the 24 relevant characters; ids at the edges of the id space and all single-bit and two-bit ids; compared with an oracle written from the definition of cell ids")
	check := func(s string) {
		if !r.Case(s) {
			return
		}
		r.Eval(1)
		want, ok := parse(s)
		msg := rep.Catch(func() string {
			c := s2tools.ParseCellID(s)
			switch {
			case c == nil && ok:
				return fmt.Sprintf("rejected, it is the cell %x", want)
			case c != nil && !ok:
				return fmt.Sprintf("accepted as %x, it is no cell", uint64(*c))
			case c != nil && uint64(*c) != want:
				return fmt.Sprintf("parsed as %x, it is the cell %x", uint64(*c), want)
			}
			return ""
		})
		if msg != "" {
			r.Violate(fmt.Sprintf("%q", s), "ParseCellID(%q): %s", s, msg)
		}
	}
	damage := func(s string) {
		check(s)
		for i := 0; i <= len(s); i++ {
			if i < len(s) {
				check(s[:i] + s[i+1:])
				for _, c := range "0149afgxX/- +" {
					check(s[:i] + string(c) + s[i+1:])
				}
			}
			for _, c := range "03/g 4" {
				check(s[:i] + string(c) + s[i:])
			}
		}
		check(s + s)
		check(strings.ToUpper(s))
		check("é" + s)
		check(s + "\x00")
		check("0x" + s)
	}
	n := 0
	cells(r.Pick(7, 9), func(face int, path string) {
		if r.Stop() {
			return
		}
		id := idOf(face, path)
		spell := []string{fmt.Sprintf("%d/%s", face, path), tokenOf(id), strconv.FormatUint(id, 10)}
		for i, s := range spell {
			// the three notations must be read back as this very cell
			if want, ok := parse(s); !ok || want != id {
				if i < 2 {
					panic("oracle: " + s)
				}
				continue // a decimal id that is also a token
			}
			check(s)
			if n%11 == 0 || len(path) < 4 || len(path) >= 28 {
				damage(s)
			}
		}
		check(spell[0] + "0")
		r.State(spell[1])
		if n%997 == 0 {
			r.Sample(func() interface{} { return spell })
		}
		n++
	})
	chars := "0123456789abcdfgxX/-+ _."
	var rec func(s string)
	rec = func(s string) {
		check(s)
		if len(s) < r.Pick(4, 5) && !r.Stop() {
			for _, c := range chars {
				rec(s + string(c))
			}
		}
	}
	rec("")
	ids := []uint64{0, 1, 2, 3, 4, 5, math.MaxUint64, math.MaxUint64 - 1, 1<<63 + 1, 6 << 61, 6<<61 | 1, 7<<61 | 1<<60, 5<<61 | 1<<61 - 1}
	for i := uint(0); i < 64; i++ {
		for j := uint(0); j <= i; j++ {
			ids = append(ids, 1<<i|1<<j, (1<<i|1<<j)-1, ^uint64(0)<<i, (1<<i|1<<j)+1)
		}
	}
	for _, id := range ids {
		check(strconv.FormatUint(id, 10))
		check("0" + strconv.FormatUint(id, 10))
		check(tokenOf(id))
		check(fmt.Sprintf("%016x", id))
		check(fmt.Sprintf("%016X", id))
		check(fmt.Sprintf("%x", id))
		check(fmt.Sprintf("-%d", id))
		check(fmt.Sprintf("%d0", id))
		r.State(fmt.Sprint(id))
	}
	for f := 0; f < 10; f++ {
		for n := 25; n < 40; n++ {
			for _, d := range "0123456" {
				check(fmt.Sprintf("%d/%s", f, strings.Repeat(string(d), n)))
				check(fmt.Sprintf("%d/%s4", f, strings.Repeat(string(d), n)))
				check(fmt.Sprintf("%d/%s/", f, strings.Repeat(string(d), n)))
				check(fmt.Sprintf("1%d/%s", f, strings.Repeat(string(d), n)))
			}
		}
	}
	r.Finish()
}

// list of cell indexes as a union with spare capacity holding a marker.
func union(uni []s2.CellID, ix []int) s2.CellUnion {
	if ix == nil {
		return nil
	}
	u := make(s2.CellUnion, 0, len(ix)+3)
	for _, i := range ix {
		u = append(u, uni[i])
	}
	f := u[:cap(u)]
	for i := len(u); i < len(f); i++ {
		f[i] = 0xdead
	}
	return u
}

func intact(u s2.CellUnion, uni []s2.CellID, ix []int) bool {
	if u == nil {
		return ix == nil
	}
	f := u[:cap(u)]
	if len(u) != len(ix) {
		return false
	}
	for i := range f {
		if i < len(ix) && f[i] != uni[ix[i]] || i >= len(ix) && f[i] != 0xdead {
			return false
		}
	}
	return true
}

func lists(k, max int) [][]int {
	out := [][]int{nil, {}}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			out = append(out, append([]int{}, cur...))
		}
		if len(cur) < max {
			for i := 0; i < k; i++ {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
	return out
}

func t02() {
	r := rep.New("T02", "exploration", "all lists (any order, with repetitions) of up to four cells of a universe of six, containing a face, its four children and a leaf on another face (ids with the top bit set), and of a second universe of deep cells: union of none, one, two and three lists; missing of every list without repetitions and every list with them, in every order; larger lists of up to 3,000 cells in ascending, descending and interleaved order, with repetitions; results against set algebra, inputs (with spare capacity) compared afterwards")
	f0 := s2.CellIDFromFace(0)
	ch := f0.Children()
	deep := s2.CellIDFromFace(4).ChildBeginAtLevel(12)
	dc := deep.Children()
	unis := [][]s2.CellID{
		{f0, ch[0], ch[1], ch[2], ch[3], s2.CellIDFromFace(5).ChildEndAtLevel(30).Prev()},
		{dc[3], deep, s2.CellIDFromFace(3), dc[0], deep.RangeMin(), deep.RangeMax()},
	}
	distinct := func(ix []int) bool {
		m := map[int]bool{}
		for _, i := range ix {
			if m[i] {
				return false
			}
			m[i] = true
		}
		return true
	}
	for ui, uni := range unis {
		union1 := func(ls ...[]int) {
			if r.Stop() {
				return
			}
			us := make([]s2.CellUnion, len(ls))
			m := map[s2.CellID]bool{}
			for i, l := range ls {
				us[i] = union(uni, l)
				for _, k := range l {
					m[uni[k]] = true
				}
			}
			want := []s2.CellID{}
			for c := range m {
				want = append(want, c)
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			key := fmt.Sprintf("union/%d/%v", ui, ls)
			if !r.Case(strings.Join(strings.Fields(key), "_")) {
				return
			}
			msg := rep.Catch(func() string {
				got := s2tools.CellUnionUnion(us[0], us[1:]...)
				if !reflect.DeepEqual(append([]s2.CellID{}, got...), want) {
					return fmt.Sprintf("is %v, want %v", got, want)
				}
				for i := range us {
					if !intact(us[i], uni, ls[i]) {
						return fmt.Sprintf("modified input %d: %v", i, us[i][:cap(us[i])])
					}
				}
				return ""
			})
			r.Eval(1)
			if msg != "" {
				r.Violate(key, "CellUnionUnion of the lists %v over %v: %s", ls, uni, msg)
			}
		}
		missing := func(a, b []int) {
			if r.Stop() {
				return
			}
			in := map[int]bool{}
			for _, k := range b {
				in[k] = true
			}
			want := []s2.CellID{}
			for _, k := range a {
				if !in[k] {
					want = append(want, uni[k])
				}
			}
			key := fmt.Sprintf("missing/%d/%v/%v", ui, a, b)
			if !r.Case(strings.Join(strings.Fields(key), "_")) {
				return
			}
			ua, ub := union(uni, a), union(uni, b)
			msg := rep.Catch(func() string {
				got := s2tools.CellUnionMissing(ua, ub)
				if !reflect.DeepEqual(append([]s2.CellID{}, got...), want) {
					return fmt.Sprintf("is %v, want %v", got, want)
				}
				if !intact(ua, uni, a) || !intact(ub, uni, b) {
					return fmt.Sprintf("modified an input: %v %v", ua[:cap(ua)], ub[:cap(ub)])
				}
				return ""
			})
			r.Eval(1)
			if msg != "" {
				r.Violate(key, "CellUnionMissing(%v, %v) over %v: %s", a, b, uni, msg)
			}
		}
		all := lists(6, 4)
		mid := lists(6, r.Pick(3, 4))
		small := lists(6, 2)
		for _, a := range all {
			union1(a)
			r.State(fmt.Sprint(ui, a))
			if !distinct(a) {
				continue
			}
			for _, b := range all {
				missing(a, b)
			}
			if r.Stop() {
				break
			}
		}
		for _, a := range mid {
			for _, b := range mid {
				union1(a, b)
			}
		}
		for _, a := range small {
			for _, b := range small {
				for _, c := range small {
					union1(a, b, c)
				}
			}
		}
		r.Sample(func() interface{} { return fmt.Sprint("universe ", uni) })
	}
	// larger sets: pairs of subsets of n consecutive cells, given by periodic masks, in several orders
	orders := []struct {
		name string
		at   func(i, n int) int
	}{
		{"up", func(i, n int) int { return i }},
		{"down", func(i, n int) int { return n - 1 - i }},
		{"interleaved", func(i, n int) int {
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		}},
		{"shifted", func(i, n int) int { return (i + n/3) % n }},
	}
	for _, n := range []int{64, 65, 200, 1024, 3000} {
		masks := 64
		if n > 64 {
			masks = r.Pick(9, 16)
		}
		if n > 1000 {
			masks = r.Pick(5, 9)
		}
		big := []s2.CellID{}
		c := s2.CellIDFromFace(2).ChildBeginAtLevel(8)
		for i := 0; i < n; i++ {
			big = append(big, c)
			c = c.Next()
		}
		for a := 0; a < masks; a++ {
			for b := 0; b < masks; b++ {
				for oa, ordA := range orders {
					for ob, ordB := range orders {
						if r.Stop() {
							r.Finish()
						}
						la, lb := []int{}, []int{}
						inA, inB := make([]bool, n), make([]bool, n)
						for k := 0; k < n; k++ {
							if i := ordA.at(k, n); (i*a+a)%7 < 3 {
								la = append(la, i)
								inA[i] = true
							}
							if i := ordB.at(k, n); (i*b+3*b)%5 < 2 {
								lb = append(lb, i)
								inB[i] = true
							}
						}
						want, wu := []s2.CellID{}, []s2.CellID{}
						for _, i := range la {
							if !inB[i] {
								want = append(want, big[i])
							}
						}
						for i := 0; i < n; i++ {
							if inA[i] || inB[i] {
								wu = append(wu, big[i])
							}
						}
						key := fmt.Sprintf("big/%d/%d/%d/%s/%s", n, a, b, orders[oa].name, orders[ob].name)
						if !r.Case(key) {
							continue
						}
						r.State(key)
						r.Eval(3)
						// the union also gets its lists twice: each cell once
						twice := append(append([]int{}, lb...), lb...)
						ua, ub, ut := union(big, la), union(big, lb), union(big, twice)
						msg := rep.Catch(func() string {
							if got := s2tools.CellUnionMissing(ua, ub); !reflect.DeepEqual(append([]s2.CellID{}, got...), want) {
								return fmt.Sprintf("CellUnionMissing has %d cells, want %d: %.200v, want %.200v", len(got), len(want), got, want)
							}
							if got := s2tools.CellUnionMissing(ua, ut); !reflect.DeepEqual(append([]s2.CellID{}, got...), want) {
								return fmt.Sprintf("CellUnionMissing of a repeated list has %d cells, want %d", len(got), len(want))
							}
							if got := s2tools.CellUnionUnion(ua, ub, ut); !reflect.DeepEqual(append([]s2.CellID{}, got...), wu) {
								return fmt.Sprintf("CellUnionUnion has %d cells, want %d: %.200v, want %.200v", len(got), len(wu), got, wu)
							}
							if !intact(ua, big, la) || !intact(ub, big, lb) || !intact(ut, big, twice) {
								return "an input was modified"
							}
							return ""
						})
						if msg != "" {
							r.Violate(key, "%s: %s", key, msg)
						}
					}
				}
			}
		}
	}
	// many lists at once
	for n := 0; n <= 12; n++ {
		for rot := 0; rot < 12; rot++ {
			key := fmt.Sprintf("many/%d/%d", n, rot)
			if !r.Case(key) {
				continue
			}
			ls, us := [][]int{{rot % 6}}, []s2.CellUnion{}
			for k := 0; k < n; k++ {
				ls = append(ls, []int{(k + rot) % 12 / 2, (k * rot) % 6, (5 - k + rot + 12) % 6})
			}
			m := map[s2.CellID]bool{}
			for _, l := range ls {
				us = append(us, union(unis[0], l))
				for _, k := range l {
					m[unis[0][k]] = true
				}
			}
			want := []s2.CellID{}
			for c := range m {
				want = append(want, c)
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			r.Eval(1)
			msg := rep.Catch(func() string {
				if got := s2tools.CellUnionUnion(us[0], us[1:]...); !reflect.DeepEqual(append([]s2.CellID{}, got...), want) {
					return fmt.Sprintf("is %v, want %v", got, want)
				}
				for i := range us {
					if !intact(us[i], unis[0], ls[i]) {
						return fmt.Sprintf("modified input %d: %v", i, us[i][:cap(us[i])])
					}
				}
				return ""
			})
			if msg != "" {
				r.Violate(key, "CellUnionUnion of the lists %v over %v: %s", ls, unis[0], msg)
			}
		}
	}
	r.Finish()
}

// jfeature is a decoded feature of cells.
type jfeature struct {
	Type     string
	Geometry struct {
		Type        string
		Coordinates [][][]float64
	}
	Properties map[string]interface{}
}

func decode(b []byte) ([]jfeature, error) {
	var fc struct {
		Type     string
		Features []jfeature
	}
	if err := json.Unmarshal(b, &fc); err != nil {
		return nil, err
	}
	if fc.Type != "FeatureCollection" {
		return nil, fmt.Errorf("type %q", fc.Type)
	}
	return fc.Features, nil
}

// corners of a cell, computed from the definition of the ids (Hilbert curve, quadratic projection).
func corners(id uint64) [4][3]float64 {
	face := int(id >> 61)
	i0, j0, i1, j1 := ij(id)
	var out [4][3]float64
	for k, c := range [4][2]float64{{i0, j0}, {i1, j0}, {i1, j1}, {i0, j1}} {
		u, v := stToUV(c[0]), stToUV(c[1])
		var p [3]float64
		switch face {
		case 0:
			p = [3]float64{1, u, v}
		case 1:
			p = [3]float64{-u, 1, v}
		case 2:
			p = [3]float64{-u, -v, 1}
		case 3:
			p = [3]float64{-1, -v, -u}
		case 4:
			p = [3]float64{v, -1, -u}
		case 5:
			p = [3]float64{v, u, -1}
		}
		n := math.Sqrt(p[0]*p[0] + p[1]*p[1] + p[2]*p[2])
		out[k] = [3]float64{p[0] / n, p[1] / n, p[2] / n}
	}
	return out
}

func stToUV(s float64) float64 {
	if s >= 0.5 {
		return (1.0 / 3) * (4*s*s - 1)
	}
	return (1.0 / 3) * (1 - 4*(1-s)*(1-s))
}

// ij is the square of the cell on its face, in [0,1].
func ij(id uint64) (i0, j0, i1, j1 float64) {
	face := id >> 61
	lsb := id & -id
	level := 30
	for b := lsb; b > 1; b >>= 2 {
		level--
	}
	// posToIJ for the four orientations (bit 0: swap, bit 1: invert)
	pos := [4][4]int{{0, 1, 3, 2}, {0, 2, 3, 1}, {3, 2, 0, 1}, {3, 1, 0, 2}}
	ori := [4]int{1, 0, 0, 3}
	o := int(face & 1)
	size := 1.0
	for l := 1; l <= level; l++ {
		d := int(id>>uint(61-2*l)) & 3
		x := pos[o][d]
		size /= 2
		i0 += float64(x>>1) * size
		j0 += float64(x&1) * size
		o ^= ori[d]
	}
	return i0, j0, i0 + size, j0 + size
}

// isCell compares a feature with a cell.
func (f jfeature) isCell(id uint64) string {
	if f.Type != "Feature" || f.Geometry.Type != "Polygon" {
		return fmt.Sprintf("a %s with a %s", f.Type, f.Geometry.Type)
	}
	if len(f.Geometry.Coordinates) != 1 || len(f.Geometry.Coordinates[0]) != 5 {
		return fmt.Sprintf("not one ring of five positions: %v", f.Geometry.Coordinates)
	}
	ring := f.Geometry.Coordinates[0]
	if !reflect.DeepEqual(ring[0], ring[4]) {
		return fmt.Sprintf("the ring is not closed: %v", ring)
	}
	var p [4][3]float64
	for i := 0; i < 4; i++ {
		if len(ring[i]) != 2 || math.Abs(ring[i][0]) > 180 || math.Abs(ring[i][1]) > 90 {
			return fmt.Sprintf("bad position %v", ring[i])
		}
		la, ln := ring[i][1]*math.Pi/180, ring[i][0]*math.Pi/180
		p[i] = [3]float64{math.Cos(la) * math.Cos(ln), math.Cos(la) * math.Sin(ln), math.Sin(la)}
	}
	want := corners(id)
	near := func(a, b [3]float64) bool {
		return math.Abs(a[0]-b[0])+math.Abs(a[1]-b[1])+math.Abs(a[2]-b[2]) < 1e-13
	}
	ok := false
	for k := 0; k < 4; k++ {
		for _, d := range []int{1, 3} {
			m := true
			for i := 0; i < 4; i++ {
				m = m && near(p[i], want[(k+d*i)%4])
			}
			ok = ok || m
		}
	}
	if !ok {
		return fmt.Sprintf("the ring %v does not have the corners of the cell", ring)
	}
	level := 30
	for b := id & -id; b > 1; b >>= 2 {
		level--
	}
	path := fmt.Sprintf("%d/", id>>61)
	for l := 1; l <= level; l++ {
		path += strconv.Itoa(int(id>>uint(61-2*l)) & 3)
	}
	for k, v := range map[string]interface{}{"id": tokenOf(id), "uid": strconv.FormatUint(id, 10), "str": path, "level": float64(level)} {
		if f.Properties[k] != v {
			return fmt.Sprintf("property %s is %v, want %v", k, f.Properties[k], v)
		}
	}
	return ""
}

// sameCells compares rendered features with a list of cells.
func sameCells(b []byte, ids []uint64) string {
	fs, err := decode(b)
	if err != nil {
		return fmt.Sprintf("%v in %.200s", err, b)
	}
	if len(fs) != len(ids) {
		return fmt.Sprintf("%d features for %d cells", len(fs), len(ids))
	}
	for i, id := range ids {
		if m := fs[i].isCell(id); m != "" {
			return fmt.Sprintf("feature %d, cell %s: %s", i, tokenOf(id), m)
		}
	}
	return ""
}

func t03() {
	r := rep.New("T03", "exploration", "every cell down to depth 6 (thorough 8) and, on every face and level, all alternating deep paths, rendered alone and in lists of 50, 777 and 5,000; all lists of up to four of seven cells; corners, tokens, paths and levels computed from the definition of cell ids")
	render := func(key string, ids []uint64) {
		if !r.Case(key) || r.Stop() {
			return
		}
		msg := rep.Catch(func() string {
			cu := make(s2.CellUnion, len(ids))
			for i, id := range ids {
				cu[i] = s2.CellID(id)
			}
			r.Eval(1)
			if m := sameCells(s2tools.CellUnionToGeoJSON(cu), ids); m != "" {
				return m
			}
			ts := s2tools.CellUnionToTokens(cu)
			if len(ts) != len(ids) {
				return fmt.Sprintf("%d tokens for %d cells", len(ts), len(ids))
			}
			for i, id := range ids {
				if ts[i] != tokenOf(id) {
					return fmt.Sprintf("token %d is %q, want %q", i, ts[i], tokenOf(id))
				}
				if uint64(cu[i]) != id {
					return "the input was modified"
				}
			}
			return ""
		})
		if msg != "" {
			r.Violate(key, "cells %x: %s", ids, msg)
		}
	}
	var group []uint64
	n := 0
	var all []uint64
	cells(r.Pick(6, 8), func(face int, path string) {
		id := idOf(face, path)
		r.State(tokenOf(id))
		render(tokenOf(id), []uint64{id})
		if len(all) < 5000 || n%101 == 0 {
			all = append(all, id)
		}
		group = append(group, id)
		if len(group) == 50 {
			render(fmt.Sprint("group", n), group)
			group = nil
		}
		n++
		if n%501 == 0 {
			r.Sample(func() interface{} { return fmt.Sprintf("%d/%s", face, path) })
		}
	})
	render("rest", group)
	for _, size := range []int{777, 5000} {
		for i := 0; i+size <= len(all) && i < 4*size; i += size {
			render(fmt.Sprintf("list/%d/%d", size, i), all[i:i+size])
		}
	}
	uni := []uint64{idOf(0, ""), idOf(5, "333333333333333333333333333333"), idOf(3, "1"), idOf(3, "10"), idOf(2, "0333030313"), idOf(4, "000000000000000000000000000000"), idOf(1, "2")}
	for _, l := range lists(len(uni), 4) {
		ids := make([]uint64, len(l))
		for i, k := range l {
			ids[i] = uni[k]
		}
		render(strings.ReplaceAll(fmt.Sprint("list", l), " ", "_"), ids)
	}
	r.Finish()
}
