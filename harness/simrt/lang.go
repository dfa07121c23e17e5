package simrt

import (
	"encoding/xml"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
)

// ---- maps

var permute bool

// MapOrder turns seeded permutation of map iteration on or off; off means
// canonical (sorted) order.
//
//go:norace
func MapOrder(on bool) { permute = on }

//go:norace
func permuting() bool { return permute }

var uncanonical int64
var mapPermuted int64

// MapsPermuted counts the iterations that ran in a non-canonical order.
func MapsPermuted() int64 { return mapPermuted }

// Uncanonical counts iterations whose keys have no canonical order.
func Uncanonical() int64 { return uncanonical }

//go:norace
func curMapStream() *Stream {
	if active {
		return &mapStreams[turn]
	}
	return &mapStreams[0]
}

//go:norace
func bump(p *int64) { *p++ }

type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newIter[K comparable, V any](site int, m map[K]V) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		if permuting() {
			p := curMapStream().Perm(len(it.keys))
			ks := make([]K, len(p))
			moved := false
			for i, j := range p {
				ks[i] = it.keys[j]
				moved = moved || i != j
			}
			if moved {
				bump(&mapPermuted)
			}
			it.keys = ks
		}
	}
	return it
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []xml.Name:
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].Space != ks[j].Space {
				return ks[i].Space < ks[j].Space
			}
			return ks[i].Local < ks[j].Local
		})
		return
	}
	str := make([]string, len(keys))
	for i, k := range keys {
		str[i] = keyString(reflect.ValueOf(k), 0)
	}
	sort.Sort(&byKey[K]{keys, str})
	for i := 1; i < len(str); i++ {
		if str[i] == str[i-1] {
			bump(&uncanonical)
			break
		}
	}
}

type byKey[K comparable] struct {
	k []K
	s []string
}

func (b *byKey[K]) Len() int           { return len(b.k) }
func (b *byKey[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byKey[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

func keyString(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Bool, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return fmt.Sprint(v)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + ":" + keyString(v.Elem(), depth)
	case reflect.Struct:
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(keyString(v.Field(i), depth))
			b.WriteByte(0)
		}
		return b.String()
	case reflect.Array:
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteString(keyString(v.Index(i), depth))
			b.WriteByte(0)
		}
		return b.String()
	case reflect.Ptr:
		if v.IsNil() || depth > 2 {
			return "ptr"
		}
		return keyString(v.Elem(), depth+1)
	}
	return v.Kind().String()
}

func (it *Iter[K, V]) next() (k K, v V, ok bool) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		if v, ok = it.m[k]; ok {
			return k, v, true
		}
	}
	return k, v, false
}

type ItKV[K comparable, V any] struct{ *Iter[K, V] }
type ItK[K comparable, V any] struct{ *Iter[K, V] }
type ItV[K comparable, V any] struct{ *Iter[K, V] }
type ItNone[K comparable, V any] struct{ *Iter[K, V] }

func (it ItKV[K, V]) Next(kp *K, vp *V) bool {
	k, v, ok := it.next()
	if ok {
		*kp, *vp = k, v
	}
	return ok
}
func (it ItK[K, V]) Next(kp *K) bool {
	k, _, ok := it.next()
	if ok {
		*kp = k
	}
	return ok
}
func (it ItV[K, V]) Next(vp *V) bool {
	_, v, ok := it.next()
	if ok {
		*vp = v
	}
	return ok
}
func (it ItNone[K, V]) Next() bool {
	_, _, ok := it.next()
	return ok
}

func IterKV[M ~map[K]V, K comparable, V any](site int, m M) (k K, v V, it ItKV[K, V]) {
	it.Iter = newIter[K, V](site, m)
	return
}
func IterK[M ~map[K]V, K comparable, V any](site int, m M) (k K, it ItK[K, V]) {
	it.Iter = newIter[K, V](site, m)
	return
}
func IterV[M ~map[K]V, K comparable, V any](site int, m M) (v V, it ItV[K, V]) {
	it.Iter = newIter[K, V](site, m)
	return
}
func IterNone[M ~map[K]V, K comparable, V any](site int, m M) (it ItNone[K, V]) {
	it.Iter = newIter[K, V](site, m)
	return
}
func IterKVA[M ~map[K]V, K comparable, V any](site int, m M) (it ItKV[K, V]) {
	it.Iter = newIter[K, V](site, m)
	return
}
func IterKA[M ~map[K]V, K comparable, V any](site int, m M) (it ItK[K, V]) {
	it.Iter = newIter[K, V](site, m)
	return
}
func IterVA[M ~map[K]V, K comparable, V any](site int, m M) (it ItV[K, V]) {
	it.Iter = newIter[K, V](site, m)
	return
}

// ---- channels

func Send[T any](c chan<- T, v T) {
	BlockBegin()
	c <- v
	BlockEnd()
}
func Recv[T any](c <-chan T) T {
	BlockBegin()
	v := <-c
	BlockEnd()
	return v
}
func Recv2[T any](c <-chan T) (T, bool) {
	BlockBegin()
	v, ok := <-c
	BlockEnd()
	return v, ok
}
func Close[T any](c chan<- T) {
	BlockPoll()
	close(c)
}

type ItCh[T any] struct{ c <-chan T }

func IterCh[T any](c <-chan T) ItCh[T]            { return ItCh[T]{c} }
func IterChV[T any](c <-chan T) (v T, it ItCh[T]) { it.c = c; return }
func (it ItCh[T]) Next(p *T) bool {
	v, ok := Recv2(it.c)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// ---- go f(args)

type spread struct{}

// Spread marks a final variadic argument.
var Spread spread

func GoCall(f any, args ...any) {
	fv := reflect.ValueOf(f)
	t := fv.Type()
	isSpread := false
	if n := len(args); n > 0 {
		if _, ok := args[n-1].(spread); ok {
			isSpread = true
			args = args[:n-1]
		}
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		pt := reflect.Type(nil)
		if t.IsVariadic() && i >= t.NumIn()-1 && !isSpread {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt) // untyped constants
		}
		in[i] = v
	}
	Go(func() {
		if isSpread {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

// ---- clock and environment

var profile int

// SetProfile selects what the code under test sees of its surroundings;
// profile 0 is the plain one.
//
//go:norace
func SetProfile(n int) { profile = n }

//go:norace
func prof() int { return profile }

var epoch = time.Date(2024, 2, 29, 23, 59, 58, 999999000, time.UTC)

func Now() time.Time {
	Y(0)
	return epoch.Add(time.Duration(now())).AddDate(0, 0, 37*prof()).Add(time.Duration(prof()) * 7919 * time.Millisecond)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { SleepFor(int64(d)) }
func Getpid() int                     { return 4000 + prof() }
func Hostname() (string, error)       { return fmt.Sprintf("host%d", prof()), nil }
func NumCPU() int                     { return 1 + 3*prof() }
func NumGoroutine() int               { return 2 + prof() }
func GOMAXPROCS(n int) int            { return 1 + 3*prof() }
func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}
func LookupEnv(k string) (string, bool) {
	if p := prof(); p > 0 {
		h := uint32(p)
		for i := 0; i < len(k); i++ {
			h = h*31 + uint32(k[i])
		}
		v := []string{"", fmt.Sprintf("sim%d", p), "1", "true", fmt.Sprint(p), "0"}[h>>3%6]
		return v, v != "" || h%2 == 0
	}
	return os.LookupEnv(k)
}
func Environ() []string {
	if p := prof(); p > 0 {
		return []string{fmt.Sprintf("SIM=%d", p)}
	}
	return os.Environ()
}

var _ = runtime.NumCPU
