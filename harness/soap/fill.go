package soap

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"aqwari.net/xml/internal/verifsim/simrt"
)

// filler fills values with data that can be told apart: every string and every
// wide integer carries the number of the call it belongs to.
type filler struct {
	s      *simrt.Stream
	id     int
	n      int
	tokens []string
	small  bool
}

var tokenRE = regexp.MustCompile(`k([0-9]+)q[0-9]+z`)

// foreign returns a token in text that is not of call id.
func foreign(text string, ids map[int]bool) string {
	for _, m := range tokenRE.FindAllStringSubmatch(text, -1) {
		n := 0
		fmt.Sscan(m[1], &n)
		if !ids[n] {
			return m[0]
		}
	}
	return ""
}

func (f *filler) str() string {
	f.n++
	tok := fmt.Sprintf("k%dq%dz", f.id, f.n)
	f.tokens = append(f.tokens, tok)
	switch f.s.Choose(11) {
	case 10:
		if !f.small && f.s.Chance(1, 3) {
			return tok + strings.Repeat("0123456789abcdef ", 20+f.s.Choose(300)) + tok
		}
	case 9:
		return tok + []string{"<&>", "\"'", "é世", "]]>", " x y ", "\n"}[f.s.Choose(6)] + tok
	case 8:
		return tok + strings.Repeat("-", f.s.Choose(200))
	}
	return tok
}

var (
	timeType = reflect.TypeOf(time.Time{})
	nameType = reflect.TypeOf(xml.Name{})
)

func (f *filler) fill(v reflect.Value, depth int) {
	t := v.Type()
	if t == timeType || t.ConvertibleTo(timeType) && t.Kind() == reflect.Struct {
		tm := time.Date(1990+f.s.Choose(60), time.Month(1+f.s.Choose(12)), 1+f.s.Choose(28), f.s.Choose(24), f.s.Choose(60), f.s.Choose(60), 0, time.UTC)
		if f.s.Chance(1, 6) {
			tm = tm.Add(time.Duration([]int{1, 120000000, 999999999, 5000}[f.s.Choose(4)]))
		}
		if f.s.Chance(1, 4) {
			tm = tm.In(time.FixedZone("", 3600*(f.s.Choose(20)-9)))
		}
		v.Set(reflect.ValueOf(tm).Convert(t))
		return
	}
	if t == nameType {
		return
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(f.str())
	case reflect.Bool:
		v.SetBool(f.s.Chance(1, 2))
	case reflect.Int8:
		v.SetInt(int64(1 + f.s.Choose(100)))
		if f.s.Chance(1, 8) {
			v.SetInt(-1 - int64(f.s.Choose(128)))
		}
	case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64:
		f.n++
		if t.Kind() == reflect.Int16 {
			v.SetInt(int64(1 + f.s.Choose(30000)))
			break
		}
		n := int64(700000000 + f.id*10000 + f.n)
		f.tokens = append(f.tokens, fmt.Sprint(n))
		v.SetInt(n)
	case reflect.Uint8:
		v.SetUint(uint64(1 + f.s.Choose(250)))
	case reflect.Uint16:
		v.SetUint(uint64(1 + f.s.Choose(60000)))
	case reflect.Uint, reflect.Uint32, reflect.Uint64:
		f.n++
		n := uint64(800000000 + f.id*10000 + f.n)
		f.tokens = append(f.tokens, fmt.Sprint(n))
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(f.s.Choose(4000)) / 8)
		if f.s.Chance(1, 8) {
			v.SetFloat([]float64{-0.5, 1e-7, -3e20, 1.0 / 3, 123456789}[f.s.Choose(5)])
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			n := f.s.Choose(14)
			if !f.small && f.s.Chance(1, 16) {
				n = []int{31, 32, 33, 48, 63, 64, 65, 128, 500, 1025, 4097}[f.s.Choose(11)]
			}
			b := make([]byte, n, n+27)
			for i := range b {
				b[i] = byte(f.s.Choose(256))
			}
			v.SetBytes(b)
			return
		}
		n := f.s.Choose(4)
		if f.small && n > 2 {
			n = 2
		}
		if !f.small && depth < 3 && f.s.Chance(1, 24) {
			n = []int{8, 9, 16, 17, 40}[f.s.Choose(5)]
		}
		if depth > 5 {
			n = 0
		}
		// others may not use the space behind the values
		sl := reflect.MakeSlice(t, n, n+4)
		for i := 0; i < n; i++ {
			f.fill(sl.Index(i), depth+1)
		}
		if n > 0 {
			v.Set(sl)
		}
	case reflect.Ptr:
		if depth > 5 {
			return
		}
		p := reflect.New(t.Elem())
		f.fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if sf.PkgPath != "" || sf.Name == "XMLName" || strings.Contains(sf.Tag.Get("xml"), ",innerxml") {
				continue
			}
			if depth > 5 && sf.Type.Kind() == reflect.Struct && sf.Type != timeType {
				continue
			}
			f.fill(v.Field(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			f.fill(v.Index(i), depth+1)
		}
	}
}

// show writes out a value, following pointers.
func show(v reflect.Value) string {
	var b strings.Builder
	showTo(&b, v, 0)
	return b.String()
}

func showTo(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() || depth > 30 {
		b.WriteString("-")
		return
	}
	t := v.Type()
	if t.Kind() == reflect.Struct && t.ConvertibleTo(timeType) && v.CanInterface() {
		b.WriteString(v.Convert(timeType).Interface().(time.Time).Format(time.RFC3339Nano))
		return
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		showTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(t.Field(i).Name + ":")
			showTo(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Interface())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			showTo(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, show(k)+"="+show(v.MapIndex(k)))
		}
		sort.Strings(ks)
		b.WriteString("map" + strings.Join(ks, " "))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString("?")
	}
}

// isZero reports whether text is what show makes of zero values.
func zeroText(types []reflect.Type) string {
	var vals []string
	for _, t := range types {
		vals = append(vals, show(reflect.Zero(t)))
	}
	return strings.Join(vals, ", ")
}
