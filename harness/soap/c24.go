package soap

import (
	"bytes"
	"encoding"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"strings"

	"aqwari.net/xml/internal/verifsim/scen"
	"aqwari.net/xml/internal/verifsim/simrt"
)

// C24: tasks encode shared values of generated types, and decode and encode
// values of their own, some over streams that fail.  Each gets what it gets
// alone, shared values stay as they are, and the race detector stays quiet.
func init() { scen.Register("C24", 60e6, c24) }

// pickTypes prefers the documents written for these scenarios.
func pickTypes(s *simrt.Stream) typeSet {
	pool()
	if s.Chance(2, 5) {
		var own []typeSet
		for _, x := range typePk {
			if authored[x.pkg.Kind] {
				own = append(own, x)
			}
		}
		if len(own) > 0 {
			return own[s.Choose(len(own))]
		}
	}
	return typePk[s.Choose(len(typePk))]
}

type valueCall struct {
	what string
	run  func(shared []*sample) string
	want string
	got  string
	kept func() string // the decoded value, as it is now
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

// decodeInto decodes into a variable that may hold a value already.
func decodeInto(v reflect.Value, text []byte) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return xml.Unmarshal(text, v.Interface())
}

// refers tells whether a copy of a value refers to the same memory as the
// value, other than by its slices.
func refers(v reflect.Value, depth int) bool {
	if v.Type().ConvertibleTo(timeType) {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Func, reflect.Chan:
		return !v.IsNil()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if refers(v.Field(i), depth+1) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if refers(v.Index(i), depth+1) {
				return true
			}
		}
	}
	return false
}

// drawValueCall draws a call of a task.
func drawValueCall(s *simrt.Stream, ts typeSet, smp []*sample, id int) *valueCall {
	k := s.Choose(len(smp))
	c := &valueCall{}
	x := smp[k]
	var pause int64
	if s.Chance(1, 3) {
		pause = int64(1+s.Choose(3)) * ms
	}
	wait := func() {
		if pause > 0 {
			simrt.SleepFor(pause)
		}
	}
	switch s.Choose(8) {
	case 7:
		// one variable for several values
		c.what = "decode " + x.name + " into a variable again"
		other := x
		if y := smp[s.Choose(len(smp))]; y.typ == x.typ {
			other = y
		}
		n := 1 + s.Choose(2)
		c.run = func([]*sample) string {
			v := reflect.New(x.typ)
			err := decodeInto(v, x.text)
			was := show(v)
			out := errText(err) + " " + was
			if refers(v.Elem(), 0) {
				return out
			}
			one := reflect.New(x.typ)
			one.Elem().Set(v.Elem())
			first := errText(err) + " "
			c.kept = func() string { return first + show(one) }
			wait()
			for i := 0; i < n; i++ {
				err = decodeInto(v, other.text)
				out += " " + errText(err)
			}
			if now := show(one); now != was {
				out += " but the copy is now " + now
			}
			return out
		}
	case 0, 1:
		c.what = "encode shared " + x.name
		c.run = func(sh []*sample) string {
			wait()
			b, err := xml.Marshal(sh[k].val.Interface())
			return errText(err) + " " + string(b)
		}
	case 2:
		w := brokenWriter{left: s.Choose(len(x.text)), err: netErrs[s.Choose(len(netErrs))]}
		c.what = fmt.Sprintf("encode shared %s to a writer that fails after %d bytes", x.name, w.left)
		c.run = func(sh []*sample) string {
			wait()
			w := w
			err := encodeTo(&w, sh[k].val)
			return fmt.Sprint(errText(err), " ", w.n)
		}
	case 3:
		c.what = "encode " + x.name + " of its own"
		fresh := reflect.New(x.typ)
		(&filler{s: s, id: id, small: s.Chance(2, 3)}).fill(fresh.Elem(), 0)
		c.run = func([]*sample) string {
			wait()
			var b bytes.Buffer
			err := encodeTo(&b, fresh)
			return errText(err) + " " + b.String() + " of " + show(fresh)
		}
	case 4:
		c.what = "text of " + x.name
		twice := s.Chance(1, 2)
		other := []string{"1 0 1", "aGVsbG8=", "a b c d", "", "2003-04-05", "00ff"}[s.Choose(6)]
		c.run = func(sh []*sample) string {
			m, ok := sh[k].val.Interface().(encoding.TextMarshaler)
			if !ok {
				b, err := xml.Marshal(sh[k].val.Elem().Interface())
				return errText(err) + " " + string(b)
			}
			b, err := m.MarshalText()
			wait()
			out := errText(err) + " " + string(b)
			v := reflect.New(x.typ)
			if u, ok := v.Interface().(encoding.TextUnmarshaler); ok {
				// the text is the caller's, and used again
				text := append([]byte(nil), b...)
				err := u.UnmarshalText(text)
				before := out + " " + errText(err) + " "
				out = before + show(v)
				c.kept = func() string { return before + show(v) }
				wait()
				if err == nil && twice && !refers(v.Elem(), 0) {
					// and the variable, for another value
					w := reflect.New(x.typ)
					w.Elem().Set(v.Elem())
					u.UnmarshalText([]byte(other))
					if now := show(w); now != strings.TrimPrefix(out, before) {
						out += " but the copy is now " + now
					}
					c.kept = func() string { return before + show(w) }
				}
				for i := range text {
					text[i] = "0#"[i%2]
				}
			}
			return out
		}
	default:
		r := drawStream(s, &stream{data: x.text, end: io.EOF})
		r.delay = pause
		c.what = "decode " + x.name
		if s.Chance(1, 3) {
			r.data = x.text[:s.Choose(len(x.text))]
			r.end = []error{io.EOF, io.ErrUnexpectedEOF, netErrs[0]}[s.Choose(3)]
			c.what += fmt.Sprintf(" from a stream that ends after %d of %d bytes", len(r.data), len(x.text))
		} else if s.Chance(1, 3) {
			r.data = bytes.Replace(x.text, []byte(">"), []byte(">@"), 1+s.Choose(3))
			c.what += " from a damaged stream"
		}
		again := s.Chance(1, 2)
		plan := *r
		c.run = func([]*sample) string {
			r := plan
			v, err := decode(&r, x.typ)
			out := errText(err)
			if err == nil {
				out += " " + show(v)
				c.kept = func() string { return out[:strings.Index(out, " ")+1] + show(v) }
			}
			if err == nil && again {
				b, err := xml.Marshal(v.Interface())
				out += " " + errText(err) + " " + string(b)
			}
			return out
		}
	}
	return c
}

func c24(t *scen.T) {
	s := simrt.S("c24")
	simrt.SetProfile(0)
	simrt.MapOrder(false)
	ts := pickTypes(s)
	t.Case(ts.pkg.Kind, ts.pkg.Label)
	where := ts.pkg.Kind + " " + ts.pkg.Label + ": "
	var all []*sample
	for i := 0; i < 1+s.Choose(3); i++ {
		name := ts.names[s.Choose(len(ts.names))]
		v := reflect.ValueOf(ts.pkg.Types[name]())
		(&filler{s: s, id: i + 1, small: s.Chance(2, 3)}).fill(v.Elem(), 0)
		all = append(all, &sample{name: name, typ: v.Type().Elem(), val: v})
	}
	var smp []*sample
	t.Sim(func() {
		for _, x := range all {
			o := scen.Try(func() (string, error) {
				b, err := xml.Marshal(x.val.Interface())
				return string(b), err
			})
			if o.Failed() || o.Val == "" {
				t.Count("values that cannot be encoded", 1)
				continue
			}
			x.text = []byte(o.Val)
			x.refS = show(x.val)
			smp = append(smp, x)
			t.Case(x.name, o.Val)
			t.Descf("  %s %s", x.name, scen.Clip(x.text))
		}
	})
	if len(smp) == 0 {
		return
	}
	nt := 2 + s.Choose(4)
	tasks := make([][]*valueCall, nt)
	for i := range tasks {
		for j := 0; j <= s.Choose(4); j++ {
			c := drawValueCall(s, ts, smp, i+10)
			tasks[i] = append(tasks[i], c)
			t.Descf("  task %d: %s", i, c.what)
		}
	}
	try := func(c *valueCall) string {
		o := scen.Try(func() (string, error) { return c.run(smp), nil })
		if o.Panic != nil {
			return fmt.Sprintf("panic: %v", o.Panic)
		}
		return o.Val
	}
	// alone
	t.Sim(func() {
		for _, calls := range tasks {
			for _, c := range calls {
				c.want = try(c)
			}
		}
	})
	if s.Chance(1, 2) {
		simrt.Restart()
	}
	var fns []func()
	for i := range tasks {
		calls := tasks[i]
		fns = append(fns, func() {
			for _, c := range calls {
				c.got = try(c)
				simrt.Note(scen.Hash(c.got))
			}
		})
	}
	sw := simrt.Switches()
	simrt.SwitchRate([]int{4, 32, 128, 400}[s.Choose(4)])
	t.Sim(fns...)
	simrt.SwitchRate(64)
	t.Nontrivial = simrt.Switches() > sw
	for i, calls := range tasks {
		for _, c := range calls {
			if c.got != c.want {
				t.Fail("result differs", "%stask %d: %s gives\n%s\nalone\n%s", where, i, c.what, c.got, c.want)
				return
			}
		}
	}
	for _, calls := range tasks {
		for _, c := range calls {
			if c.kept != nil && !strings.HasPrefix(c.got, c.kept()) {
				t.Fail("value modified", "%safter other calls, the value of %s is\n%s\nit was\n%s", where, c.what, c.kept(), c.got)
				return
			}
		}
	}
	for _, x := range smp {
		if now := show(x.val); now != x.refS {
			t.Fail("value modified", "%sencoding changed the shared %s from\n%s\nto\n%s", where, x.name, x.refS, now)
			return
		}
	}
	t.Count("concurrent calls", int64(nt))
}
