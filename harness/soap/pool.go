// Package soap contains the scenarios on generated code: SOAP clients and
// types that the code generators of the working tree wrote when the worker was
// built.
package soap

import (
	"context"
	"fmt"
	"io/ioutil"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"

	"aqwari.net/xml/internal/verifsim/genreg"
	"aqwari.net/xml/internal/verifsim/scen"
	"aqwari.net/xml/internal/verifsim/simrt"
)

// clientOp is an operation of a generated client, with what the WSDL document
// says about it.
type clientOp struct {
	pkg    *genreg.Package
	op     scen.Op
	method string
	typ    reflect.Type // of the method, with the receiver
}

func (o clientOp) String() string { return o.pkg.Kind + " " + o.pkg.Label + " " + o.method }

var (
	poolOnce sync.Once
	clientPk [][]clientOp // by client
	typePk   []typeSet
)

type typeSet struct {
	pkg   *genreg.Package
	names []string
}

func squeeze(s string) string {
	return strings.ToLower(strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r > 127 {
			return r
		}
		return -1
	}, s))
}

var ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
var errType = reflect.TypeOf((*error)(nil)).Elem()

func pool() {
	poolOnce.Do(func() {
		for i := range genreg.Packages {
			p := &genreg.Packages[i]
			if len(p.Types) > 0 {
				ts := typeSet{pkg: p}
				for n := range p.Types {
					ts.names = append(ts.names, n)
				}
				sort.Strings(ts.names)
				typePk = append(typePk, ts)
			}
			if p.Client == nil {
				continue
			}
			ops := scen.OpsOf([]byte(p.Doc), strings.TrimPrefix(p.Label, "port "))
			typ := reflect.TypeOf(p.Client())
			var out []clientOp
			for i := 0; i < typ.NumMethod(); i++ {
				m := typ.Method(i)
				mt := m.Type
				if mt.NumIn() < 2 || mt.In(1) != ctxType || mt.NumOut() == 0 || mt.Out(mt.NumOut()-1) != errType {
					continue
				}
				var of []scen.Op
				for _, op := range ops {
					if squeeze(op.Name) == squeeze(m.Name) {
						of = append(of, op)
					}
				}
				if len(of) != 1 || of[0].Address == "" {
					continue
				}
				out = append(out, clientOp{pkg: p, op: of[0], method: m.Name, typ: mt})
			}
			if len(out) > 0 {
				clientPk = append(clientPk, out)
			}
		}
		if len(clientPk) == 0 || len(typePk) == 0 {
			panic("no usable generated package")
		}
	})
}

// pickClient prefers the documents written for these scenarios.
func pickClient(s *simrt.Stream) []clientOp {
	pool()
	var own [][]clientOp
	for _, c := range clientPk {
		if !strings.Contains(c[0].pkg.Kind, "/") && strings.HasSuffix(c[0].pkg.Kind, ".wsdl") && authored[c[0].pkg.Kind] {
			own = append(own, c)
		}
	}
	if len(own) > 0 && s.Chance(1, 2) {
		return own[s.Choose(len(own))]
	}
	return clientPk[s.Choose(len(clientPk))]
}

var authored = map[string]bool{"calc.wsdl": true, "orders.wsdl": true, "lookup.wsdl": true, "types.xsd": true, "arrays.xsd": true}

const (
	hookQuery  = "traced=1"
	hookAction = "/traced"
)

// newClient makes a client that uses the transport.
func newClient(p *genreg.Package, rt http.RoundTripper, hooks int, custom bool) reflect.Value {
	c := reflect.ValueOf(p.Client())
	if custom {
		if f := c.Elem().FieldByName("HTTPClient"); f.IsValid() && f.CanSet() && f.Type() == reflect.TypeOf((*http.Client)(nil)) {
			f.Set(reflect.ValueOf(&http.Client{Transport: rt}))
		}
	} else {
		http.DefaultTransport = rt
	}
	if hooks&1 != 0 {
		if f := c.Elem().FieldByName("RequestHook"); f.IsValid() && f.CanSet() {
			hook := func(r *http.Request) *http.Request {
				if hooks&8 != 0 {
					r = r.Clone(r.Context())
				}
				r.Header.Set("X-Hook", r.Header.Get("SOAPAction"))
				if hooks&16 != 0 {
					// its own request only
					if r.URL.RawQuery != "" {
						r.URL.RawQuery += "&"
					}
					r.URL.RawQuery += hookQuery
					if a := r.Header["Soapaction"]; len(a) > 0 {
						a[0] += hookAction
					}
					r.Header.Add("X-Trace", "1")
				}
				return r
			}
			if f.Type() == reflect.TypeOf(hook) {
				f.Set(reflect.ValueOf(hook))
			}
		}
	}
	if hooks&2 != 0 {
		if f := c.Elem().FieldByName("ResponseHook"); f.IsValid() && f.CanSet() {
			hook := func(r *http.Response) *http.Response {
				n := *r
				n.Body = &hooked{r.Body}
				if hooks&4 != 0 {
					// the client has to close what it received
					n.Body = ioutil.NopCloser(r.Body)
				}
				return &n
			}
			if f.Type() == reflect.TypeOf(hook) {
				f.Set(reflect.ValueOf(hook))
			}
		}
	}
	return c
}

// outcome of a call of an operation.
type outcome struct {
	done  bool
	vals  string
	err   error
	panik string
	at    int64
}

func (o outcome) errText() string {
	if o.err == nil {
		return ""
	}
	return o.err.Error()
}

func (o outcome) String() string {
	switch {
	case !o.done:
		return "no return"
	case o.panik != "":
		return "panic: " + o.panik
	case o.err != nil:
		return fmt.Sprintf("error %q", o.err.Error())
	}
	return "success, values " + o.vals
}

// invoke calls the operation.
func invoke(c reflect.Value, op clientOp, ctx context.Context, args []reflect.Value) (out outcome) {
	defer func() {
		if r := recover(); r != nil {
			out = outcome{done: true, panik: fmt.Sprint(r), at: simrt.SimNow()}
		}
	}()
	in := append([]reflect.Value{reflect.ValueOf(ctx)}, args...)
	res := c.MethodByName(op.method).Call(in)
	n := len(res) - 1
	out.at = simrt.SimNow()
	out.done = true
	if !res[n].IsNil() {
		out.err = res[n].Interface().(error)
	}
	var vals []string
	for _, v := range res[:n] {
		vals = append(vals, show(v))
	}
	out.vals = strings.Join(vals, ", ")
	return out
}
