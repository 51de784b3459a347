package harness

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"sort"
	"testing"

	"github.com/edwingeng/hotswap"
)

type (
	lkMyInt int
	lkNF    func()
	lkNFM   func()
	lkIfM   interface{ M() }
	lkS     struct{ X int }
	lkP     struct{ Y int }
	lkE     string
	lkNPint *int
	lkNSl   []int
	lkNCh   chan int
	lkNRCh  <-chan int
	lkNMap  map[string]int
)

func (lkNFM) M()          {}
func (lkS) M()            {}
func (*lkP) M()           {}
func (lkE) Error() string { return "e" }

func typ[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var lkTypes = map[string]reflect.Type{
	"int": typ[int](), "string": typ[string](), "MyInt": typ[lkMyInt](), "F0": typ[func()](), "NF": typ[lkNF](), "NFM": typ[lkNFM](),
	"F1": typ[func(int) error](), "any": typ[any](), "IfM": typ[lkIfM](), "UIfM": typ[interface{ M() }](), "error": typ[error](),
	"S": typ[lkS](), "US": typ[struct{ X int }](), "P": typ[lkP](), "E": typ[lkE](), "PS": typ[*lkS](), "PUS": typ[*struct{ X int }](),
	"PP": typ[*lkP](), "PPS": typ[**lkS](), "Pint": typ[*int](), "PMyInt": typ[*lkMyInt](), "NPint": typ[lkNPint](), "PPint": typ[**int](),
	"PF0": typ[*func()](), "Pany": typ[*any](), "Sl": typ[[]int](), "NSl": typ[lkNSl](), "Ch": typ[chan int](), "NCh": typ[lkNCh](),
	"RCh": typ[<-chan int](), "NRCh": typ[lkNRCh](), "Map": typ[map[string]int](), "NMap": typ[lkNMap](),
}

// lkFill gives a variable a value that can be told from others by n; zero leaves it nil or zero.
func lkFill(v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Int:
		v.SetInt(int64(n))
	case reflect.String:
		v.SetString(fmt.Sprint("s", n))
	case reflect.Struct:
		v.Field(0).SetInt(int64(n))
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		v.Set(p.Convert(v.Type()))
		lkFill(p.Elem(), n)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		v.Index(0).SetInt(int64(n))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(n))
	case reflect.Chan:
		v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, typ[int]()), n).Convert(v.Type()))
	case reflect.Func:
		v.Set(reflect.MakeFunc(v.Type(), func([]reflect.Value) []reflect.Value {
			lkCalled = n
			out := make([]reflect.Value, v.Type().NumOut())
			for i := range out {
				out[i] = reflect.Zero(v.Type().Out(i))
			}
			return out
		}))
	case reflect.Interface:
		switch {
		case v.Type().NumMethod() == 0:
			v.Set(reflect.ValueOf(n))
		case v.Type().Method(0).Name == "M":
			v.Set(reflect.ValueOf(lkS{n}))
		default:
			v.Set(reflect.ValueOf(lkE(fmt.Sprint("s", n))))
		}
	}
}

var lkCalled int

// lkSame: do the two hold the same thing?
func lkSame(a, b reflect.Value) bool {
	for a.IsValid() && a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Int:
		return a.Int() == b.Int()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Struct:
		return a.Field(0).Int() == b.Field(0).Int()
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Chan:
		return a.Pointer() == b.Pointer()
	case reflect.Func:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		call := func(f reflect.Value) int {
			lkCalled = -1
			in := make([]reflect.Value, f.Type().NumIn())
			for i := range in {
				in[i] = reflect.Zero(f.Type().In(i))
			}
			f.Call(in)
			return lkCalled
		}
		return call(a) == call(b)
	}
	return false
}

func TestLookup(t *testing.T) {
	out := os.Getenv("HS_OUT")
	if out == "" {
		t.Skip("HS_OUT is not set")
	}
	f, err := os.Create(out)
	must(err)
	w := bufio.NewWriter(f)
	var names []string
	for k := range lkTypes {
		names = append(names, k)
	}
	sort.Strings(names)
	values := map[string]any{
		"int": 5, "string": "x", "S": lkS{3}, "F0": func() {}, "nilF0": (func())(nil), "Map": map[string]int{}, "nilMap": map[string]int(nil),
		"Sl": []int{1}, "nilSl": []int(nil), "Ch": make(chan int), "nilCh": (chan int)(nil), "bool": true,
	}
	plugin.VerifReset()
	count := 0
	open := func(syms map[string]any) *hotswap.Plugin {
		count++
		plugin.VerifOpen = func(string, bool) (map[string]any, error) { return syms, nil }
		p, err := plugin.Open(filepath.Join(t.TempDir(), fmt.Sprint(count)))
		must(err)
		return &hotswap.Plugin{Name: "p", P: p}
	}
	type sym struct {
		k, t    string
		pl      *hotswap.Plugin
		self, v reflect.Value
	}
	var syms []sym
	for _, n := range []string{"F0", "F1"} {
		v := reflect.New(lkTypes[n]).Elem()
		lkFill(v, 7)
		syms = append(syms, sym{"func", n, open(map[string]any{"Sym": v.Interface(), "Other": 1}), v, reflect.Value{}})
	}
	for _, n := range names {
		for _, fill := range []bool{true, false} {
			p := reflect.New(lkTypes[n])
			if fill {
				lkFill(p.Elem(), 7)
			}
			syms = append(syms, sym{"var", n, open(map[string]any{"Sym": p.Interface(), "Other": 1}), p, p.Elem()})
		}
	}
	syms = append(syms, sym{k: "none", t: "int", pl: open(map[string]any{"Other": 1, "Sym2": 1})})
	syms = append(syms, sym{k: "static", t: "int", pl: &hotswap.Plugin{Name: "p"}})

	emit := func(name string, s sym, ok, ot string, out any, target reflect.Value) {
		var before reflect.Value
		if target.IsValid() {
			before = reflect.New(target.Type()).Elem()
			before.Set(target)
		}
		m := M{"name": name, "sk": s.k, "st": s.t, "ok": ok, "ot": ot, "panic": false}
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					m["panic"] = true
				}
			}()
			return s.pl.Lookup(name, out)
		}()
		switch {
		case err == nil:
			m["res"] = "ok"
		case errors.Is(err, hotswap.ErrNotExist):
			m["res"] = "notexist"
		default:
			m["res"] = "err"
		}
		m["eff"] = "same"
		if target.IsValid() && (err == nil || !lkSame(before, target)) {
			holds := func(x reflect.Value) bool {
				if !x.IsValid() || !x.Type().AssignableTo(target.Type()) {
					return false
				}
				y := reflect.New(target.Type()).Elem()
				y.Set(x)
				return lkSame(y, target)
			}
			switch {
			case s.self.IsValid() && holds(s.self):
				m["eff"] = "self"
			case s.v.IsValid() && holds(s.v):
				m["eff"] = "elem"
			default:
				m["eff"] = "other"
			}
		}
		b, err := json.Marshal(m)
		must(err)
		_, _ = w.Write(append(b, '\n'))
	}
	for _, s := range syms {
		for _, name := range []string{"", "Sym", "sym"} {
			for _, n := range names {
				for _, fill := range []bool{true, false} {
					p := reflect.New(lkTypes[n])
					if fill {
						lkFill(p.Elem(), 3)
					}
					emit(name, s, "ptr", n, p.Interface(), p.Elem())
				}
				emit(name, s, "nilptr", n, reflect.Zero(reflect.PtrTo(lkTypes[n])).Interface(), reflect.Value{})
			}
			for k, v := range values {
				emit(name, s, "value", k, v, reflect.Value{})
			}
			emit(name, s, "nil", "int", nil, reflect.Value{})
		}
	}
	must(w.Flush())
	must(f.Close())
}
