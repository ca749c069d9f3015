package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

type report struct {
	Pkg, Kind, Name, Bad string
}

var enc = json.NewEncoder(os.Stdout)

func say(pkg, kind, name, bad string) {
	enc.Encode(report{pkg, kind, name, bad})
}

func pcName(f any) string {
	v := reflect.ValueOf(f)
	if v.Kind() != reflect.Func || v.IsNil() {
		return "not a function"
	}
	n := runtime.FuncForPC(v.Pointer()).Name()
	return strings.TrimSuffix(n, ".abi0")
}

// function: shim function s must be compiler function c, under c's own name, with c's type.
func function(pkg, name string, s, c any) {
	bad := ""
	if ts, tc := reflect.TypeOf(s), reflect.TypeOf(c); ts != tc {
		bad = fmt.Sprintf("has type %v, the compiler's has %v", ts, tc)
	} else if a, b := pcName(s), pcName(c); a != b {
		bad = fmt.Sprintf("is bound to %s, not to %s", a, b)
	}
	say(pkg, "func", name, bad)
}

// wrapper: a shim function with a body of its own cannot be compared by address.
func wrapper(pkg, name string, s, c any) {
	bad := ""
	if ts, tc := reflect.TypeOf(s), reflect.TypeOf(c); ts != tc {
		bad = fmt.Sprintf("has type %v, the compiler's has %v", ts, tc)
	}
	say(pkg, "wrapper", name, bad)
}

func constant(pkg, name string, s, c any) {
	bad := ""
	if reflect.TypeOf(s) != reflect.TypeOf(c) {
		bad = fmt.Sprintf("has type %T, the compiler's has %T", s, c)
	} else if s != c {
		bad = fmt.Sprintf("is %v, the compiler's is %v", s, c)
	}
	say(pkg, "const", name, bad)
}

func variable(pkg, name string, s, c any) {
	vs, vc := reflect.ValueOf(s).Elem(), reflect.ValueOf(c).Elem()
	bad := ""
	if vs.Type() != vc.Type() {
		bad = fmt.Sprintf("has type %v, the compiler's has %v", vs.Type(), vc.Type())
	} else if vs.Kind() == reflect.Func {
		if vs.Pointer() != vc.Pointer() {
			bad = "is another function"
		}
	} else if vs.Kind() == reflect.Pointer || vs.Kind() == reflect.Map || vs.Kind() == reflect.Chan {
		if vs.Pointer() != vc.Pointer() {
			bad = "refers to another object"
		}
	} else if !reflect.DeepEqual(vs.Interface(), vc.Interface()) {
		bad = "has another value"
	}
	say(pkg, "var", name, bad)
}

func typ(pkg, name string, s, c reflect.Type) {
	bad := ""
	if s != c {
		bad = fmt.Sprintf("is %v, the compiler's is %v", s, c)
	}
	say(pkg, "type", name, bad)
}

// at gives a settable view of a possibly unexported field.
func at(f reflect.Value) reflect.Value {
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

var counter int

// fill gives every part of v a value of its own; booleans become b.
func fill(v reflect.Value, b bool, depth int) {
	counter++
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(counter % 120))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(counter % 250))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(counter))
	case reflect.String:
		v.SetString(fmt.Sprint("s", counter))
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1+counter%5, 8+counter))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	case reflect.Func:
		v.Set(reflect.MakeFunc(v.Type(), func([]reflect.Value) []reflect.Value { panic("never called") }))
	case reflect.Struct:
		if depth > 4 {
			return
		}
		for i := range v.NumField() {
			fill(at(v.Field(i)), b, depth+1)
		}
	case reflect.Array:
		for i := range v.Len() {
			fill(v.Index(i), b, depth+1)
		}
	}
}

func bytesOf(v reflect.Value) string {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return string(unsafe.Slice((*byte)(p.UnsafePointer()), v.Type().Size()))
}

// field: accessor acc of a field must return what is stored in that field, whatever the others hold.
func field(pkg, name, fname string, acc any) {
	f := reflect.ValueOf(acc)
	bad := func() (bad string) {
		if f.Kind() != reflect.Func || f.Type().NumIn() != 1 || f.Type().NumOut() != 1 || f.Type().In(0).Kind() != reflect.Pointer {
			return "is not an accessor"
		}
		t := f.Type().In(0).Elem()
		sf, ok := t.FieldByName(fname)
		if !ok {
			return "the compiler's type has no such field"
		}
		if sf.Type != f.Type().Out(0) {
			return fmt.Sprintf("returns %v, the field is %v", f.Type().Out(0), sf.Type)
		}
		defer func() {
			if r := recover(); r != nil {
				bad = fmt.Sprint("panics: ", r)
			}
		}()
		for round := range 8 {
			o := reflect.New(t)
			fill(o.Elem(), round%2 == 0, 0)
			x := at(o.Elem().FieldByIndex(sf.Index))
			if x.Kind() == reflect.Bool {
				x.SetBool(round%2 == 1)
			}
			before := bytesOf(o.Elem())
			got := f.Call([]reflect.Value{o})[0]
			if bytesOf(got) != bytesOf(x) {
				return fmt.Sprintf("returns something else than the field (%v for %v)", short(got), short(x))
			}
			if bytesOf(o.Elem()) != before {
				return "changes the object"
			}
		}
		return ""
	}()
	say(pkg, "field", name, bad)
}

func short(v reflect.Value) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func ptr[T any](x T) *T { return &x }
