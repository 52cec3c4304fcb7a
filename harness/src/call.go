//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

// Rec is one observed call of the real API: what was called, with which
// argument values, and what it answered. Recorded calls are the raw material
// of the purity, concurrency and malformed-input monitors.
type Rec struct {
	api    string
	fn     reflect.Value
	args   []reflect.Value
	before string // deep dump of the arguments before the call
	out    string // deep dump of the results
	held   []reflect.Value
	nondet bool
}

// Recorder collects the calls of a flow.
type Recorder struct {
	recs []*Rec
}

// Call performs one observed call of the real function fn. Arguments are
// converted field by field to the parameter types. A panic is a violation.
func (t *T) Call(api string, fn interface{}, args ...interface{}) []interface{} {
	return t.call(api, fn, false, args)
}

// CallR is Call for a function whose answer may differ from call to call.
func (t *T) CallR(api string, fn interface{}, args ...interface{}) []interface{} {
	return t.call(api, fn, true, args)
}

func (t *T) call(api string, fn interface{}, nondet bool, args []interface{}) []interface{} {
	fv := reflect.ValueOf(fn)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		in[i] = convTo(pt, reflect.ValueOf(a))
	}
	var before string
	if t.rec != nil {
		before = dumpAll(in, true)
	}
	var res []reflect.Value
	if t.hist != nil {
		t.Do(api, func() { res = t.histCall(api, fv, in, nondet) })
	} else {
		t.Do(api, func() { res = fv.Call(in) })
	}
	if t.rec != nil {
		r := &Rec{api: api, fn: fv, args: in, before: before, out: dumpAll(res, false), held: res, nondet: nondet}
		t.rec.recs = append(t.rec.recs, r)
		if t.suite.Prop == "C17" {
			if after := dumpAll(in, true); after != before {
				t.Failf("%s changed data its caller passed in:\nbefore %s\nafter  %s", api, clip(before, 1500), clip(after, 1500))
			}
		}
	}
	out := make([]interface{}, len(res))
	for i, r := range res {
		out[i] = r.Interface()
	}
	return out
}

// replay executes the recorded call again and returns the dump of its results.
func (r *Rec) replay() (out string, panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprint(e)
		}
	}()
	return dumpAll(r.fn.Call(r.args), false), ""
}

// errOf returns the error result of a call, if any.
func errOf(out []interface{}) error {
	for _, o := range out {
		if e, ok := o.(error); ok && e != nil {
			return e
		}
	}
	return nil
}

func str(out []interface{}, i int) string { return out[i].(string) }

// ---------------------------------------------------------------- conversion

// convTo converts v to type pt: identical types pass through, structs are
// copied field by field by name, slices and pointers element by element.
func convTo(pt reflect.Type, v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return reflect.Zero(pt)
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return reflect.Zero(pt)
		}
		if pt.Kind() != reflect.Interface {
			return convTo(pt, v.Elem())
		}
	}
	if v.Type() == pt || v.Type().AssignableTo(pt) {
		return v
	}
	switch pt.Kind() {
	case reflect.Slice:
		if v.Kind() == reflect.Slice || v.Kind() == reflect.Array {
			if v.Kind() == reflect.Slice && v.IsNil() {
				return reflect.Zero(pt)
			}
			out := reflect.MakeSlice(pt, v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(convTo(pt.Elem(), v.Index(i)))
			}
			return out
		}
	case reflect.Array:
		if v.Kind() == reflect.Slice || v.Kind() == reflect.Array {
			out := reflect.New(pt).Elem()
			for i := 0; i < v.Len() && i < pt.Len(); i++ {
				out.Index(i).Set(convTo(pt.Elem(), v.Index(i)))
			}
			return out
		}
	case reflect.Ptr:
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Zero(pt)
			}
			v = v.Elem()
		}
		p := reflect.New(pt.Elem())
		p.Elem().Set(convTo(pt.Elem(), v))
		return p
	case reflect.Struct:
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Zero(pt)
			}
			v = v.Elem()
		}
		if v.Kind() == reflect.Struct {
			out := reflect.New(pt).Elem()
			for i := 0; i < pt.NumField(); i++ {
				f := v.FieldByName(pt.Field(i).Name)
				if f.IsValid() && pt.Field(i).PkgPath == "" {
					out.Field(i).Set(convTo(pt.Field(i).Type, f))
				}
			}
			return out
		}
	}
	if v.Type().ConvertibleTo(pt) {
		return v.Convert(pt)
	}
	panic(fmt.Sprintf("harness: cannot convert %s to %s", v.Type(), pt))
}

// into converts a result to the harness's type, field by field.
func into(dst interface{}, v interface{}) {
	d := reflect.ValueOf(dst).Elem()
	d.Set(convTo(d.Type(), reflect.ValueOf(v)))
}

// ---------------------------------------------------------------- deep dump

// dumpAll prints values completely, unexported fields included. With caps,
// the bytes between length and capacity are part of it, so that a call that
// appends into its caller's memory is seen.
func dumpAll(vs []reflect.Value, caps bool) string {
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteString(" | ")
		}
		dump(&sb, v, caps, 0)
	}
	return sb.String()
}

func dumpOf(v interface{}) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(v), false, 0)
	return sb.String()
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func dump(sb *strings.Builder, v reflect.Value, caps bool, depth int) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if depth > 12 {
		sb.WriteString("...")
		return
	}
	if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Type().Implements(errType) {
			sb.WriteString("error")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteString("&")
		}
		dump(sb, v.Elem(), caps, depth+1)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Slice:
		if caps && v.Cap() > v.Len() && v.CanInterface() {
			full := v.Slice(0, v.Cap())
			fmt.Fprintf(sb, "(len %d)", v.Len())
			v = full
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			sb.WriteString("x")
			b := v.Bytes()
			if len(b) > 200000 {
				fmt.Fprintf(sb, "%d:%x", len(b), rSha256(b))
			} else {
				fmt.Fprintf(sb, "%x", b)
			}
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			dump(sb, v.Index(i), caps, depth+1)
		}
		sb.WriteString("]")
	case reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			dump(sb, v.Index(i), caps, depth+1)
		}
		sb.WriteString("]")
	case reflect.Struct:
		if v.Type().String() == "big.Int" {
			if v.CanAddr() {
				fmt.Fprintf(sb, "big(%s)", fmt.Sprint(reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Interface()))
				return
			}
		}
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteString(":")
			dump(sb, v.Field(i), caps, depth+1)
		}
		sb.WriteString("}")
	case reflect.Map:
		keys := v.MapKeys()
		parts := make([]string, 0, len(keys))
		for _, k := range keys {
			var b strings.Builder
			dump(&b, k, caps, depth+1)
			b.WriteString(":")
			dump(&b, v.MapIndex(k), caps, depth+1)
			parts = append(parts, b.String())
		}
		sortStrings(parts)
		sb.WriteString("map[" + strings.Join(parts, " ") + "]")
	case reflect.Func:
		sb.WriteString("func")
	default:
		sb.WriteString(v.Type().String())
	}
}

// ---------------------------------------------------------------- hostile arguments

// deepCopy copies a value so that mutations do not reach the original.
func deepCopy(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
		return out
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return out
	}
	return v
}

// mutateValue changes one random place of v (settable) and says what it did.
func (g *Gen) mutateValue(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
		return "flip"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.U64()))
		return "int"
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.U64())
		return "uint"
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(int64(g.U64())))
		return "float"
	case reflect.String:
		v.SetString(g.HostileText(v.String()))
		return "text"
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			switch g.Intn(8) {
			case 0:
				v.Set(reflect.Zero(v.Type()))
				return "nil-bytes"
			case 1:
				v.SetBytes([]byte{})
				return "empty-bytes"
			case 2:
				v.SetBytes(g.B(g.Len(0, 100)))
				return "random-bytes"
			case 3:
				b := v.Bytes()
				v.SetBytes(append([]byte{}, b[:g.Intn(len(b)+1)]...))
				return "truncated-bytes"
			}
			v.SetBytes(g.Mutate(v.Bytes()))
			return "bytes"
		}
		n := v.Len()
		if n == 0 {
			nv := reflect.MakeSlice(v.Type(), 1, 1)
			v.Set(nv)
			return "grown-list"
		}
		switch g.Intn(10) {
		case 0:
			v.Set(reflect.Zero(v.Type()))
			return "nil-list"
		case 1:
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			return "empty-list"
		case 2:
			k := g.Intn(n)
			nv := reflect.MakeSlice(v.Type(), 0, n)
			nv = reflect.AppendSlice(nv, v.Slice(0, k))
			nv = reflect.AppendSlice(nv, v.Slice(k+1, n))
			v.Set(nv)
			return "shorter-list"
		case 3:
			nv := reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, n+1), v)
			nv = reflect.Append(nv, reflect.Zero(v.Type().Elem()))
			v.Set(nv)
			return "zero-element"
		case 4:
			nv := reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, n+1), v)
			nv = reflect.Append(nv, deepCopy(v.Index(g.Intn(n))))
			v.Set(nv)
			return "longer-list"
		case 5:
			v.Index(g.Intn(n)).Set(reflect.Zero(v.Type().Elem()))
			return "zeroed-element"
		}
		return "[]" + g.mutateValue(v.Index(g.Intn(n)))
	case reflect.Array:
		if v.Len() > 0 {
			return "array:" + g.mutateValue(v.Index(g.Intn(v.Len())))
		}
	case reflect.Ptr:
		if v.IsNil() {
			if v.Type().Elem().Kind() == reflect.Struct {
				v.Set(reflect.New(v.Type().Elem()))
				return "zero-pointer"
			}
			return "nil"
		}
		if g.P(12) {
			v.Set(reflect.Zero(v.Type()))
			return "nil-pointer"
		}
		return "*" + g.mutateValue(v.Elem())
	case reflect.Struct:
		var idx []int
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				idx = append(idx, i)
			}
		}
		if len(idx) > 0 {
			i := idx[g.Intn(len(idx))]
			return v.Type().Field(i).Name + "." + g.mutateValue(v.Field(i))
		}
	case reflect.Interface:
		if v.NumMethod() == 0 && !v.IsNil() {
			c := reflect.New(v.Elem().Type()).Elem()
			c.Set(deepCopy(v.Elem()))
			m := g.mutateValue(c)
			v.Set(c)
			return m
		}
	}
	return "unchanged"
}

// HostileText makes a malformed variant of a text argument.
func (g *Gen) HostileText(s string) string {
	switch g.Intn(10) {
	case 0:
		return ""
	case 1:
		return g.Text(g.Len(1, 80))
	case 2:
		return hx(g.B(g.Len(0, 90)))
	case 3:
		return s[:g.Intn(len(s)+1)]
	}
	if b, ok := tryHex(s); ok && len(b) > 0 && g.P(85) {
		switch g.Intn(5) {
		case 0:
			return hx(b[:g.Intn(len(b))])
		case 1:
			return hx(append(append([]byte{}, b...), g.B(g.Len(1, 40))...))
		}
		return hx(g.Mutate(b))
	}
	return g.MutateText(s)
}

// gets calls argument-less methods of a value; the name of one that does not
// exist yields nil.
func (t *T) gets(api string, v reflect.Value, names ...string) []interface{} {
	if v.Kind() != reflect.Ptr && v.CanAddr() {
		v = v.Addr()
	}
	var out []interface{}
	for _, n := range names {
		m := v.MethodByName(n)
		if !m.IsValid() {
			out = append(out, nil)
			continue
		}
		t.Do(api+"."+n, func() { out = append(out, m.Call(nil)[0].Interface()) })
	}
	return out
}

// methods calls argument-less methods of element i of the Vins of a decoded transaction.
func methods(tx interface{}, i int, names ...string) []interface{} {
	v := reflect.ValueOf(tx)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	in := v.FieldByName("Vins").Index(i)
	var out []interface{}
	for _, n := range names {
		out = append(out, in.MethodByName(n).Call(nil)[0].Interface())
	}
	return out
}
