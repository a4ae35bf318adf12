package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	cr "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

type lookT struct {
	Ident string        `json:"ident"`
	Objs  [][][2]string `json:"objs"`
	Types []string      `json:"types"`
}

type layoutT struct {
	Module  int         `json:"module"`
	Name    string      `json:"name"`
	Ok      bool        `json:"ok"`
	Pos     [][2]string `json:"pos"`
	Types   [][2]string `json:"types"`
	NoTypes []string    `json:"notypes"`
}

// addressable returns a settable copy or alias of v that may be read without restrictions
func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func join(p, f string) string {
	if p == "" {
		return f
	}
	return p + "." + f
}

// flatten lists every value that is present below v as (path, value).
// A scalar with a presence flag (field name + "Set") is present if its flag is set,
// one without a flag if it is not the zero value.
func flatten(prefix string, ptr interface{}) [][2]string {
	var out [][2]string
	v := reflect.ValueOf(ptr).Elem()
	walk(prefix, addressable(v), v.Type().Name(), true, &out)
	sort.Slice(out, func(i, j int) bool {
		if out[i][0] != out[j][0] {
			return out[i][0] < out[j][0]
		}
		return out[i][1] < out[j][1]
	})
	return out
}

func scalar(v reflect.Value) (string, bool) {
	switch v.Kind() {
	case reflect.String:
		return normal(v.String()), true
	case reflect.Bool:
		return strconv.FormatBool(v.Bool()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10), true
	case reflect.Float32:
		return canonFloat(float64(float32(v.Float()))), true
	case reflect.Float64:
		return canonFloat(v.Float()), true
	}
	return "", false
}

// normal makes a string independent of how white space within it is reported
// and shows every byte as one character
func normal(s string) string {
	rs := make([]rune, 0, len(s))
	space := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t', '\n', '\r', '\v', '\f':
			space = true
		default:
			if space && len(rs) > 0 {
				rs = append(rs, ' ')
			}
			space = false
			rs = append(rs, rune(s[i]))
		}
	}
	return string(rs)
}

// derived are values that are computed from others after parsing
var derived = map[string]bool{"RelativePositions": true, "AddressUint32": true, "errors": true}

func canonFloat(f float64) string {
	if f == 0 {
		return "0" //also minus zero
	}
	return strconv.FormatFloat(f, 'e', -1, 64)
}

// refField is a field of a structure as it was when the specification was written
type refField struct {
	Name string
	Kind string
	Elem string //name of the structure in it, if any
}

func elemType(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t.Kind() == reflect.Map {
		t = t.Elem()
	}
	return t
}

// shapeOf describes all structures below t
func shapeOf(t reflect.Type, shape map[string][]refField) {
	t = elemType(t)
	if _, known := shape[t.Name()]; known || t.Kind() != reflect.Struct {
		return
	}
	fs := []refField{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		r := refField{Name: f.Name, Kind: f.Type.Kind().String()}
		if e := elemType(f.Type); e.Kind() == reflect.Struct {
			r.Elem = e.Name()
		}
		fs = append(fs, r)
	}
	shape[t.Name()] = fs
	for i := 0; i < t.NumField(); i++ {
		shapeOf(t.Field(i).Type, shape)
	}
}

var shape = func() map[string][]refField {
	res := map[string][]refField{}
	if err := json.Unmarshal([]byte(shapeJSON), &res); err != nil {
		panic(err)
	}
	return res
}()

type shapeKey struct {
	t   reflect.Type
	ref string
}

var shapeCache sync.Map

// fieldsOf gives every field of a structure the name the specification knows it by. What the structure is called does not matter,
// a field that cannot be used outside of the package may have got another name (it is then recognised by its kind and
// place among the other new ones), a field the specification does not know is of no interest ("").
func fieldsOf(t reflect.Type, ref string) []refField {
	if c, ok := shapeCache.Load(shapeKey{t, ref}); ok {
		return c.([]refField)
	}
	res := make([]refField, t.NumField())
	old, known := shape[ref]
	if !known {
		for i := range res {
			res[i] = refField{Name: t.Field(i).Name, Elem: elemType(t.Field(i).Type).Name()}
		}
		shapeCache.Store(shapeKey{t, ref}, res)
		return res
	}
	taken := map[string]bool{}
	for i := range res {
		for _, o := range old {
			if o.Name == t.Field(i).Name {
				res[i] = o
				taken[o.Name] = true
			}
		}
	}
	for i := range res {
		f := t.Field(i)
		if res[i].Name != "" || f.IsExported() {
			continue
		}
		for _, o := range old {
			if !taken[o.Name] && !(o.Name[0] >= 'A' && o.Name[0] <= 'Z') && o.Kind == f.Type.Kind().String() &&
				strings.HasSuffix(strings.ToLower(o.Name), "set") == strings.HasSuffix(strings.ToLower(f.Name), "set") {
				res[i] = o
				taken[o.Name] = true
				break
			}
		}
	}
	shapeCache.Store(shapeKey{t, ref}, res)
	return res
}

func walk(path string, v reflect.Value, ref string, present bool, out *[][2]string) {
	v = addressable(v)
	if s, ok := scalar(v); ok {
		if present {
			*out = append(*out, [2]string{path, s})
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			walk(path, v.Elem(), ref, true, out)
		}
	case reflect.Slice, reflect.Array:
		if v.Len() > 0 {
			*out = append(*out, [2]string{path + "#", strconv.Itoa(v.Len())})
		}
		for i := 0; i < v.Len(); i++ {
			walk(path+"["+strconv.Itoa(i)+"]", v.Index(i), ref, true, out)
		}
	case reflect.Map:
		if v.Len() > 0 {
			*out = append(*out, [2]string{path + "#", strconv.Itoa(v.Len())})
		}
		it := v.MapRange()
		for it.Next() {
			k, _ := scalar(addressable(it.Key()))
			walk(path+"{"+k+"}", it.Value(), ref, true, out)
		}
	case reflect.Struct:
		fields := fieldsOf(v.Type(), ref)
		flag := flagsOf(v.Type(), fields)
		for i := 0; i < v.NumField(); i++ {
			name := fields[i].Name
			if name == "" || derived[name] || flag[i] == isFlag {
				continue
			}
			fv := addressable(v.Field(i))
			if flag[i] >= 0 {
				//present if the flag says so
				if addressable(v.Field(flag[i])).Bool() {
					walk(join(path, name), fv, fields[i].Elem, true, out)
				}
			} else if _, isScalar := scalar(fv); isScalar {
				if !fv.IsZero() {
					walk(join(path, name), fv, fields[i].Elem, true, out)
				}
			} else {
				walk(join(path, name), fv, fields[i].Elem, true, out)
			}
		}
	}
}

const isFlag, noFlag = -2, -1

// flagsOf finds the presence flag of every field of a struct. A flag is named like its field with "Set" behind it;
// one that is named like no field belongs to the field in front of it.
func flagsOf(t reflect.Type, fields []refField) []int {
	res := make([]int, t.NumField())
	for i := range res {
		res[i] = noFlag
	}
	for i := range res {
		n := strings.ToLower(fields[i].Name)
		if !strings.HasSuffix(n, "set") || t.Field(i).Type.Kind() != reflect.Bool {
			continue
		}
		owner := -1
		for j := range res {
			if strings.ToLower(fields[j].Name) == strings.TrimSuffix(n, "set") {
				owner = j
			}
		}
		if owner < 0 && i > 0 && t.Field(i-1).Type.Kind() != reflect.Bool {
			owner = i - 1
			if derived[fields[owner].Name] && owner > 0 {
				owner--
			}
		}
		if owner >= 0 {
			res[owner] = i
			res[i] = isFlag
		}
	}
	return res
}

func digestLeaves(l [][2]string) string {
	h := sha256.New()
	for _, x := range l {
		fmt.Fprintf(h, "%q=%q\n", x[0], x[1])
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func digestImage(m map[uint32]byte) string {
	return digestRuns(imageRuns(m))
}

func digestRuns(runs [][3]interface{}) string {
	h := sha256.New()
	for _, r := range runs {
		fmt.Fprintf(h, "%v\n", r)
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func lookups(cd *cr.CalibrationData, ids []string) []lookT {
	var res []lookT
	for _, id := range ids {
		l := lookT{Ident: id, Objs: [][][2]string{}, Types: []string{}}
		for _, o := range cd.GetObjectByIdent(id) {
			v := reflect.ValueOf(o)
			if v.Kind() == reflect.Ptr {
				v = v.Elem()
			}
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			l.Objs = append(l.Objs, flatten("", p.Interface()))
			l.Types = append(l.Types, v.Type().Name())
		}
		res = append(res, l)
	}
	return res
}

var components = []string{"AxisPtsX", "AxisPtsY", "AxisPtsZ", "AxisPts4", "AxisPts5", "AxisRescaleX",
	"DistOpX", "DistOpY", "DistOpZ", "DistOp4", "DistOp5", "FncValues", "Identification",
	"NoAxisPtsX", "NoAxisPtsY", "NoAxisPtsZ", "NoAxisPts4", "NoAxisPts5", "NoRescaleX",
	"OffsetX", "OffsetY", "OffsetZ", "Offset4", "Offset5", "Reserved",
	"RipAddrW", "RipAddrX", "RipAddrY", "RipAddrZ", "RipAddr4", "RipAddr5",
	"SrcAddrX", "SrcAddrY", "SrcAddrZ", "SrcAddr4", "SrcAddr5",
	"ShiftOpX", "ShiftOpY", "ShiftOpZ", "ShiftOp4", "ShiftOp5"}

func layouts(a *a2l.A2L) []layoutT {
	var res []layoutT
	for mi := range a.Project.Modules {
		m := &a.Project.Modules[mi]
		for name, rl := range m.RecordLayouts {
			rl := rl
			l := layoutT{Module: mi, Name: normal(name), Pos: [][2]string{}, Types: [][2]string{}, NoTypes: []string{}}
			pos, err := rl.GetRecordLayoutRelativePositions()
			l.Ok = err == nil
			if err == nil {
				for p, n := range pos {
					l.Pos = append(l.Pos, [2]string{strconv.Itoa(int(p)), n})
				}
			}
			//asking again must not make a difference
			again, err2 := rl.GetRecordLayoutRelativePositions()
			if (err == nil) != (err2 == nil) || err == nil && !reflect.DeepEqual(pos, again) {
				l.Pos = append(l.Pos, [2]string{"second call", "differs"})
				l.Ok = !l.Ok
			}
			for _, c := range components {
				dt, err := rl.GetDatatypeByFieldName(c)
				if err == nil {
					l.Types = append(l.Types, [2]string{c, string(dt)})
				} else {
					l.NoTypes = append(l.NoTypes, c)
				}
			}
			res = append(res, l)
		}
	}
	sort.Slice(res, func(i, j int) bool {
		if res[i].Module != res[j].Module {
			return res[i].Module < res[j].Module
		}
		return res[i].Name < res[j].Name
	})
	return res
}

func datatypes() [][2]string {
	var res [][2]string
	for _, n := range []string{"UBYTE", "SBYTE", "UWORD", "SWORD", "ULONG", "SLONG", "A_UINT64", "A_INT64", "FLOAT16_IEEE", "FLOAT32_IEEE", "FLOAT64_IEEE"} {
		d := a2l.DataTypeEnum(n)
		res = append(res, [2]string{"len:" + n, strconv.Itoa(int(d.GetDatatypeLength()))})
		res = append(res, [2]string{"str:" + n, d.String()})
		res = append(res, [2]string{"typ:" + n, fmt.Sprintf("%T", d.GetType())})
	}
	for _, n := range []string{"BYTE", "WORD", "LONG"} {
		d := a2l.DataSizeEnum(n)
		res = append(res, [2]string{"size:" + n, strconv.Itoa(int(d.GetDataSizeLength()))})
	}
	for _, n := range []string{"LITTLE_ENDIAN", "BIG_ENDIAN", "MSB_LAST", "MSB_FIRST", "MSB_FIRST_MSW_LAST", "MSB_LAST_MSW_FIRST"} {
		d := a2l.ByteOrderEnum(n)
		res = append(res, [2]string{"order:" + n, d.String()})
	}
	return res
}
