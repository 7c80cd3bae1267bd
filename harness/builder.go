package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// The builder interface, driven by reflection: registers of objects.

// A bop is an operation of Builder.tla.
type bop struct {
	Op string `json:"op"`
	R  string `json:"r"`
	K  string `json:"k"`
	D  *Node  `json:"d"`
}

func (o bop) String() string {
	switch o.Op {
	case "set":
		return fmt.Sprintf("set %s to %s", o.R, o.D)
	case "put":
		return fmt.Sprintf("put %s=%s into %s", o.K, o.D, o.R)
	case "del":
		return fmt.Sprintf("delete %s from %s", o.K, o.R)
	}
	return o.Op + " " + o.R
}

// methodName is the name of the accessor of a register.
func methodName(r string) string {
	switch r {
	case "baseUri":
		return "BaseURI"
	case "baseUriParameters":
		return "BaseURIParameters"
	case "mediaType":
		return "MediaTypes"
	case "attribute":
		return "IsAttribute"
	case "wrapped":
		return "IsWrapped"
	case "xml":
		return "XML"
	}
	return strings.ToUpper(r[:1]) + r[1:]
}

// parsedTypes reads a types section with the library.
func parsedTypes(types *Node) (raml.DataTypeMap, error) {
	text, err := yamlText(kv("types", types), nil)
	if err != nil {
		return nil, err
	}
	doc, err, crash := openDoc(text, true)
	if crash != "" {
		return nil, fmt.Errorf("%s", crash)
	}
	if err != nil {
		return nil, err
	}
	return typesOf(doc), nil
}

func parsedType(d *Node) (interface{}, error) {
	ts, err := parsedTypes(kv("T", d))
	if err != nil {
		return nil, err
	}
	return top(ts), nil
}

// typeExpr is a type expression of a kind.
func typeExpr(kind string) string {
	switch kind {
	case "custom":
		return "Person"
	case "union":
		return "Cat | Dog"
	}
	return kind
}

func accessor(obj interface{}, name string) interface{} {
	m := reflect.ValueOf(obj).MethodByName(name)
	if !m.IsValid() {
		panic("no accessor " + name)
	}
	return iface(m.Call(nil)[0])
}

func parsedProperty(d *Node) (interface{}, error) {
	t, err := parsedType(kv("type", "object", "properties", kv("T", d)))
	if err != nil {
		return nil, err
	}
	return prop(t, "T"), nil
}

func parsedExample(kind string, d *Node) (interface{}, error) {
	t, err := parsedType(kv("type", typeExpr(kind), "example", d))
	if err != nil {
		return nil, err
	}
	return accessor(t, "Example"), nil
}

func parsedXML(d *Node) (interface{}, error) {
	t, err := parsedType(kv("type", "string", "xml", d))
	if err != nil {
		return nil, err
	}
	return accessor(t, "XML"), nil
}

func parsedDocs(d *Node) ([]raml.Documentation, error) {
	text, err := yamlText(kv("title", "t", "documentation", d), nil)
	if err != nil {
		return nil, err
	}
	doc, err, crash := openDoc(text, false)
	if crash != "" {
		return nil, fmt.Errorf("%s", crash)
	}
	if err != nil {
		return nil, err
	}
	return doc.(raml.APISpec).Documentation(), nil
}

// textFormat is a format of the user's own.
type textFormat struct{ s string }

func (t *textFormat) String() string                    { return t.s }
func (t *textFormat) UnmarshalYAML(n *yaml.Node) error  { t.s = n.Value; return nil }
func (t *textFormat) MarshalYAML() (interface{}, error) { return t.s, nil }

// native is a Go value for a tree, as users would pass it.
func native(d *Node, salt int) interface{} {
	switch d.T {
	case "null":
		return nil
	case "str":
		return d.V
	case "ts", "inc", "uint":
		return yamlNode(d, nil, false)
	case "bool":
		return d.V == "true"
	case "int":
		i, _ := strconv.ParseInt(d.V, 10, 64)
		if salt%2 == 0 && int64(int(i)) == i {
			return int(i)
		}
		return i
	case "float", "num":
		if d.T == "float" && !strings.ContainsAny(d.V, ".eE") {
			return yamlNode(d, nil, false) // a Go float would be written as a whole number
		}
		f, _ := strconv.ParseFloat(d.V, 64)
		return f
	case "seq":
		out := []interface{}{}
		for _, c := range d.C {
			out = append(out, native(c, salt))
		}
		return out
	}
	if len(d.C) == 2 && salt%2 == 0 {
		return map[string]interface{}{d.C[0].V: native(d.C[1], salt)}
	}
	return yamlNode(d, nil, false)
}

// newMap is an empty map of the library of the named type, in plain mode.
func newMap(name string) reflect.Value {
	for _, k := range mapKinds {
		if k.name == name {
			m := reflect.ValueOf(k.make(0))
			return m.MethodByName("SerializeOrdered").Call([]reflect.Value{reflect.ValueOf(false)})[0].Elem()
		}
	}
	return reflect.Value{}
}

// A bobj is a real object under test.
type bobj struct {
	class, kind string
	x           interface{}
	salt        int
	later       []func()      // what remains to be done with a map that was handed over
	given       reflect.Value // the argument of the next setting, if valid
	used        reflect.Value // the argument of the last one
}

// elem is the entry of a collection for a tree.
func (b *bobj) elem(r string, d *Node) (interface{}, error) {
	switch r {
	case "annotations":
		m := raml.NewUntypedMap(0).SerializeOrdered(false)
		for i := 0; i+1 < len(d.C); i += 2 {
			m.Put(d.C[i].V, native(d.C[i+1], b.salt))
		}
		return m, nil
	case "facetDefinitions":
		return parsedTypes(d)
	case "examples":
		return parsedExample(b.kind, d)
	case "properties":
		return parsedProperty(d)
	case "types", "schemas":
		return parsedType(d)
	case "uses":
		return d.V, nil
	}
	if b.salt%3 == 0 {
		return yamlNode(d, nil, false), nil
	}
	return native(d, b.salt), nil
}

// value is the Go value of type t for setting a register.
func (b *bobj) value(r string, t reflect.Type, d *Node) (v reflect.Value, err error) {
	switch r {
	case "xml", "example", "items":
		var x interface{}
		switch r {
		case "xml":
			x, err = parsedXML(d)
		case "items":
			x, err = parsedType(d)
		default:
			x, err = parsedExample(b.kind, d)
		}
		if err != nil {
			return v, err
		}
		return asType(x, t), nil
	case "documentation":
		x, err := parsedDocs(d)
		if err != nil {
			return v, err
		}
		if x == nil {
			x = []raml.Documentation{}
		}
		return asType(x, t), nil
	}
	if t.Kind() == reflect.Interface && t.NumMethod() > 0 {
		if m := newMap(t.Name()); m.IsValid() {
			put := m.MethodByName("Put")
			for i := 0; i+1 < len(d.C); i += 2 {
				e, err := b.elem(r, d.C[i+1])
				if err != nil {
					return v, err
				}
				args := []reflect.Value{asType(d.C[i].V, put.Type().In(0)), asType(e, put.Type().In(1))}
				if b.salt%4 == 1 || b.salt%4 == 2 && i > 0 {
					// The map is handed over first: the entries are the object's all the same.
					b.later = append(b.later, func() { put.Call(args) })
				} else {
					put.Call(args)
				}
			}
			return asType(iface(m), t), nil
		}
		if r == "format" {
			if t2, err := parsedType(kv("type", typeExpr(b.kind), "format", d)); err == nil && b.salt%2 == 0 {
				return asType(accessor(t2, "Format"), t), nil
			}
			return asType(&textFormat{d.V}, t), nil
		}
		return v, fmt.Errorf("no value of type %s", t)
	}
	switch t.Kind() {
	case reflect.Slice:
		out := reflect.MakeSlice(t, 0, len(d.C)+b.salt%2)
		for _, c := range d.C {
			e, err := b.value(r, t.Elem(), c)
			if err != nil {
				return v, err
			}
			out = reflect.Append(out, e)
		}
		return out, nil
	case reflect.Interface:
		if b.salt%3 == 0 {
			return asType(yamlNode(d, nil, false), t), nil
		}
		return asType(native(d, b.salt), t), nil
	case reflect.String:
		return reflect.ValueOf(d.V).Convert(t), nil
	case reflect.Bool:
		return reflect.ValueOf(d.V == "true").Convert(t), nil
	case reflect.Int, reflect.Int64:
		i, err := strconv.ParseInt(d.V, 10, 64)
		return reflect.ValueOf(i).Convert(t), err
	case reflect.Uint, reflect.Uint64:
		i, err := strconv.ParseUint(d.V, 10, 64)
		return reflect.ValueOf(i).Convert(t), err
	case reflect.Float64:
		f, err := strconv.ParseFloat(d.V, 64)
		return reflect.ValueOf(f).Convert(t), err
	}
	return v, fmt.Errorf("no value of type %s", t)
}

// errNoMethod: the interface has no such operation.
type errNoMethod struct{ name string }

func (e errNoMethod) Error() string { return "no method " + e.name }

// apply performs an operation.  problem is a deviation seen right away, err
// means that the operation could not be prepared.
func (b *bobj) apply(op bop) (problem string, err error) {
	defer func() {
		if e := recover(); e != nil {
			problem = fmt.Sprintf("panic: %v", e)
		}
	}()
	v := reflect.ValueOf(b.x)
	given := b.given
	b.later, b.given, b.used = nil, reflect.Value{}, reflect.Value{}
	switch op.Op {
	case "set", "unset", "nil":
		name := "Set" + methodName(op.R)
		if op.Op == "unset" {
			name = "Unset" + methodName(op.R)
		}
		m := v.MethodByName(name)
		if d, ok := b.x.(raml.DataType); ok && op.Op == "set" && op.R == "type" && (b.salt%3 == 0 || !m.IsValid()) {
			d.OverrideType(op.D.V) // the same without a result
			break
		}
		if !m.IsValid() {
			return "", errNoMethod{name}
		}
		args := []reflect.Value{}
		switch op.Op {
		case "set":
			if given.IsValid() && given.Type() == m.Type().In(0) {
				args = append(args, given)
				break
			}
			a, err := b.value(op.R, m.Type().In(0), op.D)
			if err != nil {
				return "", err
			}
			b.used = a
			args = append(args, a)
		case "nil":
			args = append(args, reflect.Zero(m.Type().In(0)))
		}
		ret := m.Call(args)
		for _, f := range b.later {
			f()
		}
		b.later = nil
		if len(ret) == 1 && !same(iface(ret[0]), b.x) {
			return name + " returns another object", nil
		}
	case "put", "del":
		m := v.MethodByName(methodName(op.R))
		if !m.IsValid() {
			return "", errNoMethod{methodName(op.R)}
		}
		coll := m.Call(nil)[0]
		if isNil(coll) {
			return methodName(op.R) + " reports no collection at all", nil
		}
		name := "Put"
		if op.Op == "del" {
			name = "Delete"
		}
		f := coll.MethodByName(name)
		args := []reflect.Value{asType(op.K, f.Type().In(0))}
		if op.Op == "put" {
			e, err := b.elem(op.R, op.D)
			if err != nil {
				return "", err
			}
			args = append(args, asType(e, f.Type().In(1)))
		}
		f.Call(args)
	}
	// Collections stay usable.
	switch op.R {
	case "annotations", "facetDefinitions", "examples", "properties", "extraFacets", "types", "schemas", "uses", "traits",
		"resourceTypes", "annotationTypes", "securitySchemes", "baseUriParameters", "resources":
		if isNil(v.MethodByName(methodName(op.R)).Call(nil)[0]) {
			return methodName(op.R) + " reports no collection at all", nil
		}
	}
	return "", nil
}

// project is the projection of an object.
func (b *bobj) project() interface{} {
	switch b.class {
	case "type":
		return projectType(b.x)
	case "example":
		return projectExample(b.kind, b.x)
	case "xml":
		return projectXml(b.x.(raml.XML))
	case "entry":
		return projectDoc(b.x.(raml.Documentation))
	}
	return projectDocument(b.x)
}

// diffs compares a value of the specification with a projection.
func diffObjects(exp, got interface{}) []diff {
	d := &differ{}
	switch a := exp.(type) {
	case *MType:
		d.typ("type", a, got.(*MType))
	case *MEx:
		d.ex("example", a, got.(*MEx))
	case *MXml:
		d.xml("xml", a, got.(*MXml))
	case *MDoc:
		d.doc("entry", a, got.(*MDoc))
	case *MDocument:
		d.document(a, got.(*MDocument))
	}
	return d.out
}

func decodeObject(class string, raw json.RawMessage) interface{} {
	var out interface{}
	switch class {
	case "type":
		out = &MType{}
	case "example":
		out = &MEx{}
	case "xml":
		out = &MXml{}
	case "entry":
		out = &MDoc{}
	default:
		out = &MDocument{}
	}
	check(json.Unmarshal(raw, out))
	return out
}

// freshObject makes a new object with the builder functions or the parser.
func freshObject(class, kind string, from *Node, fresh bool, salt int) (interface{}, error) {
	switch class {
	case "type":
		if fresh && salt%2 == 0 {
			switch kind {
			case "any":
				return rbuild.NewAnyDataType(), nil
			case "array":
				return rbuild.NewArrayDataType(), nil
			case "boolean":
				return rbuild.NewBoolDataType(), nil
			case "integer":
				return rbuild.NewIntegerDataType(), nil
			case "number":
				return rbuild.NewNumberDataType(), nil
			case "string":
				return rbuild.NewStringDataType(), nil
			}
		}
		if salt%3 == 0 {
			return parsedProperty(from)
		}
		return parsedType(from)
	case "example":
		if fresh {
			return freshExample(kind)
		}
		return parsedExample(kind, from)
	case "xml":
		return parsedXML(from)
	case "entry":
		ds, err := parsedDocs(seqOf(from))
		if err != nil {
			return nil, err
		}
		return ds[0], nil
	}
	if fresh && salt%2 == 0 {
		if class == "lib" {
			return rbuild.NewLibrary(), nil
		}
		return rbuild.NewAPISpec(), nil
	}
	text, err := docText(class, from, nil)
	if err != nil {
		return nil, err
	}
	doc, err, crash := openDoc(text, class == "lib")
	if crash != "" {
		return nil, fmt.Errorf("%s", crash)
	}
	return doc, err
}

// freshExample is an example without a value: only the parser makes examples.
func freshExample(kind string) (interface{}, error) {
	e, err := parsedExample(kind, kv("strict", boolNode(true)))
	if err != nil {
		return nil, err
	}
	if u := reflect.ValueOf(e).MethodByName("UnsetValue"); u.IsValid() {
		u.Call(nil)
	}
	return e, nil
}

type builderCase struct {
	Class string          `json:"class"`
	Kind  string          `json:"kind"`
	From  *Node           `json:"from"`
	Fresh bool            `json:"fresh"`
	First json.RawMessage `json:"first"`
	Ops   []bop           `json:"ops"`
	Mid   json.RawMessage `json:"mid"` // before the last operation
	Obj   json.RawMessage `json:"obj"`
	Out   *Node           `json:"out"`
	Back  bool            `json:"back"`
}

func init() { commands["builder-replay"] = builderReplay }

// builderReplay performs every modelled sequence of builder calls.
func builderReplay(o options, res *Result) {
	lines := [][]byte{}
	readLines(o.in, func(b []byte) { lines = append(lines, append([]byte{}, b...)) })
	parallel(len(lines), func(i int) {
		var c builderCase
		check(json.Unmarshal(lines[i], &c))
		local := newResult()
		defer func() { res.merge(local) }()
		if o.mode == "apart" {
			replayApart(c, i+int(o.seed), local)
		} else {
			replayBuilder(c, i+int(o.seed), local)
		}
		if i%(len(lines)/3+1) == 0 {
			local.sample(1, map[string]interface{}{"start": c.From, "class": c.Class, "ops": c.Ops, "expected": c.Obj})
		}
	})
	res.add("cases", len(lines))
}

// replayApart performs all but the last operation on two objects and the last
// on only one of them: the other one, and objects made later, must not notice.
func replayApart(c builderCase, salt int, res *Result) {
	where := c.Class
	if c.Kind != "" {
		where = c.Kind + " " + c.Class
	}
	fail := func(what string, ds []diff) {
		for _, d := range ds {
			res.fail(Mismatch{"apart:" + d.field, where, what + ": " + d.what, map[string]interface{}{"class": c.Class, "kind": c.Kind, "start": c.From,
				"fresh": c.Fresh, "salt": salt, "ops": c.Ops}})
		}
	}
	if crash := guarded(func() {
		make := func() *bobj {
			x, err := freshObject(c.Class, c.Kind, c.From, c.Fresh, salt)
			if err != nil || isNil(reflect.ValueOf(x)) {
				return nil
			}
			return &bobj{class: c.Class, kind: c.Kind, x: x, salt: salt}
		}
		a, b := make(), make()
		if a == nil || b == nil {
			res.add("unbuildable", 1)
			return
		}
		for i, op := range c.Ops {
			if _, err := a.apply(op); err != nil {
				return
			}
			if i < len(c.Ops)-1 {
				if last := c.Ops[len(c.Ops)-1].Op; i == len(c.Ops)-2 && op.Op == "set" && last != "put" && last != "del" {
					// Both are given the same collection, list or object: they share
					// it for as long as both hold it.
					b.given = a.used
				}
				b.apply(op)
			}
			if i == len(c.Ops)-2 {
				// They are in the same state here; if not that of the specification,
				// this is the concern of others.
				if len(diffObjects(decodeObject(c.Class, c.Mid), b.project())) > 0 {
					res.add("off course", 1)
					return
				}
			}
		}
		fail("another object changed", diffObjects(decodeObject(c.Class, c.Mid), b.project()))
		writtenObject(b.x)
		fail("an object changed when another one was written", diffObjects(decodeObject(c.Class, c.Obj), a.project()))
		if n := make(); n != nil {
			fail("an object made afterwards is different", diffObjects(decodeObject(c.Class, c.First), n.project()))
		}
		res.add("checked", 1)
	}); crash != "" {
		res.fail(Mismatch{"crash:inspect", where, crash, c.Ops})
	}
}

func replayBuilder(c builderCase, salt int, res *Result) {
	where := c.Class
	if c.Kind != "" {
		where = c.Kind + " " + c.Class
	}
	hist := []string{}
	fail := func(stage string, ds ...diff) {
		for _, d := range ds {
			res.fail(Mismatch{stage + ":" + d.field, where, d.what, map[string]interface{}{"class": c.Class, "kind": c.Kind, "start": c.From,
				"fresh": c.Fresh, "salt": salt, "ops": c.Ops, "calls": hist}})
		}
	}
	reg := "reg-" + c.Class
	var x interface{}
	var err error
	if crash := guarded(func() { x, err = freshObject(c.Class, c.Kind, c.From, c.Fresh, salt) }); crash != "" || err != nil || isNil(reflect.ValueOf(x)) {
		res.add("unbuildable", 1)
		fail(reg, diff{"start", fmt.Sprintf("the object to start from cannot be made: %s %v", crash, err)})
		return
	}
	b := &bobj{class: c.Class, kind: c.Kind, x: x, salt: salt}
	first := decodeObject(c.Class, c.First)
	ok := false
	if crash := guarded(func() { ok = len(diffObjects(first, b.project())) == 0 }); crash != "" || !ok {
		res.add("unbuildable", 1)
		for _, d := range diffObjects(first, b.project()) {
			fail(reg, diff{"start", "the object to start from is not what it should be: " + d.what})
		}
		return
	}
	for _, op := range c.Ops {
		hist = append(hist, op.String())
		problem, err := b.apply(op)
		if err != nil {
			res.add("impossible", 1)
			fail(reg, diff{op.R, "the operation cannot be performed: " + err.Error()})
			return
		}
		if problem != "" {
			fail(reg, diff{op.R, problem})
			return
		}
		res.add("calls", 1)
	}
	exp := decodeObject(c.Class, c.Obj)
	var ds []diff
	if crash := guarded(func() { ds = diffObjects(exp, b.project()) }); crash != "" {
		fail("crash", diff{"inspect", "an accessor panics: " + crash})
		return
	}
	fail(reg, ds...)
	res.add("checked", 1)
	if len(ds) > 0 {
		return
	}

	// What was built can be written and read again.
	var got *Node
	if crash := guarded(func() { got = writtenObject(b.x) }); crash != "" {
		fail("crash", diff{"write", "writing panics: " + crash})
		return
	}
	if c.Class == "api" || c.Class == "lib" {
		if got.T == "null" {
			got = mapOf()
		}
		fail("builtwrite", documentDiffs(c.Class, c.Out, got)...)
	} else if c.Class != "example" || c.Back {
		fail("builtwrite", writtenDiffs(c.Out, got)...)
	}
	if !c.Back {
		return
	}
	var doc, doc2 interface{}
	var before *MDocument
	crash := guarded(func() { doc = documentWith(b); before = projectDocument(doc) })
	if crash != "" {
		fail("built", diff{c.Class, "a document with it cannot be made: " + crash})
		return
	}
	text, err, crash := writeDoc(doc)
	if crash != "" || err != nil {
		fail("built", diff{c.Class, fmt.Sprintf("it cannot be written: %v%s", err, crash)})
		return
	}
	_, lib := doc.(raml.Library)
	doc2, err, crash = openDoc(text, lib)
	if crash != "" || err != nil {
		fail("built", diff{c.Class, fmt.Sprintf("what was written is rejected: %v%s\n%s", err, crash, text)})
		return
	}
	if crash := guarded(func() {
		d := &differ{}
		d.document(before, projectDocument(doc2))
		for _, x := range d.out {
			fail("built", diff{x.field, x.what + "\n" + text})
		}
	}); crash != "" {
		fail("crash", diff{"inspect", "an accessor panics: " + crash})
	}
	res.add("written", 1)
}

func writtenObject(x interface{}) *Node {
	if m, ok := x.(yaml.Marshaler); ok {
		if _, isDoc := x.(interface{ Uses() raml.StringMap }); isDoc {
			v, err := m.MarshalYAML()
			if err != nil {
				return scalar("error", err.Error())
			}
			return yamlOf(v)
		}
	}
	return yamlOf(x)
}

// documentWith is a built document that contains the object.
func documentWith(b *bobj) interface{} {
	lib := rbuild.NewLibrary()
	switch b.class {
	case "api", "lib":
		return b.x
	case "type":
		lib.Types().Put("T", b.x.(raml.DataType))
	case "entry":
		return rbuild.NewAPISpec().SetTitle("t").SetDocumentation([]raml.Documentation{b.x.(raml.Documentation)})
	case "xml":
		lib.Types().Put("T", rbuild.NewStringDataType().SetXML(b.x.(raml.XML)))
	case "example":
		t, err := parsedType(kv("type", typeExpr(b.kind)))
		if err != nil {
			panic(err)
		}
		m := reflect.ValueOf(t).MethodByName("SetExample")
		m.Call([]reflect.Value{asType(b.x, m.Type().In(0))})
		ms := reflect.ValueOf(t).MethodByName("Examples").Call(nil)[0]
		put := ms.MethodByName("Put")
		put.Call([]reflect.Value{reflect.ValueOf("one"), asType(b.x, put.Type().In(1))})
		lib.Types().Put("T", t.(raml.DataType))
	}
	return lib
}
