package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// Projection of library objects to the values of the specification, through
// their public accessors only.

type facetDef struct {
	key, form, method string
	list              bool
	def               *Node // value that means "not set"
}

func fd(key, form string, def *Node) facetDef {
	return facetDef{key, form, strings.ToUpper(key[:1]) + key[1:], false, def}
}
func fl(key, form string) facetDef {
	f := fd(key, form, nil)
	f.list = true
	return f
}

func intNode(v string) *Node { return scalar("int", v) }
func boolNode(b bool) *Node  { return scalar("bool", fmt.Sprint(b)) }

const unbounded = "2147483647"

var facetDefs = func() map[string][]facetDef {
	m := map[string][]facetDef{}
	raws := []facetDef{fd("default", "raw", nil), fl("enum", "raw")}
	m["any"], m["custom"], m["union"] = raws, raws, raws
	m["array"] = []facetDef{fd("default", "rawlist", nil), fl("enum", "raw"), fd("uniqueItems", "flag", boolNode(false)),
		fd("minItems", "count", intNode("0")), fd("maxItems", "count", intNode(unbounded))}
	m["boolean"] = []facetDef{fd("default", "flag", nil), fl("enum", "flag")}
	m["date-only"] = []facetDef{fd("default", "date", nil), fl("enum", "date")}
	m["datetime-only"] = m["date-only"]
	m["datetime"] = append(append([]facetDef{}, m["date-only"]...), fd("format", "text", nil))
	m["file"] = append(append([]facetDef{}, raws...), fl("fileTypes", "text"), fd("minLength", "count", intNode("0")), fd("maxLength", "count", intNode(unbounded)))
	for kind, form := range map[string]string{"integer": "int", "number": "num"} {
		m[kind] = []facetDef{fd("default", form, nil), fl("enum", form), fd("minimum", form, nil), fd("maximum", form, nil),
			fd("format", "text", nil), fd("multipleOf", "num", nil)}
	}
	m["object"] = append(append([]facetDef{}, raws...), fd("minProperties", "count", nil), fd("maxProperties", "count", nil),
		fd("additionalProperties", "flag", boolNode(true)), fd("discriminator", "text", nil), fd("discriminatorValue", "raw", nil))
	m["string"] = []facetDef{fd("default", "text", nil), fl("enum", "text"), fd("pattern", "text", nil),
		fd("minLength", "count", intNode("0")), fd("maxLength", "count", nil)}
	m["time-only"] = []facetDef{fd("default", "text", nil), fl("enum", "text")}
	for k, v := range m {
		m[k] = append([]facetDef{fd("displayName", "text", nil), fd("description", "text", nil)}, v...)
	}
	return m
}()

var exampleForm = map[string]string{"any": "raw", "custom": "raw", "file": "raw", "object": "raw", "union": "raw", "array": "rawlist",
	"boolean": "flag", "date-only": "date", "datetime": "date", "datetime-only": "date", "integer": "int", "number": "num",
	"string": "text", "time-only": "text"}

var exampleParts = []facetDef{fd("displayName", "text", nil), fd("description", "text", nil), fd("strict", "flag", boolNode(true))}
var xmlParts = []facetDef{
	{"attribute", "flag", "IsAttribute", false, nil}, {"wrapped", "flag", "IsWrapped", false, nil},
	fd("name", "text", nil), fd("namespace", "text", nil), fd("prefix", "text", nil)}
var apiParts = []facetDef{fd("version", "text", nil), {"baseUri", "text", "BaseURI", false, nil}, fd("description", "text", nil),
	fl("protocols", "text"), {"mediaType", "text", "MediaTypes", true, nil}, fl("securedBy", "text")}
var libParts = []facetDef{fd("usage", "text", nil)}
var apiRaws = map[string]string{"securitySchemes": "SecuritySchemes", "baseUriParameters": "BaseURIParameters", "traits": "Traits",
	"annotationTypes": "AnnotationTypes", "resourceTypes": "ResourceTypes"}
var libRaws = map[string]string{"securitySchemes": "SecuritySchemes", "traits": "Traits",
	"annotationTypes": "AnnotationTypes", "resourceTypes": "ResourceTypes"}

// isNil tells whether an interface or pointer holds nothing.
func isNil(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func:
		return v.IsNil() || (v.Kind() == reflect.Interface && isNil(v.Elem()))
	}
	return false
}

// valueNode is the tree of a value of the given form.
func valueNode(form string, v interface{}) *Node {
	switch x := v.(type) {
	case *yaml.Node:
		return treeOf(x)
	case nil:
		return null()
	}
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr && !rv.IsNil() {
		if y, ok := rv.Interface().(*yaml.Node); ok {
			return treeOf(y)
		}
		if _, ok := rv.Interface().(fmt.Stringer); ok && form == "text" {
			return str(rv.Interface().(fmt.Stringer).String())
		}
		rv = rv.Elem()
	}
	switch form {
	case "text", "date":
		if s, ok := rv.Interface().(string); ok {
			return str(s)
		}
		if s, ok := rv.Interface().(fmt.Stringer); ok {
			return str(s.String())
		}
	case "flag":
		return boolNode(rv.Bool())
	case "count", "int":
		switch rv.Kind() {
		case reflect.Uint, reflect.Uint64:
			if rv.Uint() > 1<<63-1 {
				return scalar("uint", fmt.Sprint(rv.Uint()))
			}
			return intNode(fmt.Sprint(rv.Uint()))
		}
		return intNode(fmt.Sprint(rv.Int()))
	case "num":
		return scalar("num", floatText(rv.Float()))
	}
	t, err := valueTree(rv.Interface())
	if err != nil {
		return scalar("error", err.Error())
	}
	return t
}

// part reads one part of an object; nil means it is not set.
func part(obj reflect.Value, f facetDef) *Node {
	m := obj.MethodByName(f.method)
	if !m.IsValid() {
		return scalar("error", "no accessor "+f.method)
	}
	v := m.Call(nil)[0]
	if f.list || f.form == "rawlist" {
		if v.Kind() == reflect.Slice && v.IsNil() {
			return nil
		}
		out := seqOf()
		form := f.form
		if form == "rawlist" {
			form = "raw"
		}
		for i := 0; i < v.Len(); i++ {
			out.C = append(out.C, valueNode(form, v.Index(i).Interface()))
		}
		if f.list && len(out.C) == 0 {
			return nil
		}
		return out
	}
	if isNil(v) {
		return nil
	}
	if p := v.MethodByName("IsPresent"); p.IsValid() {
		present := p.Call(nil)[0].Bool()
		if empty := v.MethodByName("IsNil").Call(nil)[0].Bool(); empty == present {
			return scalar("error", "option is both present and absent")
		}
		if !present {
			return nil
		}
		v = v.MethodByName("Get").Call(nil)[0]
	}
	var n *Node
	if isNil(v) {
		n = null()
	} else {
		n = valueNode(f.form, v.Interface())
	}
	if f.def != nil && sameTree(n, f.def) {
		return nil
	}
	return n
}

func parts(obj interface{}, defs []facetDef) Parts {
	out := Parts{}
	v := reflect.ValueOf(obj)
	for _, f := range defs {
		if n := part(v, f); n != nil {
			out[f.key] = n
		}
	}
	return out
}

// mapEntries visits the entries of any ordered map of the library.
func mapEntries(m interface{}, f func(k, v interface{})) {
	v := reflect.ValueOf(m)
	if isNil(v) {
		return
	}
	n := int(v.MethodByName("Len").Call(nil)[0].Int())
	at := v.MethodByName("At")
	for i := 0; i < n; i++ {
		e := at.Call([]reflect.Value{reflect.ValueOf(i)})[0]
		f(e.FieldByName("Key").Interface(), e.FieldByName("Val").Interface())
	}
}

func keyText(k interface{}) string {
	switch x := k.(type) {
	case *yaml.Node:
		return x.Value
	case nil:
		return "null"
	}
	return fmt.Sprint(k)
}

func rawEntries(m interface{}) []KNode {
	out := []KNode{}
	mapEntries(m, func(k, v interface{}) { out = append(out, KNode{keyText(k), valueNode("raw", v)}) })
	return out
}

func annotations(m raml.AnnotationMap) []KNode {
	out := []KNode{}
	mapEntries(m, func(k, v interface{}) {
		n := mapOf()
		for _, e := range rawEntries(v) {
			n.C = append(n.C, str(e.K), e.V)
		}
		out = append(out, KNode{keyText(k), n})
	})
	return out
}

func projectTypes(m interface{}) []KType {
	out := []KType{}
	mapEntries(m, func(k, v interface{}) { out = append(out, KType{keyText(k), projectType(v)}) })
	return out
}

func projectType(t interface{}) *MType {
	dt, ok := t.(raml.DataType)
	if !ok || isNil(reflect.ValueOf(t)) {
		return nil
	}
	kind := string(dt.Kind())
	out := &MType{Kind: kind, Type: dt.Type(), Req: true, F: Parts{}, Items: []*MType{}, Props: []KType{}, Annot: []KNode{},
		Facets: []KTypes{}, Xml: []*MXml{}, Extra: rawEntries(dt.ExtraFacets()), Ex: []*MEx{}, Exs: []KEx{}}
	if dt.Schema() != dt.Type() {
		out.Type = "Type " + dt.Type() + " Schema " + dt.Schema()
	}
	if p, ok := t.(interface{ Required() bool }); ok {
		out.Req = p.Required()
	}
	out.F = parts(t, facetDefs[kind])
	x, extended := t.(raml.ExtendedDataType)
	if !extended {
		return out
	}
	out.Annot = annotations(x.Annotations())
	mapEntries(x.FacetDefinitions(), func(k, v interface{}) { out.Facets = append(out.Facets, KTypes{keyText(k), projectTypes(v)}) })
	if !isNil(reflect.ValueOf(x.XML())) {
		out.Xml = append(out.Xml, projectXml(x.XML()))
	}
	v := reflect.ValueOf(t)
	if m := v.MethodByName("Items"); m.IsValid() {
		if got := m.Call(nil)[0]; !isNil(got) {
			out.Items = append(out.Items, projectType(got.Interface()))
		}
	}
	if m := v.MethodByName("Properties"); m.IsValid() {
		out.Props = projectTypes(m.Call(nil)[0].Interface())
	}
	if m := v.MethodByName("Example"); m.IsValid() {
		if got := m.Call(nil)[0]; !isNil(got) {
			out.Ex = append(out.Ex, projectExample(kind, got.Interface()))
		}
	}
	if m := v.MethodByName("Examples"); m.IsValid() {
		mapEntries(m.Call(nil)[0].Interface(), func(k, e interface{}) {
			out.Exs = append(out.Exs, KEx{keyText(k), projectExample(kind, e)})
		})
	}
	return out
}

func projectExample(kind string, e interface{}) *MEx {
	ex, ok := e.(raml.Example)
	if !ok {
		return &MEx{Val: []*Node{scalar("error", fmt.Sprintf("%T is no example", e))}, F: Parts{}}
	}
	out := &MEx{Val: []*Node{}, F: parts(e, exampleParts), Annot: annotations(ex.Annotations()), Extra: rawEntries(ex.ExtraFacets())}
	if n := part(reflect.ValueOf(e), fd("value", exampleForm[kind], nil)); n != nil {
		out.Val = append(out.Val, n)
	}
	return out
}

// marshal2 indents as documents are: other indentations break some texts (yaml.v3).
func marshal2(x interface{}) ([]byte, error) {
	var b bytes.Buffer
	enc := yaml.NewEncoder(&b)
	enc.SetIndent(2)
	err := enc.Encode(x)
	return b.Bytes(), err
}

// yamlOf is what an object is written as.
func yamlOf(x interface{}) *Node {
	if y, ok := x.(interface{ ToYAML() (*yaml.Node, error) }); ok {
		n, err := y.ToYAML()
		if err != nil {
			return scalar("error", err.Error())
		}
		return treeOf(n)
	}
	b, err := marshal2(x)
	if err != nil {
		return scalar("error", err.Error())
	}
	t, err := treeOfText(string(b))
	if err != nil {
		return scalar("error", err.Error())
	}
	return t
}

// projectXml takes the unknown facets from the written form, as XML hints have
// no accessor for them.
func projectXml(x raml.XML) *MXml {
	out := &MXml{F: parts(x, xmlParts), Extra: []KNode{}}
	n := yamlOf(x)
	known := map[string]bool{}
	for _, p := range xmlParts {
		known[p.key] = true
	}
	if n.T != "map" {
		out.Extra = append(out.Extra, KNode{"?", n})
		return out
	}
	for i := 0; i+1 < len(n.C); i += 2 {
		if !known[n.C[i].V] {
			out.Extra = append(out.Extra, KNode{n.C[i].V, n.C[i+1]})
		}
	}
	return out
}

// projectDoc takes from the written form whether the content is an include.
func projectDoc(d raml.Documentation) *MDoc {
	out := &MDoc{Title: d.Title(), Content: d.Content(), Extra: rawEntries(d.ExtraFacets())}
	if c := yamlOf(d).at("content"); c != nil && c.T == "inc" {
		out.Inc = true
	}
	return out
}

func projectDocument(d interface{}) *MDocument {
	out := &MDocument{F: Parts{}, Raws: Raws{}, Uses: []KNode{}, Types: []KType{}, Docs: []*MDoc{}, Resources: []KNode{}, Annot: []KNode{}, Extra: []KNode{}}
	raws := libRaws
	switch x := d.(type) {
	case raml.APISpec:
		out.Class, out.Title = "api", x.Title()
		out.F = parts(x, apiParts)
		raws = apiRaws
		for _, e := range x.Documentation() {
			out.Docs = append(out.Docs, projectDoc(e))
		}
		out.Resources = rawEntries(x.Resources())
		out.Annot = annotations(x.Annotations())
		out.Extra = rawEntries(x.ExtraFacets())
		out.Uses = rawEntries(x.Uses())
		out.Types = projectTypes(x.Types())
		if fmt.Sprint(keysOfTypes(projectTypes(x.Schemas()))) != fmt.Sprint(keysOfTypes(out.Types)) {
			out.Title = "Types and Schemas differ"
		}
	case raml.Library:
		out.Class = "lib"
		out.F = parts(x, libParts)
		out.Annot = annotations(x.Annotations())
		out.Extra = rawEntries(x.ExtraFacets())
		out.Uses = rawEntries(x.Uses())
		out.Types = projectTypes(x.Types())
		if fmt.Sprint(keysOfTypes(projectTypes(x.Schemas()))) != fmt.Sprint(keysOfTypes(out.Types)) {
			out.Title = "Types and Schemas differ"
		}
	default:
		return nil
	}
	for k, method := range raws {
		if es := rawEntries(reflect.ValueOf(d).MethodByName(method).Call(nil)[0].Interface()); len(es) > 0 {
			out.Raws[k] = es
		}
	}
	return out
}
