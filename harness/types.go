package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"gopkg.in/yaml.v3"
)

// typeCase is a behaviour of TypeParser: a definition, the type it is (none if
// it is rejected), and the tree it is written as.
type typeCase struct {
	Def  *Node    `json:"def"`
	Type []*MType `json:"type"`
	Out  []*Node  `json:"out"`
}

// A place is a position in a document at which a type definition can stand.
type place struct {
	name string
	lib  bool
	wrap func(def *Node) *Node
	find func(types raml.DataTypeMap) interface{}
	tree func(types *Node) *Node // the same position in a written types section
}

func kv(args ...interface{}) *Node {
	out := mapOf()
	for i := 0; i+1 < len(args); i += 2 {
		v, ok := args[i+1].(*Node)
		if !ok {
			v = str(args[i+1].(string))
		}
		out.C = append(out.C, str(args[i].(string)), v)
	}
	return out
}

func top(types raml.DataTypeMap) interface{} { v, _ := types.Get("T"); return v }
func prop(o interface{}, name string) interface{} {
	v, _ := o.(raml.ObjectType).Properties().Get(name)
	return v
}
func items(o interface{}) interface{} { return o.(raml.ArrayType).Items() }
func get(m raml.DataTypeMap, k string) interface{} {
	v, _ := m.Get(k)
	return v
}
func facetOf(t interface{}, f, name string) interface{} {
	v, _ := t.(raml.ExtendedDataType).FacetDefinitions().Get(f)
	return get(v, name)
}

var places = []place{
	{"a declared type of an API", false, func(d *Node) *Node { return kv("title", "t", "types", kv("T", d)) }, top,
		func(t *Node) *Node { return t.at("T") }},
	{"a declared type of a library", true, func(d *Node) *Node { return kv("types", kv("T", d)) }, top,
		func(t *Node) *Node { return t.at("T") }},
	{"a schema of an API between others", false,
		func(d *Node) *Node {
			return kv("schemas", kv("A", kv("type", "integer", "minimum", intNode("1"), "example", intNode("4")), "T", d, "B", kv("type", "T", "required", boolNode(false), "default", "x")))
		}, top,
		func(t *Node) *Node { return t.at("T") }},
	{"a property", true,
		func(d *Node) *Node {
			return kv("types", kv("W", kv("type", "object", "properties", kv("a", kv("type", "string", "pattern", "p"), "T", d, "z?", "nil"))))
		},
		func(t raml.DataTypeMap) interface{} { return prop(get(t, "W"), "T") },
		func(t *Node) *Node { return t.at("W").at("properties").at("T") }},
	{"array items", false,
		func(d *Node) *Node {
			return kv("title", "t", "types", kv("W", kv("items", d, "minItems", intNode("2"))))
		},
		func(t raml.DataTypeMap) interface{} { return items(get(t, "W")) },
		func(t *Node) *Node { return t.at("W").at("items") }},
	{"a facet declaration", true,
		func(d *Node) *Node {
			return kv("schemas", kv("W", kv("type", "string", "facets", kv("f", kv("T", d, "U", "integer")), "minLength", intNode("1"))))
		},
		func(t raml.DataTypeMap) interface{} { return facetOf(get(t, "W"), "f", "T") },
		func(t *Node) *Node { return t.at("W").at("facets").at("f").at("T") }},
	{"items of a property of items", false,
		func(d *Node) *Node {
			return kv("title", "t", "types", kv("W", kv("items", kv("properties", kv("p", kv("items", d, "maxItems", intNode("9")), "q", "number")))))
		},
		func(t raml.DataTypeMap) interface{} { return items(prop(items(get(t, "W")), "p")) },
		func(t *Node) *Node { return t.at("W").at("items").at("properties").at("p").at("items") }},
	{"a property of a facet declaration of a property", true,
		func(d *Node) *Node {
			return kv("types", kv("W", kv("properties", kv("p", kv("type", "Some", "facets", kv("f", kv("n", kv("properties", kv("T", d)))))))))
		},
		func(t raml.DataTypeMap) interface{} { return prop(facetOf(prop(get(t, "W"), "p"), "f", "n"), "T") },
		func(t *Node) *Node {
			return t.at("W").at("properties").at("p").at("facets").at("f").at("n").at("properties").at("T")
		}},
}

// openDoc parses a text; the error is a rejection, crash a panic.
func openDoc(text string, lib bool) (doc interface{}, err error, crash string) {
	return readDoc(strings.NewReader(text), lib)
}

func readDoc(from io.Reader, lib bool) (doc interface{}, err error, crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprintf("parsing panics: %v", e)
		}
	}()
	if lib {
		d, e := rparse.ParseLibrary(from)
		if e != nil {
			return nil, e, ""
		}
		return d, nil, ""
	}
	d, e := rparse.ParseApiDoc(from)
	if e != nil {
		return nil, e, ""
	}
	return d, nil, ""
}

func typesOf(doc interface{}) raml.DataTypeMap {
	switch d := doc.(type) {
	case raml.APISpec:
		return d.Types()
	case raml.Library:
		return d.Types()
	}
	return nil
}

func writeDoc(doc interface{}) (text string, err error, crash string) {
	var sb strings.Builder
	err, crash = writeDocTo(doc, &sb)
	return sb.String(), err, crash
}

func writeDocTo(doc interface{}, to io.Writer) (err error, crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprintf("writing panics: %v", e)
		}
	}()
	switch d := doc.(type) {
	case raml.APISpec:
		err = d.WriteRAML(to)
	case raml.Library:
		err = d.WriteRAML(to)
	}
	return err, ""
}

// guarded runs f and reports a panic.
func guarded(f func()) (crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprint(e)
		}
	}()
	f()
	return ""
}

// matches tells whether a written tree is the expected one (Yaml.tla, Matches).
func matches(exp, got *Node) bool {
	if exp == nil || got == nil {
		return exp == got
	}
	if exp.T == "num" {
		return (got.T == "int" || got.T == "uint" || got.T == "float") && got.V == exp.V
	}
	if exp.T != got.T || exp.V != got.V || len(exp.C) != len(got.C) {
		return false
	}
	if exp.T != "map" {
		for i := range exp.C {
			if !matches(exp.C[i], got.C[i]) {
				return false
			}
		}
		return true
	}
	for i := 0; i < len(exp.C); i += 2 {
		found := 0
		for j := 0; j < len(got.C); j += 2 {
			if got.C[j].T == exp.C[i].T && got.C[j].V == exp.C[i].V {
				found++
				if !matches(exp.C[i+1], got.C[j+1]) {
					return false
				}
			}
		}
		if found != 1 {
			return false
		}
	}
	return true
}

// keyField is the category of a key of a type definition.
func keyField(key string) string {
	switch key {
	case "example", "examples":
		return "example"
	case "xml":
		return "xml"
	case "type", "schema":
		return "kind"
	}
	if strings.HasPrefix(key, "(") {
		return "annot"
	}
	for _, fs := range facetDefs {
		for _, f := range fs {
			if f.key == key {
				return "facet"
			}
		}
	}
	switch key {
	case "required", "items", "properties", "facets":
		return "facet"
	}
	return "extra"
}

// topic is what a definition is about: the category of its rarest entry.
func topic(def *Node) string {
	if def.T != "map" {
		return "kind"
	}
	best := "kind"
	for _, want := range []string{"facet", "extra", "annot", "xml", "example"} {
		for i := 0; i < len(def.C); i += 2 {
			if keyField(def.C[i].V) == want {
				best = want
			}
		}
	}
	return best
}

// writtenDiffs compares what a type is written as with the expected tree.
func writtenDiffs(exp, got *Node) []diff {
	if got == nil {
		return []diff{{"shape", "the type is not written at all"}}
	}
	if matches(exp, got) {
		return nil
	}
	if exp.T != "map" || got.T != "map" {
		return []diff{{"shape", fmt.Sprintf("expected to be written as %s, got %s", exp, got)}}
	}
	out := []diff{}
	keys := map[string]bool{}
	for _, t := range []*Node{exp, got} {
		for i := 0; i < len(t.C); i += 2 {
			k := t.C[i].V
			if keys[k] {
				continue
			}
			keys[k] = true
			if !matches(exp.at(k), got.at(k)) {
				out = append(out, diff{keyField(k), fmt.Sprintf("entry %s: expected to be written as %s, got %s", k, exp.at(k), got.at(k))})
			}
		}
	}
	if len(out) == 0 {
		out = append(out, diff{"shape", fmt.Sprintf("expected to be written as %s, got %s", exp, got)})
	}
	return out
}

type typeRun struct {
	res  *Result
	c    typeCase
	top  bool // at the top level nothing was wrong
	text string
	at   string
}

func (r *typeRun) fail(stage string, ds ...diff) {
	for _, d := range ds {
		r.res.fail(Mismatch{stage + ":" + d.field, r.at, d.what, map[string]interface{}{"text": r.text, "definition": r.c.Def}})
	}
}

// check reads one case at one place and compares everything.
func (r *typeRun) check(p place, rng *rand.Rand, nested bool) (ok bool) {
	before := r.res.count()
	ok = true
	stage := func(s string) string {
		if nested {
			return "nested"
		}
		return s
	}
	defer func() { ok = r.res.count() == before }()
	r.at = p.name
	text, err := yamlText(p.wrap(r.c.Def), rng)
	if err != nil {
		r.res.add("unwritable", 1)
		return
	}
	r.text = text
	r.res.add("parsed", 1)
	doc, err, crash := openDoc(text, p.lib)
	if crash != "" {
		r.fail("crash", diff{"parse", crash})
		return
	}
	if len(r.c.Type) == 0 {
		r.res.add("malformed", 1)
		if err == nil {
			r.fail(stage("accept"), diff{topic(r.c.Def), "a malformed definition is accepted"})
			// Whatever came out must still be safe to use.
			if crash := guarded(func() { projectDocument(doc); writeDoc(doc) }); crash != "" {
				r.fail("crash", diff{"use", crash})
			}
		}
		return
	}
	if err != nil {
		r.fail(stage("reject"), diff{topic(r.c.Def), "a well-formed definition is rejected: " + err.Error()})
		return
	}
	exp := r.c.Type[0]
	var got *MType
	var whole *MDocument
	if crash := guarded(func() { got = projectType(p.find(typesOf(doc))); whole = projectDocument(doc) }); crash != "" {
		r.fail("crash", diff{"inspect", "an accessor panics: " + crash})
		return
	}
	d := &differ{}
	d.typ("T", exp, got)
	r.fail(stage("read"), d.out...)
	if len(d.out) > 0 {
		return
	}

	// The type on its own.
	var alone interface{}
	if crash := guarded(func() { alone = p.find(typesOf(doc)) }); crash != "" {
		return
	}
	r.fail(stage("write"), writtenDiffs(r.c.Out[0], r.written(alone, "ToYAML"))...)
	r.fail("toraml", writtenDiffs(r.c.Out[0], r.written(alone, "ToRAML"))...)

	// The whole document.
	class := "api"
	if p.lib {
		class = "lib"
	}
	out, err, crash := writeDoc(doc)
	if crash != "" {
		r.fail("crash", diff{"write", crash})
		return
	}
	if err != nil {
		r.fail("reparse-"+class, diff{"error", "writing fails: " + err.Error()})
		return
	}
	tree, err := treeOfText(out)
	if err != nil {
		r.fail("reparse-"+class, diff{"error", "the written document is no YAML: " + err.Error()})
		return
	}
	var written *Node
	if crash := guarded(func() { written = p.tree(tree.at("types")) }); crash != "" {
		written = nil
	}
	r.fail(stage("write"), writtenDiffs(r.c.Out[0], written)...)
	again, err, crash := openDoc(out, p.lib)
	if crash != "" {
		r.fail("crash", diff{"parse", crash})
		return
	}
	if err != nil {
		r.fail("reparse-"+class, diff{topic(r.c.Def), "the written document is rejected: " + err.Error() + "\n" + out})
		return
	}
	var whole2 *MDocument
	if crash := guarded(func() { whole2 = projectDocument(again) }); crash != "" {
		r.fail("crash", diff{"inspect", "an accessor panics: " + crash})
		return
	}
	dd := &differ{}
	dd.document(whole, whole2)
	r.fail("reparse-"+class, dd.out...)
	r.res.add("written", 1)

	// Writing changes nothing and is repeatable, and stable over a round trip.
	out2, err, _ := writeDoc(doc)
	if err != nil || out2 != out {
		r.fail("stable", diff{"text", fmt.Sprintf("writing again yields another text:\n%s\nthen\n%s", out, out2)})
	}
	if crash := guarded(func() {
		after := &differ{}
		after.document(whole, projectDocument(doc))
		r.fail("stable", after.out...)
	}); crash != "" {
		r.fail("crash", diff{"inspect", "an accessor panics after writing: " + crash})
	}
	out3, err, _ := writeDoc(again)
	if err != nil || out3 != out {
		r.fail("stable", diff{"text", fmt.Sprintf("the text changes when it is parsed and written again:\n%s\nthen\n%s", out, out3)})
	}
	return
}

// written is the tree a single type is written as.
func (r *typeRun) written(t interface{}, how string) *Node {
	var n *Node
	if crash := guarded(func() {
		if how == "ToRAML" {
			s, err := t.(raml.DataType).ToRAML()
			if err != nil {
				n = scalar("error", "ToRAML fails: "+err.Error())
				return
			}
			if n, err = treeOfText(s); err != nil {
				n = scalar("error", err.Error())
			}
			return
		}
		if y, ok := t.(interface{ ToYAML() (*yaml.Node, error) }); ok {
			node, err := y.ToYAML()
			if err != nil {
				n = scalar("error", "ToYAML fails: "+err.Error())
				return
			}
			n = treeOf(node)
			return
		}
		n = scalar("error", fmt.Sprintf("%T cannot be written", t))
	}); crash != "" {
		r.fail("crash", diff{"write", how + " panics: " + crash})
		return scalar("error", crash)
	}
	return n
}

func (r *Result) count() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, c := range r.Total {
		n += c
	}
	return n
}

func init() { commands["types-replay"] = typesReplay }

// typesReplay reads every case at the top level of an API document or a library
// and at one or more nested places.  Flags: -n number of nested places, -mode
// "styles" to vary the way the definitions are spelled.
func typesReplay(o options, res *Result) {
	cases := []typeCase{}
	readLines(o.in, func(b []byte) {
		var c typeCase
		check(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	parallel(len(cases), func(i int) {
		c := cases[i]
		var rng *rand.Rand
		if o.mode == "styles" && i%3 != 0 {
			rng = rand.New(rand.NewSource(o.seed*1000003 + int64(i)))
		}
		local := newResult()
		r := &typeRun{res: local, c: c}
		ok := r.check(places[(i+int(o.seed))%2], rng, false)
		for j := 0; ok && j < o.n; j++ {
			local.add("nested", 1)
			r.check(places[2+(i/2+int(o.seed)+j)%(len(places)-2)], rng, true)
		}
		if i%(len(cases)/3+1) == 0 {
			local.sample(1, map[string]interface{}{"text": r.text, "expected": c.Type, "written_as": c.Out})
		}
		res.merge(local)
	})
	res.add("cases", len(cases))
}

func (r *Result) merge(o *Result) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, m := range o.Mismatches {
		r.Total[m.Aspect]++
		o.Total[m.Aspect]--
		if r.Total[m.Aspect] <= maxPerAspect {
			r.Mismatches = append(r.Mismatches, m)
		}
	}
	for a, n := range o.Total {
		r.Total[a] += n
	}
	for s, n := range o.Stats {
		r.Stats[s] += n
	}
	for _, s := range o.Samples {
		if len(r.Samples) < 3 {
			r.Samples = append(r.Samples, s)
		}
	}
}
