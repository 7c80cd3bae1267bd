package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Random documents.  gen makes trees of any shape a document can have; now and
// then (bad) a value gets a form it must not have.
type gen struct {
	rng  *rand.Rand
	bad  int // one of so many values is malformed, 0: none
	deep int // how deep types may be nested
}

func (g *gen) one(n int) bool { return g.rng.Intn(n) == 0 }

var textPalette = []string{"some text", "", "a", "true", "null", "1", "1.5", "~", "2020-01-02", "two\nlines", "two\nlines\n", " padded ", "key: value",
	"# no remark", "- no list", "!include no.file", "'quoted'", "\"twice\"", "[x", "{y", "&z", "*z", "%w", "@v", "`u`", "tab\there", "über", "日本語",
	"\U0001F600", "a|b", "(p)", "/path", "x: {y: 1}", "back\\slash", "end:", ">folded", "|literal", "yes", "No", "0x1F", "1_000", "=", "trailing\n\n", "?", "-", "...", "---", "\n", " ", "\nlead", "*/*", "int8", "rfc2616",
	"default", "a\r\nb", "\ttab", "key:\n  - value\n", longText, strings.Repeat("wörter ", 700), "\u00a0", "\ufeffmark", "%d %s", "a\\nb", "<", "0", "-", "!", "&", "!!str x", "100%", ", ", "]"}

// longText is more than fits on a line.
var longText = strings.Repeat("many words that go on and on, ", 12) + "and a\nnew line\n"

func (g *gen) text() *Node { return str(textPalette[g.rng.Intn(len(textPalette))]) }

var intPalette = []string{"0", "1", "-1", "7", "42", "-300", "2147483647", "2147483648", "4503599627370496"}
var bigPalette = []string{"9223372036854775807", "-9223372036854775808", "9007199254740993"}
var floatPalette = []string{"1.5", "-0.25", "100.125", "2", "3.5e+20", "1e-9", "0"}

// many is a number below n, and now and then a larger one.
func (g *gen) many(n int) int {
	if g.one(40) {
		return g.rng.Intn(30)
	}
	return g.rng.Intn(n)
}

func (g *gen) pick(s []string) string { return s[g.rng.Intn(len(s))] }

func (g *gen) int() *Node { return intNode(g.pick(intPalette)) }

// anyScalar is a scalar of any form.
func (g *gen) anyScalar() *Node {
	switch g.rng.Intn(12) {
	case 0, 1, 2, 3:
		return g.text()
	case 4, 5:
		return g.int()
	case 6:
		return intNode(g.pick(bigPalette))
	case 7:
		return scalar("float", canonFloat(g.pick(floatPalette)))
	case 8:
		return boolNode(g.one(2))
	case 9:
		return null()
	case 10:
		return scalar("ts", []string{"2020-05-06", "2001-12-14T21:59:43.10Z"}[g.rng.Intn(2)])
	}
	return scalar("inc", g.pick([]string{"some/file.raml", "x.md", "a b.txt"}))
}

// raw is content of any form.
func (g *gen) raw(depth int) *Node {
	if depth <= 0 || g.one(2) {
		return g.anyScalar()
	}
	if g.one(2) {
		out := seqOf()
		for n := g.many(4); n > 0; n-- {
			out.C = append(out.C, g.raw(depth-1))
		}
		return out
	}
	return g.rawMap(depth, g.many(4))
}

func (g *gen) rawMap(depth, n int) *Node {
	out := mapOf()
	for _, k := range g.keys(n, []string{"b", "a", "value", "type", "get", "description", "x-y", "strict", "(in)", "/sub", "1", "two words", "ü"}) {
		out.C = append(out.C, str(k), g.raw(depth-1))
	}
	return out
}

// keys are n different keys, in random order.
func (g *gen) keys(n int, from []string) []string {
	out := []string{}
	for _, i := range g.rng.Perm(len(from)) {
		if len(out) < n {
			out = append(out, from[i])
		}
	}
	for i := len(from); i < n; i++ {
		out = append(out, fmt.Sprintf("%s%d", from[0], i))
	}
	return out
}

// form is a value of the given form.
func (g *gen) form(form string) *Node {
	if g.bad > 0 && g.one(g.bad) {
		out := g.anyScalar()
		if g.one(3) {
			out = g.raw(2)
		}
		if form == "num" {
			out = exact(out)
		}
		return out
	}
	switch form {
	case "text":
		return g.text()
	case "flag":
		return boolNode(g.one(2))
	case "count":
		return intNode(g.pick([]string{"0", "1", "7", "2147483647", "2147483648", "9007199254740993"}))
	case "int":
		if g.one(5) {
			return intNode(g.pick(bigPalette))
		}
		return g.int()
	case "num":
		if g.one(2) {
			return g.int()
		}
		return scalar("float", canonFloat(g.pick(floatPalette)))
	case "date":
		if g.one(2) {
			return scalar("ts", "2020-05-06")
		}
		return str(g.pick([]string{"2015-05-23", "2015-07-04T21:00:00", "Sun, 28 Feb 2016 16:41:41 GMT", "12:30:00"}))
	case "rawlist":
		out := seqOf()
		for n := g.rng.Intn(3); n > 0; n-- {
			out.C = append(out.C, g.raw(2))
		}
		return out
	}
	return g.raw(3)
}

// exact replaces the whole numbers a floating point number cannot hold.
func exact(n *Node) *Node {
	for _, b := range bigPalette {
		if n.T == "int" && n.V == b {
			return intNode("3")
		}
	}
	for i := range n.C {
		n.C[i] = exact(n.C[i])
	}
	return n
}

// words are texts with a meaning of their own for a key.
var words = map[string][]string{
	"fileTypes": {"*/*", "image/png", "application/*"}, "format": {"int", "int8", "int16", "int32", "int64", "long", "float", "double", "rfc3339", "rfc2616"},
	"protocols": {"HTTP", "HTTPS", "http"}, "mediaType": {"application/json", "application/xml", "*/*"}, "securedBy": {"null", "oauth"},
	"pattern": {".*", "^a$", ""}, "discriminator": {"kind"}, "version": {"v1", "1.0"}, "baseUri": {"http://h/{version}", "/"},
	"default": {"2020-05-06", "0", "false", "string"}, "enum": {"b", "a", "B"},
}

func (g *gen) facet(f facetDef) *Node {
	if ws := words[f.key]; ws != nil && g.one(3) && (f.form == "text" || f.form == "date" || f.form == "raw") {
		if !f.list {
			return str(g.pick(ws))
		}
		out := seqOf()
		for n := 1 + g.rng.Intn(3); n > 0; n-- {
			out.C = append(out.C, str(g.pick(ws)))
		}
		return out
	}
	if !f.list || (g.bad > 0 && g.one(g.bad)) {
		return g.form(f.form)
	}
	out := seqOf()
	for n := 1 + g.many(3); n > 0; n-- {
		out.C = append(out.C, g.form(f.form))
	}
	return out
}

func (g *gen) annotation() *Node {
	if g.bad > 0 && g.one(g.bad) {
		return g.raw(2)
	}
	return g.rawMap(3, g.rng.Intn(3))
}

var annotationKeys = []string{"(z)", "(a)", "(lib.note)", "(m n)", "("}
var extraKeys = []string{"x-zz", "x-aa", "Title", "facet", "tYpe", "minimumLength", "usage-x", "two words"}

// exprOf is a type expression of a kind.
func (g *gen) exprOf(kind string) string {
	switch kind {
	case "custom":
		return g.pick([]string{"Person", "string[]", "lib.Type", "Any", "strings", "(A)", " string", "integer ", "", "nil?", "date_only", "[A, B]"})
	case "union":
		return g.pick([]string{"A | B", "a|b", "|", "string | nil", "(A | B)[]"})
	}
	return kind
}

func (g *gen) kind() string {
	return allKinds[g.rng.Intn(len(allKinds))]
}

var allKinds = []string{"any", "array", "boolean", "custom", "date-only", "datetime", "datetime-only", "file", "include", "integer", "nil", "number",
	"object", "string", "time-only", "union"}

// example of a kind, in short or long form.
func (g *gen) example(kind string) *Node {
	form := exampleForm[kind]
	if g.one(2) {
		return g.form(form)
	}
	out := mapOf()
	for _, k := range g.keys(1+g.rng.Intn(4), append([]string{"value", "value", "displayName", "description", "strict", "x-more"}, annotationKeys[:2]...)) {
		if out.at(k) != nil {
			continue
		}
		var v *Node
		switch {
		case k == "value":
			v = g.form(form)
		case k == "strict":
			v = g.form("flag")
		case k == "x-more":
			v = g.raw(2)
		case k[0] == '(':
			v = g.annotation()
		default:
			v = g.form("text")
		}
		out.C = append(out.C, str(k), v)
	}
	return out
}

func (g *gen) xml() *Node {
	out := mapOf()
	for _, k := range g.keys(g.rng.Intn(5), []string{"attribute", "wrapped", "name", "namespace", "prefix", "x-xml", "(note)"}) {
		v := g.raw(2)
		if k == "attribute" || k == "wrapped" {
			v = g.form("flag")
		} else if k[0] != 'x' && k[0] != '(' {
			v = g.form("text")
		}
		out.C = append(out.C, str(k), v)
	}
	return out
}

// typ is a type definition.
func (g *gen) typ(depth int) *Node {
	switch g.rng.Intn(8) {
	case 0:
		return str(g.exprOf(g.kind()))
	case 1:
		if g.one(3) {
			return null()
		}
		if g.one(3) {
			return scalar("inc", "types/a.raml")
		}
		return str(g.exprOf(g.kind()))
	}
	if g.bad > 0 && g.one(2*g.bad) {
		return g.raw(2)
	}
	kind := g.kind()
	fresh := g.one(4) // no expression
	if fresh {
		kind = []string{"string", "object", "array"}[g.rng.Intn(3)]
	}
	return g.longType(kind, !fresh, depth)
}

func (g *gen) longType(kind string, expr bool, depth int) *Node {
	type entry struct {
		k string
		v *Node
	}
	es := []entry{}
	add := func(k string, v *Node) { es = append(es, entry{k, v}) }
	if expr {
		e := str(g.exprOf(kind))
		if kind == "include" {
			e = scalar("inc", "types/b.raml")
			if g.one(3) {
				e = str("!include types/b.raml")
			}
		}
		add([]string{"type", "type", "type", "schema"}[g.rng.Intn(4)], e)
	}
	if g.one(3) {
		add("required", g.form("flag"))
	}
	dense := 1 + g.rng.Intn(6)
	for _, f := range facetDefs[kind] {
		if g.one(dense) {
			add(f.key, g.facet(f))
		}
	}
	if !expr && kind == "array" || kind == "array" && g.one(2) {
		add("items", g.typ(depth-1))
	}
	if !expr && kind == "object" || kind == "object" && g.one(2) {
		n := 0
		if depth > 0 {
			n = g.many(4)
		}
		add("properties", g.types(n, depth-1, []string{"b", "a", "name?", "value", "type", "//", "z1"}))
	}
	if kind == "nil" || kind == "include" {
		if g.one(3) {
			add(g.pick(extraKeys), g.raw(2))
		}
	} else {
		for _, k := range g.keys(g.many(2), annotationKeys) {
			add(k, g.annotation())
		}
		for _, k := range g.keys(g.many(2), extraKeys) {
			add(k, g.raw(3))
		}
		if depth > 0 && g.one(5) {
			fs := mapOf()
			for _, k := range g.keys(g.rng.Intn(3), []string{"f2", "f1", "onlyFuture?"}) {
				fs.C = append(fs.C, str(k), g.types(g.rng.Intn(3), depth-1, []string{"y", "x", "type"}))
			}
			add("facets", fs)
		}
		if g.one(4) {
			add("xml", g.xml())
		}
		if g.one(3) {
			add("example", g.example(kind))
		}
		if g.one(4) {
			xs := mapOf()
			for _, k := range g.keys(g.many(4), []string{"two", "one", "value", "x y"}) {
				xs.C = append(xs.C, str(k), g.example(kind))
			}
			add("examples", xs)
		}
	}
	out := mapOf()
	for _, i := range g.rng.Perm(len(es)) {
		out.C = append(out.C, str(es[i].k), es[i].v)
	}
	return out
}

func (g *gen) types(n, depth int, names []string) *Node {
	out := mapOf()
	for _, k := range g.keys(n, names) {
		out.C = append(out.C, str(k), g.typ(depth))
	}
	return out
}

func (g *gen) entry() *Node {
	out := mapOf()
	for _, k := range g.keys(1+g.rng.Intn(4), []string{"title", "content", "x-doc", "Content", "(note)"}) {
		v := g.raw(2)
		if k == "title" {
			v = g.form("text")
		} else if k == "content" {
			v = g.form("text")
			if g.one(3) {
				v = scalar("inc", "docs/a.md")
			}
		}
		out.C = append(out.C, str(k), v)
	}
	return out
}

// section is a value for a root section.
func (g *gen) section(class, key string) *Node {
	for _, f := range append(append([]facetDef{}, apiParts...), libParts...) {
		if f.key == key {
			if key == "mediaType" && g.one(3) {
				return g.form("text")
			}
			return g.facet(f)
		}
	}
	switch key {
	case "title":
		return g.form("text")
	case "documentation":
		out := seqOf()
		for n := 1 + g.many(3); n > 0; n-- {
			out.C = append(out.C, g.entry())
		}
		return out
	case "uses":
		out := mapOf()
		for _, k := range g.keys(g.rng.Intn(3), []string{"z", "a", "lib"}) {
			out.C = append(out.C, str(k), g.form("text"))
		}
		return out
	case "types", "schemas":
		return g.types(g.many(4), g.deep, []string{"T", "B", "A", "Lib", "type", "value", "1"})
	}
	if g.bad > 0 && g.one(g.bad) {
		return g.raw(2)
	}
	return g.rawMap(4, g.rng.Intn(3))
}

// document is the root of a document.
func (g *gen) document(class string) *Node {
	keys := []string{"uses", "types"}
	if g.one(4) {
		keys[1] = "schemas"
	}
	dense := 1 + g.rng.Intn(4)
	defs, raws := libParts, []string{"securitySchemes", "traits", "annotationTypes", "resourceTypes"}
	if class == "api" {
		defs = apiParts
		keys = append(keys, "title", "documentation", "baseUriParameters")
	}
	keys = append(keys, raws...)
	for _, f := range defs {
		keys = append(keys, f.key)
	}
	chosen := []string{}
	for _, k := range keys {
		if g.one(dense) || (k == "types" && g.one(2)) {
			chosen = append(chosen, k)
		}
	}
	chosen = append(chosen, g.keys(g.many(3), annotationKeys)...)
	chosen = append(chosen, g.keys(g.many(3), extraKeys)...)
	chosen = append(chosen, g.keys(g.many(3), []string{"/z", "/a/{id}", "/", "//"})...)
	out := mapOf()
	for _, i := range g.rng.Perm(len(chosen)) {
		k := chosen[i]
		var v *Node
		switch {
		case strings.HasPrefix(k, "("):
			v = g.annotation()
		case strings.HasPrefix(k, "/") || strings.HasPrefix(k, "x-") || contains(extraKeys, k):
			v = g.raw(4)
		default:
			v = g.section(class, k)
		}
		out.C = append(out.C, str(k), v)
	}
	if class == "api" && g.one(12) {
		out.C = append(out.C, intNode(fmt.Sprint(g.rng.Intn(9))), g.raw(2))
	}
	return out
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}
