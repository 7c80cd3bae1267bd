package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
)

// The values of the specification (RamlTypes.tla, RamlDocs.tla), as JSON.

// Parts are the named parts that are set, by key.
type Parts map[string]*Node

// UnmarshalJSON also accepts [], which is how TLC prints an empty function.
func (p *Parts) UnmarshalJSON(b []byte) error {
	if bytes.Equal(b, []byte("[]")) {
		*p = Parts{}
		return nil
	}
	m := map[string]*Node{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*p = m
	return nil
}

type KNode struct {
	K string `json:"k"`
	V *Node  `json:"v"`
}
type KType struct {
	K string `json:"k"`
	V *MType `json:"v"`
}
type KTypes struct {
	K string  `json:"k"`
	V []KType `json:"v"`
}
type KEx struct {
	K string `json:"k"`
	V *MEx   `json:"v"`
}

type MType struct {
	Kind   string   `json:"kind"`
	Type   string   `json:"type"`
	Req    bool     `json:"req"`
	F      Parts    `json:"f"`
	Items  []*MType `json:"items"`
	Props  []KType  `json:"props"`
	Annot  []KNode  `json:"annot"`
	Facets []KTypes `json:"facets"`
	Xml    []*MXml  `json:"xml"`
	Extra  []KNode  `json:"extra"`
	Ex     []*MEx   `json:"ex"`
	Exs    []KEx    `json:"exs"`
}

type MXml struct {
	F     Parts   `json:"f"`
	Extra []KNode `json:"extra"`
}

type MEx struct {
	Val   []*Node `json:"val"`
	F     Parts   `json:"f"`
	Annot []KNode `json:"annot"`
	Extra []KNode `json:"extra"`
}

type MDoc struct {
	Title   string  `json:"title"`
	Content string  `json:"content"`
	Inc     bool    `json:"inc"`
	Extra   []KNode `json:"extra"`
}

type Raws map[string][]KNode

func (p *Raws) UnmarshalJSON(b []byte) error {
	if bytes.Equal(b, []byte("[]")) {
		*p = Raws{}
		return nil
	}
	m := map[string][]KNode{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*p = m
	return nil
}

type MDocument struct {
	Class     string  `json:"class"`
	Title     string  `json:"title"`
	F         Parts   `json:"f"`
	Raws      Raws    `json:"raws"`
	Uses      []KNode `json:"uses"`
	Types     []KType `json:"types"`
	Docs      []*MDoc `json:"docs"`
	Resources []KNode `json:"resources"`
	Annot     []KNode `json:"annot"`
	Extra     []KNode `json:"extra"`
}

// A diff is a difference in one field: its category and a description.
type diff struct{ field, what string }

type differ struct{ out []diff }

func (d *differ) add(field, format string, a ...interface{}) {
	if len(d.out) < 12 {
		d.out = append(d.out, diff{field, fmt.Sprintf(format, a...)})
	}
}

// show is a short text of a part of the model.
func show(x interface{}) string {
	switch v := x.(type) {
	case *Node:
		return v.String()
	case []*Node:
		s := "["
		for _, n := range v {
			s += n.String() + " "
		}
		return s + "]"
	case Parts:
		keys := []string{}
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := "{"
		for _, k := range keys {
			s += k + "=" + v[k].String() + " "
		}
		return s + "}"
	case []KNode:
		s := "["
		for _, e := range v {
			s += e.K + "=" + e.V.String() + " "
		}
		return s + "]"
	case *MType:
		if v == nil {
			return "none"
		}
		b, _ := json.Marshal(v)
		return string(b)
	}
	b, _ := json.Marshal(x)
	return string(b)
}

func eqNodes(a, b []*Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameTree(a[i], b[i]) {
			return false
		}
	}
	return true
}

func eqKNodes(a, b []KNode) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K != b[i].K || !sameTree(a[i].V, b[i].V) {
			return false
		}
	}
	return true
}

func eqParts(a, b Parts) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !sameTree(v, w) {
			return false
		}
	}
	return true
}

func keysOfTypes(a []KType) []string {
	out := []string{}
	for _, e := range a {
		out = append(out, e.K)
	}
	return out
}

func (d *differ) types(path, field string, a, b []KType) {
	if fmt.Sprint(keysOfTypes(a)) != fmt.Sprint(keysOfTypes(b)) {
		d.add(field, "%s: expected the types %v, got %v", path, keysOfTypes(a), keysOfTypes(b))
		return
	}
	for i := range a {
		d.typ(path+"."+a[i].K, a[i].V, b[i].V)
	}
}

// typ compares an expected type with the one found.
func (d *differ) typ(path string, a, b *MType) {
	if a == nil || b == nil {
		d.add("facet", "%s: expected %s, got %s", path, show(a), show(b))
		return
	}
	if a.Kind != b.Kind || a.Type != b.Type {
		d.add("kind", "%s: expected kind %q of expression %q, got kind %q of expression %q", path, a.Kind, a.Type, b.Kind, b.Type)
	}
	if a.Req != b.Req {
		d.add("facet", "%s: expected required=%v, got %v", path, a.Req, b.Req)
	}
	if !eqParts(a.F, b.F) {
		d.add("facet", "%s: expected the facets %s, got %s", path, show(a.F), show(b.F))
	}
	if !eqKNodes(a.Annot, b.Annot) {
		d.add("annot", "%s: expected the annotations %s, got %s", path, show(a.Annot), show(b.Annot))
	}
	if !eqKNodes(a.Extra, b.Extra) {
		d.add("extra", "%s: expected the extra facets %s, got %s", path, show(a.Extra), show(b.Extra))
	}
	if len(a.Items) != len(b.Items) {
		d.add("facet", "%s: expected items %s, got %s", path, show(a.Items), show(b.Items))
	} else if len(a.Items) > 0 {
		d.typ(path+".items", a.Items[0], b.Items[0])
	}
	d.types(path+".properties", "facet", a.Props, b.Props)
	if len(a.Facets) != len(b.Facets) {
		d.add("facet", "%s: expected facet declarations %s, got %s", path, show(a.Facets), show(b.Facets))
	} else {
		for i := range a.Facets {
			if a.Facets[i].K != b.Facets[i].K {
				d.add("facet", "%s: expected facet declaration %q, got %q", path, a.Facets[i].K, b.Facets[i].K)
			} else {
				d.types(path+".facets."+a.Facets[i].K, "facet", a.Facets[i].V, b.Facets[i].V)
			}
		}
	}
	if len(a.Xml) != len(b.Xml) {
		d.add("xml", "%s: expected xml %s, got %s", path, show(a.Xml), show(b.Xml))
	} else if len(a.Xml) > 0 {
		d.xml(path+".xml", a.Xml[0], b.Xml[0])
	}
	if len(a.Ex) != len(b.Ex) {
		d.add("example", "%s: expected the example %s, got %s", path, show(a.Ex), show(b.Ex))
	} else if len(a.Ex) > 0 {
		d.ex(path+".example", a.Ex[0], b.Ex[0])
	}
	if len(a.Exs) != len(b.Exs) {
		d.add("example", "%s: expected the examples %s, got %s", path, show(a.Exs), show(b.Exs))
	} else {
		for i := range a.Exs {
			if a.Exs[i].K != b.Exs[i].K {
				d.add("example", "%s: expected the example %q, got %q", path, a.Exs[i].K, b.Exs[i].K)
			} else {
				d.ex(path+".examples."+a.Exs[i].K, a.Exs[i].V, b.Exs[i].V)
			}
		}
	}
}

func (d *differ) xml(path string, a, b *MXml) {
	if a == nil || b == nil {
		d.add("xml", "%s: expected %s, got %s", path, show(a), show(b))
		return
	}
	if !eqParts(a.F, b.F) {
		d.add("xml", "%s: expected %s, got %s", path, show(a.F), show(b.F))
	}
	if !eqKNodes(a.Extra, b.Extra) {
		d.add("xmlextra", "%s: expected the extra facets %s, got %s", path, show(a.Extra), show(b.Extra))
	}
}

func (d *differ) ex(path string, a, b *MEx) {
	if a == nil || b == nil {
		d.add("example", "%s: expected %s, got %s", path, show(a), show(b))
		return
	}
	if !eqNodes(a.Val, b.Val) {
		d.add("example", "%s: expected the value %s, got %s", path, show(a.Val), show(b.Val))
	}
	if !eqParts(a.F, b.F) {
		d.add("example", "%s: expected %s, got %s", path, show(a.F), show(b.F))
	}
	if !eqKNodes(a.Annot, b.Annot) {
		d.add("exannot", "%s: expected the annotations %s, got %s", path, show(a.Annot), show(b.Annot))
	}
	if !eqKNodes(a.Extra, b.Extra) {
		d.add("exextra", "%s: expected the extra facets %s, got %s", path, show(a.Extra), show(b.Extra))
	}
}

func (d *differ) doc(path string, a, b *MDoc) {
	if a.Title != b.Title || a.Content != b.Content || a.Inc != b.Inc {
		d.add("docs", "%s: expected %s, got %s", path, show(a), show(b))
	}
	if !eqKNodes(a.Extra, b.Extra) {
		d.add("docextra", "%s: expected the extra facets %s, got %s", path, show(a.Extra), show(b.Extra))
	}
}

func (d *differ) document(a, b *MDocument) {
	if a == nil || b == nil {
		d.add("section", "expected %s, got %s", show(a), show(b))
		return
	}
	if a.Class != b.Class || a.Title != b.Title {
		d.add("section", "expected %s %q, got %s %q", a.Class, a.Title, b.Class, b.Title)
	}
	if !eqParts(a.F, b.F) {
		d.add("section", "expected the sections %s, got %s", show(a.F), show(b.F))
	}
	keys := map[string]bool{}
	for k := range a.Raws {
		keys[k] = true
	}
	for k := range b.Raws {
		keys[k] = true
	}
	for k := range keys {
		if !eqKNodes(a.Raws[k], b.Raws[k]) {
			d.add("section", "section %s: expected %s, got %s", k, show(a.Raws[k]), show(b.Raws[k]))
		}
	}
	if !eqKNodes(a.Uses, b.Uses) {
		d.add("section", "uses: expected %s, got %s", show(a.Uses), show(b.Uses))
	}
	if !eqKNodes(a.Resources, b.Resources) {
		d.add("section", "resources: expected %s, got %s", show(a.Resources), show(b.Resources))
	}
	if !eqKNodes(a.Annot, b.Annot) {
		d.add("rootannot", "annotations: expected %s, got %s", show(a.Annot), show(b.Annot))
	}
	if !eqKNodes(a.Extra, b.Extra) {
		d.add("rootextra", "extra facets: expected %s, got %s", show(a.Extra), show(b.Extra))
	}
	if len(a.Docs) != len(b.Docs) {
		d.add("docs", "documentation: expected %s, got %s", show(a.Docs), show(b.Docs))
	} else {
		for i := range a.Docs {
			d.doc(fmt.Sprintf("documentation[%d]", i), a.Docs[i], b.Docs[i])
		}
	}
	d.types("types", "section", a.Types, b.Types)
}
