package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Node is a YAML tree as the specifications see it: a tag, the canonical text
// of a scalar, and children (keys and values alternate in maps).
type Node struct {
	T string  `json:"t"`
	V string  `json:"v"`
	C []*Node `json:"c"`
}

func scalar(t, v string) *Node     { return &Node{t, v, []*Node{}} }
func str(v string) *Node           { return scalar("str", v) }
func null() *Node                  { return scalar("null", "") }
func seqOf(c ...*Node) *Node       { return &Node{"seq", "", append([]*Node{}, c...)} }
func mapOf(c ...*Node) *Node       { return &Node{"map", "", append([]*Node{}, c...)} }
func (n *Node) isScalar() bool     { return n.T != "seq" && n.T != "map" }
func (n *Node) get(k string) *Node { return n.at(k) }

func (n *Node) at(k string) *Node {
	for i := 0; i+1 < len(n.C); i += 2 {
		if n.C[i].V == k {
			return n.C[i+1]
		}
	}
	return nil
}

func (n *Node) String() string { b, _ := json.Marshal(n.compact()); return string(b) }

// compact is a short readable form.
func (n *Node) compact() interface{} {
	if n == nil {
		return "<none>"
	}
	switch n.T {
	case "seq":
		out := []interface{}{}
		for _, c := range n.C {
			out = append(out, c.compact())
		}
		return out
	case "map":
		out := []interface{}{"map"}
		for i := 0; i+1 < len(n.C); i += 2 {
			out = append(out, fmt.Sprint(n.C[i].compact()), n.C[i+1].compact())
		}
		return out
	}
	return n.T + ":" + n.V
}

func canonFloat(s string) string {
	f, err := strconv.ParseFloat(strings.ReplaceAll(s, "_", ""), 64)
	if err != nil {
		return s
	}
	return floatText(f)
}

// floatText writes whole numbers the way canonInt does.
func floatText(f float64) string {
	if f == 0 {
		return "0"
	}
	if a := math.Abs(f); a >= 1e-6 && a < 1e17 {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func canonInt(s string) string {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return strconv.FormatInt(i, 10)
	}
	if u, err := strconv.ParseUint(s, 10, 64); err == nil {
		return strconv.FormatUint(u, 10)
	}
	return s
}

// treeOf is the tree of a YAML node, with aliases replaced by what they name
// unless that has no end.
func treeOf(n *yaml.Node) *Node { return (&unfold{100000}).tree(n, 0) }

type unfold struct{ left int }

func (u *unfold) tree(n *yaml.Node, aliases int) *Node {
	if n == nil {
		return scalar("none", "")
	}
	u.left--
	treeOf := func(n *yaml.Node) *Node { return u.tree(n, aliases) }
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) == 0 {
			return scalar("none", "")
		}
		return treeOf(n.Content[0])
	case yaml.SequenceNode, yaml.MappingNode:
		out := &Node{"seq", "", []*Node{}}
		if n.Kind == yaml.MappingNode {
			out.T = "map"
		}
		if t := n.LongTag(); t != "tag:yaml.org,2002:seq" && t != "tag:yaml.org,2002:map" {
			out.V = t
		}
		for i, c := range n.Content {
			t := treeOf(c)
			if n.Kind == yaml.MappingNode && i%2 == 0 && c.Kind == yaml.ScalarNode {
				t.V = c.Value // keys are known by their text
			}
			out.C = append(out.C, t)
		}
		return out
	case yaml.AliasNode:
		if aliases > 20 || u.left < 0 {
			return scalar("alias", n.Value)
		}
		return u.tree(n.Alias, aliases+1)
	}
	switch n.ShortTag() {
	case "!!str":
		return str(n.Value)
	case "!!int":
		if _, err := strconv.ParseInt(n.Value, 10, 64); err != nil {
			if _, err := strconv.ParseUint(n.Value, 10, 64); err == nil {
				return scalar("uint", canonInt(n.Value))
			}
		}
		return scalar("int", canonInt(n.Value))
	case "!!float":
		return scalar("float", canonFloat(n.Value))
	case "!!bool":
		return scalar("bool", strings.ToLower(n.Value))
	case "!!null":
		return null()
	case "!!timestamp":
		return scalar("ts", n.Value)
	case "!include":
		return scalar("inc", n.Value)
	}
	return scalar("tag"+n.ShortTag(), n.Value)
}

func treeOfText(s string) (*Node, error) {
	var doc yaml.Node
	if err := yaml.Unmarshal([]byte(s), &doc); err != nil {
		return nil, err
	}
	return treeOf(&doc), nil
}

// normal is the text of a tree in which the order of map entries does not show.
func (n *Node) normal() string {
	switch n.T {
	case "seq":
		parts := []string{}
		for _, c := range n.C {
			parts = append(parts, c.normal())
		}
		return n.V + "[" + strings.Join(parts, ",") + "]"
	case "map":
		parts := []string{}
		for i := 0; i+1 < len(n.C); i += 2 {
			parts = append(parts, n.C[i].normal()+":"+n.C[i+1].normal())
		}
		sort.Strings(parts)
		return n.V + "{" + strings.Join(parts, ",") + "}"
	}
	return n.T + strconv.Quote(n.V)
}

// sameTree compares trees including the order of map entries.
func sameTree(a, b *Node) bool {
	if a.T != b.T || a.V != b.V || len(a.C) != len(b.C) {
		return false
	}
	for i := range a.C {
		if !sameTree(a.C[i], b.C[i]) {
			return false
		}
	}
	return true
}

func sameContent(a, b *Node) bool { return a.normal() == b.normal() }
