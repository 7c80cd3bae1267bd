package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"gopkg.in/yaml.v3"
)

var longTag = map[string]string{"str": "!!str", "int": "!!int", "uint": "!!int", "float": "!!float", "bool": "!!bool",
	"null": "!!null", "ts": "!!timestamp", "inc": "!include"}

// yamlNode builds the YAML node of a tree.  rng varies the style; nil means the
// plain style.  Children of flow collections are flow as well.
func yamlNode(n *Node, rng *rand.Rand, flow bool) *yaml.Node {
	out := &yaml.Node{}
	switch n.T {
	case "seq", "map":
		out.Kind, out.Tag = yaml.SequenceNode, "!!seq"
		if n.T == "map" {
			out.Kind, out.Tag = yaml.MappingNode, "!!map"
		}
		if rng != nil && !flow && rng.Intn(6) == 0 {
			flow = true
		}
		if flow || len(n.C) == 0 {
			out.Style = yaml.FlowStyle
		}
		for _, c := range n.C {
			out.Content = append(out.Content, yamlNode(c, rng, flow))
		}
		return out
	}
	out.Kind, out.Tag, out.Value = yaml.ScalarNode, longTag[n.T], n.V
	switch n.T {
	case "null":
		out.Value = "null"
		if rng != nil {
			out.Value = []string{"null", "~", "null", "Null"}[rng.Intn(4)]
		}
	case "bool":
		if rng != nil && rng.Intn(8) == 0 {
			out.Value = map[string]string{"true": "True", "false": "FALSE"}[n.V]
		}
	case "float":
		// A canonical text may look like a whole number.
		if f := n.V; !bytes.ContainsAny([]byte(f), ".eE") {
			out.Value = f + ".0"
		}
	case "num":
		out.Tag = "!!float"
		if !bytes.ContainsAny([]byte(n.V), ".eE") {
			out.Tag = "!!int"
		}
	case "str":
		if rng != nil {
			switch rng.Intn(8) {
			case 0:
				out.Style = yaml.SingleQuotedStyle
			case 1:
				out.Style = yaml.DoubleQuotedStyle
			case 2:
				if !flow {
					out.Style = yaml.LiteralStyle
				}
			case 3:
				if !flow {
					out.Style = yaml.FoldedStyle
				}
			}
		}
	}
	return out
}

// yamlText writes a tree as a YAML text which reads back as exactly this tree.
func yamlText(n *Node, rng *rand.Rand) (string, error) {
	var last string
	for try := 0; try < 6; try++ {
		if try == 0 && rng == nil {
			try = 4
		}
		if try >= 4 {
			rng = nil
		}
		var b bytes.Buffer
		enc := yaml.NewEncoder(&b)
		if rng != nil {
			enc.SetIndent(1 + rng.Intn(5))
		}
		root := yamlNode(n, rng, false)
		if try == 5 {
			quoted(root)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					last = fmt.Sprint(e)
				}
			}()
			if err := enc.Encode(root); err != nil {
				last = err.Error()
				b.Reset()
			}
			enc.Close()
		}()
		if b.Len() > 0 {
			last = b.String()
			if t, err := treeOfText(last); err == nil && sameTree(t, withoutNum(n)) {
				return last, nil
			}
		}
	}
	return "", fmt.Errorf("cannot write %s as YAML: %s", n, last)
}

// quoted makes texts of several lines quoted ones.
func quoted(n *yaml.Node) {
	if n.Kind == yaml.ScalarNode && n.Tag == "!!str" && strings.Contains(n.Value, "\n") {
		n.Style = yaml.DoubleQuotedStyle
	}
	for _, c := range n.Content {
		quoted(c)
	}
}

// withoutNum gives numbers the form in which yamlNode writes them.
func withoutNum(n *Node) *Node {
	out := &Node{n.T, n.V, []*Node{}}
	if n.T == "num" {
		out.T = "float"
		if !bytes.ContainsAny([]byte(n.V), ".eE") {
			out.T = "int"
		}
	}
	for _, c := range n.C {
		out.C = append(out.C, withoutNum(c))
	}
	return out
}
