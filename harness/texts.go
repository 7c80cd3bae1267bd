package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
)

// Texts of any kind: well-formed documents that were damaged, YAML features
// that documents rarely use, and heaps of tokens.  Every one has to be read or
// rejected, and what was read has to be usable.

var tokens = []string{"&a ", "*a", "&b ", "*b", "!x ", "!!str ", "!!int ", "!!binary ", "!!set ", "!!map ", "!!seq ", "!!null ", "!include ", "! ",
	"<<: ", "? ", ": ", ":", "- ", "[", "]", "{", "}", ",", "|", "|+2", ">-", "\"", "'", "#", " #", "%YAML 1.1\n", "---\n", "...\n", "\t", " ", "  ", "\n", "\r\n",
	"\x00", "\xff", "\ufeff", "\u2028", "\u0085", "~", "null", "true", "0", "-1", "1e999", ".inf", ".nan", "0x1F", "0o7", "1_000", "9999999999999999999999", "2020-01-01",
	"type", "schema", "properties", "items", "example", "examples", "facets", "xml", "enum", "value", "strict", "required", "default", "title", "documentation", "content",
	"types", "schemas", "uses", "traits", "(a)", "(", "/x", "mediaType", "securedBy", "string", "integer", "object", "array", "a|b", "file", "nil", "union", "any",
	"minimum", "minLength", "multipleOf", "format", "[]", "{}", "\"\"", "*", "&", "&a", "@", "`"}

// damage changes a text in a few places.
func (g *gen) damage(text, other string) string {
	for n := 1 + g.rng.Intn(4); n > 0; n-- {
		lines := strings.Split(text, "\n")
		i := g.rng.Intn(len(lines))
		at := 0
		if len(text) > 0 {
			at = g.rng.Intn(len(text))
		}
		switch g.rng.Intn(12) {
		case 0:
			lines = append(lines[:i], lines[i+1:]...)
			text = strings.Join(lines, "\n")
		case 1:
			lines = append(lines[:i+1], lines[i:]...)
			text = strings.Join(lines, "\n")
		case 2:
			j := g.rng.Intn(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
			text = strings.Join(lines, "\n")
		case 3:
			lines[i] = strings.Repeat(" ", g.rng.Intn(5)) + strings.TrimLeft(lines[i], " ")
			text = strings.Join(lines, "\n")
		case 4, 5:
			text = text[:at] + g.pick(tokens) + text[at:]
		case 6:
			end := at + g.rng.Intn(8)
			if end > len(text) {
				end = len(text)
			}
			text = text[:at] + text[end:]
		case 7:
			text = text[:at]
		case 8, 9, 10:
			// Another value.
			if k := strings.Index(lines[i], ": "); k >= 0 {
				lines[i] = lines[i][:k+2] + g.pick(tokens)
				text = strings.Join(lines, "\n")
			} else if strings.HasSuffix(lines[i], ":") {
				lines[i] += " " + g.pick(tokens)
				text = strings.Join(lines, "\n")
			}
		default:
			o := strings.Split(other, "\n")
			text = strings.Join(append(append([]string{}, lines[:i]...), o[g.rng.Intn(len(o)):]...), "\n")
		}
	}
	return text
}

// knot ties aliases and other rarely used features into the nodes of a document.
func (g *gen) knot(root *yaml.Node) {
	all := []*yaml.Node{}
	above := map[*yaml.Node]*yaml.Node{}
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		all = append(all, n)
		for _, c := range n.Content {
			above[c] = n
			walk(c)
		}
	}
	walk(root)
	if g.one(3) {
		g.tie(all, above)
	}
	for k := 1 + g.rng.Intn(3); k > 0; k-- {
		n := all[g.rng.Intn(len(all))]
		if n.Kind != yaml.MappingNode && n.Kind != yaml.SequenceNode || len(n.Content) == 0 {
			continue
		}
		i := g.rng.Intn(len(n.Content))
		if n.Kind == yaml.MappingNode && i%2 == 0 && g.one(2) {
			i++
		}
		switch g.rng.Intn(6) {
		case 0, 1:
			t := all[g.rng.Intn(len(all))]
			if t.Kind == yaml.AliasNode || t == root && root.Kind != yaml.MappingNode {
				continue
			}
			if t.Anchor == "" {
				t.Anchor = fmt.Sprintf("n%d", g.rng.Intn(1000000))
			}
			n.Content[i] = &yaml.Node{Kind: yaml.AliasNode, Value: t.Anchor, Alias: t}
		case 2:
			n.Content[i] = &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{{Kind: yaml.ScalarNode, Tag: "!!str", Value: "type"}, n.Content[i]}}
		case 3:
			n.Content[i] = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{n.Content[i]}}
		case 4:
			c := *n.Content[i]
			c.Tag = []string{"!mine", "!!set", "!!binary", "!include", "!!omap", "!!timestamp"}[g.rng.Intn(6)]
			c.Style |= yaml.TaggedStyle
			n.Content[i] = &c
		case 5:
			n.Content[i] = yamlNode(g.typ(1), nil, false)
		}
	}
}

// Where something is read from.
var readAt = []string{"type", "type", "type", "schema", "items", "items", "properties", "example", "examples", "facets", "xml", "value", "default", "enum", "types",
	"documentation", "uses", "title", "minimum", "(a)", "x"}

// tie makes an entry of a mapping an alias of the mapping or of one around it.
func (g *gen) tie(all []*yaml.Node, above map[*yaml.Node]*yaml.Node) {
	maps := []*yaml.Node{}
	for _, n := range all {
		if n.Kind == yaml.MappingNode && above[n] != nil {
			maps = append(maps, n)
		}
	}
	if len(maps) == 0 {
		return
	}
	n := maps[g.rng.Intn(len(maps))]
	t := n
	for g.one(3) && above[t] != nil {
		t = above[t]
	}
	if g.one(6) {
		t = maps[g.rng.Intn(len(maps))]
	}
	if t.Anchor == "" {
		t.Anchor = fmt.Sprintf("t%d", g.rng.Intn(1000000))
	}
	k := g.pick(readAt)
	alias := &yaml.Node{Kind: yaml.AliasNode, Value: t.Anchor, Alias: t}
	if g.one(4) {
		alias = &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{{Kind: yaml.ScalarNode, Tag: "!!str", Value: g.pick(readAt)}, alias}}
	} else if g.one(6) {
		alias = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{alias}}
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == k {
			n.Content[i+1] = alias
			return
		}
	}
	n.Content = append(n.Content, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, alias)
}

// text is any text.
func (g *gen) anyText(class string) string {
	g.deep = 1 + g.rng.Intn(3)
	g.bad = []int{0, 3, 12, 40}[g.rng.Intn(4)]
	plain := func(class string) string {
		var style *rand.Rand
		if g.one(2) {
			style = g.rng
		}
		t, err := yamlText(g.document(class), style)
		if err != nil {
			return "types: {}\n"
		}
		return t
	}
	switch g.rng.Intn(10) {
	case 0:
		return plain(class)
	case 1:
		out := ""
		for n := g.rng.Intn(14); n > 0; n-- {
			out += g.pick(tokens)
			if g.one(3) {
				out += g.pick([]string{"\n", "\n  ", ": ", " "})
			}
		}
		return out
	case 2:
		// Something else at the root, or deep nesting.
		switch g.rng.Intn(4) {
		case 0:
			return g.pick(tokens)
		case 1:
			t, _ := yamlText(g.raw(3), nil)
			return t
		case 2:
			n := 1 + g.rng.Intn(400)
			return "types:\n  T: " + strings.Repeat("{items: ", n) + "string" + strings.Repeat("}", n) + "\n"
		}
		n := 1 + g.rng.Intn(400)
		return "x: " + strings.Repeat("[", n) + strings.Repeat("]", n) + "\n"
	case 3, 4, 5:
		node := yamlNode(g.document(class), nil, false)
		var out []byte
		guarded(func() {
			g.knot(node)
			out, _ = yaml.Marshal(node)
		})
		return string(out)
	}
	text := plain(class)
	if g.one(12) && len(text) > 0 {
		// A character that cannot be, where the next piece of the text begins.
		at := g.rng.Intn(len(text))
		if k := strings.Index(text[at:], g.pick([]string{" ", "!", "\n", "\"", "["})); k >= 0 {
			at += k + 1
		}
		text = "#" + strings.Repeat("x", (512-(at+2)%512)%512) + "\n" + text[:at] + g.pick([]string{"\xff", "\x00", "\x01", "\xc3"}) + text[at:]
		return text
	}
	return g.damage(text, plain(classes[g.rng.Intn(2)]))
}

var plainInt = regexp.MustCompile(`^[-+]?(0|[1-9][0-9]*)$`)
var plainFloat = regexp.MustCompile(`^[-+]?[0-9]+(\.[0-9]*)?([eE][-+]?[0-9]+)?$`)

// modelled tells whether the specification speaks about a YAML document.
func modelled(n *yaml.Node, root bool, depth int) bool {
	if depth > 40 {
		return false // TLC's JSON reader has a limit
	}
	switch n.Kind {
	case yaml.AliasNode:
		return false
	case yaml.SequenceNode, yaml.MappingNode:
		tag := n.ShortTag()
		if n.Style&yaml.TaggedStyle != 0 || tag != "!!map" && tag != "!!seq" {
			return false
		}
		seen := map[string]bool{}
		for i, c := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 0 {
				if c.Kind != yaml.ScalarNode || seen[c.Value] || c.ShortTag() != "!!str" && !(root && c.ShortTag() == "!!int" && plainInt.MatchString(c.Value)) {
					return false
				}
				seen[c.Value] = true
			}
			if !modelled(c, false, depth+1) {
				return false
			}
		}
		return !(seen["type"] && seen["schema"]) && !(seen["types"] && seen["schemas"])
	}
	if n.Style&yaml.TaggedStyle != 0 && n.ShortTag() != "!include" || n.Anchor != "" && n.Value == "" {
		return false
	}
	switch n.ShortTag() {
	case "!!str", "!!bool", "!!null":
		return true
	case "!include":
		return n.Value != ""
	case "!!timestamp":
		return len(n.Value) == 10
	case "!!int":
		i, err := strconv.ParseInt(n.Value, 10, 64)
		return err == nil && plainInt.MatchString(n.Value) && i >= -(1<<53) && i <= 1<<53
	case "!!float":
		return plainFloat.MatchString(n.Value) && len(n.Value) < 18
	}
	return false
}

// inspect calls every accessor of an object and of what they report.
func inspect(x interface{}, depth int) {
	v := reflect.ValueOf(x)
	if depth == 0 || isNil(v) {
		return
	}
	if v.Kind() == reflect.Slice {
		for i := 0; i < v.Len() && i < 50; i++ {
			inspect(v.Index(i).Interface(), depth-1)
		}
		return
	}
	if v.NumMethod() == 0 {
		return
	}
	if _, ok := x.(*yaml.Node); ok {
		return
	}
	if p := v.MethodByName("IsPresent"); p.IsValid() {
		v.MethodByName("IsNil").Call(nil)
		if p.Call(nil)[0].Bool() {
			inspect(iface(v.MethodByName("Get").Call(nil)[0]), depth-1)
		}
		return
	}
	if v.MethodByName("At").IsValid() && v.MethodByName("Len").IsValid() {
		mapEntries(x, func(k, e interface{}) { inspect(e, depth-1) })
		return
	}
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 || strings.HasPrefix(m.Name, "Unset") || strings.HasPrefix(m.Name, "Set") {
			continue
		}
		for _, out := range v.Method(i).Call(nil) {
			if out.Kind() == reflect.Interface || out.Kind() == reflect.Ptr || out.Kind() == reflect.Slice {
				if isNil(out) {
					continue
				}
				inspect(out.Interface(), depth-1)
			}
		}
	}
}

// readText reads one text, uses what comes out, and records the step.
func readText(text, class string) (e event) {
	e = event{Op: "text", S: 1, Class: class, Tree: null(), Path: []pstep{}, Call: bop{D: null()}, View: []*MDocument{}, Text: text,
		Digests: make([]string, slots), Verdict: "accepted"}
	var node yaml.Node
	known := false
	if crash := guarded(func() {
		if yaml.Unmarshal([]byte(text), &node) == nil && len(node.Content) == 1 && modelled(node.Content[0], class == "api", 0) {
			e.Op, e.Tree, known = "open", treeOf(&node), true
		}
	}); crash != "" {
		// The YAML library itself gives up.
		e.Why = "yaml: " + crash
	}
	doc, err, crash := openDoc(text, class == "lib")
	if crash != "" {
		e.Verdict, e.Why = "crashed", crash
		return
	}
	if err != nil {
		e.Verdict, e.Why = "rejected", err.Error()
		return
	}
	crash = guarded(func() {
		e.View = []*MDocument{projectDocument(doc)}
		e.Digests[0] = digest(e.View[0])
		inspect(doc, 14)
	})
	if crash != "" {
		e.Verdict, e.Why = "crashed", "an accessor panics: "+crash
		return
	}
	out, err, crash := writeDoc(doc)
	if crash == "" && err == nil {
		_, _, crash = openDoc(out, class == "lib")
	}
	if crash == "" {
		crash = guarded(func() { inspect(doc, 14) })
	}
	if crash != "" {
		e.Verdict, e.Why = "crashed", crash
	}
	if !known {
		// Only whether it is read matters.
		e.View, e.Digests = []*MDocument{}, make([]string, slots)
	}
	return
}

func init() {
	commands["texts-record"] = textsRecord
	commands["texts-child"] = textsChild
}

func textAt(seed int64, i int) (string, string) {
	g := &gen{rng: rand.New(rand.NewSource(seed*1000003 + int64(i)))}
	class := classes[i%2]
	return g.anyText(class), class
}

// textsChild reads the texts size, ..., size+n-1 and records them.
func textsChild(o options, res *Result) {
	debug.SetMaxStack(256 << 20)
	f, err := os.Create(o.trace)
	check(err)
	for i := o.size; i < o.size+o.n; i++ {
		text, class := textAt(o.seed, i)
		e := readText(text, class)
		if e.Op == "open" && e.Verdict != "crashed" {
			_, err := f.Write(asciiJSON(event{Op: "begin", S: 1, Verdict: "accepted", Tree: null(), Path: []pstep{}, Call: bop{D: null()}, View: []*MDocument{}, Digests: make([]string, slots)}))
			check(err)
		}
		_, err := f.Write(asciiJSON(e))
		check(err)
		res.add(e.Op+" "+e.Verdict, 1)
	}
	check(f.Close())
}

// textsRecord has child processes read -n texts, as nothing in this process
// could survive a stack overflow, runaway memory or an endless loop.
func textsRecord(o options, res *Result) {
	const chunk = 400
	exe, err := os.Executable()
	check(err)
	chunks := (o.n + chunk - 1) / chunk
	child := func(from, n int, name string) (string, bool) {
		cmd := exec.Command("/bin/sh", "-c", `ulimit -v 8000000; exec "$0" "$@"`, exe, "texts-child", "-seed", fmt.Sprint(o.seed),
			"-size", fmt.Sprint(from), "-n", fmt.Sprint(n), "-trace", name+".nd", "-out", name+".json")
		done := make(chan struct{})
		go func() {
			select {
			case <-done:
			case <-time.After(time.Duration(60+n/4) * time.Second):
				cmd.Process.Kill()
			}
		}()
		out, err := cmd.CombinedOutput()
		close(done)
		return string(out), err == nil
	}
	parallel(chunks, func(c int) {
		name := fmt.Sprintf("%s.%d", o.trace, c)
		defer func() { os.Remove(name + ".json"); os.Remove(name + ".1.json"); os.Remove(name + ".1.nd") }()
		if _, ok := child(c*chunk, chunk, name); ok {
			return
		}
		// Find out which one it was.
		os.Remove(name + ".nd")
		for i := c * chunk; i < (c+1)*chunk; i++ {
			out, ok := child(i, 1, name+".1")
			if !ok {
				text, class := textAt(o.seed, i)
				if len(out) > 600 {
					out = out[:600]
				}
				res.fail(Mismatch{"crash:process", class, "the process dies: " + out, map[string]interface{}{"text": text, "class": class}})
			}
		}
	})
	f, err := os.Create(o.trace)
	check(err)
	for c := 0; c < chunks; c++ {
		name := fmt.Sprintf("%s.%d.nd", o.trace, c)
		b, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		_, err = f.Write(b)
		check(err)
		os.Remove(name)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, `{"op":"open"`) || strings.HasPrefix(l, `{"op":"text"`) {
				res.add(l[7:11]+" "+l[strings.Index(l, `"verdict":"`)+11:][:8], 1)
			}
		}
	}
	check(f.Close())
}
