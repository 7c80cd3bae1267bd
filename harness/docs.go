package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

// docCase is a behaviour of DocParser: a root tree, the document it is (none if
// it is rejected), and the tree it is written as.
type docCase struct {
	Class string       `json:"class"`
	Def   *Node        `json:"def"`
	Doc   []*MDocument `json:"doc"`
	Out   []*Node      `json:"out"`
}

var headers = map[string]string{"api": "#%RAML 1.0\n", "lib": "#%RAML 1.0 Library\n"}

// docText is a text of the document with, mostly, the header it should have.
func docText(class string, root *Node, rng *rand.Rand) (string, error) {
	if root.T == "none" {
		texts := []string{"", "\n", "# nothing\n", headers[class], "\n\n  \n"}
		if rng == nil {
			return texts[0], nil
		}
		return texts[rng.Intn(len(texts))], nil
	}
	text, err := yamlText(root, rng)
	if err != nil {
		return "", err
	}
	if rng == nil {
		return headers[class] + text, nil
	}
	out := headers[class] + text
	switch rng.Intn(6) {
	case 0:
		out = text
	case 1:
		out = headers[class] + "---\n" + text
	case 2:
		out = headers[class] + "\n# a remark\n\n" + text + "\n# the end\n"
	case 3:
		if !strings.HasPrefix(text, "---") {
			out = headers[class] + "---\n" + text + "...\n"
		}
	}
	// What surrounds the text must not change it (trailing newlines, say).
	if a, err := treeOfText(out); err == nil {
		if b, err := treeOfText(text); err == nil && sameTree(a, b) {
			return out, nil
		}
	}
	return headers[class] + text, nil
}

// sectionField is the category of a root key.
func sectionField(class string, k *Node) string {
	key := k.V
	defs, raws := apiParts, apiRaws
	if class == "lib" {
		defs, raws = libParts, libRaws
	}
	for _, f := range defs {
		if f.key == key {
			return "section"
		}
	}
	if _, ok := raws[key]; ok {
		return "section"
	}
	switch key {
	case "types", "schemas", "uses":
		return "section"
	case "title":
		if class == "api" {
			return "section"
		}
	case "documentation":
		if class == "api" {
			return "docs"
		}
	}
	if strings.HasPrefix(key, "(") {
		return "rootannot"
	}
	if class == "api" && strings.HasPrefix(key, "/") {
		return "section"
	}
	return "rootextra"
}

func docTopic(class string, root *Node) string {
	best := "section"
	if root.T != "map" {
		return best
	}
	for _, want := range []string{"rootextra", "rootannot", "docs"} {
		for i := 0; i+1 < len(root.C); i += 2 {
			if sectionField(class, root.C[i]) == want {
				best = want
			}
		}
	}
	return best
}

// documentDiffs compares a written document with the expected tree.
func documentDiffs(class string, exp, got *Node) []diff {
	if matches(exp, got) {
		return nil
	}
	if exp.T != "map" || got.T != "map" {
		return []diff{{"section", fmt.Sprintf("expected to be written as %s, got %s", exp, got)}}
	}
	out := []diff{}
	seen := map[string]bool{}
	for _, t := range []*Node{exp, got} {
		for i := 0; i+1 < len(t.C); i += 2 {
			k := t.C[i]
			if seen[k.V] {
				continue
			}
			seen[k.V] = true
			if !matches(exp.at(k.V), got.at(k.V)) {
				out = append(out, diff{sectionField(class, k), fmt.Sprintf("section %s: expected to be written as %s, got %s", k.V, exp.at(k.V), got.at(k.V))})
			}
		}
	}
	if len(out) == 0 {
		out = append(out, diff{"section", fmt.Sprintf("expected to be written as %s, got %s", exp, got)})
	}
	return out
}

// headed tells whether a written text starts with the header of its class.
func headed(class, text string) bool {
	line := strings.SplitN(text, "\n", 2)[0]
	return strings.TrimRight(line, " \r") == strings.TrimRight(headers[class], "\n")
}

// A docRun checks one document.
type docRun struct {
	res   *Result
	class string
	text  string
	what  interface{}
}

func (r *docRun) fail(stage string, ds ...diff) {
	where := map[string]string{"api": "API document", "lib": "library"}[r.class]
	for _, d := range ds {
		r.res.fail(Mismatch{stage + ":" + d.field, where, d.what, map[string]interface{}{"text": r.text, "definition": r.what}})
	}
}

// accepted checks a parsed document: what its accessors report, what is
// written, and that nothing is lost on the way.  out is nil if the written form
// is not to be compared.
func (r *docRun) accepted(doc interface{}, exp *MDocument, out *Node) {
	lib := r.class == "lib"
	var got *MDocument
	if crash := guarded(func() { got = projectDocument(doc) }); crash != "" {
		r.fail("crash", diff{"inspect", "an accessor panics: " + crash})
		return
	}
	if exp != nil {
		d := &differ{}
		d.document(exp, got)
		r.fail("read-"+r.class, d.out...)
	}
	text, err, crash := writeDoc(doc)
	if crash != "" {
		r.fail("crash", diff{"write", crash})
		return
	}
	if err != nil {
		r.fail("reparse-"+r.class, diff{"error", "writing fails: " + err.Error()})
		return
	}
	r.res.add("written", 1)
	if !headed(r.class, text) {
		r.fail("reparse-"+r.class, diff{"header", "the written document has no proper header:\n" + text})
	}
	tree, err := treeOfText(text)
	if err != nil {
		r.fail("reparse-"+r.class, diff{"error", "the written document is no YAML: " + err.Error()})
		return
	}
	if out != nil {
		if tree.T == "null" || tree.T == "none" {
			tree = mapOf()
		}
		r.fail("write", documentDiffs(r.class, out, tree)...)
	}
	again, err, crash := openDoc(text, lib)
	if crash != "" {
		r.fail("crash", diff{"parse", crash})
		return
	}
	if err != nil {
		r.fail("reparse-"+r.class, diff{"error", "the written document is rejected: " + err.Error() + "\n" + text})
		return
	}
	if crash := guarded(func() {
		d := &differ{}
		d.document(got, projectDocument(again))
		r.fail("reparse-"+r.class, d.out...)
	}); crash != "" {
		r.fail("crash", diff{"inspect", "an accessor panics: " + crash})
		return
	}
	if text2, err, _ := writeDoc(doc); err != nil || text2 != text {
		r.fail("stable", diff{"text", fmt.Sprintf("writing again yields another text:\n%s\nthen\n%s", text, text2)})
	}
	if crash := guarded(func() {
		d := &differ{}
		d.document(got, projectDocument(doc))
		r.fail("stable", d.out...)
	}); crash != "" {
		r.fail("crash", diff{"inspect", "an accessor panics after writing: " + crash})
	}
	if text3, err, _ := writeDoc(again); err != nil || text3 != text {
		r.fail("stable", diff{"text", fmt.Sprintf("the text changes when it is parsed and written again:\n%s\nthen\n%s", text, text3)})
	}
}

func init() { commands["docs-replay"] = docsReplay }

// docsReplay reads every modelled document with the library.
func docsReplay(o options, res *Result) {
	cases := []docCase{}
	readLines(o.in, func(b []byte) {
		var c docCase
		check(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	parallel(len(cases), func(i int) {
		c := cases[i]
		var rng *rand.Rand
		if o.mode == "styles" && i%3 != 0 {
			rng = rand.New(rand.NewSource(o.seed*1000003 + int64(i)))
		}
		local := newResult()
		defer func() { res.merge(local) }()
		r := &docRun{res: local, class: c.Class, what: c.Def}
		text, err := docText(c.Class, c.Def, rng)
		if err != nil {
			local.add("unwritable", 1)
			return
		}
		r.text = text
		local.add("parsed", 1)
		if i%(len(cases)/3+1) == 0 {
			local.sample(1, map[string]interface{}{"text": r.text, "expected": c.Doc})
		}
		doc, err, crash := openDoc(text, c.Class == "lib")
		if crash != "" {
			r.fail("crash", diff{"parse", crash})
			return
		}
		if len(c.Doc) == 0 {
			local.add("malformed", 1)
			if err == nil {
				r.fail("accept", diff{docTopic(c.Class, c.Def), "a malformed document is accepted"})
				if crash := guarded(func() { projectDocument(doc); writeDoc(doc) }); crash != "" {
					r.fail("crash", diff{"use", crash})
				}
			}
			return
		}
		if err != nil {
			r.fail("reject-"+c.Class, diff{docTopic(c.Class, c.Def), "a well-formed document is rejected: " + err.Error()})
			return
		}
		r.accepted(doc, c.Doc[0], c.Out[0])
	})
	res.add("cases", len(cases))
}
