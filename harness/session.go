package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing/iotest"
	"time"
	"unicode/utf16"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
)

// Sessions: several documents are opened, edited, written and opened again in
// turn.  Every step is recorded together with what the accessors report.

const slots = 3

// A pstep leads from an object to one inside of it.
type pstep struct {
	F string `json:"f"`
	K string `json:"k"`
	L string `json:"l"`
	I int    `json:"i"`
}

// An event is one recorded step (Session.tla).
type event struct {
	Op      string       `json:"op"` // begin, open, new, edit, write, reopen, cutread, cutwrite, look
	S       int          `json:"s"`  // the slot
	From    int          `json:"from"`
	Class   string       `json:"class"`
	Tree    *Node        `json:"tree"` // what is opened; what was written
	Path    []pstep      `json:"path"`
	On      string       `json:"on"` // class of the edited object
	Call    bop          `json:"call"`
	Verdict string       `json:"verdict"`
	Text    string       `json:"text"`
	Hash    string       `json:"hash"`
	Headed  bool         `json:"headed"`
	N       int          `json:"n"`       // bytes that come through
	Total   int          `json:"total"`   // bytes there are
	View    []*MDocument `json:"view"`    // of the slot, afterwards
	Digests []string     `json:"digests"` // of every slot, afterwards
	Why     string       `json:"why"`
}

type session struct {
	g      *gen
	docs   [slots]interface{}
	texts  [slots]string
	class  [slots]string
	events []event
	dead   bool
	yield  bool // let other goroutines go first
}

func digest(x interface{}) string {
	b, err := json.Marshal(x)
	check(err)
	return fmt.Sprintf("%x", sha1.Sum(b))[:16]
}

// projected is a projection, or the text of a panic.
func projected(doc interface{}) (v []*MDocument, crash string) {
	crash = guarded(func() {
		if doc != nil {
			v = []*MDocument{projectDocument(doc)}
		}
	})
	return
}

func (s *session) record(e event, crash string) {
	if e.Tree == nil {
		e.Tree = null()
	}
	if e.Call.D == nil {
		e.Call.D = null()
	}
	if e.Path == nil {
		e.Path = []pstep{}
	}
	e.View = []*MDocument{}
	for i := range s.docs {
		if crash != "" {
			break
		}
		v, c := projected(s.docs[i])
		if c != "" {
			crash = "an accessor panics: " + c
			break
		}
		if v == nil {
			e.Digests = append(e.Digests, "")
			continue
		}
		e.Digests = append(e.Digests, digest(v[0]))
		if i == e.S-1 {
			e.View = v
		}
	}
	if crash != "" {
		e.Verdict, e.Why, s.dead = "crashed", crash, true
		e.Digests = make([]string, slots)
		e.View = []*MDocument{}
	}
	if strings.HasPrefix(e.Op, "cut") || e.Op == "totext" {
		e.View = []*MDocument{} // the digest tells that it is as before
	}
	s.events = append(s.events, e)
	if s.yield {
		runtime.Gosched()
	}
}

var classes = []string{"api", "lib"}

func (s *session) open(i int) {
	g := s.g
	class := classes[g.rng.Intn(2)]
	g.bad, g.deep = 0, 1+g.rng.Intn(3)
	if g.one(3) {
		g.bad = 60
	}
	s.openTree(i, class, g.document(class))
}

// large opens a document that is long, one that has many entries, or both, and
// writes it and opens it again.
func (s *session) large(class string) {
	s.record(event{Op: "begin", S: 1, Verdict: "accepted"}, "")
	g := s.g
	g.bad, g.deep = 0, 2
	root := g.document(class)
	if root.T != "map" {
		root = mapOf(str("title"), str("large"))
	}
	if !g.one(4) {
		n := []int{5000, 70000, 140000, 1100000}[g.rng.Intn(4)]
		text := str(strings.Repeat("no more than words, ", n/21) + "\n" + strings.Repeat("one line\nand another\n", n/210))
		root.C = append([]*Node{str("x-large"), text}, root.C...)
	}
	if g.one(2) {
		many := mapOf()
		for k := 0; k < 150; k++ {
			many.C = append(many.C, str(fmt.Sprint("t", k)), kv("type", "string", "minLength", intNode(fmt.Sprint(k))))
		}
		at := -1
		for k := 0; k+1 < len(root.C); k += 2 {
			if root.C[k].V == "types" || root.C[k].V == "schemas" {
				at = k
			}
		}
		if at < 0 {
			root.C = append(root.C, str("types"), many)
		} else {
			root.C[at+1] = many
		}
	}
	s.openTree(0, class, root)
	if s.docs[0] == nil || s.dead {
		return
	}
	s.write(0)
	if s.texts[0] != "" && !s.dead {
		s.reopen(0, 0)
	}
}

func (s *session) openTree(i int, class string, root *Node) {
	g := s.g
	var style *rand.Rand
	if g.one(2) {
		style = rand.New(rand.NewSource(g.rng.Int63()))
	}
	text, err := docText(class, root, style)
	if err != nil {
		return
	}
	doc, err, crash := readDoc(inPieces(text, g.rng.Intn(5)), class == "lib")
	e := event{Op: "open", S: i + 1, Class: class, Tree: root, Verdict: "accepted", Text: text}
	if err != nil {
		e.Verdict, e.Why = "rejected", err.Error()
	} else {
		s.docs[i], s.class[i], s.texts[i] = doc, class, ""
	}
	s.record(e, crash)
}

func (s *session) fresh(i int) {
	class := classes[s.g.rng.Intn(2)]
	var doc interface{} = rbuild.NewAPISpec()
	if class == "lib" {
		doc = rbuild.NewLibrary()
	}
	s.docs[i], s.class[i], s.texts[i] = doc, class, ""
	s.record(event{Op: "new", S: i + 1, Class: class, Verdict: "accepted"}, "")
}

func (s *session) write(i int) {
	text, err, crash := writeDoc(s.docs[i])
	e := event{Op: "write", S: i + 1, Class: s.class[i], Verdict: "written", Text: text}
	if err != nil {
		e.Verdict, e.Why = "failed", err.Error()
	} else if crash == "" {
		e.Hash, e.Headed = digest(text), headed(e.Class, text)
		e.Tree, err = treeOfText(text)
		if err != nil {
			e.Verdict, e.Why = "failed", "no YAML: "+err.Error()
		} else if e.Tree.T == "none" || e.Tree.T == "null" {
			e.Tree = mapOf()
		}
		s.texts[i] = text
	}
	s.record(e, crash)
}

// reopen reads what slot i was written as into slot j.
func (s *session) reopen(i, j int) {
	e := event{Op: "reopen", S: j + 1, From: i + 1, Class: s.class[i], Verdict: "accepted"}
	doc, err, crash := openDoc(s.texts[i], s.class[i] == "lib")
	if err != nil {
		e.Verdict, e.Why = "rejected", err.Error()
	} else {
		s.docs[j], s.class[j], s.texts[j] = doc, s.class[i], s.texts[i]
	}
	s.record(e, crash)
}

// find chooses an object of a document.
func (s *session) find(doc interface{}, class string) (b *bobj, path []pstep) {
	g := s.g
	b = &bobj{class: class, x: doc, salt: g.rng.Intn(6)}
	if g.one(3) {
		return
	}
	if a, ok := doc.(raml.APISpec); ok && g.one(5) && len(a.Documentation()) > 0 {
		k := g.rng.Intn(len(a.Documentation()))
		return &bobj{class: "entry", x: a.Documentation()[k], salt: b.salt}, []pstep{{F: "docs", I: k + 1}}
	}
	t, k := s.anyEntry(typesOf(doc))
	if t == nil {
		return
	}
	path = []pstep{{F: "types", K: k}}
	for {
		kind := string(t.(raml.DataType).Kind())
		b = &bobj{class: "type", kind: kind, x: t, salt: b.salt}
		if g.one(3) {
			return
		}
		options := []func() bool{}
		if c, k := s.anyEntry(get0(t, "Properties")); c != nil {
			options = append(options, func() bool { path = append(path, pstep{F: "props", K: k}); t = c; return true })
		}
		if c := get0(t, "Items"); c != nil {
			options = append(options, func() bool { path = append(path, pstep{F: "items"}); t = c; return true })
		}
		if fs, k := s.anyEntry(get0(t, "FacetDefinitions")); fs != nil {
			if c, l := s.anyEntry(fs); c != nil {
				options = append(options, func() bool { path = append(path, pstep{F: "facets", K: k, L: l}); t = c; return true })
			}
		}
		if c := get0(t, "XML"); c != nil {
			options = append(options, func() bool {
				path = append(path, pstep{F: "xml"})
				b = &bobj{class: "xml", x: c, salt: b.salt}
				return false
			})
		}
		if c := get0(t, "Example"); c != nil {
			options = append(options, func() bool {
				path = append(path, pstep{F: "ex"})
				b = &bobj{class: "example", kind: kind, x: c, salt: b.salt}
				return false
			})
		}
		if c, k := s.anyEntry(get0(t, "Examples")); c != nil {
			options = append(options, func() bool {
				path = append(path, pstep{F: "exs", K: k})
				b = &bobj{class: "example", kind: kind, x: c, salt: b.salt}
				return false
			})
		}
		if len(options) == 0 || !options[g.rng.Intn(len(options))]() {
			return
		}
	}
}

// get0 is what an accessor reports, nil if there is none.
func get0(x interface{}, name string) interface{} {
	m := reflect.ValueOf(x).MethodByName(name)
	if !m.IsValid() {
		return nil
	}
	v := m.Call(nil)[0]
	if isNil(v) {
		return nil
	}
	return v.Interface()
}

// anyEntry chooses an entry of a collection.
func (s *session) anyEntry(m interface{}) (v interface{}, key string) {
	if m == nil || isNil(reflect.ValueOf(m)) {
		return nil, ""
	}
	n, pick := 0, 0
	if c := int(reflect.ValueOf(m).MethodByName("Len").Call(nil)[0].Int()); c > 0 {
		pick = s.g.rng.Intn(c)
	}
	mapEntries(m, func(k, x interface{}) {
		if n == pick {
			v, key = x, keyText(k)
		}
		n++
	})
	return
}

func collections(b *bobj) []string {
	switch b.class {
	case "type":
		if b.kind == "nil" || b.kind == "include" {
			return []string{"extraFacets"}
		}
		out := []string{"annotations", "extraFacets", "facetDefinitions", "examples"}
		if b.kind == "object" {
			out = append(out, "properties")
		}
		return out
	case "example":
		return []string{"annotations", "extraFacets"}
	case "xml":
		return nil
	case "entry":
		return []string{"extraFacets"}
	}
	out := []string{"annotations", "extraFacets", "uses", "types", "schemas", "securitySchemes", "traits", "annotationTypes", "resourceTypes"}
	if b.class == "api" {
		out = append(out, "resources", "baseUriParameters")
	}
	return out
}

func partDefs(b *bobj) []facetDef {
	switch b.class {
	case "type":
		return facetDefs[b.kind]
	case "example":
		return exampleParts
	case "xml":
		return xmlParts
	case "entry":
		return nil
	case "api":
		return apiParts
	}
	return libParts
}

// registersOf are the registers of an object (Builder.tla).
func registersOf(b *bobj) []string {
	out := []string{}
	for _, f := range partDefs(b) {
		out = append(out, f.key)
	}
	out = append(out, collections(b)...)
	switch b.class {
	case "type":
		out = append(out, "type", "required")
		if b.kind != "nil" && b.kind != "include" {
			out = append(out, "xml", "example")
		}
		if b.kind == "array" {
			out = append(out, "items")
		}
	case "example":
		out = append(out, "value")
	case "entry":
		out = append(out, "title", "content")
	case "api":
		out = append(out, "title", "documentation")
	}
	return out
}

func hasSetter(b *bobj, r string) bool {
	switch b.class {
	case "example", "entry":
		return r != "extraFacets"
	case "api", "lib":
		return !contains([]string{"securitySchemes", "annotationTypes", "baseUriParameters", "resources", "extraFacets"}, r)
	}
	return !(r == "extraFacets" && (b.kind == "nil" || b.kind == "include"))
}

func hasUnset(b *bobj, r string) bool {
	return hasSetter(b, r) && !contains([]string{"type", "required", "strict", "title", "content"}, r) &&
		!(b.class == "type" && contains([]string{"uniqueItems", "minItems", "maxItems", "additionalProperties", "minLength"}, r)) &&
		!(b.class == "type" && b.kind == "file" && r == "maxLength")
}

func isList(b *bobj, r string) bool {
	for _, f := range partDefs(b) {
		if f.key == r {
			return f.list
		}
	}
	return false
}

// element is a tree denoting an entry of a collection.
func (s *session) element(b *bobj, r string) *Node {
	g := s.g
	switch r {
	case "annotations":
		return g.rawMap(3, g.rng.Intn(3))
	case "facetDefinitions":
		return g.types(g.rng.Intn(3), 0, []string{"y", "x", "type"})
	case "examples":
		return g.example(b.kind)
	case "properties", "types", "schemas":
		return g.typ(1)
	case "uses":
		return g.text()
	}
	return g.raw(3)
}

func keysFor(r string) []string {
	switch r {
	case "annotations":
		return annotationKeys
	case "extraFacets":
		return extraKeys
	case "resources":
		return []string{"/z", "/a/{id}", "/", "//"}
	case "types", "schemas":
		return []string{"T", "B", "A", "Lib", "New", "value"}
	case "properties":
		return []string{"b", "a", "name?", "value", "new"}
	case "uses":
		return []string{"z", "a", "lib", "more"}
	case "facetDefinitions":
		return []string{"f2", "f1", "f3"}
	}
	return []string{"two", "one", "b", "a", "value", "x y"}
}

// setting is a tree denoting a value for a register.
func (s *session) setting(b *bobj, r string) *Node {
	g := s.g
	for _, f := range partDefs(b) {
		if f.key == r {
			return g.facet(f)
		}
	}
	if contains(collections(b), r) {
		out := mapOf()
		for _, k := range g.keys(g.rng.Intn(3), keysFor(r)) {
			out.C = append(out.C, str(k), s.element(b, r))
		}
		return out
	}
	switch r {
	case "xml":
		return g.xml()
	case "items":
		return g.typ(1)
	case "example":
		return g.example(b.kind)
	case "value":
		return g.form(exampleForm[b.kind])
	case "type":
		return str(g.exprOf(g.kind()))
	case "required":
		return boolNode(g.one(2))
	case "documentation":
		return seqOf(g.entry(), g.entry())
	}
	return g.text()
}

func (s *session) edit(i int) {
	g := s.g
	g.bad = 0
	var b *bobj
	var path []pstep
	if crash := guarded(func() { b, path = s.find(s.docs[i], s.class[i]) }); crash != "" {
		s.record(event{Op: "edit", S: i + 1, Class: s.class[i]}, "finding an object panics: "+crash)
		return
	}
	regs := registersOf(b)
	call := bop{R: regs[g.rng.Intn(len(regs))]}
	coll := contains(collections(b), call.R)
	ops := []string{}
	if hasSetter(b, call.R) {
		ops = append(ops, "set", "set")
	}
	if hasUnset(b, call.R) {
		ops = append(ops, "unset")
	}
	if hasSetter(b, call.R) && (coll || call.R == "documentation" || isList(b, call.R)) {
		ops = append(ops, "nil")
	}
	if coll {
		ops = append(ops, "put", "put", "put", "del")
	}
	call.Op = ops[g.rng.Intn(len(ops))]
	switch call.Op {
	case "set":
		call.D = s.setting(b, call.R)
	case "put":
		call.K, call.D = g.pick(keysFor(call.R)), s.element(b, call.R)
	case "del":
		call.K = g.pick(keysFor(call.R))
		if _, k := s.anyEntry(get0(b.x, methodName(call.R))); k != "" && g.one(2) {
			call.K = k
		}
	}
	problem, err := b.apply(call)
	if err != nil {
		// A value that cannot be made; nothing was called.
		return
	}
	e := event{Op: "edit", S: i + 1, Class: s.class[i], On: b.class, Path: path, Call: call, Verdict: "done", Why: problem}
	if problem != "" {
		e.Verdict = "wrong"
	}
	s.texts[i] = ""
	s.record(e, "")
}

// toText has a type somewhere in a document written on its own.
func (s *session) toText(i int) {
	var b *bobj
	var path []pstep
	for tries := 0; tries < 5 && (b == nil || b.class != "type"); tries++ {
		if crash := guarded(func() { b, path = s.find(s.docs[i], s.class[i]) }); crash != "" {
			return // the other steps record that
		}
	}
	if b == nil || b.class != "type" {
		return
	}
	e := event{Op: "totext", S: i + 1, Class: s.class[i], Path: path, Verdict: "done"}
	crash := guarded(func() {
		var err error
		if e.Text, err = b.x.(raml.DataType).ToRAML(); err != nil {
			e.Verdict, e.Why = "failed", err.Error()
		} else if e.Tree, err = treeOfText(e.Text); err != nil {
			e.Verdict, e.Why = "failed", "no YAML: "+err.Error()
		}
	})
	s.record(e, crash)
}

// run performs a history of about n steps.
func (s *session) run(n int) {
	s.record(event{Op: "begin", S: 1, Verdict: "accepted"}, "")
	for tries := 0; len(s.events) <= n && tries < 6*n && !s.dead; tries++ {
		i := s.g.rng.Intn(slots)
		if s.docs[i] == nil {
			if s.g.one(6) {
				s.fresh(i)
			} else {
				s.open(i)
			}
			continue
		}
		switch s.g.rng.Intn(10) {
		case 0:
			s.open(i)
		case 1, 2:
			s.write(i)
		case 3:
			if s.g.one(3) {
				s.toText(i)
				continue
			}
			if s.g.one(2) {
				if s.g.one(2) {
					s.cutRead(i, -1)
				} else {
					s.cutWrite(i, -1)
				}
				continue
			}
			fallthrough
		case 4:
			if s.texts[i] == "" {
				s.write(i)
				if s.texts[i] == "" || s.dead {
					break
				}
			}
			s.reopen(i, s.g.rng.Intn(slots))
		default:
			s.edit(i)
		}
	}
}

// inPieces is a reader that hands a text over in one of several ways.
func inPieces(text string, how int) io.Reader {
	r := io.Reader(strings.NewReader(text))
	switch how {
	case 1:
		return iotest.OneByteReader(r)
	case 2:
		return iotest.HalfReader(r)
	case 3:
		return iotest.DataErrReader(r)
	case 4:
		return iotest.DataErrReader(iotest.HalfReader(r))
	}
	return r
}

// A leaky reader or writer fails after n bytes.
type leaky struct {
	n    int
	text string
	out  strings.Builder
	all  bool // with the last bytes, not after them
	once bool // and then goes on as if nothing had happened
}

func (l *leaky) Read(p []byte) (int, error) {
	if l.n < 0 {
		if l.text == "" {
			return 0, io.EOF
		}
		k := copy(p, l.text)
		l.text = l.text[k:]
		return k, nil
	}
	if l.n == 0 {
		return 0, l.leak()
	}
	k := copy(p, l.text[:l.n])
	l.text, l.n = l.text[k:], l.n-k
	if l.all && l.n == 0 {
		return k, l.leak()
	}
	return k, nil
}

func (l *leaky) Write(p []byte) (int, error) {
	if l.n >= 0 && len(p) > l.n {
		k := l.n
		l.out.Write(p[:k])
		l.n = 0
		return k, l.leak()
	}
	if l.n >= 0 {
		l.n -= len(p)
	}
	return l.out.Write(p)
}

func (l *leaky) leak() error {
	if l.once {
		l.n = -1
	}
	return errLeak
}

var errLeak = errors.New("the other side is gone")

// cutRead reads a text of which only n bytes arrive; n < 0 is any number.
func (s *session) cutRead(i, n int) {
	g := s.g
	class := classes[g.rng.Intn(2)]
	text := s.texts[i]
	if text != "" {
		class = s.class[i]
	} else {
		g.bad, g.deep = 0, 1
		var err error
		if text, err = docText(class, g.document(class), nil); err != nil {
			return
		}
	}
	if n < 0 {
		n = g.rng.Intn(len(text) + 1)
	}
	e := event{Op: "cutread", S: i + 1, Class: class, Verdict: "accepted", N: n, Total: len(text), Text: text}
	doc, err, crash := readDoc(&leaky{n: n, text: text, all: g.one(2), once: g.one(3)}, class == "lib")
	if err != nil {
		e.Verdict, e.Why = "rejected", err.Error()
		if doc != nil {
			e.Verdict = "rejected with a document"
		}
	}
	s.record(e, crash)
}

// cutWrite writes where only n bytes arrive.
func (s *session) cutWrite(i, n int) {
	text, err, crash := writeDoc(s.docs[i])
	if crash != "" || err != nil {
		return // write records that
	}
	if n < 0 {
		n = s.g.rng.Intn(len(text) + 2)
	}
	e := event{Op: "cutwrite", S: i + 1, Class: s.class[i], Verdict: "written", N: n, Total: len(text)}
	l := &leaky{n: n, once: s.g.one(3)}
	err, crash = writeDocTo(s.docs[i], l)
	if err != nil {
		e.Verdict, e.Why = "failed", err.Error()
	}
	e.Headed = strings.HasPrefix(text, l.out.String())
	if k := l.out.Len(); !e.Headed || err == nil && k != len(text) {
		e.Headed, e.Text = false, l.out.String()
	}
	s.record(e, crash)
}

// cuts opens a document and cuts reading and writing it at every place.
func (s *session) cuts(max int) {
	s.record(event{Op: "begin", S: 1, Verdict: "accepted"}, "")
	for s.docs[0] == nil && !s.dead {
		s.open(0)
	}
	s.write(0)
	if s.dead || s.texts[0] == "" {
		return
	}
	size := len(s.texts[0])
	step := 1 + size/max
	for n := 0; n <= size && !s.dead; n += step {
		s.cutRead(0, n)
	}
	for n := 0; n <= size && !s.dead; n += step {
		s.cutWrite(0, n)
	}
	if !s.dead {
		s.cutWrite(0, size-1)
	}
	if !s.dead {
		s.cutWrite(0, size)
	}
	if !s.dead {
		s.write(0)
	}
	if !s.dead {
		s.reopen(0, 1)
	}
}

// look inspects a document everybody else may be looking at, too.
func look(doc interface{}, class string, how int) (e event) {
	e = event{Op: "look", S: 1, Class: class, Verdict: "done", Tree: null(), Path: []pstep{}, Call: bop{D: null()}, View: []*MDocument{}, Digests: make([]string, slots)}
	if how == 2 {
		text, err, crash := writeDoc(doc)
		e.Why = "write"
		switch {
		case crash != "":
			e.Verdict, e.Why = "crashed", crash
		case err != nil:
			e.Verdict, e.Why = "failed", err.Error()
		default:
			e.Hash = digest(text)
		}
		return
	}
	if crash := guarded(func() {
		if how == 0 {
			inspect(doc, 8)
		}
		e.Digests[0] = digest(projectDocument(doc))
	}); crash != "" {
		e.Verdict, e.Why = "crashed", crash
	}
	return
}

// shared has several goroutines look at one document.
func (s *session) shared(n int) {
	s.record(event{Op: "begin", S: 1, Verdict: "accepted"}, "")
	for s.docs[0] == nil && !s.dead {
		s.open(0)
	}
	for k := s.g.rng.Intn(4); k > 0 && !s.dead; k-- {
		s.edit(0)
	}
	s.write(0)
	if s.dead {
		return
	}
	got := make([][]event, 4)
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range got {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			for k := 0; k < n; k++ {
				got[i] = append(got[i], look(s.docs[0], s.class[0], (i+k)%3))
			}
		}(i)
	}
	start.Done()
	done.Wait()
	for _, es := range got {
		s.events = append(s.events, es...)
	}
}

func newSession(seed int64) *session {
	return &session{g: &gen{rng: rand.New(rand.NewSource(seed))}}
}

// asciiJSON is JSON without characters beyond ASCII.
func asciiJSON(x interface{}) []byte {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	check(enc.Encode(x))
	var out strings.Builder
	for _, r := range b.String() {
		switch {
		case r < 0x7f:
			out.WriteRune(r)
		case r > 0xffff:
			h, l := utf16.EncodeRune(r)
			fmt.Fprintf(&out, "\\u%04x\\u%04x", h, l)
		default:
			fmt.Fprintf(&out, "\\u%04x", r)
		}
	}
	return []byte(out.String())
}

func init() { commands["session-record"] = sessionRecord }

// sessionRecord records -n histories of about -size steps.  With -mode together
// they are run alone and then all at the same time, and have to come out alike.
func sessionRecord(o options, res *Result) {
	alone := make([]*session, o.n)
	for i := range alone {
		alone[i] = newSession(o.seed*1000003 + int64(i))
	}
	switch o.mode {
	case "":
		parallel(o.n, func(i int) {
			if i == 0 && o.n > 1 {
				alone[i].large(classes[o.seed%2])
				return
			}
			alone[i].run(o.size)
		})
	case "cuts":
		parallel(o.n, func(i int) { alone[i].cuts(o.size) })
	case "shared":
		for _, s := range alone {
			s.shared(o.size)
		}
	default:
		for _, s := range alone {
			s.run(o.size)
		}
	}
	out := alone
	if o.mode == "together" {
		out = make([]*session, o.n)
		var start, done sync.WaitGroup
		start.Add(1)
		for i := range out {
			out[i] = newSession(o.seed*1000003 + int64(i))
			out[i].yield = i%2 == 0
			done.Add(1)
			go func(s *session) {
				defer done.Done()
				start.Wait()
				s.run(o.size)
			}(out[i])
		}
		begin := time.Now()
		start.Done()
		done.Wait()
		res.add("milliseconds together", int(time.Since(begin).Milliseconds()))
		for i := range out {
			compareRuns(res, i, alone[i], out[i])
		}
	}
	f, err := os.Create(o.trace)
	check(err)
	for i, s := range out {
		for j, e := range s.events {
			_, err := f.Write(asciiJSON(e))
			check(err)
			res.add("steps "+e.Op+" "+e.Verdict, 1)
			if e.Op == "edit" && i == 0 && len(e.Path) > 0 {
				res.sample(1, map[string]interface{}{"step": j, "path": e.Path, "on": e.On, "call": e.Call.String()})
			}
		}
		res.add("events", len(s.events))
	}
	res.add("histories", len(out))
	check(f.Close())
}

// compareRuns: a history has to be the same alone and among others.
func compareRuns(res *Result, i int, a, b *session) {
	for j := range a.events {
		if j >= len(b.events) || string(asciiJSON(a.events[j])) != string(asciiJSON(b.events[j])) {
			got := interface{}("nothing")
			if j < len(b.events) {
				got = b.events[j]
			}
			res.fail(Mismatch{"together", "concurrent session", fmt.Sprintf("step %d of history %d comes out differently when other documents are used at the same time", j, i),
				map[string]interface{}{"alone": a.events[j], "together": got}})
			return
		}
	}
}
