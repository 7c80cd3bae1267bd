package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"gopkg.in/yaml.v3"
)

/******************************** map types *********************************/

// mapKind describes one of the ordered map types: how to make one, and which
// real keys and values stand for the keys and values of the specification.
type mapKind struct {
	name    string
	make    func(int) interface{}
	untyped bool // values are interface{} and conditional insertion takes any value
	noNil   bool // values cannot be nil
	values  func(palette int) map[string]interface{}
	keys    func(palette int, keys []string) map[string]interface{}
}

func stringKeys(palette int, keys []string) map[string]interface{} {
	pool := []string{"", "true", "1", "é: x", "- a", "null", "#c", "a b", "~", "{x}", "on", "'q'", "yes", "2020-01-02", "0x1F", "1e3", "*a", "&a", "!t",
		"%x", "@x", "`", "line\nbreak", " lead", "trail ", "a\tb", "a:b", "a #b", "?", "|", ">", "1_000", "=", "---", "k:\n  - v\n", "[", "\"", "\\", "A", "a"}
	out := map[string]interface{}{}
	for i, k := range keys {
		switch palette % 4 {
		case 0:
			out[k] = k
		case 1:
			out[k] = "(" + k + ")"
		case 2:
			out[k] = strings.Repeat("/"+k, 1+i)
		default:
			out[k] = pool[(i+palette)%len(pool)]
		}
	}
	return out
}

func anyKeys(palette int, keys []string) map[string]interface{} {
	if palette%3 == 0 {
		return stringKeys(palette, keys)
	}
	pool := []interface{}{1, 70000, true, "two", int64(3), 2.5, false, "", uint(7), "x y", -4, "é"}
	out := map[string]interface{}{}
	for i, k := range keys {
		if i < len(pool) {
			out[k] = pool[(i+palette)%len(pool)]
		} else {
			out[k] = 100 + i
		}
	}
	return out
}

func untypedValues(palette int) map[string]interface{} {
	pool := []interface{}{"one", 2, "", 0, false, []string{"a", "b"}, int64(-3), 1.5, true,
		[]interface{}{}, map[string]interface{}{"x": 1}, uint(9), "null", []int{1, 2}, [2]int{1, 2}}
	out := map[string]interface{}{"nil": nil}
	for i := 0; i < 8; i++ {
		out[fmt.Sprintf("v%d", i+1)] = pool[(i+palette*2)%len(pool)]
	}
	return out
}

func parsedLib(text string) raml.Library {
	l, err := rparse.ParseLibrary(strings.NewReader(text))
	if err != nil {
		panic(fmt.Sprintf("cannot make a value: %v\n%s", err, text))
	}
	return l
}

// exampleOf makes a distinct example of a kind.
func exampleOf(kind, val string, i int) interface{} {
	l := parsedLib(fmt.Sprintf("types:\n  t:\n    type: %s\n    example:\n      displayName: e%d\n      value: %s\n", kind, i, val))
	t, _ := l.Types().Get("t")
	return reflect.ValueOf(t).MethodByName("Example").Call(nil)[0].Interface()
}

func eight(f func(i int) interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	for i := 1; i <= 8; i++ {
		out[fmt.Sprintf("v%d", i)] = f(i)
	}
	return out
}

func exValues(kind, val string) func(int) map[string]interface{} {
	return func(int) map[string]interface{} {
		return eight(func(i int) interface{} { return exampleOf(kind, val, i) })
	}
}

func typeOf(i int) raml.DataType {
	switch i % 4 {
	case 0:
		return rbuild.NewStringDataType().SetDescription(fmt.Sprint("t", i))
	case 1:
		return rbuild.NewIntegerDataType().SetMinimum(int64(i))
	case 2:
		return rbuild.NewArrayDataType().SetItems(rbuild.NewNumberDataType())
	default:
		return rbuild.NewAnyDataType()
	}
}

var mapKinds = []mapKind{
	{name: "AnyMap", make: func(n int) interface{} { return raml.NewAnyMap(n) }, untyped: true, values: untypedValues, keys: anyKeys},
	{name: "UntypedMap", make: func(n int) interface{} { return raml.NewUntypedMap(n) }, untyped: true, values: untypedValues},
	{name: "StringMap", make: func(n int) interface{} { return raml.NewStringMap(n) }, noNil: true, values: func(p int) map[string]interface{} {
		m := eight(func(i int) interface{} {
			return []string{"one", "two", " ", "true", "#x", "", "- a", "null"}[(i+p)%8]
		})
		m["nil"] = "no nil\nthere"
		return m
	}},
	{name: "AnyExampleMap", make: func(n int) interface{} { return raml.NewAnyExampleMap(n) }, values: exValues("any", "1"), untyped: true},
	{name: "ArrayExampleMap", make: func(n int) interface{} { return raml.NewArrayExampleMap(n) }, values: exValues("array", "[1]")},
	{name: "BoolExampleMap", make: func(n int) interface{} { return raml.NewBoolExampleMap(n) }, values: exValues("boolean", "true")},
	{name: "CustomExampleMap", make: func(n int) interface{} { return raml.NewCustomExampleMap(n) }, values: exValues("mine", "1")},
	{name: "DateOnlyExampleMap", make: func(n int) interface{} { return raml.NewDateOnlyExampleMap(n) }, values: exValues("date-only", "2020-01-01")},
	{name: "DatetimeExampleMap", make: func(n int) interface{} { return raml.NewDatetimeExampleMap(n) }, values: exValues("datetime", "x")},
	{name: "DatetimeOnlyExampleMap", make: func(n int) interface{} { return raml.NewDatetimeOnlyExampleMap(n) }, values: exValues("datetime-only", "x")},
	{name: "FileExampleMap", make: func(n int) interface{} { return raml.NewFileExampleMap(n) }, values: exValues("file", "x")},
	{name: "IntegerExampleMap", make: func(n int) interface{} { return raml.NewIntegerExampleMap(n) }, values: exValues("integer", "1")},
	{name: "NumberExampleMap", make: func(n int) interface{} { return raml.NewNumberExampleMap(n) }, values: exValues("number", "1.5")},
	{name: "ObjectExampleMap", make: func(n int) interface{} { return raml.NewObjectExampleMap(n) }, values: exValues("object", "{a: 1}")},
	{name: "StringExampleMap", make: func(n int) interface{} { return raml.NewStringExampleMap(n) }, values: exValues("string", "x")},
	{name: "TimeOnlyExampleMap", make: func(n int) interface{} { return raml.NewTimeOnlyExampleMap(n) }, values: exValues("time-only", "\"12:00\"")},
	{name: "UnionExampleMap", make: func(n int) interface{} { return raml.NewUnionExampleMap(n) }, values: exValues("a | b", "1")},
	{name: "AnnotationMap", make: func(n int) interface{} { return raml.NewAnnotationMap(n) }, values: func(int) map[string]interface{} {
		return eight(func(i int) interface{} { return raml.NewUntypedMap(1).SerializeOrdered(false).Put("a", i) })
	}},
	{name: "FacetMap", make: func(n int) interface{} { return raml.NewFacetMap(n) }, values: func(int) map[string]interface{} {
		return eight(func(i int) interface{} { return raml.NewDataTypeMap(1).SerializeOrdered(false).Put("a", typeOf(i)) })
	}},
	{name: "DataTypeMap", make: func(n int) interface{} { return raml.NewDataTypeMap(n) }, values: func(int) map[string]interface{} {
		return eight(func(i int) interface{} { return typeOf(i) })
	}},
	{name: "PropertyMap", make: func(n int) interface{} { return raml.NewPropertyMap(n) }, values: func(int) map[string]interface{} {
		return eight(func(i int) interface{} { return typeOf(i).(raml.Property) })
	}},
}

/****************************** driving a map *******************************/

type omapOp struct {
	O string `json:"o"`
	K string `json:"k"`
	V string `json:"v"`
	F string `json:"f"`
}

type omapEnt struct {
	K string `json:"k"`
	V string `json:"v"`
}

type omapState struct {
	Ents    []omapEnt `json:"ents"`
	Ordered bool      `json:"ordered"`
}

func (s omapState) id() string {
	var b strings.Builder
	for _, e := range s.Ents {
		b.WriteString(e.K + "=" + e.V + ";")
	}
	fmt.Fprint(&b, s.Ordered)
	return b.String()
}

type omapQuery struct {
	Has bool   `json:"has"`
	Idx int    `json:"idx"`
	V   string `json:"v"`
}

// realMap is one map under test, with the tokens of its keys and values.
type realMap struct {
	kind mapKind
	m    reflect.Value
	keys map[string]interface{}
	vals map[string]interface{}
	elem reflect.Type // value type
	kty  reflect.Type // key type
	tick int
}

func newRealMap(kind mapKind, palette, size int, keys []string) *realMap {
	if kind.keys == nil {
		kind.keys = stringKeys
	}
	r := &realMap{kind: kind, keys: kind.keys(palette, keys), vals: kind.values(palette), tick: palette}
	if _, ok := r.vals["nil"]; !ok {
		r.vals["nil"] = nil
	}
	r.reset(size)
	put := r.m.MethodByName("Put").Type()
	r.kty, r.elem = put.In(0), put.In(1)
	return r
}

func (r *realMap) reset(size int) { r.m = reflect.ValueOf(r.kind.make(size)) }

func (r *realMap) key(k string) reflect.Value { return asType(r.keys[k], r.kty) }
func (r *realMap) val(v string) reflect.Value { return asType(r.vals[v], r.elem) }

// asType turns a value into an argument of the given type, nil included.
func asType(v interface{}, t reflect.Type) reflect.Value {
	if v == nil {
		return reflect.Zero(t)
	}
	out := reflect.New(t).Elem()
	out.Set(reflect.ValueOf(v))
	return out
}

func (r *realMap) call(method string, args ...reflect.Value) []reflect.Value {
	return r.m.MethodByName(method).Call(args)
}

func iface(v reflect.Value) interface{} {
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

// same compares values by identity where they are objects.
func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta.Kind() == reflect.Ptr {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func (r *realMap) token(v interface{}) string {
	for _, t := range []string{"nil", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8"} {
		if w, ok := r.vals[t]; ok && same(v, w) {
			return t
		}
	}
	return fmt.Sprintf("?%v", v)
}

func (r *realMap) keyToken(k interface{}) string {
	for t, w := range r.keys {
		if same(k, w) {
			return t
		}
	}
	return fmt.Sprintf("?%v", k)
}

// apply performs one operation and checks that it returns the map itself.
func (r *realMap) apply(op omapOp) (problem string) {
	defer func() {
		if e := recover(); e != nil {
			problem = fmt.Sprintf("crash: %v", e)
		}
	}()
	var ret []reflect.Value
	switch op.O {
	case "put":
		ret = r.call("Put", r.key(op.K), r.val(op.V))
	case "reporput":
		ret = r.call("ReplaceOrPut", r.key(op.K), r.val(op.V))
	case "repifex":
		ret = r.call("ReplaceIfExists", r.key(op.K), r.val(op.V))
	case "delete":
		ret = r.call("Delete", r.key(op.K))
	case "ordered":
		ret = r.call("SerializeOrdered", reflect.ValueOf(true))
	case "plain":
		ret = r.call("SerializeOrdered", reflect.ValueOf(false))
	case "putnn":
		ret = r.call("PutIfNotNil", r.key(op.K), r.condArg(op))
	default:
		panic("unknown operation " + op.O)
	}
	if ret[0].Interface() != r.m.Interface() {
		return op.O + " does not return the map it was called on"
	}
	return ""
}

// condArg is the argument of a conditional insertion.
func (r *realMap) condArg(op omapOp) reflect.Value {
	at := r.m.MethodByName("PutIfNotNil").Type().In(1)
	r.tick++
	if op.F == "nil" {
		if at.Kind() == reflect.Interface {
			var ps *string
			var sl []string
			var mp map[string]int
			var fn func()
			return asType([]interface{}{nil, ps, sl, mp, fn}[r.tick%5], at)
		}
		return reflect.Zero(at)
	}
	v := r.vals[op.V]
	if at.Kind() == reflect.Ptr { // a pointer to the value
		p := reflect.New(at.Elem())
		p.Elem().Set(r.val(op.V))
		return p
	}
	if op.F == "ptr" {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		return p
	}
	if reflect.TypeOf(v).Kind() == reflect.Ptr {
		// Conditional insertion stores what a pointer points at, so an object
		// behind a pointer is passed as a pointer to itself.
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		return p
	}
	return reflect.ValueOf(v)
}

// omapObs is everything the map reports.
type omapObs struct {
	Len     int                  `json:"len"`
	Each    []omapEnt            `json:"each"`
	At      []omapEnt            `json:"at"`
	Q       map[string]omapQuery `json:"q"`
	Opt     map[string]string    `json:"opt"` // "-" if empty
	Yaml    string               `json:"yaml"`
	YamlE   []omapEnt            `json:"yamlents"`
	Json    string               `json:"json"`
	JsonE   []omapEnt            `json:"jsonents"`
	Problem string               `json:"problem"`
}

var optMaps = map[string]bool{"AnyMap": true, "UntypedMap": true, "StringMap": true, "AnyExampleMap": true}

func (r *realMap) observe() (o omapObs) {
	defer func() {
		if e := recover(); e != nil {
			o.Problem = fmt.Sprintf("crash: %v", e)
		}
	}()
	o.Each, o.At, o.Q, o.Opt = []omapEnt{}, []omapEnt{}, map[string]omapQuery{}, map[string]string{}
	o.Len = int(r.call("Len")[0].Int())
	fe := r.m.MethodByName("ForEach")
	cb := reflect.MakeFunc(fe.Type().In(0), func(a []reflect.Value) []reflect.Value {
		o.Each = append(o.Each, omapEnt{r.keyToken(iface(a[0])), r.token(iface(a[1]))})
		return nil
	})
	if ret := fe.Call([]reflect.Value{cb}); ret[0].Interface() != r.m.Interface() {
		o.Problem = "ForEach does not return the map"
	}
	for i := 0; i < o.Len; i++ {
		e := r.call("At", reflect.ValueOf(i))[0]
		o.At = append(o.At, omapEnt{r.keyToken(iface(e.FieldByName("Key"))), r.token(iface(e.FieldByName("Val")))})
	}
	hasOpt := r.m.MethodByName("GetOpt").IsValid()
	for t := range r.keys {
		k := r.key(t)
		g := r.call("Get", k)
		q := omapQuery{Has: r.call("Has", k)[0].Bool(), Idx: int(r.call("IndexOf", k)[0].Int())}
		if g[1].Bool() {
			q.V = r.token(iface(g[0]))
		} else if !g[0].IsZero() {
			q.V = "absent key has a value: " + fmt.Sprint(iface(g[0]))
		}
		if g[1].Bool() != q.Has {
			o.Problem = "Get and Has disagree"
		}
		o.Q[t] = q
		if hasOpt {
			opt := r.call("GetOpt", k)[0]
			if opt.MethodByName("IsPresent").Call(nil)[0].Bool() {
				o.Opt[t] = r.token(iface(opt.MethodByName("Get").Call(nil)[0]))
			} else {
				o.Opt[t] = "-"
			}
		}
	}
	return
}

// serial observes the serialised forms.
func (r *realMap) serial(o *omapObs, exp omapState) (yamlBad, jsonBad string) {
	defer func() {
		if e := recover(); e != nil {
			yamlBad = fmt.Sprintf("crash: %v", e)
		}
	}()
	yamlBad = r.yamlCheck(exp)
	jsonBad = r.jsonCheck(exp)
	return
}

func valueTree(v interface{}) (*Node, error) {
	if m, ok := v.(interface{ ToYAML() (*yaml.Node, error) }); ok {
		n, err := m.ToYAML()
		if err != nil {
			return nil, err
		}
		v = n
	}
	b, err := marshal2(v)
	if err != nil {
		return nil, err
	}
	return treeOfText(string(b))
}

func (r *realMap) yamlCheck(exp omapState) string {
	b, err := marshal2(r.m.Interface())
	if err != nil {
		return "YAML error: " + err.Error()
	}
	var doc yaml.Node
	if err := yaml.Unmarshal(b, &doc); err != nil {
		return "YAML unreadable: " + err.Error()
	}
	root := doc.Content[0]
	want := func(e omapEnt, k, v *yaml.Node) string {
		kt, err1 := valueTree(r.keys[e.K])
		vt, err2 := valueTree(r.vals[e.V])
		if err1 != nil || err2 != nil {
			return fmt.Sprint("token not writable: ", err1, err2)
		}
		if !sameTree(kt, treeOf(k)) {
			return fmt.Sprintf("key %s written as %s", kt, treeOf(k))
		}
		if !sameTree(vt, treeOf(v)) {
			return fmt.Sprintf("value %s written as %s", vt, treeOf(v))
		}
		return ""
	}
	if exp.Ordered {
		if root.Kind != yaml.SequenceNode || root.LongTag() != "tag:yaml.org,2002:omap" {
			return "ordered mode does not write an ordered map: " + root.LongTag()
		}
		if len(root.Content) != len(exp.Ents) {
			return fmt.Sprintf("%d entries written instead of %d", len(root.Content), len(exp.Ents))
		}
		for i, c := range root.Content {
			if c.Kind != yaml.MappingNode || len(c.Content) != 2 {
				return "entry is not a mapping of one entry"
			}
			if s := want(exp.Ents[i], c.Content[0], c.Content[1]); s != "" {
				return s
			}
		}
		return ""
	}
	if root.Kind != yaml.MappingNode || root.LongTag() != "tag:yaml.org,2002:map" {
		return "plain mode does not write a mapping: " + root.LongTag()
	}
	if len(root.Content) != 2*len(exp.Ents) {
		return fmt.Sprintf("%d entries written instead of %d", len(root.Content)/2, len(exp.Ents))
	}
	for i, e := range exp.Ents {
		if s := want(e, root.Content[2*i], root.Content[2*i+1]); s != "" {
			return s
		}
	}
	return ""
}

func (r *realMap) jsonCheck(exp omapState) string {
	b, err := json.Marshal(r.m.Interface())
	if err != nil {
		return "JSON error: " + err.Error()
	}
	norm := func(v interface{}) string { x, _ := json.Marshal(v); return string(x) }
	if exp.Ordered {
		var got []struct {
			Key   json.RawMessage            `json:"key"`
			Value json.RawMessage            `json:"value"`
			_     map[string]json.RawMessage `json:"-"`
		}
		if err := json.Unmarshal(b, &got); err != nil {
			return "ordered mode does not write an array of pairs: " + string(b)
		}
		if len(got) != len(exp.Ents) {
			return fmt.Sprintf("%d JSON entries instead of %d", len(got), len(exp.Ents))
		}
		if len(got) == 0 && string(b) != "[]" {
			return "empty map written as " + string(b)
		}
		for i, e := range exp.Ents {
			if string(got[i].Key) != norm(r.keys[e.K]) || string(got[i].Value) != norm(r.vals[e.V]) {
				return fmt.Sprintf("JSON entry %d is %s: %s", i, got[i].Key, got[i].Value)
			}
		}
		return ""
	}
	var got map[string]json.RawMessage
	if err := json.Unmarshal(b, &got); err != nil || got == nil {
		return "plain mode does not write an object: " + string(b)
	}
	if len(got) != len(exp.Ents) {
		return fmt.Sprintf("%d JSON members instead of %d", len(got), len(exp.Ents))
	}
	for _, e := range exp.Ents {
		v, ok := got[fmt.Sprint(r.keys[e.K])]
		if !ok || string(v) != norm(r.vals[e.V]) {
			return fmt.Sprintf("JSON member %v is %s", r.keys[e.K], v)
		}
	}
	return ""
}

/******************** replaying TLC's transitions ***************************/

type omapTrans struct {
	Pre  omapState            `json:"pre"`
	Op   omapOp               `json:"op"`
	Post omapState            `json:"post"`
	Q    map[string]omapQuery `json:"q"`
	Yaml string               `json:"yaml"`
	Json string               `json:"json"`
	from string
	to   string
}

func readLines(path string, f func([]byte)) {
	h, err := os.Open(path)
	check(err)
	defer h.Close()
	s := bufio.NewScanner(h)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		if len(s.Bytes()) > 0 {
			f(s.Bytes())
		}
	}
	check(s.Err())
}

func init() {
	commands["omap-replay"] = omapReplay
	commands["omap-record"] = omapRecord
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) { defer wg.Done(); f(i); <-sem }(i)
	}
	wg.Wait()
}

// compare reports every difference between what the map shows and a transition
// of the specification.  Returns whether the map is in the expected state.
func compare(r *realMap, tr *omapTrans, obs omapObs, full bool, fail func(aspect, what string)) bool {
	ok := true
	bad := func(aspect, format string, a ...interface{}) {
		if aspect == "entries" || aspect == "crash" {
			ok = false
		}
		fail(aspect, fmt.Sprintf(format, a...))
	}
	if obs.Problem != "" {
		bad("entries", "%s", obs.Problem)
	}
	if obs.Len != len(tr.Post.Ents) {
		bad("entries", "Len is %d, expected %d", obs.Len, len(tr.Post.Ents))
	}
	exp := fmt.Sprint(tr.Post.Ents)
	if fmt.Sprint(obs.Each) != exp {
		bad("entries", "ForEach visits %v, expected %v", obs.Each, tr.Post.Ents)
	}
	if fmt.Sprint(obs.At) != exp {
		bad("entries", "At returns %v, expected %v", obs.At, tr.Post.Ents)
	}
	for k, q := range tr.Q {
		if obs.Q[k] != q {
			bad("entries", "key %s: has/index/value are %+v, expected %+v", k, obs.Q[k], q)
		}
		if opt, is := obs.Opt[k]; is {
			want := "-"
			if q.Has {
				want = q.V
				if r.kind.untyped && q.V == "nil" {
					// an option cannot hold a nil it can tell from nothing other
					// than by being present
					want = "nil"
				}
			}
			if opt != want {
				bad("getopt", "GetOpt(%s) is %s, expected %s", k, opt, want)
			}
		}
	}
	return ok
}

func omapReplay(o options, res *Result) {
	var trans []*omapTrans
	byState := map[string][]int{}
	readLines(o.in, func(b []byte) {
		t := &omapTrans{}
		check(json.Unmarshal(b, t))
		t.from, t.to = t.Pre.id(), t.Post.id()
		byState[t.from] = append(byState[t.from], len(trans))
		trans = append(trans, t)
	})
	keys := []string{}
	for k := range trans[0].Q {
		keys = append(keys, k)
	}
	start := omapState{Ordered: true}.id()
	res.add("transitions", len(trans))
	parallel(len(mapKinds), func(ki int) {
		kind := mapKinds[ki]
		if o.only != "" && o.only != kind.name {
			return
		}
		rng := rand.New(rand.NewSource(o.seed*1000 + int64(ki)))
		left := map[string][]int{} // transitions of each state still to be taken
		remaining := 0
		for s, ts := range byState {
			left[s] = append([]int(nil), ts...)
			remaining += len(ts)
		}
		for s := range left {
			l := left[s]
			rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		var hist []omapOp
		rm := newRealMap(kind, rng.Intn(12), rng.Intn(4), keys)
		cur, resets := start, 0
		step := func(ti int) {
			tr := trans[ti]
			hist = append(hist, tr.Op)
			if len(hist) > 60 {
				hist = hist[len(hist)-60:]
			}
			problem := rm.apply(tr.Op)
			if problem == "" {
				// Serialised forms, before the other observations on every
				// other step: they must not change anything.
				if rng.Intn(4) == 0 {
					y, j := rm.serial(nil, tr.Post)
					if y != "" {
						res.fail(Mismatch{"yaml", kind.name + " " + fmt.Sprint(tr.Op), y, caseOf(rm, hist, tr)})
					}
					if j != "" {
						res.fail(Mismatch{"json", kind.name + " " + fmt.Sprint(tr.Op), j, caseOf(rm, hist, tr)})
					}
					res.add("serialised", 1)
				}
			}
			obs := rm.observe()
			ok := compare(rm, tr, obs, true, func(aspect, what string) {
				if problem != "" {
					what = problem + "; " + what
				}
				if tr.Op.O == "putnn" && aspect == "entries" {
					aspect = "putnn"
				}
				if aspect == "entries" && (tr.Op.O == "ordered" || tr.Op.O == "plain") {
					aspect = "mode"
				}
				res.fail(Mismatch{aspect, kind.name + " " + fmt.Sprint(tr.Op), what, caseOf(rm, hist, tr)})
			})
			if problem != "" {
				a := "entries"
				if tr.Op.O == "putnn" {
					a = "putnn"
				}
				res.fail(Mismatch{a, kind.name + " " + fmt.Sprint(tr.Op), problem, caseOf(rm, hist, tr)})
				ok = false
			}
			cur = tr.to
			if !ok {
				resets++
				rm.reset(0)
				hist = nil
				for _, e := range tr.Post.Ents {
					op := omapOp{"put", e.K, e.V, ""}
					hist = append(hist, op)
					rm.apply(op)
				}
				if !tr.Post.Ordered {
					rm.apply(omapOp{O: "plain"})
				}
			}
			res.add("steps", 1)
		}
		for remaining > 0 && resets < 200 {
			if l := left[cur]; len(l) > 0 {
				ti := l[len(l)-1]
				left[cur] = l[:len(l)-1]
				remaining--
				step(ti)
				continue
			}
			// walk to the nearest state with something left
			path := nearest(cur, trans, byState, left)
			if path == nil {
				// start again with a new map
				rm = newRealMap(kind, rng.Intn(12), rng.Intn(4), keys)
				hist, cur = nil, start
				if path = nearest(cur, trans, byState, left); path == nil && len(left[cur]) == 0 {
					break
				}
			}
			for _, ti := range path {
				step(ti)
			}
			// now and then continue with a new map of other keys and values
			if rng.Intn(40) == 0 {
				rm = newRealMap(kind, rng.Intn(12), rng.Intn(4), keys)
				hist, cur = nil, start
			}
		}
		res.add("untaken", remaining)
		res.add("maps", 1)
		res.sample(3, map[string]interface{}{"map": kind.name, "last_operations": append([]omapOp(nil), hist[max(0, len(hist)-6):]...), "state": cur})
	})
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func caseOf(rm *realMap, hist []omapOp, tr *omapTrans) interface{} {
	return map[string]interface{}{"map": rm.kind.name, "keys": fmt.Sprint(rm.keys), "operations": append([]omapOp(nil), hist...), "expected": tr.Post}
}

func nearest(from string, trans []*omapTrans, byState map[string][]int, left map[string][]int) []int {
	type hop struct {
		prev string
		t    int
	}
	seen := map[string]hop{from: {"", -1}}
	queue := []string{from}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		if s != from && len(left[s]) > 0 {
			var path []int
			for s != from {
				h := seen[s]
				path = append([]int{h.t}, path...)
				s = h.prev
			}
			return path
		}
		for _, ti := range byState[s] {
			to := trans[ti].to
			if _, ok := seen[to]; !ok {
				seen[to] = hop{s, ti}
				queue = append(queue, to)
			}
		}
	}
	return nil
}

/*********************** recording for trace validation *********************/

type omapEvent struct {
	Op   omapOp               `json:"op"`
	Ord  bool                 `json:"ordered"` // as seen in the serialised forms
	Len  int                  `json:"len"`
	Each []omapEnt            `json:"each"`
	At   []omapEnt            `json:"at"`
	Q    map[string]omapQuery `json:"q"`
	Opt  []omapEnt            `json:"opt"` // optional lookups that hold something
	HasO bool                 `json:"hasopt"`
	YE   []omapEnt            `json:"yamlents"`
	JE   []omapEnt            `json:"jsonents"`
	YF   string               `json:"yaml"`
	JF   string               `json:"json"`
	Prob string               `json:"problem"`
	Map  string               `json:"map"`
}

// omapRecord runs random histories on every map type and records after every
// call what the map shows.  A history starts with the operation "new".
// A mapHistory is a recorded history of one map.
type mapHistory struct {
	rm     *realMap
	kind   mapKind
	rng    *rand.Rand
	keys   []string
	nk     int
	grow   int // so many more insertions
	events []omapEvent
	dead   bool
}

func newMapHistory(run int, rng *rand.Rand) *mapHistory {
	h := &mapHistory{kind: mapKinds[run%len(mapKinds)], rng: rng}
	for i := 1; i <= 40; i++ {
		h.keys = append(h.keys, fmt.Sprint("k", i))
	}
	h.nk = 2 + rng.Intn(8)
	h.grow = 0
	if rng.Intn(4) == 0 {
		// a large map: filled first
		h.nk = 10 + rng.Intn(31)
		h.grow = h.nk
	}
	h.rm = newRealMap(h.kind, rng.Intn(12), rng.Intn(12), h.keys[:h.nk])
	h.emit(omapOp{O: "new", V: "nil"}, "")
	return h
}

func (h *mapHistory) emit(op omapOp, prob string) {
	ev := h.look(op, prob)
	h.events = append(h.events, ev)
	h.dead = ev.Prob != ""
}

// look is an event with everything the map shows now.
func (h *mapHistory) look(op omapOp, prob string) omapEvent {
	obs := h.rm.observe()
	if prob == "" {
		prob = obs.Problem
	}
	ev := omapEvent{Op: op, Len: obs.Len, Each: obs.Each, At: obs.At, Q: obs.Q, Opt: []omapEnt{}, Prob: prob, Map: h.kind.name,
		HasO: len(obs.Opt) > 0}
	for k, v := range obs.Opt {
		if v != "-" {
			ev.Opt = append(ev.Opt, omapEnt{k, v})
		}
	}
	h.rm.readBack(&ev)
	return ev
}

// shared has several goroutines look at the map.
func (h *mapHistory) shared(n int) {
	got := make([][]omapEvent, 4)
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range got {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			for k := 0; k < n; k++ {
				got[i] = append(got[i], h.look(omapOp{O: "look", V: "nil"}, ""))
			}
		}(i)
	}
	start.Done()
	done.Wait()
	for _, es := range got {
		h.events = append(h.events, es...)
	}
}

// step performs one random operation.
func (h *mapHistory) step() {
	rng := h.rng
	op := omapOp{K: h.keys[rng.Intn(h.nk)], V: fmt.Sprintf("v%d", 1+rng.Intn(8))}
	if rng.Intn(10) == 0 {
		op.V = "nil"
	}
	what := rng.Intn(12)
	if h.grow > 0 && rng.Intn(8) > 0 {
		h.grow--
		what = 0
	}
	switch what {
	case 0, 1, 2, 3:
		op.O = "put"
	case 4, 5:
		op.O = "putnn"
		op.F = []string{"val", "ptr"}[rng.Intn(2)]
		if op.V == "nil" {
			op.F = "nil"
		}
	case 6:
		op.O = "reporput"
	case 7:
		op.O = "repifex"
	case 8, 9, 10:
		op.O, op.V = "delete", "nil"
	default:
		op.O, op.K, op.V = []string{"ordered", "plain"}[rng.Intn(2)], "", "nil"
	}
	h.emit(op, h.rm.apply(op))
}

// omapRecord records histories of maps.  Three maps each are used in turn; with
// -mode together every one is used by a goroutine of its own, with -mode shared
// several goroutines look at it in the end.
func omapRecord(o options, res *Result) {
	f, err := os.Create(o.trace)
	check(err)
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	all := make([]*mapHistory, o.n)
	if o.mode == "together" {
		var start, done sync.WaitGroup
		start.Add(1)
		for i := range all {
			done.Add(1)
			go func(i int) {
				defer done.Done()
				start.Wait()
				all[i] = newMapHistory(i, rand.New(rand.NewSource(o.seed*1000003+int64(i))))
				for n := 0; n < o.size && !all[i].dead; n++ {
					all[i].step()
				}
			}(i)
		}
		start.Done()
		done.Wait()
	} else if o.mode == "shared" {
		for i := range all {
			all[i] = newMapHistory(i, rand.New(rand.NewSource(o.seed*1000003+int64(i))))
			for n := 0; n < o.size && !all[i].dead; n++ {
				all[i].step()
			}
			if !all[i].dead {
				all[i].shared(3)
			}
		}
	} else {
		rng := rand.New(rand.NewSource(o.seed))
		for i := 0; i < o.n; i += 3 {
			group := []*mapHistory{}
			kind := rng.Intn(len(mapKinds))
			for j := i; j < i+3 && j < o.n; j++ {
				if j > i+1 {
					kind = j // two of a kind and one of another
				}
				if j == i {
					kind = i / 3
				}
				all[j] = newMapHistory(kind, rng)
				group = append(group, all[j])
			}
			for n := o.size * len(group); n > 0; n-- {
				if h := group[rng.Intn(len(group))]; !h.dead {
					h.step()
				}
			}
		}
	}
	for _, h := range all {
		for _, e := range h.events {
			check(enc.Encode(e))
		}
		res.add("events", len(h.events))
		res.add("traces", 1)
	}
	check(w.Flush())
	check(f.Close())
}

// readBack reads the serialised forms and turns them back into tokens.  Values
// that cannot be told apart in the text are reported as the value the map holds
// at that place if it fits, so that a trace is never rejected for them.
func (r *realMap) readBack(ev *omapEvent) {
	defer func() {
		if e := recover(); e != nil {
			ev.Prob = fmt.Sprintf("crash: %v", e)
		}
	}()
	ev.YE, ev.JE = []omapEnt{}, []omapEnt{}
	b, err := marshal2(r.m.Interface())
	if err != nil {
		ev.Prob = "YAML error: " + err.Error()
		return
	}
	var doc yaml.Node
	if err := yaml.Unmarshal(b, &doc); err != nil {
		ev.Prob = "YAML unreadable: " + err.Error()
		return
	}
	root := doc.Content[0]
	tok := func(k, v *yaml.Node) {
		e := omapEnt{"?" + treeOf(k).String(), "?" + treeOf(v).String()}
		for t, kv := range r.keys {
			if kt, err := valueTree(kv); err == nil && sameTree(kt, treeOf(k)) {
				e.K = t
			}
		}
		fits := func(t string) bool {
			vt, err := valueTree(r.vals[t])
			return err == nil && sameTree(vt, treeOf(v))
		}
		for t := range r.vals {
			if fits(t) {
				e.V = t
			}
		}
		if i := len(ev.YE); i < len(ev.Each) && r.vals[ev.Each[i].V] != nil && fits(ev.Each[i].V) {
			e.V = ev.Each[i].V
		}
		ev.YE = append(ev.YE, e)
	}
	switch {
	case root.Kind == yaml.SequenceNode && root.LongTag() == "tag:yaml.org,2002:omap":
		ev.YF = "omap"
		for _, c := range root.Content {
			if c.Kind == yaml.MappingNode && len(c.Content) == 2 {
				tok(c.Content[0], c.Content[1])
			} else {
				ev.YE = append(ev.YE, omapEnt{"?", "?"})
			}
		}
	case root.Kind == yaml.MappingNode:
		ev.YF = "map"
		for i := 0; i+1 < len(root.Content); i += 2 {
			tok(root.Content[i], root.Content[i+1])
		}
	default:
		ev.YF = "?"
	}
	j, err := json.Marshal(r.m.Interface())
	if err != nil {
		ev.Prob = "JSON error: " + err.Error()
		return
	}
	jtok := func(k, v json.RawMessage, plain bool, i int) {
		e := omapEnt{"?" + string(k), "?" + string(v)}
		for t, kv := range r.keys {
			var want []byte
			if plain {
				want, _ = json.Marshal(fmt.Sprint(kv))
			} else {
				want, _ = json.Marshal(kv)
			}
			if string(want) == string(k) {
				e.K = t
			}
		}
		fits := func(t string) bool { w, _ := json.Marshal(r.vals[t]); return string(w) == string(v) }
		for t := range r.vals {
			if fits(t) {
				e.V = t
			}
		}
		if plain {
			for _, x := range ev.Each {
				if x.K == e.K && fits(x.V) {
					e.V = x.V
				}
			}
		} else if i < len(ev.Each) && fits(ev.Each[i].V) {
			e.V = ev.Each[i].V
		}
		ev.JE = append(ev.JE, e)
	}
	if len(j) > 0 && j[0] == '[' {
		ev.JF = "array"
		var got []struct{ Key, Value json.RawMessage }
		check(json.Unmarshal(j, &got))
		for i, g := range got {
			jtok(g.Key, g.Value, false, i)
		}
	} else if len(j) > 0 && j[0] == '{' {
		ev.JF = "object"
		// members have no order: report them in the order of the map
		var got map[string]json.RawMessage
		check(json.Unmarshal(j, &got))
		for _, x := range ev.Each {
			name := fmt.Sprint(r.keys[x.K])
			if v, ok := got[name]; ok {
				k, _ := json.Marshal(name)
				jtok(k, v, true, 0)
				delete(got, name)
			}
		}
		for name, v := range got {
			k, _ := json.Marshal(name)
			jtok(k, v, true, 0)
		}
	} else {
		ev.JF = "?"
	}
	ev.Ord = ev.YF == "omap"
}
