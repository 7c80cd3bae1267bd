package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"gopkg.in/yaml.v3"
)

// A finding names one input that is known to fail and is not repaired.
type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Input    string `json:"input"`
	What     string `json:"what"`
}

// probes decide whether a finding still fails.
var probes = map[string]func(input string) bool{
	// Writing and parsing again changes the raw content of a section.
	"roundtrip": func(in string) bool {
		library := strings.HasPrefix(in, "#%RAML 1.0 Library")
		out, ok := rewrite(in, library)
		if !ok {
			return true
		}
		a, err1 := treeOfText(in)
		b, err2 := treeOfText(out)
		if err1 != nil || err2 != nil || !sameContent(a, b) {
			return true
		}
		_, ok = rewrite(out, library)
		return !ok
	},
	"nil-key": func(string) bool {
		m := raml.NewAnyMap(1).SerializeOrdered(false)
		m.Put(nil, "x")
		b, err := yaml.Marshal(m)
		if err != nil {
			return true
		}
		t, err := treeOfText(string(b))
		return err != nil || t.T != "map" || len(t.C) != 2 || t.C[0].T != "null"
	},
	"float": func(in string) bool {
		var f float64
		fmt.Sscan(in, &f)
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		m.Put("k", f)
		b, err := yaml.Marshal(m)
		if err != nil {
			return true
		}
		t, err := treeOfText(string(b))
		return err != nil || len(t.C) != 2 || t.C[1].V != floatText(f)
	},
	"array-value": func(string) (failed bool) {
		defer func() { failed = recover() != nil }()
		raml.NewAnyMap(1).PutIfNotNil("k", [2]int{1, 2})
		return false
	},
}

func rewrite(in string, library bool) (out string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var sb strings.Builder
	if library {
		d, err := rparse.ParseLibrary(strings.NewReader(in))
		if err != nil || d.WriteRAML(&sb) != nil {
			return "", false
		}
	} else {
		d, err := rparse.ParseApiDoc(strings.NewReader(in))
		if err != nil || d.WriteRAML(&sb) != nil {
			return "", false
		}
	}
	return sb.String(), true
}

func init() {
	commands["findings"] = func(o options, res *Result) {
		b, err := os.ReadFile(o.in)
		check(err)
		var list []struct {
			finding
			Probe string `json:"probe"`
		}
		check(json.Unmarshal(b, &list))
		failing := []string{}
		for _, f := range list {
			if probes[f.Probe] == nil {
				check(fmt.Errorf("no probe %q", f.Probe))
			}
			if probes[f.Probe](f.Input) {
				failing = append(failing, f.ID+": "+f.What)
			}
		}
		res.Info = map[string]interface{}{"failing": failing}
	}
}
