package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"verif.local/simrt"
)

// Probes show that the listed known findings are still there.  Each is one
// fixed history; the search keeps away from exactly these.

func saveText(doc string) string {
	d, err := rparse.ParseApiDoc(strings.NewReader("#%RAML 1.0\n" + doc))
	if err != nil {
		return "rejected: " + err.Error()
	}
	return writeText(d)
}

func writeText(d raml.APISpec) string {
	var b bytes.Buffer
	if err := d.WriteRAML(&b); err != nil {
		return "not written: " + err.Error()
	}
	return strings.TrimPrefix(strings.TrimPrefix(b.String(), "#%RAML 1.0"), "\n\n")
}

func reloadError(text string) string {
	if _, err := rparse.ParseApiDoc(strings.NewReader("#%RAML 1.0\n" + text)); err != nil {
		return err.Error()
	}
	return ""
}

func expect(got, bad string) string {
	if strings.Contains(got, bad) {
		return "reproduced"
	}
	return "not reproduced: " + got
}

var probes = map[string]func() string{
	"K1": func() string { return expect(saveText("title: t\n5: x\n"), "\"5\": x") },
	"K3": func() string {
		return expect(saveText("title: t\nx-extra: {a: 2020-01-01T10:00:00Z}\n"), "'2020-01-01T10:00:00Z'")
	},
	"K4": func() string {
		// another hash order, another text
		first := ""
		for i := uint64(0); i < 40; i++ {
			simrt.SetMapSeed(i)
			d := rbuild.NewAPISpec()
			d.ExtraFacets().Put("m", map[string]interface{}{"a": 1, "b": 2, "c": 3})
			t := writeText(d)
			if strings.HasPrefix(t, "not written") {
				return "not reproduced: " + t
			}
			if first != "" && t != first {
				return "reproduced"
			}
			first = t
		}
		return "not reproduced: one order"
	},
	"K4M": func() string {
		first := ""
		for i := uint64(0); i < 40; i++ {
			simrt.SetMapSeed(i)
			b, err := encode(raml.NewAnyMap(1).Put("m", map[string]interface{}{"a": 1, "b": 2, "c": 3}))
			if err != nil {
				return "not reproduced: " + err.Error()
			}
			if first != "" && string(b) != first {
				return "reproduced"
			}
			first = string(b)
		}
		return "not reproduced: one order"
	},
	"K5": func() string {
		d := rbuild.NewAPISpec()
		d.ExtraFacets().Put("m", 1.234567890123)
		return expect(writeText(d), "m: 1.23456789\n")
	},
	"K8": func() string {
		return expect(saveText("title: t\ntypes:\n  A:\n    type: \"!include x.raml\"\n"), "A: !include")
	},
	"K12": func() string {
		d, err := rparse.ParseApiDoc(strings.NewReader("#%RAML 1.0\ntitle: t\nx-extra: &a {k: v}\ntraits:\n  u: *a\n"))
		if err != nil {
			return "not reproduced: rejected: " + err.Error()
		}
		b, err := encodeAny(d.Traits())
		if err != nil {
			return "not reproduced: " + err.Error()
		}
		return expect(string(b), "u: *a")
	},
	"K10": func() string {
		return expect(reloadError(saveText("title: t\nx-extra: |2-\n  \tq\n")), "found a tab character")
	},
	"K11": func() string {
		return expect(saveText("title: t\nx-extra: >-\n  first\n\n    indented\n  last\n"), "first\n\n\n    indented")
	},
	"K9": func() string {
		return expect(reloadError(saveText("title: t\ndescription: \"<<\"\n")), "!!merge")
	},
}

func probeMode(args []string) {
	for _, id := range args {
		p, ok := probes[id]
		if !ok {
			die("no probe %s", id)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("not reproduced: panic %v\n", r)
				}
			}()
			fmt.Println(p())
		}()
	}
}
