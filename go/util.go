package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// Files is a document set: relative path -> content.
type Files map[string]string

const (
	hdrLib = "#%RAML 1.0 Library\n"
	hdrDT  = "#%RAML 1.0 DataType\n"
	hdrNE  = "#%RAML 1.0 NamedExample\n"
)

func (f Files) String() string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "--- %s\n%s\n", k, f[k])
	}
	return b.String()
}

// Write puts the set below dir, which is emptied first.
func (f Files) Write(dir string) {
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		_ = os.RemoveAll(filepath.Join(dir, e.Name()))
	}
	for k, v := range f {
		p := filepath.Join(dir, k)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(v), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

func parseOpts(unwrap, validate bool) []raml.ParseOpt {
	var o []raml.ParseOpt
	if unwrap {
		o = append(o, raml.OptWithUnwrap())
	}
	if validate {
		o = append(o, raml.OptWithValidate())
	}
	return o
}

// ParseLib parses one self-contained document.
func ParseLib(dir, doc string, unwrap, validate bool) (*raml.RAML, error) {
	return raml.ParseFromString(doc, "main.raml", dir, parseOpts(unwrap, validate)...)
}

// LibType returns a named type of the entry library.
func LibType(r *raml.RAML, name string) *raml.BaseShape {
	switch l := r.EntryPoint().(type) {
	case *raml.Library:
		b, _ := l.Types.Get(name)
		return b
	case *raml.DataType:
		return l.Shape
	}
	return nil
}

// ConvertRAML converts with the library's own dialect wrapper.
func ConvertRAML(b *raml.BaseShape) (*raml.JSONSchemaRAML, error) {
	c, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
	if err != nil {
		return nil, err
	}
	return c.Convert(b.Shape)
}

// ConvertPlain converts to the plain schema type with a trivial wrapper.
func ConvertPlain(b *raml.BaseShape) (*raml.JSONSchema, error) {
	c, err := raml.NewJSONSchemaConverter[*raml.JSONSchema](raml.WithWrapper(plainWrap))
	if err != nil {
		return nil, err
	}
	return c.Convert(b.Shape)
}

func plainWrap(_ *raml.JSONSchemaConverter[*raml.JSONSchema], core *raml.JSONSchemaGeneric[*raml.JSONSchema],
	_ *raml.BaseShape) *raml.JSONSchema {
	return &raml.JSONSchema{JSONSchemaGeneric: *core}
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func okerr(err error) string {
	if err == nil {
		return "ok"
	}
	return "err"
}

func indent(s, pre string) string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	for i := range l {
		l[i] = pre + l[i]
	}
	return strings.Join(l, "\n") + "\n"
}
