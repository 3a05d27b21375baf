package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"unicode/utf8"
)

// A validator for the part of JSON Schema draft 7 the published schema uses.
// An unknown keyword is an error, so that nothing in it can go unnoticed.
type validator struct {
	root  map[string]any
	regex sync.Map
}

func loadSchema() (*validator, error) {
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	data, err := os.ReadFile(filepath.Join(repo, "schema/babfile.schema.json"))
	if err != nil {
		return nil, err
	}
	v := &validator{}
	if err := json.Unmarshal(data, &v.root); err != nil {
		return nil, err
	}
	return v, v.known(v.root, "")
}

var schemaWords = map[string]bool{"$schema": true, "$id": true, "$defs": true, "definitions": true, "$ref": true, "title": true, "description": true, "default": true, "examples": true, "$comment": true,
	"type": true, "properties": true, "required": true, "additionalProperties": true, "propertyNames": true, "minProperties": true, "maxProperties": true, "patternProperties": true,
	"items": true, "minItems": true, "maxItems": true, "uniqueItems": true, "minLength": true, "maxLength": true, "pattern": true, "enum": true, "const": true,
	"minimum": true, "maximum": true, "oneOf": true, "anyOf": true, "allOf": true, "not": true}

func (v *validator) known(s any, at string) error {
	m, ok := s.(map[string]any)
	if !ok {
		return nil
	}
	for k, sub := range m {
		if !schemaWords[k] {
			return fmt.Errorf("the schema uses %q at %s, which this check does not know", k, at)
		}
		switch k {
		case "properties", "$defs", "definitions", "patternProperties":
			for n, x := range sub.(map[string]any) {
				if err := v.known(x, at+"/"+n); err != nil {
					return err
				}
			}
		case "items", "additionalProperties", "propertyNames", "not":
			if err := v.known(sub, at+"/"+k); err != nil {
				return err
			}
		case "oneOf", "anyOf", "allOf":
			for i, x := range sub.([]any) {
				if err := v.known(x, fmt.Sprintf("%s/%s/%d", at, k, i)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func typeOf(d any) string {
	switch x := d.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case []any:
		return "array"
	case map[string]any:
		return "object"
	case float64:
		if x == math.Trunc(x) {
			return "integer"
		}
		return "number"
	}
	panic(fmt.Sprintf("%T", d))
}

func (v *validator) match(pattern, s string) bool {
	re, ok := v.regex.Load(pattern)
	if !ok {
		re = regexp.MustCompile(pattern)
		v.regex.Store(pattern, re)
	}
	return re.(*regexp.Regexp).MatchString(s)
}

// resolve follows the reference of a schema.
func (v *validator) resolve(s map[string]any) map[string]any {
	for {
		ref, ok := s["$ref"].(string)
		if !ok {
			return s
		}
		var at any = v.root
		for _, part := range strings.Split(strings.TrimPrefix(ref, "#/"), "/") {
			at = at.(map[string]any)[part]
		}
		s = at.(map[string]any)
	}
}

// valid says why the data does not match the schema, or "".
func (v *validator) valid(schema any, d any, at string) string {
	if b, ok := schema.(bool); ok {
		if b {
			return ""
		}
		return at + ": not allowed"
	}
	s := v.resolve(schema.(map[string]any))
	num := func(k string) (float64, bool) { f, ok := s[k].(float64); return f, ok }
	if t, ok := s["type"].(string); ok {
		if h := typeOf(d); h != t && !(t == "number" && h == "integer") {
			return fmt.Sprintf("%s: %s instead of %s", at, h, t)
		}
	}
	if e, ok := s["enum"].([]any); ok {
		found := false
		for _, x := range e {
			found = found || reflect.DeepEqual(x, d)
		}
		if !found {
			return at + ": not one of the listed values"
		}
	}
	if c, ok := s["const"]; ok && !reflect.DeepEqual(c, d) {
		return at + ": not the constant"
	}
	switch x := d.(type) {
	case string:
		n := float64(utf8.RuneCountInString(x))
		if f, ok := num("minLength"); ok && n < f {
			return at + ": too short"
		}
		if f, ok := num("maxLength"); ok && n > f {
			return at + ": too long"
		}
		if p, ok := s["pattern"].(string); ok && !v.match(p, x) {
			return at + ": does not match " + p
		}
	case float64:
		if f, ok := num("minimum"); ok && x < f {
			return at + ": too small"
		}
		if f, ok := num("maximum"); ok && x > f {
			return at + ": too large"
		}
	case []any:
		n := float64(len(x))
		if f, ok := num("minItems"); ok && n < f {
			return at + ": too few"
		}
		if f, ok := num("maxItems"); ok && n > f {
			return at + ": too many"
		}
		if u, _ := s["uniqueItems"].(bool); u {
			for i := range x {
				for j := range i {
					if reflect.DeepEqual(x[i], x[j]) {
						return at + ": repeated"
					}
				}
			}
		}
		if sub, ok := s["items"]; ok {
			for i, y := range x {
				if why := v.valid(sub, y, fmt.Sprintf("%s[%d]", at, i)); why != "" {
					return why
				}
			}
		}
	case map[string]any:
		n := float64(len(x))
		if f, ok := num("minProperties"); ok && n < f {
			return at + ": too few"
		}
		if f, ok := num("maxProperties"); ok && n > f {
			return at + ": too many"
		}
		if req, ok := s["required"].([]any); ok {
			for _, r := range req {
				if _, ok := x[r.(string)]; !ok {
					return at + ": lacks " + r.(string)
				}
			}
		}
		props, _ := s["properties"].(map[string]any)
		pats, _ := s["patternProperties"].(map[string]any)
		for k, y := range x {
			if sub, ok := s["propertyNames"]; ok {
				if why := v.valid(sub, k, at+" key "+k); why != "" {
					return why
				}
			}
			sub, ok := props[k]
			for p, ps := range pats {
				if v.match(p, k) {
					ok = true
					if why := v.valid(ps, y, at+"."+k); why != "" {
						return why
					}
				}
			}
			if sub == nil && !ok {
				sub, ok = s["additionalProperties"]
			}
			if ok && sub != nil {
				if why := v.valid(sub, y, at+"."+k); why != "" {
					return why
				}
			}
		}
	}
	if l, ok := s["oneOf"].([]any); ok {
		n := 0
		why := ""
		for _, sub := range l {
			if w := v.valid(sub, d, at); w == "" {
				n++
			} else if why == "" {
				why = w
			}
		}
		if n == 0 {
			return why + " (and no other form)"
		}
		if n > 1 {
			return at + ": of more than one form"
		}
	}
	if l, ok := s["anyOf"].([]any); ok {
		n := 0
		for _, sub := range l {
			if v.valid(sub, d, at) == "" {
				n++
			}
		}
		if n == 0 {
			return at + ": of no form"
		}
	}
	if l, ok := s["allOf"].([]any); ok {
		for _, sub := range l {
			if why := v.valid(sub, d, at); why != "" {
				return why
			}
		}
	}
	if sub, ok := s["not"]; ok && v.valid(sub, d, at) == "" {
		return at + ": of a forbidden form"
	}
	return ""
}
