// Package sprig is an offline stand-in for github.com/Masterminds/sprig/v3: it
// provides exactly the template functions metac's templates use, with the
// documented sprig v3 semantics. It is build scaffolding for the checks, not
// part of the code under test.
package sprig

import (
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"text/template"

	"github.com/huandu/xstrings"
)

func strval(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	default:
		return fmt.Sprintf("%v", v)
	}
}

func list(v ...interface{}) []interface{} { return v }

func dict(v ...interface{}) map[string]interface{} {
	d := map[string]interface{}{}
	for i := 0; i < len(v); i += 2 {
		key := strval(v[i])
		if i+1 >= len(v) {
			d[key] = ""
			continue
		}
		d[key] = v[i+1]
	}
	return d
}

func appendFn(l interface{}, v interface{}) ([]interface{}, error) {
	k := reflect.TypeOf(l).Kind()
	if k != reflect.Slice && k != reflect.Array {
		return nil, fmt.Errorf("cannot push on type %s", k)
	}
	l2 := reflect.ValueOf(l)
	n := l2.Len()
	nl := make([]interface{}, n, n+1)
	for i := 0; i < n; i++ {
		nl[i] = l2.Index(i).Interface()
	}
	return append(nl, v), nil
}

func indent(spaces int, v string) string {
	pad := strings.Repeat(" ", spaces)
	return pad + strings.Replace(v, "\n", "\n"+pad, -1)
}

// TxtFuncMap returns the function map.
func TxtFuncMap() template.FuncMap {
	m := template.FuncMap{
		"list":  list,
		"tuple": list,
		"dict":  dict,
		"get": func(d map[string]interface{}, key string) interface{} {
			if val, ok := d[key]; ok {
				return val
			}
			return ""
		},
		"set": func(d map[string]interface{}, key string, value interface{}) map[string]interface{} {
			d[key] = value
			return d
		},
		"hasKey": func(d map[string]interface{}, key string) bool {
			_, ok := d[key]
			return ok
		},
		"append":   appendFn,
		"toString": strval,
		"quote": func(str ...interface{}) string {
			out := make([]string, 0, len(str))
			for _, s := range str {
				if s != nil {
					out = append(out, fmt.Sprintf("%q", strval(s)))
				}
			}
			return strings.Join(out, " ")
		},
		"toJson": func(v interface{}) string {
			out, _ := json.Marshal(v)
			return string(out)
		},
		"toPrettyJson": func(v interface{}) string {
			out, _ := json.MarshalIndent(v, "", "  ")
			return string(out)
		},
		"hasPrefix":  func(substr string, str string) bool { return strings.HasPrefix(str, substr) },
		"hasSuffix":  func(substr string, str string) bool { return strings.HasSuffix(str, substr) },
		"trimPrefix": func(a, b string) string { return strings.TrimPrefix(b, a) },
		"trimSuffix": func(a, b string) string { return strings.TrimSuffix(b, a) },
		"regexSplit": func(regex string, s string, n int) []string {
			return regexp.MustCompile(regex).Split(s, n)
		},
		"regexReplaceAll": func(regex string, s string, repl string) string {
			return regexp.MustCompile(regex).ReplaceAllString(s, repl)
		},
		"atoi":      func(a string) int { i, _ := strconv.Atoi(a); return i },
		"snakecase": xstrings.ToSnakeCase,
		"indent":    indent,
		"nindent":   func(spaces int, v string) string { return "\n" + indent(spaces, v) },
		"fail":      func(msg string) (string, error) { return "", errors.New(msg) },
		"osBase":    filepath.Base,
		"osDir":     filepath.Dir,
		"upper":     strings.ToUpper,
		"lower":     strings.ToLower,
		"trim":      strings.TrimSpace,
		"join": func(sep string, v []string) string {
			return strings.Join(v, sep)
		},
		"contains": func(substr string, str string) bool { return strings.Contains(str, substr) },
		"replace":  func(old, new, src string) string { return strings.Replace(src, old, new, -1) },
		"add1":     func(i interface{}) int64 { return reflect.ValueOf(i).Int() + 1 },
		"add": func(i ...int) int {
			a := 0
			for _, b := range i {
				a += b
			}
			return a
		},
		"sub": func(a, b int) int { return a - b },
		"default": func(d interface{}, given ...interface{}) interface{} {
			if len(given) == 0 || given[0] == nil || reflect.ValueOf(given[0]).IsZero() {
				return d
			}
			return given[0]
		},
	}
	for k, v := range more() {
		m[k] = v
	}
	return m
}
