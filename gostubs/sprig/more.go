package sprig

import (
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"unicode"
)

// The rest of sprig's functions that templates of this kind could come to use.

func toInt64(v interface{}) int64 {
	if s, ok := v.(string); ok {
		i, _ := strconv.ParseInt(s, 0, 64)
		return i
	}
	x := reflect.Indirect(reflect.ValueOf(v))
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(x.Uint())
	case reflect.Float32, reflect.Float64:
		return int64(x.Float())
	case reflect.Bool:
		if x.Bool() {
			return 1
		}
	case reflect.String:
		i, _ := strconv.ParseInt(x.String(), 0, 64)
		return i
	}
	return 0
}

func toFloat64(v interface{}) float64 {
	if s, ok := v.(string); ok {
		f, _ := strconv.ParseFloat(s, 64)
		return f
	}
	x := reflect.Indirect(reflect.ValueOf(v))
	switch x.Kind() {
	case reflect.Float32, reflect.Float64:
		return x.Float()
	}
	return float64(toInt64(v))
}

func empty(given interface{}) bool {
	g := reflect.ValueOf(given)
	if !g.IsValid() {
		return true
	}
	switch g.Kind() {
	default:
		return g.IsNil()
	case reflect.Array, reflect.Slice, reflect.Map, reflect.String:
		return g.Len() == 0
	case reflect.Bool:
		return !g.Bool()
	case reflect.Complex64, reflect.Complex128:
		return g.Complex() == 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return g.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return g.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return g.Float() == 0
	case reflect.Struct:
		return false
	}
}

func items(l interface{}) ([]interface{}, error) {
	if l == nil {
		return nil, nil
	}
	x := reflect.ValueOf(l)
	if x.Kind() != reflect.Slice && x.Kind() != reflect.Array {
		return nil, fmt.Errorf("%T is not a list", l)
	}
	r := make([]interface{}, x.Len())
	for i := range r {
		r[i] = x.Index(i).Interface()
	}
	return r, nil
}

func strslice(v interface{}) []string {
	switch x := v.(type) {
	case nil:
		return []string{}
	case []string:
		return x
	}
	l, err := items(v)
	if err != nil {
		return []string{strval(v)}
	}
	r := make([]string, 0, len(l))
	for _, i := range l {
		if i != nil {
			r = append(r, strval(i))
		}
	}
	return r
}

func inList(h []interface{}, n interface{}) bool {
	for _, i := range h {
		if reflect.DeepEqual(n, i) {
			return true
		}
	}
	return false
}

func mergeInto(dst map[string]interface{}, src map[string]interface{}, over bool) {
	for k, v := range src {
		d, ok := dst[k]
		dm, dIs := d.(map[string]interface{})
		sm, sIs := v.(map[string]interface{})
		if ok && dIs && sIs {
			mergeInto(dm, sm, over)
		} else if !ok || over || empty(d) {
			dst[k] = v
		}
	}
}

func must1(f func(interface{}) (interface{}, error)) func(interface{}) (interface{}, error) { return f }

func caseWords(s string, sep string) string {
	r := []rune{}
	rs := []rune(s)
	for i, c := range rs {
		if c == '_' || c == '-' || unicode.IsSpace(c) {
			r = append(r, []rune(sep)...)
			continue
		}
		if unicode.IsUpper(c) && i > 0 && (unicode.IsLower(rs[i-1]) || (i+1 < len(rs) && unicode.IsLower(rs[i+1]) && unicode.IsUpper(rs[i-1]))) {
			r = append(r, []rune(sep)...)
		}
		r = append(r, unicode.ToLower(c))
	}
	return string(r)
}

func more() template.FuncMap {
	first := must1(func(l interface{}) (interface{}, error) {
		x, err := items(l)
		if err != nil || len(x) == 0 {
			return nil, err
		}
		return x[0], nil
	})
	last := must1(func(l interface{}) (interface{}, error) {
		x, err := items(l)
		if err != nil || len(x) == 0 {
			return nil, err
		}
		return x[len(x)-1], nil
	})
	rest := func(l interface{}) ([]interface{}, error) {
		x, err := items(l)
		if err != nil || len(x) == 0 {
			return nil, err
		}
		return x[1:], nil
	}
	initial := func(l interface{}) ([]interface{}, error) {
		x, err := items(l)
		if err != nil || len(x) == 0 {
			return nil, err
		}
		return x[:len(x)-1], nil
	}
	prepend := func(l interface{}, v interface{}) ([]interface{}, error) {
		x, err := items(l)
		return append([]interface{}{v}, x...), err
	}
	reverse := func(l interface{}) ([]interface{}, error) {
		x, err := items(l)
		for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
		return x, err
	}
	compact := func(l interface{}) ([]interface{}, error) {
		x, err := items(l)
		r := []interface{}{}
		for _, i := range x {
			if !empty(i) {
				r = append(r, i)
			}
		}
		return r, err
	}
	uniq := func(l interface{}) ([]interface{}, error) {
		x, err := items(l)
		r := []interface{}{}
		for _, i := range x {
			if !inList(r, i) {
				r = append(r, i)
			}
		}
		return r, err
	}
	without := func(l interface{}, omit ...interface{}) ([]interface{}, error) {
		x, err := items(l)
		r := []interface{}{}
		for _, i := range x {
			if !inList(omit, i) {
				r = append(r, i)
			}
		}
		return r, err
	}
	has := func(needle interface{}, haystack interface{}) (bool, error) {
		x, err := items(haystack)
		return inList(x, needle), err
	}
	slice := func(l interface{}, indices ...interface{}) (interface{}, error) {
		x := reflect.ValueOf(l)
		if x.Kind() != reflect.Slice && x.Kind() != reflect.Array {
			return nil, fmt.Errorf("list should be type of slice or array but %T", l)
		}
		a, b := 0, x.Len()
		if b == 0 {
			return nil, nil
		}
		if len(indices) > 0 {
			a = int(toInt64(indices[0]))
		}
		if len(indices) > 1 {
			b = int(toInt64(indices[1]))
		}
		return x.Slice(a, b).Interface(), nil
	}
	concat := func(ls ...interface{}) (interface{}, error) {
		r := []interface{}{}
		for _, l := range ls {
			x, err := items(l)
			if err != nil {
				return nil, err
			}
			r = append(r, x...)
		}
		return r, nil
	}
	chunk := func(size int, l interface{}) ([][]interface{}, error) {
		x, err := items(l)
		r := [][]interface{}{}
		for i := 0; i < len(x); i += size {
			e := i + size
			if e > len(x) {
				e = len(x)
			}
			r = append(r, x[i:e])
		}
		return r, err
	}
	trunc := func(c int, s string) string {
		if c < 0 && len(s)+c > 0 {
			return s[len(s)+c:]
		}
		if c >= 0 && len(s) > c {
			return s[:c]
		}
		return s
	}
	fold := func(f func(a, b int64) int64) func(interface{}, ...interface{}) int64 {
		return func(a interface{}, i ...interface{}) int64 {
			r := toInt64(a)
			for _, b := range i {
				r = f(r, toInt64(b))
			}
			return r
		}
	}
	foldf := func(f func(a, b float64) float64) func(interface{}, ...interface{}) float64 {
		return func(a interface{}, i ...interface{}) float64 {
			r := toFloat64(a)
			for _, b := range i {
				r = f(r, toFloat64(b))
			}
			return r
		}
	}
	untilStep := func(start, stop, step int) []int {
		v := []int{}
		if stop < start {
			if step >= 0 {
				return v
			}
			for i := start; i > stop; i += step {
				v = append(v, i)
			}
			return v
		}
		if step <= 0 {
			return v
		}
		for i := start; i < stop; i += step {
			v = append(v, i)
		}
		return v
	}
	re := regexp.MustCompile
	maxf := fold(func(a, b int64) int64 {
		if a > b {
			return a
		}
		return b
	})
	minf := fold(func(a, b int64) int64 {
		if a < b {
			return a
		}
		return b
	})
	m := template.FuncMap{
		"first": first, "mustFirst": first, "last": last, "mustLast": last, "rest": rest, "mustRest": rest, "initial": initial, "mustInitial": initial,
		"prepend": prepend, "mustPrepend": prepend, "push": appendFn, "mustPush": appendFn, "mustAppend": appendFn,
		"reverse": reverse, "mustReverse": reverse, "compact": compact, "mustCompact": compact, "uniq": uniq, "mustUniq": uniq,
		"without": without, "mustWithout": without, "has": has, "mustHas": has, "slice": slice, "mustSlice": slice, "concat": concat, "chunk": chunk, "mustChunk": chunk,
		"all": func(v ...interface{}) bool {
			for _, x := range v {
				if empty(x) {
					return false
				}
			}
			return true
		},
		"any": func(v ...interface{}) bool {
			for _, x := range v {
				if !empty(x) {
					return true
				}
			}
			return false
		},
		"empty": empty,
		"coalesce": func(v ...interface{}) interface{} {
			for _, x := range v {
				if !empty(x) {
					return x
				}
			}
			return nil
		},
		"ternary": func(vt interface{}, vf interface{}, v bool) interface{} {
			if v {
				return vt
			}
			return vf
		},
		"default": func(d interface{}, given ...interface{}) interface{} {
			if empty(given) || empty(given[0]) {
				return d
			}
			return given[0]
		},
		"unset": func(d map[string]interface{}, key string) map[string]interface{} { delete(d, key); return d },
		"keys": func(ds ...map[string]interface{}) []string {
			k := []string{}
			for _, d := range ds {
				for x := range d {
					k = append(k, x)
				}
			}
			return k
		},
		"values": func(d map[string]interface{}) []interface{} {
			r := []interface{}{}
			for _, v := range d {
				r = append(r, v)
			}
			return r
		},
		"pick": func(d map[string]interface{}, keys ...string) map[string]interface{} {
			r := map[string]interface{}{}
			for _, k := range keys {
				if v, ok := d[k]; ok {
					r[k] = v
				}
			}
			return r
		},
		"omit": func(d map[string]interface{}, keys ...string) map[string]interface{} {
			r := map[string]interface{}{}
			for k, v := range d {
				r[k] = v
			}
			for _, k := range keys {
				delete(r, k)
			}
			return r
		},
		"pluck": func(key string, ds ...map[string]interface{}) []interface{} {
			r := []interface{}{}
			for _, d := range ds {
				if v, ok := d[key]; ok {
					r = append(r, v)
				}
			}
			return r
		},
		"merge": func(dst map[string]interface{}, srcs ...map[string]interface{}) interface{} {
			for _, s := range srcs {
				mergeInto(dst, s, false)
			}
			return dst
		},
		"mergeOverwrite": func(dst map[string]interface{}, srcs ...map[string]interface{}) interface{} {
			for _, s := range srcs {
				mergeInto(dst, s, true)
			}
			return dst
		},
		"dig": func(ps ...interface{}) (interface{}, error) {
			if len(ps) < 3 {
				return nil, errors.New("dig needs at least three arguments")
			}
			d := ps[len(ps)-1].(map[string]interface{})
			def := ps[len(ps)-2]
			for i, p := range ps[:len(ps)-2] {
				v, ok := d[p.(string)]
				if !ok {
					return def, nil
				}
				if i == len(ps)-3 {
					return v, nil
				}
				d, ok = v.(map[string]interface{})
				if !ok {
					return def, nil
				}
			}
			return def, nil
		},
		"join":      func(sep string, v interface{}) string { return strings.Join(strslice(v), sep) },
		"sortAlpha": func(v interface{}) []string { r := append([]string{}, strslice(v)...); sort.Strings(r); return r },
		"toStrings": strslice,
		"splitList": func(sep, s string) []string { return strings.Split(s, sep) },
		"split": func(sep, s string) map[string]string {
			r := map[string]string{}
			for i, x := range strings.Split(s, sep) {
				r["_"+strconv.Itoa(i)] = x
			}
			return r
		},
		"splitn": func(sep string, n int, s string) map[string]string {
			r := map[string]string{}
			for i, x := range strings.SplitN(s, sep, n) {
				r["_"+strconv.Itoa(i)] = x
			}
			return r
		},
		"squote": func(str ...interface{}) string {
			out := []string{}
			for _, s := range str {
				if s != nil {
					out = append(out, fmt.Sprintf("'%v'", s))
				}
			}
			return strings.Join(out, " ")
		},
		"cat": func(v ...interface{}) string {
			out := []string{}
			for _, s := range v {
				if s != nil {
					out = append(out, fmt.Sprintf("%v", s))
				}
			}
			return strings.Join(out, " ")
		},
		"repeat": func(n int, s string) string { return strings.Repeat(s, n) },
		"substr": func(a, b int, s string) string {
			if a < 0 {
				return s[:b]
			}
			if b < 0 || b > len(s) {
				return s[a:]
			}
			return s[a:b]
		},
		"trunc":   trunc,
		"trimAll": func(a, b string) string { return strings.Trim(b, a) },
		"trimall": func(a, b string) string { return strings.Trim(b, a) },
		"nospace": func(s string) string { return strings.Join(strings.Fields(s), "") },
		"title":   strings.Title,
		"untitle": func(s string) string {
			if s == "" {
				return s
			}
			return strings.ToLower(s[:1]) + s[1:]
		},
		"kebabcase": func(s string) string { return caseWords(s, "-") },
		"plural": func(one, many string, n int) string {
			if n == 1 {
				return one
			}
			return many
		},
		"eqFold":    strings.EqualFold,
		"int":       func(v interface{}) int { return int(toInt64(v)) },
		"int64":     toInt64,
		"float64":   toFloat64,
		"toDecimal": func(v interface{}) int64 { r, _ := strconv.ParseInt(fmt.Sprint(v), 8, 64); return r },
		"add1":      func(i interface{}) int64 { return toInt64(i) + 1 },
		"add": func(i ...interface{}) int64 {
			a := int64(0)
			for _, b := range i {
				a += toInt64(b)
			}
			return a
		},
		"sub": func(a, b interface{}) int64 { return toInt64(a) - toInt64(b) },
		"div": func(a, b interface{}) int64 { return toInt64(a) / toInt64(b) },
		"mod": func(a, b interface{}) int64 { return toInt64(a) % toInt64(b) },
		"mul": fold(func(a, b int64) int64 { return a * b }),
		"max": maxf, "biggest": maxf, "min": minf,
		"maxf":  foldf(math.Max),
		"minf":  foldf(math.Min),
		"addf":  foldf(func(a, b float64) float64 { return a + b }),
		"subf":  foldf(func(a, b float64) float64 { return a - b }),
		"mulf":  foldf(func(a, b float64) float64 { return a * b }),
		"divf":  foldf(func(a, b float64) float64 { return a / b }),
		"ceil":  func(a interface{}) float64 { return math.Ceil(toFloat64(a)) },
		"floor": func(a interface{}) float64 { return math.Floor(toFloat64(a)) },
		"until": func(n int) []int {
			if n < 0 {
				return untilStep(0, n, -1)
			}
			return untilStep(0, n, 1)
		},
		"untilStep": untilStep,
		"b64enc":    func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) },
		"b64dec": func(s string) string {
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return err.Error()
			}
			return string(b)
		},
		"sha1sum":                func(s string) string { h := sha1.Sum([]byte(s)); return hex.EncodeToString(h[:]) },
		"sha256sum":              func(s string) string { h := sha256.Sum256([]byte(s)); return hex.EncodeToString(h[:]) },
		"typeOf":                 func(v interface{}) string { return fmt.Sprintf("%T", v) },
		"typeIs":                 func(t string, v interface{}) bool { return t == fmt.Sprintf("%T", v) },
		"typeIsLike":             func(t string, v interface{}) bool { s := fmt.Sprintf("%T", v); return t == s || "*"+t == s },
		"kindOf":                 func(v interface{}) string { return reflect.ValueOf(v).Kind().String() },
		"kindIs":                 func(t string, v interface{}) bool { return t == reflect.ValueOf(v).Kind().String() },
		"deepEqual":              reflect.DeepEqual,
		"regexMatch":             func(r, s string) bool { return re(r).MatchString(s) },
		"regexFind":              func(r, s string) string { return re(r).FindString(s) },
		"regexFindAll":           func(r, s string, n int) []string { return re(r).FindAllString(s, n) },
		"regexReplaceAllLiteral": func(r, s, repl string) string { return re(r).ReplaceAllLiteralString(s, repl) },
		"regexQuoteMeta":         regexp.QuoteMeta,
		"base":                   path.Base,
		"dir":                    path.Dir,
		"clean":                  path.Clean,
		"ext":                    path.Ext,
		"isAbs":                  path.IsAbs,
		"osClean":                filepath.Clean,
		"osExt":                  filepath.Ext,
		"osIsAbs":                filepath.IsAbs,
		"env":                    os.Getenv,
		"seq": func(ps ...int) string {
			a, b, st := 1, 0, 1
			switch len(ps) {
			case 1:
				b = ps[0]
			case 2:
				a, b = ps[0], ps[1]
			case 3:
				a, st, b = ps[0], ps[1], ps[2]
			default:
				return ""
			}
			if len(ps) < 3 && b < a {
				st = -1
			}
			r := []string{}
			for i := a; (st > 0 && i <= b) || (st < 0 && i >= b); i += st {
				r = append(r, strconv.Itoa(i))
			}
			return strings.Join(r, " ")
		},
	}
	return m
}
