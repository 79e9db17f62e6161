// Package xstrings is an offline stand-in for github.com/huandu/xstrings.
package xstrings

import (
	"strings"
	"unicode"
)

// ToSnakeCase converts CamelCase / spaced / dashed names to snake_case.
func ToSnakeCase(str string) string {
	var b strings.Builder
	rs := []rune(str)
	for i, r := range rs {
		switch {
		case r == '_' || r == ' ' || r == '-':
			b.WriteRune('_')
		case unicode.IsUpper(r):
			prevSep := i == 0 || rs[i-1] == '_' || rs[i-1] == ' ' || rs[i-1] == '-'
			if !prevSep && (!unicode.IsUpper(rs[i-1]) || (i+1 < len(rs) && unicode.IsLower(rs[i+1]))) {
				b.WriteRune('_')
			}
			b.WriteRune(unicode.ToLower(r))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}
