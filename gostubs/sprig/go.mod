module github.com/Masterminds/sprig/v3

go 1.23

require github.com/huandu/xstrings v1.4.0
