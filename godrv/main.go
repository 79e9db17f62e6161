// Drives the generator's packages: one JSON request per line, one JSON answer per line.
package main

import (
	"bufio"
	"bytes"
	"debug/dwarf"
	"debug/elf"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/aodinokov/metac/pkg/dwarfy"
	"github.com/aodinokov/metac/pkg/module"
	"github.com/aodinokov/metac/pkg/override"
	"gopkg.in/yaml.v3"
)

type request struct {
	Op string

	In        string   // base settings (YAML)
	Overrides []string // their texts

	Paths []string
	Name  string
	Spec  string
	Kinds []string
	Fail  []string // directories whose module can't be loaded

	Abbrev, Info, Line, Str string // hex
	Elf                     string
	Data                    interface{} // for "bad" and "text"
	Ptr                     bool        // the maps are given by pointer
	Cut                     int         // "text": how much of the dump's end is missing
	More                    string      // and what follows
	Yaml                    string      // or YAML of its own
	Json                    string
}

// ------------------------------------------------------------------ settings

func merge(r *request) map[string]interface{} {
	var in map[string]interface{}
	if err := yaml.Unmarshal([]byte(r.In), &in); err != nil {
		return map[string]interface{}{"driver": err.Error()}
	}
	if in == nil {
		in = map[string]interface{}{}
	}
	out, err := override.MergeAll(&in, r.Overrides)
	res := map[string]interface{}{"in": in}
	if err != nil {
		res["err"] = err.Error()
	} else {
		res["out"] = *out
	}
	return res
}

// ------------------------------------------------------------------- modules

type inst struct{ kind, path, spec string }

func (i *inst) Run(workDir string, overrides []string) ([]byte, error) { return nil, nil }

type kind struct {
	name string
	fail []string
}

func (k *kind) NewInstance(r *module.Runner, path string, spec string) (module.Instance, error) {
	for _, f := range k.fail {
		if f == path {
			return nil, fmt.Errorf("can't load")
		}
	}
	return &inst{k.name, path, spec}, nil
}

func find(r *request) map[string]interface{} {
	runner := module.Runner{Paths: r.Paths, Kinds: map[string]module.Kind{}}
	for _, k := range r.Kinds {
		runner.Kinds[k] = &kind{k, r.Fail}
	}
	res := map[string]interface{}{}
	infos, err := runner.InfoByName(r.Name)
	if err != nil {
		res["ierr"] = err.Error()
	}
	is := [][]string{}
	for _, i := range infos {
		is = append(is, []string{i.Path, i.Kind})
	}
	res["infos"] = is
	in, err := runner.NewInstance(r.Name, r.Spec)
	if err != nil {
		res["err"] = err.Error()
	} else {
		x := in.(*inst)
		res["inst"] = []string{x.kind, x.path, x.spec}
	}
	return res
}

// --------------------------------------------------------------- debug data

// value with its Go kind, so that a change of the kind is seen
func val(v interface{}) interface{} {
	switch x := v.(type) {
	case []int:
		r := []string{}
		for _, i := range x {
			r = append(r, fmt.Sprint(i))
		}
		return []interface{}{"bytes", r}
	case dwarfy.Offset:
		return []interface{}{"offset", fmt.Sprint(uint32(x))}
	case nil:
		return []interface{}{"nil", ""}
	}
	return []interface{}{fmt.Sprintf("%T", v), fmt.Sprint(v)}
}

func dump(d *dwarfy.Data) interface{} {
	keys := []int{}
	for o := range d.Entries {
		keys = append(keys, int(o))
	}
	sort.Ints(keys)
	es := []interface{}{}
	for _, k := range keys {
		e := d.Entries[dwarfy.Offset(k)]
		if e == nil {
			es = append(es, map[string]interface{}{"o": k, "nil": true})
			continue
		}
		fs := []interface{}{}
		for _, f := range e.Fields {
			fs = append(fs, []interface{}{string(f.Attr), string(f.Class), val(f.Val)})
		}
		m := map[string]interface{}{"o": k, "t": string(e.Tag), "f": fs}
		ch := []int{}
		for _, c := range e.Children {
			ch = append(ch, int(c))
		}
		m["c"] = ch
		m["p"] = -1
		if e.Parent != nil {
			m["p"] = int(*e.Parent)
		}
		df := []string{}
		if e.DeclFiles != nil {
			df = append(df, *e.DeclFiles...)
		}
		m["df"] = df
		es = append(es, m)
	}
	return es
}

func bytesOf(s string) []byte {
	b, _ := hex.DecodeString(s)
	return b
}

func text(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func readDwarf(r *request) map[string]interface{} {
	var dd *dwarf.Data
	var err error
	if r.Elf != "" {
		f, e := elf.Open(r.Elf)
		if e != nil {
			return map[string]interface{}{"driver": e.Error()}
		}
		defer f.Close()
		dd, err = f.DWARF()
	} else {
		dd, err = dwarf.New(bytesOf(r.Abbrev), nil, nil, bytesOf(r.Info), bytesOf(r.Line), nil, nil, bytesOf(r.Str))
	}
	if err != nil {
		return map[string]interface{}{"driver": err.Error()}
	}
	d, err := dwarfy.NewData(dd)
	if err != nil {
		return map[string]interface{}{"err": err.Error()}
	}
	res := map[string]interface{}{"data": dump(d)}
	want := text(res["data"])
	if r.Elf != "" {
		res["data"] = len(d.Entries)
		res["tree"] = treeOfElf(r.Elf, d)
	}
	conv := map[string]string{}
	note := func(name string, x *dwarfy.Data, err error) *dwarfy.Data {
		if err != nil {
			conv[name] = "error: " + err.Error()
			return nil
		}
		if got := text(dump(x)); got != want {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			cut := func(s string) string {
				a := i - 100
				if a < 0 {
					a = 0
				}
				b := i + 100
				if b > len(s) {
					b = len(s)
				}
				return s[a:b]
			}
			conv[name] = "..." + cut(got) + "... instead of ..." + cut(want)
		}
		return x
	}
	yamlTrip := func(x *dwarfy.Data) (*dwarfy.Data, error) {
		b, err := x.ToYamlBuffer()
		if err != nil {
			return nil, err
		}
		return dwarfy.NewDataFromYamlBuffer(b)
	}
	jsonTrip := func(x *dwarfy.Data) (*dwarfy.Data, error) {
		b, err := x.ToJsonBuffer()
		if err != nil {
			return nil, err
		}
		return dwarfy.NewDataFromJsonBuffer(b)
	}
	mapTrip := func(x *dwarfy.Data) (*dwarfy.Data, error) {
		return dwarfy.NewDataFromUnstructured(x.ToUnstructured())
	}
	trips := map[string]func(*dwarfy.Data) (*dwarfy.Data, error){"yaml": yamlTrip, "json": jsonTrip, "maps": mapTrip}
	for n, t := range trips {
		x, err := t(d)
		x = note(n, x, err)
		if x == nil || conv[n] != "" || r.Elf != "" {
			continue
		}
		for n2, t2 := range trips {
			y, err := t2(x)
			note(n+"+"+n2, y, err)
		}
	}
	if got := text(dump(d)); got != want {
		conv["source"] = "converting changed the data itself"
	}
	res["conv"] = conv
	return res
}

// the tree of an ELF file as the reader of the standard library nests it
func treeOfElf(name string, d *dwarfy.Data) string {
	f, err := elf.Open(name)
	if err != nil {
		return err.Error()
	}
	defer f.Close()
	dd, err := f.DWARF()
	if err != nil {
		return err.Error()
	}
	stack := []int{0}
	n := 1
	kids := map[int]int{}
	rd := dd.Reader()
	for {
		e, err := rd.Next()
		if err != nil {
			return err.Error()
		}
		if e == nil {
			break
		}
		if e.Tag == 0 {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		if e.Tag == dwarf.TagCompileUnit {
			stack = stack[:1]
		}
		n++
		o, p := int(e.Offset), stack[len(stack)-1]
		x := d.Entries[dwarfy.Offset(o)]
		if x == nil || string(x.Tag) != e.Tag.String() || len(x.Fields) != len(e.Field) {
			return fmt.Sprintf("entry %d is missing or differs", o)
		}
		if x.Parent == nil || int(*x.Parent) != p {
			return fmt.Sprintf("entry %d has a wrong parent", o)
		}
		px := d.Entries[dwarfy.Offset(p)]
		k := kids[p]
		if len(px.Children) <= k || int(px.Children[k]) != o {
			return fmt.Sprintf("entry %d is not child %d of %d", o, k, p)
		}
		kids[p]++
		if e.Children {
			stack = append(stack, o)
		}
	}
	if n != len(d.Entries) {
		return fmt.Sprintf("%d entries instead of %d", len(d.Entries), n)
	}
	for o, e := range d.Entries {
		if len(e.Children) != kids[int(o)] {
			return fmt.Sprintf("entry %d has %d children instead of %d", o, len(e.Children), kids[int(o)])
		}
	}
	return ""
}

// numbers as they are in Go's own generic maps
func ints(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			x[k] = ints(x[k])
		}
	case []interface{}:
		for k := range x {
			x[k] = ints(x[k])
		}
	case json.Number:
		if i, err := strconv.Atoi(x.String()); err == nil {
			return i
		}
		u, _ := strconv.ParseUint(x.String(), 10, 64)
		return u
	}
	return v
}

func bad(r *request) map[string]interface{} {
	data := ints(r.Data)
	if r.Ptr {
		data = ptrs(data, 0)
	}
	d, err := dwarfy.NewDataFromUnstructured(data)
	if err != nil {
		return map[string]interface{}{"err": err.Error()}
	}
	return map[string]interface{}{"data": dump(d)}
}

// the outer map, the entries and their fields as pointers to maps
func ptrs(v interface{}, depth int) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			x[k] = ptrs(x[k], depth+1)
		}
		if depth == 1 {
			return x
		}
		return &x
	case []interface{}:
		for k := range x {
			x[k] = ptrs(x[k], depth+1)
		}
	}
	return v
}

// a dump that is cut off or followed by something, or any other text
func dumped(r *request) map[string]interface{} {
	var d *dwarfy.Data
	var err error
	switch {
	case r.Yaml != "":
		d, err = dwarfy.NewDataFromYamlBuffer([]byte(r.Yaml))
	case r.Json != "":
		d, err = dwarfy.NewDataFromJsonBuffer([]byte(r.Json))
	default:
		d, err = dwarfy.NewDataFromUnstructured(ints(r.Data))
		if err != nil {
			return map[string]interface{}{"driver": err.Error()}
		}
		b, err2 := d.ToJsonBuffer()
		if err2 != nil {
			return map[string]interface{}{"driver": err2.Error()}
		}
		b = append(b[:len(b)-r.Cut%len(b)], []byte(r.More)...)
		d, err = dwarfy.NewDataFromJsonBuffer(b)
	}
	if err != nil {
		return map[string]interface{}{"err": err.Error()}
	}
	return map[string]interface{}{"data": dump(d)}
}

func answer(line []byte) (res map[string]interface{}) {
	defer func() {
		if p := recover(); p != nil {
			res = map[string]interface{}{"panic": fmt.Sprint(p)}
		}
	}()
	r := request{}
	dec := json.NewDecoder(bytes.NewReader(line))
	dec.UseNumber()
	if err := dec.Decode(&r); err != nil {
		return map[string]interface{}{"driver": err.Error()}
	}
	switch r.Op {
	case "merge":
		return merge(&r)
	case "find":
		return find(&r)
	case "dwarf":
		return readDwarf(&r)
	case "bad":
		return bad(&r)
	case "text":
		return dumped(&r)
	}
	return map[string]interface{}{"driver": "unknown op " + strings.TrimSpace(r.Op)}
}

func main() {
	log.SetOutput(io.Discard)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			b, e := json.Marshal(answer(line))
			if e != nil {
				b = []byte(fmt.Sprintf("{\"driver\":%q}", e.Error()))
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}
