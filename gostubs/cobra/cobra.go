// Package cobra is an offline stand-in for github.com/spf13/cobra: one command,
// short/long string and string-array flags, positional arguments.
package cobra

import (
	"fmt"
	"io"
	"os"
	"strings"
)

type PositionalArgs func(cmd *Command, args []string) error

type Command struct {
	Use, Short, Long, Example, Version         string
	Aliases                                    []string
	Args                                       PositionalArgs
	SilenceUsage, SilenceErrors                bool
	PersistentPreRun, PreRun, Run, PostRun     func(cmd *Command, args []string)
	PersistentPreRunE, PreRunE, RunE, PostRunE func(cmd *Command, args []string) error
	fs                                         *FlagSet
	argv                                       []string
	out                                        io.Writer
}

func ArbitraryArgs(cmd *Command, args []string) error { return nil }

func MinimumNArgs(n int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) < n {
			return fmt.Errorf("requires at least %d arg(s), only received %d", n, len(args))
		}
		return nil
	}
}

func MaximumNArgs(n int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) > n {
			return fmt.Errorf("accepts at most %d arg(s), received %d", n, len(args))
		}
		return nil
	}
}

func ExactArgs(n int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) != n {
			return fmt.Errorf("accepts %d arg(s), received %d", n, len(args))
		}
		return nil
	}
}

func (c *Command) SetArgs(a []string)        { c.argv = a }
func (c *Command) SetOut(w io.Writer)        { c.out = w }
func (c *Command) SetErr(w io.Writer)        {}
func (c *Command) ErrOrStderr() io.Writer    { return os.Stderr }
func (c *Command) PersistentFlags() *FlagSet { return c.Flags() }
func (c *Command) Name() string              { return strings.Fields(c.Use + " ")[0] }
func (c *Command) OutOrStdout() io.Writer {
	if c.out != nil {
		return c.out
	}
	return os.Stdout
}

type flag struct {
	one  *string
	many *[]string
	set  bool
}

type FlagSet struct{ m map[string]*flag }

func (c *Command) Flags() *FlagSet {
	if c.fs == nil {
		c.fs = &FlagSet{m: map[string]*flag{}}
	}
	return c.fs
}

func (f *FlagSet) StringVarP(p *string, name, short, value, usage string) {
	*p = value
	x := &flag{one: p}
	f.m["--"+name] = x
	if short != "" {
		f.m["-"+short] = x
	}
}

func (f *FlagSet) StringArrayVarP(p *[]string, name, short string, value []string, usage string) {
	*p = value
	x := &flag{many: p}
	f.m["--"+name] = x
	if short != "" {
		f.m["-"+short] = x
	}
}

func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	f.StringVarP(p, name, "", value, usage)
}

func (f *FlagSet) StringArrayVar(p *[]string, name string, value []string, usage string) {
	f.StringArrayVarP(p, name, "", value, usage)
}

func (f *FlagSet) StringP(name, short, value, usage string) *string {
	p := new(string)
	f.StringVarP(p, name, short, value, usage)
	return p
}

func (f *FlagSet) StringArrayP(name, short string, value []string, usage string) *[]string {
	p := new([]string)
	f.StringArrayVarP(p, name, short, value, usage)
	return p
}

func (f *FlagSet) GetString(name string) (string, error) {
	if x, ok := f.m["--"+name]; ok && x.one != nil {
		return *x.one, nil
	}
	return "", fmt.Errorf("flag accessed but not defined: %s", name)
}

func (f *FlagSet) GetStringArray(name string) ([]string, error) {
	if x, ok := f.m["--"+name]; ok && x.many != nil {
		return *x.many, nil
	}
	return nil, fmt.Errorf("flag accessed but not defined: %s", name)
}

func (f *FlagSet) Changed(name string) bool {
	x, ok := f.m["--"+name]
	return ok && x.set
}

func (c *Command) Execute() error {
	if c.argv == nil {
		c.argv = os.Args[1:]
	}
	err := c.exec(c.argv)
	if err != nil && !c.SilenceErrors {
		fmt.Fprintln(os.Stderr, "Error:", err)
	}
	return err
}

func (c *Command) exec(argv []string) error {
	args := []string{}
	for i := 0; i < len(argv); i++ {
		a := argv[i]
		if !strings.HasPrefix(a, "-") || a == "-" {
			args = append(args, a)
			continue
		}
		val, has := "", false
		if strings.HasPrefix(a, "--") {
			if j := strings.IndexByte(a, '='); j >= 0 {
				val, has, a = a[j+1:], true, a[:j]
			}
		} else if len(a) > 2 {
			val, has, a = a[2:], true, a[:2]
		}
		f, ok := c.Flags().m[a]
		if !ok {
			return fmt.Errorf("unknown flag: %s", a)
		}
		if !has {
			i++
			if i >= len(argv) {
				return fmt.Errorf("flag needs an argument: %s", a)
			}
			val = argv[i]
		}
		if f.one != nil {
			*f.one = val
			f.set = true
		} else if !f.set {
			*f.many = []string{val}
			f.set = true
		} else {
			*f.many = append(*f.many, val)
		}
	}
	if c.Args != nil {
		if err := c.Args(c, args); err != nil {
			return err
		}
	}
	for _, f := range []func(cmd *Command, args []string) error{wrap(c.PersistentPreRunE, c.PersistentPreRun), wrap(c.PreRunE, c.PreRun), wrap(c.RunE, c.Run), wrap(c.PostRunE, c.PostRun)} {
		if err := f(c, args); err != nil {
			return err
		}
	}
	return nil
}

func wrap(e func(cmd *Command, args []string) error, f func(cmd *Command, args []string)) func(cmd *Command, args []string) error {
	return func(cmd *Command, args []string) error {
		if e != nil {
			return e(cmd, args)
		}
		if f != nil {
			f(cmd, args)
		}
		return nil
	}
}
