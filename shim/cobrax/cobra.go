// Package cobra is a stand-in for the part of cobra the CLI uses.
package cobra

import "errors"

// Args are the command-line arguments of the next Execute.
var Args []string

// Command is a CLI command.
type Command struct {
	Use, Short, Long string
	Run              func(cmd *Command, args []string)
	RunE             func(cmd *Command, args []string) error
	subs             []*Command
	flags            FlagSet
}

// FlagSet holds string flags.
type FlagSet struct{ list []flag }

type flag struct {
	p           *string
	name, short string
}

// StringVarP declares a string flag.
func (f *FlagSet) StringVarP(p *string, name, short, value, usage string) {
	*p = value
	f.list = append(f.list, flag{p, name, short})
}

// StringVar declares a string flag.
func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	f.StringVarP(p, name, "", value, usage)
}

// Flags returns the command's flags.
func (c *Command) Flags() *FlagSet { return &c.flags }

// PersistentFlags returns the command's flags.
func (c *Command) PersistentFlags() *FlagSet { return &c.flags }

// AddCommand adds sub-commands.
func (c *Command) AddCommand(s ...*Command) { c.subs = append(c.subs, s...) }

// Execute runs the sub-command named by Args with its flags.
func (c *Command) Execute() error {
	if len(Args) == 0 {
		return nil
	}
	for _, s := range c.subs {
		if s.Use != Args[0] {
			continue
		}
		a := Args[1:]
		var rest []string
		for i := 0; i < len(a); i++ {
			hit := false
			for _, f := range s.flags.list {
				if (a[i] == "--"+f.name || f.short != "" && a[i] == "-"+f.short) && i+1 < len(a) {
					*f.p = a[i+1]
					i++
					hit = true
					break
				}
			}
			if !hit {
				rest = append(rest, a[i])
			}
		}
		if s.RunE != nil {
			return s.RunE(s, rest)
		}
		if s.Run != nil {
			s.Run(s, rest)
		}
		return nil
	}
	return errors.New("unknown command " + Args[0])
}
