// Package cli is a stand-in with the declarations that the command uses.
package cli

type Context struct{ Vals map[string]string }

func (c *Context) String(name string) string { return c.Vals[name] }

type Flag interface{ flag() }

type StringFlag struct{ Name, Usage string }

func (StringFlag) flag() {}

type Command struct {
	Name, Usage string
	Action      interface{}
	Flags       []Flag
}

type App struct {
	Name, Usage string
	Commands    []Command
	Action      interface{}
}

func NewApp() *App { return &App{} }

func (a *App) Run(args []string) error { return nil }
