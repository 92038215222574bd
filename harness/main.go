// Command harness drives the real go-xmssmt code under the direction of the
// TLA+ specifications in /verif/spec.  See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
)

// Commands, registered by the other files.
var commands = map[string]func(cfg *Config) *Report{}

// Config is read as JSON from the file given on the command line.
type Config struct {
	Cmd     string                 `json:"cmd"`
	Seed    int64                  `json:"seed"`
	Scratch string                 `json:"scratch"`
	Out     string                 `json:"out"`
	Budget  float64                `json:"budget"` // seconds
	Workers int                    `json:"workers"`
	Tier    string                 `json:"tier"`
	Args    map[string]interface{} `json:"args"`
}

func (c *Config) Str(name, def string) string {
	if v, ok := c.Args[name]; ok {
		return v.(string)
	}
	return def
}

func (c *Config) Int(name string, def int) int {
	if v, ok := c.Args[name]; ok {
		return int(v.(float64))
	}
	return def
}

func (c *Config) Bool(name string) bool {
	v, ok := c.Args[name]
	return ok && v.(bool)
}

// Violation is a behaviour of the real code that the specification forbids.
type Violation struct {
	What   string      `json:"what"`
	Replay interface{} `json:"replay"`
	// Key identifies the violation in the known-findings file.
	Key string `json:"key,omitempty"`
}

// Report is what a command writes to Config.Out.
type Report struct {
	Violations []Violation            `json:"violations"`
	Stats      map[string]interface{} `json:"stats"`
	Errors     []string               `json:"errors"`
}

func NewReport() *Report {
	return &Report{Stats: map[string]interface{}{}, Violations: []Violation{}, Errors: []string{}}
}

func main() {
	if len(os.Args) < 2 {
		names := []string{}
		for n := range commands {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println("usage: harness CONFIG.json; commands:", names)
		os.Exit(3)
	}
	if f, ok := subprocs[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	buf, err := os.ReadFile(os.Args[1])
	check(err)
	var cfg Config
	check(json.Unmarshal(buf, &cfg))
	f, ok := commands[cfg.Cmd]
	if !ok {
		fmt.Println("no such command", cfg.Cmd)
		os.Exit(3)
	}
	if cfg.Workers == 0 {
		cfg.Workers = 8
	}
	progressFile = cfg.Out + ".progress"
	rep := f(&cfg)
	out, err := json.Marshal(rep)
	check(err)
	check(os.WriteFile(cfg.Out, out, 0644))
}

// Entry points of helper processes.
var subprocs = map[string]func(args []string){}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}
