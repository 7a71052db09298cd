// vh replays behaviours generated from the TLA+ specifications against the
// real sigtool library and program, and records executions of the real code
// for checking against the specifications.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Env is what every harness command gets.
type Env struct {
	Prop  string
	Cases string
	Seed  int64
	Tier  string
	Work  string // scratch directory
	Bin   string // the sigtool program, where needed
	Extra map[string]string
	R     *Report
	Until time.Time
}

func (e *Env) Thorough() bool { return e.Tier == "thorough" }

// Late tells that the time set aside for this command is over.
func (e *Env) Late() bool { return time.Now().After(e.Until) }

var cmds = map[string]func(*Env) error{}

func main() {
	if len(os.Args) == 5 && os.Args[1] == "serialize" {
		os.Exit(serialize(os.Args[2:]))
	}
	if len(os.Args) < 2 || cmds[os.Args[1]] == nil {
		var v []string
		for k := range cmds {
			v = append(v, k)
		}
		sort.Strings(v)
		fmt.Fprintf(os.Stderr, "usage: vh %s [flags]\n", strings.Join(v, "|"))
		os.Exit(2)
	}
	// Signals that were ignored when this program was started would be ignored
	// by the programs it runs too; those it catches itself are not.
	sigs := make(chan os.Signal, 8)
	signal.Notify(sigs, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		for s := range sigs {
			if s != syscall.SIGHUP {
				os.Exit(3)
			}
		}
	}()
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	e := &Env{Extra: map[string]string{}}
	var out, extra string
	var budget int
	fs.StringVar(&e.Prop, "prop", "", "property")
	fs.StringVar(&e.Cases, "cases", "", "file with one JSON case per line")
	fs.Int64Var(&e.Seed, "seed", 1, "seed")
	fs.StringVar(&e.Tier, "tier", "quick", "tier")
	fs.StringVar(&e.Work, "work", "", "scratch directory")
	fs.StringVar(&e.Bin, "bin", "", "sigtool program")
	fs.StringVar(&out, "out", "", "result file")
	fs.StringVar(&extra, "x", "", "k=v,k=v")
	fs.IntVar(&budget, "budget", 600, "seconds")
	fs.Parse(os.Args[2:])
	for _, kv := range strings.Split(extra, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			e.Extra[k] = v
		}
	}
	e.Until = time.Now().Add(time.Duration(budget) * time.Second)
	e.R = NewReport(e.Prop)
	if err := cmds[cmd](e); err != nil {
		fmt.Fprintf(os.Stderr, "vh %s: %v\n", cmd, err)
		os.Exit(3)
	}
	b, err := json.Marshal(e.R.Result())
	if err == nil {
		err = os.WriteFile(out, b, 0600)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "vh %s: %v\n", cmd, err)
		os.Exit(3)
	}
}

// EachCase calls fn for every line of the case file.
func EachCase[T any](file string, fn func(i int, c *T) error) error {
	f, err := os.Open(file)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		var c T
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			return fmt.Errorf("case %d: %w", i, err)
		}
		if err := fn(i, &c); err != nil {
			return err
		}
	}
	return sc.Err()
}

// AllCases reads all cases.
func AllCases[T any](file string) ([]*T, error) {
	var v []*T
	err := EachCase(file, func(_ int, c *T) error {
		v = append(v, c)
		return nil
	})
	return v, err
}
