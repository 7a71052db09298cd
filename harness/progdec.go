package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"verifharness/ref"
)

// progDec opens files with the sigtool program: the case that the
// specification decides for the library has to come out the same for
// somebody who types the command.
type progDec struct {
	e   *Env
	dir string
	mu  sync.Mutex
	n   int
}

func newProgDec(e *Env, p map[string]*Party) (*progDec, error) {
	g := &progDec{e: e, dir: filepath.Join(e.Work, "prog")}
	if err := os.MkdirAll(g.dir, 0700); err != nil {
		return nil, err
	}
	for k, q := range p {
		if err := os.WriteFile(filepath.Join(g.dir, k+".key"), ref.MakePriv(q.Ed, nil, k, 2, 1, 1).Bytes(), 0600); err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(g.dir, k+".pub"), ref.MakePub(q.EdPK, k), 0600); err != nil {
			return nil, err
		}
	}
	return g, nil
}

var progModes = []string{"program", "program -o", "program -t", "program <", "program pipe"}

// pick chooses, in each class of cases, a sample for the program.
func (g *progDec) pick(n int, at func(i int) (class string, mode *string)) {
	quota := 200
	if g.e.Thorough() {
		quota = 1500
	}
	by := map[string][]int{}
	var order []string
	for i := 0; i < n; i++ {
		c, _ := at(i)
		if by[c] == nil {
			order = append(order, c)
		}
		by[c] = append(by[c], i)
	}
	for _, c := range order {
		v := by[c]
		r := Rng(g.e.Seed, "prog", c)
		r.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
		for k, i := range v[:min(quota, len(v))] {
			_, m := at(i)
			*m = progModes[k%len(progModes)]
		}
	}
}

// decrypt opens file b as rx, demanding sender want ("none": no demand).
func (g *progDec) decrypt(b []byte, rx, want, mode string) *Decrypted {
	g.mu.Lock()
	g.n++
	in := filepath.Join(g.dir, fmt.Sprintf("in%d", g.n))
	g.mu.Unlock()
	out := in + ".out"
	defer os.Remove(in)
	defer os.Remove(out)
	if err := os.WriteFile(in, b, 0600); err != nil {
		return &Decrypted{Err: err}
	}
	a := []string{"decrypt", "--no-password"}
	if want != "none" {
		a = append(a, "-v", want+".pub")
	}
	switch mode {
	case "program -o":
		a = append(a, "-o", out)
	case "program -t":
		a = append(a, "-t")
	}
	a = append(a, rx+".key")
	var p *Proc
	switch mode {
	case "program <":
		f, err := os.Open(in)
		if err != nil {
			return &Decrypted{Err: err}
		}
		p = g.e.Run(g.dir, f, nil, a...)
		f.Close()
	case "program pipe":
		p = g.e.Run(g.dir, bytes.NewReader(b), nil, append(a, "-")...)
	default:
		p = g.e.Run(g.dir, nil, nil, append(a, in)...)
	}
	g.e.R.Count("opened_by_" + mode)
	d := &Decrypted{Set: true}
	d.Out = []byte(p.Out)
	if o, err := os.ReadFile(out); err == nil {
		d.Out = append(d.Out, o...)
	}
	switch {
	case p.Crash:
		d.Err = &Panic{V: "program crashed", Stack: p.Err}
	case p.Code != 0:
		d.Err = errors.New("exit status " + fmt.Sprint(p.Code) + ": " + p.Err)
	default:
		d.Auth = true // an exit status of 0 is all a user sees
	}
	return d
}

// encrypt makes a file with the program.
func (g *progDec) encrypt(bs uint64, by string, rc []string, pt []byte, r *rand.Rand) ([]byte, error) {
	g.mu.Lock()
	g.n++
	in := filepath.Join(g.dir, fmt.Sprintf("pt%d", g.n))
	g.mu.Unlock()
	out := in + ".out"
	defer os.Remove(in)
	defer os.Remove(out)
	if err := os.WriteFile(in, pt, 0600); err != nil {
		return nil, err
	}
	a := []string{"encrypt"}
	if bs > 0 {
		z := fmt.Sprint(bs)
		if bs%1024 == 0 && r.Intn(2) == 0 {
			z = fmt.Sprint(bs/1024) + "k"
		}
		if bs%(1<<20) == 0 && r.Intn(2) == 0 {
			z = fmt.Sprint(bs>>20) + "M"
		}
		a = append(a, "-B", z)
	}
	if by != "" {
		a = append(a, "--no-password", "-s", by+".key")
	}
	mode := r.Intn(4)
	if mode%2 == 0 {
		a = append(a, "-o", out)
	}
	for _, k := range rc {
		a = append(a, k+".pub")
	}
	var p *Proc
	if mode < 2 {
		p = g.e.Run(g.dir, nil, nil, append(a, in)...)
	} else {
		p = g.e.Run(g.dir, bytes.NewReader(pt), nil, append(a, "-")...)
	}
	g.e.R.Count("encrypted_by_program")
	if p.Crash {
		return nil, &Panic{V: "program crashed", Stack: p.Err}
	}
	if p.Code != 0 {
		return nil, errors.New("exit status " + fmt.Sprint(p.Code) + ": " + p.Err)
	}
	if mode%2 == 0 {
		return os.ReadFile(out)
	}
	return []byte(p.Out), nil
}
