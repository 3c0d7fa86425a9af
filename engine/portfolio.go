package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Queries with floating-point arithmetic go to a fresh cvc5 and a fresh z3 at
// once: their one-shot modes are much better at it than z3's incremental one.

var fpMemo = map[*Term]bool{}

func hasFPArith(t *Term) bool {
	if len(t.Args) == 0 {
		return false
	}
	if r, ok := fpMemo[t]; ok {
		return r
	}
	r := false
	switch t.Op {
	case OFAdd, OFSub, OFMul, OFDiv, OFFromS, OFFromU, OFToS:
		r = true
	default:
		for _, a := range t.Args {
			if hasFPArith(a) {
				r = true
				break
			}
		}
	}
	fpMemo[t] = r
	return r
}

func (s *Solver) checkFP(t *Term) (Result, *Model) {
	var b bytes.Buffer
	tmp := &Solver{in: bufio.NewWriter(&b), defined: map[*Term]bool{}, declared: map[*Term]bool{}}
	tmp.send("(set-option :produce-models true)")
	tmp.send("(set-logic ALL)")
	tmp.define(t)
	tmp.send("(assert " + tmp.ref(t) + ")")
	tmp.send("(check-sat)")
	vars := collectVars(t)
	if len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(quoteVar(v.Name) + " ")
		}
		tmp.send(sb.String() + "))")
	}
	tmp.in.Flush()
	text := b.Bytes()
	if p := os.Getenv("VP_FPLOG"); p != "" {
		os.WriteFile(fmt.Sprintf("%s.%d", p, s.Queries), text, 0644)
	}
	to := time.Duration(s.timeout) * time.Millisecond * 4
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	type ans struct {
		r Result
		m *Model
	}
	ch := make(chan ans, 2)
	run := func(bin string, args ...string) {
		a := ans{Unknown, nil}
		defer func() {
			if e := recover(); e != nil {
				a = ans{Unknown, nil}
			}
			ch <- a
		}()
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Stdin = bytes.NewReader(text)
		out, _ := cmd.Output()
		o := strings.TrimSpace(string(out))
		switch {
		case strings.HasPrefix(o, "unsat"):
			a.r = Unsat
		case strings.HasPrefix(o, "sat"):
			m := &Model{m: map[*Term]uint64{}}
			if len(vars) > 0 {
				readModel(m, vars, o[3:])
			}
			a = ans{Sat, m}
		}
	}
	go run("cvc5", "--lang=smt2")
	go run(s.bin, "-in", "-smt2")
	for i := 0; i < 2; i++ {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

func readModel(m *Model, vars []*Term, text string) {
	sx := parseSexp(text)
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[strings.ReplaceAll(v.Name, "|", "_")] = v
	}
	for _, p := range sx.l {
		if len(p.l) != 2 {
			panic(Unsupported{"bad model " + text})
		}
		v := byName[strings.Trim(p.l[0].a, "|")]
		if v == nil {
			panic(Unsupported{fmt.Sprint("bad model var ", p.l[0].a)})
		}
		m.m[v] = sexpVal(p.l[1])
	}
}
