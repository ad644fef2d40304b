package main

import (
	"encoding/json"
	"fmt"

	"github.com/mlange-42/bbn/ve"
)

type algebra struct {
	vars *ve.Variables
	list []ve.Variable
	ids  map[int]int
	pool []*ve.Factor

	cards []int
	large bool  // only some positions of tables are recorded
	pos   []int // relative positions, in millionths
}

type varDef struct {
	Id   int    `json:"id"`
	Type string `json:"type"`
	Card int    `json:"card"`
}

func newAlgebra(line []byte) *algebra {
	var h struct {
		Vars []varDef `json:"vars"`
	}
	decode(line, &h)
	a := &algebra{vars: ve.NewVariables(), ids: map[int]int{}}
	for i, v := range h.Vars {
		a.list = append(a.list, a.vars.AddVariable(v.Id, nodeTypes[v.Type], uint16(v.Card)))
		a.ids[v.Id] = i + 1
		a.cards = append(a.cards, v.Card)
	}
	return a
}

type step struct {
	F    int      `json:"f"`
	Fs   []int    `json:"fs"`
	V    int      `json:"v"`
	Vs   []int    `json:"vs"`
	O    int      `json:"o"`
	D    []string `json:"d"`
	Nil  bool     `json:"nil"`
	A    []int    `json:"a"`
	I    int      `json:"i"`
	X    string   `json:"x"`
	Id   int      `json:"id"`
	Ev   [][2]int `json:"ev"`
	Q    []int    `json:"q"`
	U    int      `json:"u"`
	Deps [][]int  `json:"deps"`
	W    []string `json:"w"`
	Step bool     `json:"step"`
	Pos  []int    `json:"pos"`
	A0   int      `json:"a0"`
	B0   int      `json:"b0"`
	M0   int      `json:"m0"`
}

func (a *algebra) variables(vs []int) []ve.Variable {
	r := make([]ve.Variable, len(vs))
	for i, v := range vs {
		r[i] = a.list[v-1]
	}
	return r
}

func (a *algebra) describe(f *ve.Factor) obj {
	fv := []int{}
	for _, v := range f.Variables() {
		fv = append(fv, a.ids[v.Id()])
	}
	if a.large {
		d := f.Data()
		at := [][]any{}
		for _, p := range a.pos {
			i := (len(d) - 1) * p / 1000000
			at = append(at, []any{i, rat(d[i])})
		}
		return obj{"st": "ok", "fv": fv, "len": len(d), "at": at}
	}
	return obj{"st": "ok", "fid": f.Id(), "fv": fv, "fd": rats(f.Data())}
}

func (a *algebra) add(f ve.Factor) obj {
	a.pool = append(a.pool, &f)
	return a.describe(&f)
}

func (a *algebra) get(fs []int) []*ve.Factor {
	r := make([]*ve.Factor, len(fs))
	for i, f := range fs {
		r[i] = a.pool[f-1]
	}
	return r
}

func (a *algebra) run(op string, raw json.RawMessage) obj {
	var s step
	decode(raw, &s)
	var f *ve.Factor
	if s.F > 0 {
		f = a.pool[s.F-1]
	} else if a.large && len(s.Fs) > 0 {
		f = a.pool[s.Fs[0]-1]
	}
	a.pos = s.Pos
	switch op {
	case "create":
		var d []float64
		if !s.Nil {
			d = nums(s.D)
		}
		return a.add(a.vars.CreateFactor(a.variables(s.Vs), d))
	case "lrule":
		n := 1
		for _, v := range s.Vs {
			n *= a.cards[v-1]
		}
		d := make([]float64, n)
		for i := range d {
			d[i] = float64((i*s.A0 + s.B0) % s.M0)
		}
		return a.add(a.vars.CreateFactor(a.variables(s.Vs), d))
	case "restrict":
		return a.add(a.vars.Restrict(f, a.list[s.V-1], s.O))
	case "sumout":
		return a.add(a.vars.SumOut(f, a.list[s.V-1]))
	case "product":
		return a.add(a.vars.Product(a.get(s.Fs)...))
	case "sum":
		return a.add(a.vars.Sum(a.get(s.Fs)...))
	case "marginal":
		return a.add(a.vars.Marginal(f, a.list[s.V-1]))
	case "normalize":
		return a.add(a.vars.Normalize(f))
	case "normfor":
		return a.add(a.vars.NormalizeFor(f, a.list[s.V-1]))
	case "rearrange":
		return a.add(a.vars.Rearrange(f, a.variables(s.Vs)))
	case "policy":
		return a.add(a.vars.Policy(f, a.list[s.V-1]))
	case "invert":
		return a.add(a.vars.Invert(f))
	case "index":
		return obj{"st": "ok", "i": f.Index(s.A)}
	case "nodata":
		i, ok := f.IndexWithNoData(s.A)
		return obj{"st": "ok", "i": i, "has": ok}
	case "outcomes":
		r := make([]int, len(f.Variables()))
		f.Outcomes(s.I, r)
		return obj{"st": "ok", "a": r}
	case "rowindex":
		i, n := f.RowIndex(s.A)
		return obj{"st": "ok", "i": i, "n": n}
	case "row":
		return obj{"st": "ok", "row": rats(f.Row(s.A))}
	case "get":
		return obj{"st": "ok", "x": rat(f.Get(s.A))}
	case "set":
		f.Set(s.A, num(s.X))
		return obj{"st": "ok"}
	case "addvar":
		a.vars.AddVariable(s.Id, ve.ChanceNode, 2)
		return obj{"st": "ok"}
	case "pool":
		list := []obj{}
		for _, f := range a.pool {
			list = append(list, a.describe(f))
		}
		return obj{"st": "ok", "pool": list}
	case "vesolve", "veutil", "vepolicy":
		return a.solve(op, &s)
	}
	panic("driver: unknown op " + op)
}

// solve uses the elimination engine directly, on a subset of the pool.
func (a *algebra) solve(op string, s *step) obj {
	factors := []ve.Factor{}
	for _, f := range a.get(s.Fs) {
		factors = append(factors, *f)
	}
	deps := map[ve.Variable][]ve.Variable{}
	for i, d := range s.Deps {
		if len(d) > 0 || a.list[i].NodeType() == ve.DecisionNode {
			deps[a.list[i]] = a.variables(d)
		}
	}
	var weights []float64
	if len(s.W) > 0 {
		weights = nums(s.W)
	}
	solver := ve.New(a.vars, factors, deps, weights)
	ev := []ve.Evidence{}
	for _, e := range s.Ev {
		ev = append(ev, ve.Evidence{Variable: a.list[e[0]-1], Value: e[1]})
	}
	switch op {
	case "vesolve":
		return a.describe(solver.SolveQuery(ev, a.variables(s.Q)))
	case "veutil":
		var u *ve.Variable
		if s.U > 0 {
			u = &a.list[s.U-1]
		}
		return a.describe(solver.SolveUtility(ev, a.variables(s.Q), u))
	default:
		pol := solver.SolvePolicies(s.Step)
		list := []obj{}
		for v, p := range pol {
			d := a.describe(p[1])
			d["d"] = a.ids[v.Id()]
			list = append(list, d)
		}
		if len(list) != len(pol) {
			panic(fmt.Sprint("driver: policies ", len(pol)))
		}
		return obj{"st": "ok", "pol": list}
	}
}
