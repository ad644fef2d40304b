package main

import (
	"encoding/json"
	"maps"
	"os"
	"path/filepath"
	"slices"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

// netDef is the abstract network of a scenario. Variables are numbered from 1.
type netDef struct {
	N      int        `json:"n"`
	Type   []string   `json:"type"`
	Card   []int      `json:"card"`
	Par    [][]int    `json:"par"`
	Tab    [][]string `json:"tab"`
	Total  int        `json:"total"`
	Names  []string   `json:"names"`
	Outs   [][]string `json:"outs"`
	Pos    [][2]int   `json:"pos"`
	Colors []string   `json:"colors"`
	Name   string     `json:"name"`
	Info   string     `json:"info"`
}

var nodeTypes = map[string]ve.NodeType{"c": ve.ChanceNode, "d": ve.DecisionNode, "u": ve.UtilityNode}
var typeNames = map[ve.NodeType]string{ve.ChanceNode: "c", ve.DecisionNode: "d", ve.UtilityNode: "u"}

func (d *netDef) build() (*bbn.Network, error) {
	vars := make([]bbn.Variable, d.N)
	factors := make([]bbn.Factor, d.N)
	for i := 0; i < d.N; i++ {
		vars[i] = bbn.Variable{Name: d.Names[i], NodeType: nodeTypes[d.Type[i]], Outcomes: slices.Clone(d.Outs[i])}
		if d.Pos != nil {
			vars[i].Position = d.Pos[i]
		}
		if d.Colors != nil {
			vars[i].Color = d.Colors[i]
		}
		f := bbn.Factor{For: d.Names[i]}
		for _, p := range d.Par[i] {
			f.Given = append(f.Given, d.Names[p-1])
		}
		if len(d.Tab[i]) > 0 {
			f.Table = nums(d.Tab[i])
		}
		factors[i] = f
	}
	return bbn.New(d.Name, d.Info, vars, factors)
}

type session struct {
	def      netDef
	load     string
	doc      string
	net      *bbn.Network
	trainers []*bbn.Trainer
	kept     map[int]func() obj // results by event, for looking at them again
	scribble []func()           // overwrite handed-out results
	count    int
}

func newSession(line []byte) *session {
	s := &session{kept: map[int]func() obj{}}
	var h struct {
		Net  netDef `json:"net"`
		Load string `json:"load"`
		Doc  string `json:"doc"`
	}
	decode(line, &h)
	s.def, s.load, s.doc = h.Net, h.Load, h.Doc
	return s
}

func (s *session) open() (*bbn.Network, error) {
	switch s.load {
	case "", "new":
		return s.def.build()
	case "yaml":
		return bbn.FromYAML([]byte(s.doc))
	case "xml":
		return bbn.FromBIFXML([]byte(s.doc))
	default: // file with the given extension
		dir, err := os.MkdirTemp("", "drv")
		check(err)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "net"+s.load)
		check(os.WriteFile(path, []byte(s.doc), 0644))
		return bbn.FromFile(path)
	}
}

type sample struct {
	S    []int    `json:"s"`
	Us   []string `json:"us"`
	UNil bool     `json:"unil"`
	Rep  int      `json:"rep"`
}

type call struct {
	Ev    [][2]int          `json:"ev"`
	Q     []int             `json:"q"`
	U     int               `json:"u"`
	Ign   bool              `json:"ign"`
	Step  bool              `json:"step"`
	V     int               `json:"v"`
	O     int               `json:"o"`
	K     int               `json:"k"`
	T     int               `json:"t"`
	Xs    []sample          `json:"xs"`
	EvS   map[string]string `json:"evs"`
	QS    []string          `json:"qs"`
	UName string            `json:"uname"`
	Index []int             `json:"index"`
}

func (s *session) evidence(pairs [][2]int) map[string]string {
	if len(pairs) == 0 {
		return nil
	}
	m := make(map[string]string, len(pairs))
	for _, p := range pairs {
		m[s.def.Names[p[0]-1]] = s.def.Outs[p[0]-1][p[1]]
	}
	return m
}

func (s *session) names(vars []int) []string {
	r := make([]string, len(vars))
	for i, v := range vars {
		r[i] = s.def.Names[v-1]
	}
	return r
}

func (s *session) indexOf(name string) int {
	return slices.Index(s.def.Names, name) + 1
}

// scope finds out by name which network variables a factor is about.
func (s *session) scope(f *ve.Factor) []int {
	fv := f.Variables()
	r := make([]int, len(fv))
	if len(fv) == 0 {
		return r
	}
	for i, name := range s.def.Names {
		func() {
			defer func() { _ = recover() }()
			g := s.net.Rearrange(f, []string{name})
			gv := g.Variables()
			last := gv[len(gv)-1]
			for j := range fv {
				if fv[j].Is(last) {
					r[j] = i + 1
				}
			}
		}()
	}
	return r
}

func (s *session) factor(f *ve.Factor, res obj) {
	res["fv"] = s.scope(f)
	res["fd"] = rats(f.Data())
}

func (s *session) keep(k int, look func() obj, overwrite func()) {
	s.kept[k] = look
	s.scribble = append(s.scribble, overwrite)
}

func fill(d []float64) {
	for i := range d {
		d[i] = 777.5
	}
}

func (s *session) run(op string, ev json.RawMessage) obj {
	s.count++
	k := s.count
	if s.net == nil && op != "load" {
		return obj{"st": "skipped"}
	}
	var c call
	decode(ev, &c)
	switch op {
	case "load":
		net, err := s.open()
		if err != nil {
			return failure(err)
		}
		s.net = net
		return obj{"st": "ok"}
	case "query":
		return s.query(k, s.evidence(c.Ev), s.names(c.Q), c.Ign)
	case "rawquery":
		return s.query(k, c.EvS, c.QS, c.Ign)
	case "utility":
		u := ""
		if c.U > 0 {
			u = s.def.Names[c.U-1]
		}
		return s.utility(k, s.evidence(c.Ev), s.names(c.Q), u, c.Ign)
	case "rawutility":
		return s.utility(k, c.EvS, c.QS, c.UName, c.Ign)
	case "normutil":
		return s.normutil(c)
	case "policies":
		return s.policies(k, c.Step)
	case "toev":
		return s.toev(k, s.def.Names[c.V-1], s.def.Outs[c.V-1][c.O])
	case "rawtoev":
		return s.toev(k, c.QS[0], c.QS[1])
	case "dump":
		return s.dump(s.net)
	case "row":
		row, ok := s.net.Variables()[c.V-1].Factor.Row(c.Index)
		return obj{"st": "ok", "has": ok, "row": rats(row)}
	case "scribble":
		for _, f := range s.scribble {
			f()
		}
		s.kept = map[int]func() obj{}
		return obj{"st": "ok"}
	case "recheck":
		look, ok := s.kept[c.K]
		if !ok {
			return obj{"st": "skipped"}
		}
		return look()
	case "save": // save, load again and go on with the loaded network
		yml, err := bbn.ToYAML(s.net)
		if err != nil {
			return failure(err)
		}
		net, err := bbn.FromYAML(yml)
		if err != nil {
			return failure(err)
		}
		again, err := bbn.ToYAML(net)
		if err != nil {
			return failure(err)
		}
		res := s.dump(net)
		res["doc"] = yamlDoc(yml)
		res["same"] = string(again) == string(yml)
		return res
	case "reload":
		yml, err := bbn.ToYAML(s.net)
		if err != nil {
			return failure(err)
		}
		net, err := bbn.FromYAML(yml)
		if err != nil {
			return failure(err)
		}
		s.net = net
		s.trainers = nil
		return obj{"st": "ok"}
	case "trainer":
		t := bbn.NewTrainer(s.net)
		s.trainers = append(s.trainers, &t)
		return obj{"st": "ok"}
	case "sample":
		for _, x := range c.Xs {
			var us []float64
			if !x.UNil {
				us = nums(x.Us)
			}
			smp, uss := slices.Clone(x.S), slices.Clone(us)
			for range max(x.Rep, 1) {
				s.trainers[c.T-1].AddSample(smp, uss)
			}
			if !slices.Equal(smp, x.S) || !same(uss, us) {
				return obj{"st": "args", "msg": "arguments modified"}
			}
			for i := range smp { // callers reuse their buffers
				smp[i] = -1
			}
			fill(uss)
		}
		return obj{"st": "ok"}
	case "update":
		net, err := s.trainers[c.T-1].UpdateNetwork()
		if err != nil {
			return failure(err)
		}
		return obj{"st": "ok", "same": net == s.net, "tab": dumpNet(s.net)["tab"]}
	}
	panic("driver: unknown op " + op)
}

func (s *session) query(k int, ev map[string]string, q []string, ign bool) obj {
	evs, qs := maps.Clone(ev), slices.Clone(q)
	m, f, err := s.net.SolveQuery(ev, q, ign)
	if !maps.Equal(ev, evs) || !slices.Equal(q, qs) {
		return obj{"st": "args", "msg": "arguments modified"}
	}
	if err != nil {
		return failure(err)
	}
	look := func() obj {
		res := obj{"st": "ok"}
		marg := [][]string{}
		for _, name := range q {
			marg = append(marg, rats(m[name]))
		}
		res["marg"] = marg
		res["keys"] = len(m)
		res["fd"] = rats(f.Data())
		return res
	}
	res := look()
	s.factor(f, res)
	s.keep(k, look, func() {
		for _, d := range m {
			fill(d)
		}
		fill(f.Data())
	})
	return res
}

func (s *session) utility(k int, ev map[string]string, q []string, u string, ign bool) obj {
	evs, qs := maps.Clone(ev), slices.Clone(q)
	f, err := s.net.SolveUtility(ev, q, u, ign)
	if !maps.Equal(ev, evs) || !slices.Equal(q, qs) {
		return obj{"st": "args", "msg": "arguments modified"}
	}
	if err != nil {
		return failure(err)
	}
	res := obj{"st": "ok"}
	s.factor(f, res)
	s.keep(k, func() obj { return obj{"st": "ok", "fd": rats(f.Data())} }, func() { fill(f.Data()) })
	return res
}

func (s *session) normutil(c call) obj {
	u := ""
	if c.U > 0 {
		u = s.def.Names[c.U-1]
	}
	_, p, err := s.net.SolveQuery(s.evidence(c.Ev), s.names(c.Q), c.Ign)
	if err != nil {
		return failure(err)
	}
	f, err := s.net.SolveUtility(s.evidence(c.Ev), s.names(c.Q), u, c.Ign)
	if err != nil {
		return failure(err)
	}
	fd, pd := slices.Clone(f.Data()), slices.Clone(p.Data())
	n := s.net.NormalizeUtility(f, p)
	res := obj{"st": "ok", "pure": same(fd, f.Data()) && same(pd, p.Data())}
	s.factor(&n, res)
	res["pv"] = s.scope(p)
	if len(c.Q) > 0 && slices.Contains(s.scope(p), c.Q[0]) {
		m := s.net.Marginal(p, s.def.Names[c.Q[0]-1])
		res["m"] = rats(m.Data())
		mn := s.net.Normalize(&m)
		res["mn"] = rats(mn.Data())
	} else {
		res["m"], res["mn"] = []string{}, []string{}
	}
	return res
}

func same(a, b []float64) bool {
	return slices.EqualFunc(a, b, func(x, y float64) bool { return x == y || (x != x && y != y) })
}

func (s *session) policies(k int, step bool) obj {
	p, err := s.net.SolvePolicies(step)
	if err != nil {
		return failure(err)
	}
	look := func() obj {
		list := []obj{}
		for i, name := range s.def.Names {
			f, ok := p[name]
			if !ok {
				continue
			}
			scope := []int{}
			for _, g := range f.Given {
				scope = append(scope, s.indexOf(g))
			}
			list = append(list, obj{"d": i + 1, "for": s.indexOf(f.For), "scope": scope, "tab": rats(f.Table)})
		}
		return obj{"st": "ok", "pol": list, "count": len(p)}
	}
	s.keep(k, look, func() {
		for _, f := range p {
			fill(f.Table)
		}
	})
	return look()
}

func (s *session) toev(k int, v, o string) obj {
	p, err := s.net.ToEvidence(v, o)
	if err != nil {
		return failure(err)
	}
	s.keep(k, func() obj { return obj{"st": "ok", "p": rats(p)} }, func() { fill(p) })
	return obj{"st": "ok", "p": rats(p)}
}

// dump describes a network by its public attributes.
func (s *session) dump(n *bbn.Network) obj {
	return dumpNet(n)
}

func dumpNet(n *bbn.Network) obj {
	vars := n.Variables()
	res := obj{"st": "ok", "name": n.Name(), "info": n.Info(), "total": n.TotalUtilityIndex() + 1}
	names, types, outs := []string{}, []string{}, [][]string{}
	pos, colors := [][2]int{}, []string{}
	given, tabs := [][]string{}, [][]string{}
	for _, v := range vars {
		names = append(names, v.Name)
		types = append(types, typeNames[v.NodeType])
		outs = append(outs, append([]string{}, v.Outcomes...))
		pos = append(pos, v.Position)
		colors = append(colors, v.Color)
		if v.Factor == nil {
			given = append(given, []string{"<no factor>"})
			tabs = append(tabs, []string{})
			continue
		}
		if v.Factor.For != v.Name {
			given = append(given, []string{"<factor for " + v.Factor.For + ">"})
		} else {
			given = append(given, append([]string{}, v.Factor.Given...))
		}
		tabs = append(tabs, rats(v.Factor.Table))
	}
	res["names"], res["type"], res["outs"], res["pos"], res["colors"] = names, types, outs, pos, colors
	res["given"], res["tab"] = given, tabs
	return res
}
