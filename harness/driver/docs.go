package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"os"
	"path/filepath"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
	"gopkg.in/yaml.v3"
)

// docs loads documents, good ones and bad ones.
type docs struct{}

func newDocs(line []byte) *docs { return &docs{} }

type docStep struct {
	Fmt     string   `json:"fmt"`
	Doc     string   `json:"doc"`
	B64     string   `json:"b64"`
	Ext     string   `json:"ext"`
	Missing bool     `json:"missing"`
	Vars    []rawVar `json:"vars"`
	Facs    []rawFac `json:"facs"`
}

type rawVar struct {
	Name  string   `json:"name"`
	Type  int      `json:"type"`
	Outs  []string `json:"outs"`
	Color string   `json:"color"`
}

type rawFac struct {
	For   string   `json:"for"`
	Given []string `json:"given"`
	Tab   []string `json:"tab"`
	Nil   bool     `json:"nil"`
}

func (d *docs) run(op string, raw json.RawMessage) obj {
	var s docStep
	decode(raw, &s)
	content := []byte(s.Doc)
	if s.B64 != "" {
		b, err := base64.StdEncoding.DecodeString(s.B64)
		check(err)
		content = b
	}
	var net *bbn.Network
	var err error
	switch s.Fmt {
	case "yaml":
		net, err = bbn.FromYAML(content)
	case "xml":
		net, err = bbn.FromBIFXML(content)
	case "new":
		vars := []bbn.Variable{}
		for _, v := range s.Vars {
			vars = append(vars, bbn.Variable{Name: v.Name, NodeType: ve.NodeType(v.Type), Outcomes: v.Outs, Color: v.Color})
		}
		facs := []bbn.Factor{}
		for _, f := range s.Facs {
			ff := bbn.Factor{For: f.For, Given: f.Given}
			if !f.Nil {
				ff.Table = nums(f.Tab)
			}
			facs = append(facs, ff)
		}
		net, err = bbn.New("x", "", vars, facs)
	default:
		dir, e := os.MkdirTemp("", "drv")
		check(e)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "net"+s.Ext)
		if !s.Missing {
			check(os.WriteFile(path, content, 0644))
		}
		net, err = bbn.FromFile(path)
	}
	if err != nil {
		return failure(err)
	}
	if net == nil {
		return obj{"st": "nil"}
	}
	switch op {
	case "load":
		return dumpNet(net)
	case "use": // load, then use the network in all ways
		return use(net)
	}
	panic("driver: unknown op " + op)
}

// use reports how far a loaded network gets.
func use(net *bbn.Network) obj {
	stage := "policies"
	res := obj{"st": "ok"}
	func() {
		defer func() {
			if p := recover(); p != nil {
				res = obj{"st": "usepanic", "stage": stage}
			}
		}()
		try := func(err error) bool {
			if err != nil && res["st"] == "ok" {
				res = obj{"st": "useerr", "stage": stage, "msg": err.Error()}
			}
			return err == nil
		}
		stage = "query before"
		names := []string{}
		for i, v := range net.Variables() {
			if v.NodeType != ve.UtilityNode && i != net.TotalUtilityIndex() {
				names = append(names, v.Name)
			}
		}
		for _, n := range names {
			_, _, err := net.SolveQuery(nil, []string{n}, false)
			try(err)
		}
		stage = "policies"
		_, err := net.SolvePolicies(true)
		try(err)
		_, err = net.SolvePolicies(false)
		try(err)
		stage = "query"
		for _, n := range names {
			_, _, err := net.SolveQuery(nil, []string{n}, false)
			try(err)
		}
		for i, v := range net.Variables() {
			if v.NodeType == ve.UtilityNode || i == net.TotalUtilityIndex() {
				continue
			}
			for _, o := range v.Outcomes {
				_, _, err := net.SolveQuery(map[string]string{v.Name: o}, names, true)
				try(err)
			}
		}
		stage = "utility"
		_, err = net.SolveUtility(nil, nil, "", false)
		try(err)
		stage = "save"
		yml, err := bbn.ToYAML(net)
		if try(err) {
			stage = "reload"
			_, err = bbn.FromYAML(yml)
			try(err)
		}
		stage = "trainer"
		t := bbn.NewTrainer(net)
		_ = t
	}()
	return res
}

// yamlDoc reads a saved document independently of the library, in the form of dumpNet.
func yamlDoc(content []byte) obj {
	type variable struct {
		Variable string
		Given    []string
		Type     string
		Outcomes []string
		Position []int
		Color    string
		Table    [][]float64
	}
	var d struct {
		Name      string
		Info      string
		Variables []variable
	}
	dec := yaml.NewDecoder(bytes.NewReader(content))
	dec.KnownFields(true)
	if err := dec.Decode(&d); err != nil {
		return failure(err)
	}
	types := map[string]string{"": "c", "nature": "c", "decision": "d", "utility": "u"}
	res := obj{"st": "ok", "name": d.Name, "info": d.Info}
	names, tps, outs := []string{}, []string{}, [][]string{}
	pos, colors := [][]int{}, []string{}
	given, tabs := [][]string{}, [][]string{}
	for _, v := range d.Variables {
		names = append(names, v.Variable)
		tps = append(tps, types[v.Type])
		outs = append(outs, append([]string{}, v.Outcomes...))
		pos = append(pos, append([]int{}, v.Position...))
		colors = append(colors, v.Color)
		given = append(given, append([]string{}, v.Given...))
		tab := []string{}
		for _, row := range v.Table {
			if len(row) != len(v.Outcomes) {
				tab = append(tab, "ragged")
			}
			tab = append(tab, rats(row)...)
		}
		tabs = append(tabs, tab)
	}
	res["names"], res["type"], res["outs"], res["pos"], res["colors"] = names, tps, outs, pos, colors
	res["given"], res["tab"] = given, tabs
	return res
}
