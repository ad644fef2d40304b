package main

import (
	"encoding/json"
	"sync"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/logic"
)

// logicClients is a number of clients of the operator library, each holding one operator.
type logicClients struct {
	ops    map[int]logic.Factor
	tables map[int][]float64
}

func newLogic() *logicClients {
	return &logicClients{ops: map[int]logic.Factor{}, tables: map[int][]float64{}}
}

type logicStep struct {
	C       int         `json:"c"`
	Name    string      `json:"name"`
	Args    []int       `json:"args"`
	Given   int         `json:"given"`
	Doc     string      `json:"doc"`
	V       int         `json:"v"`
	Clients []logicStep `json:"clients"`
	Rounds  int         `json:"rounds"`
}

var constructors = map[string]func(a []int) logic.Factor{
	"not": func(a []int) logic.Factor { return logic.Not() },
	"and": func(a []int) logic.Factor { return logic.And() }, "not-and": func(a []int) logic.Factor { return logic.NotAnd() },
	"and-not": func(a []int) logic.Factor { return logic.AndNot() }, "not-and-not": func(a []int) logic.Factor { return logic.NotAndNot() },
	"or": func(a []int) logic.Factor { return logic.Or() }, "not-or": func(a []int) logic.Factor { return logic.NotOr() },
	"or-not": func(a []int) logic.Factor { return logic.OrNot() }, "not-or-not": func(a []int) logic.Factor { return logic.NotOrNot() },
	"xor":  func(a []int) logic.Factor { return logic.XOr() },
	"cond": func(a []int) logic.Factor { return logic.Cond() }, "not-cond": func(a []int) logic.Factor { return logic.NotCond() },
	"cond-not": func(a []int) logic.Factor { return logic.CondNot() }, "not-cond-not": func(a []int) logic.Factor { return logic.NotCondNot() },
	"bicond":  func(a []int) logic.Factor { return logic.BiCond() },
	"if-then": func(a []int) logic.Factor { return logic.IfThen() }, "if-not-then": func(a []int) logic.Factor { return logic.IfNotThen() },
	"if-then-not": func(a []int) logic.Factor { return logic.IfThenNot() }, "if-not-then-not": func(a []int) logic.Factor { return logic.IfNotThenNot() },
	"equals": func(a []int) logic.Factor { return logic.Equals() }, "equals-not": func(a []int) logic.Factor { return logic.EqualsNot() },
	"count-true": func(a []int) logic.Factor { return logic.CountTrue() }, "count-false": func(a []int) logic.Factor { return logic.CountFalse() },
	"count-is": func(a []int) logic.Factor { return logic.CountIs(a[0]) }, "count-less": func(a []int) logic.Factor { return logic.CountLess(a[0]) },
	"count-greater": func(a []int) logic.Factor { return logic.CountGreater(a[0]) },
	"given":         func(a []int) logic.Factor { return logic.Given(a[0]) }, "given-not": func(a []int) logic.Factor { return logic.GivenNot(a[0]) },
	"given-excl": func(a []int) logic.Factor { return logic.GivenExcl(a[0]) },
	"outcome-is": func(a []int) logic.Factor { return logic.OutcomeIs(a[0], a[1]) }, "outcome-is-not": func(a []int) logic.Factor { return logic.OutcomeIsNot(a[0], a[1]) },
	"outcome-either": func(a []int) logic.Factor { return logic.OutcomeEither(a[:len(a)-1], a[len(a)-1]) },
	"outcome-less":   func(a []int) logic.Factor { return logic.OutcomeLess(a[0], a[1]) }, "outcome-greater": func(a []int) logic.Factor { return logic.OutcomeGreater(a[0], a[1]) },
	"bits": func(a []int) logic.Factor { return logic.Bits() },
}

func (l *logicClients) run(op string, raw json.RawMessage) obj {
	var s logicStep
	decode(raw, &s)
	switch op {
	case "get":
		f, ok := logic.Get(s.Name)
		if ok {
			l.ops[s.C] = f
		}
		return obj{"st": "ok", "has": ok}
	case "make":
		l.ops[s.C] = constructors[s.Name](s.Args)
		return obj{"st": "ok"}
	case "setargs":
		if err := l.ops[s.C].SetArgs(s.Args...); err != nil {
			return failure(err)
		}
		return obj{"st": "ok"}
	case "table":
		t, err := l.ops[s.C].Table(s.Given)
		if err != nil {
			return failure(err)
		}
		l.tables[s.C] = t
		return obj{"st": "ok", "tab": rats(t)}
	case "scribble":
		fill(l.tables[s.C])
		return obj{"st": "ok"}
	case "look":
		return obj{"st": "ok", "tab": rats(l.tables[s.C])}
	case "full": // all three in one go
		return useOperator(&s)
	case "yaml": // table of variable v (from 0) of a document
		return yamlTable(&s)
	case "parallel":
		return l.parallel(&s)
	}
	panic("driver: unknown op " + op)
}

func useOperator(s *logicStep) obj {
	f, ok := logic.Get(s.Name)
	if !ok {
		return obj{"st": "unknown"}
	}
	if err := f.SetArgs(s.Args...); err != nil {
		return failure(err)
	}
	t, err := f.Table(s.Given)
	if err != nil {
		return failure(err)
	}
	return obj{"st": "ok", "tab": rats(t)}
}

func yamlTable(s *logicStep) obj {
	n, err := bbn.FromYAML([]byte(s.Doc))
	if err != nil {
		return failure(err)
	}
	return obj{"st": "ok", "tab": rats(n.Variables()[s.V].Factor.Table)}
}

// parallel lets all clients work at the same time, several rounds each.
// Returns the distinct results of each client.
func (l *logicClients) parallel(s *logicStep) obj {
	results := make([][]obj, len(s.Clients))
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range s.Clients {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			seen := map[string]bool{}
			for r := 0; r < s.Rounds; r++ {
				c := s.Clients[i]
				var res obj
				func() {
					defer func() {
						if p := recover(); p != nil {
							res = obj{"st": "panic", "msg": "panic"}
						}
					}()
					if c.Doc != "" {
						res = yamlTable(&c)
					} else {
						res = useOperator(&c)
					}
				}()
				b, err := json.Marshal(res)
				check(err)
				if !seen[string(b)] {
					seen[string(b)] = true
					results[i] = append(results[i], res)
				}
			}
		}(i)
	}
	start.Done()
	done.Wait()
	return obj{"st": "ok", "results": results}
}
