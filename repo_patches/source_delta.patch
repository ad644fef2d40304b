From af485d101327d21ad4171d8d60f5ad94777a5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:57 +0000
Subject: [PATCH 01/45] fix: count each utility training sample once

Trained utilities were half of the sample mean, because utility samples
incremented the row counter twice.
---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From 07b95b12de725b1fa38a3e4b15a43044dbf80c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:59 +0000
Subject: [PATCH 02/45] fix: Factor.Row returns the requested table row

The row number was used as a flat offset into the table.
---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index ffc915b..d19b59b 100644
--- a/network.go
+++ b/network.go
@@ -39,7 +39,7 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
-	return f.Table[idx : idx+f.columns], true
+	return f.Table[idx*f.columns : (idx+1)*f.columns], true
 }
 
 // rowIndex returns a row starting index for the
-- 
2.43.0


From 487806e8ab0b26c690f4355fd31b22ccf0e6aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:00 +0000
Subject: [PATCH 03/45] fix: accept the no-data value for utilities in training
 files

A missing utility was set to NaN and then parsed as a number anyway, so that
training failed with a parse error.
---
 internal/tui/training.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..90f194a 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -52,6 +52,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
-- 
2.43.0


From 399a5530005861e4a1ac0b8b897f906a1c12f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:01 +0000
Subject: [PATCH 04/45] fix: respect the no-data value when training in bbni

tui.New dropped its noData argument.
---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..933b5ab 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -44,6 +44,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 		file:         path,
 		trainingFile: trainingFile,
 		csvDelimiter: csvDelimiter,
+		noData:       noData,
 		evidence:     evidence,
 	}
 }
-- 
2.43.0


From 829e06b6cfdcc39aca5288fdd19473cdda504fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:02 +0000
Subject: [PATCH 05/45] fix: keep network info and node colors when saving to
 YAML

---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From 85e37abfe7dfd63f86e0b375988c69de0fe19950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:17 +0000
Subject: [PATCH 06/45] fix: logic operators given, given-not and given-excl
 select the requested parent

---
 logic/given.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..778823c 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -4,6 +4,15 @@ import (
 	"fmt"
 )
 
+// givenBit returns the bit that represents the parent at the given index in a table row number.
+// The first parent varies slowest, so it is the most significant bit.
+func givenBit(idx, given int) (uint, error) {
+	if idx < 0 || idx >= given {
+		return 0, fmt.Errorf("logic operator argument %d out of range for %d operands", idx, given)
+	}
+	return uint(1) << uint(given-1-idx), nil
+}
+
 type givenFactor struct {
 	Index int
 }
@@ -24,12 +33,16 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	bit, err := givenBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & bit) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +72,16 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	bit, err := givenBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & bit) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,23 +111,27 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	bit, err := givenBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & bit) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
 		}
 
 		otherTrue := false
-		for j := 0; j < given; j++ {
-			if j == f.Index {
+		for other := uint(1); other < rows; other <<= 1 {
+			if other == bit {
 				continue
 			}
-			if (i & (1 << j)) == 0 {
+			if (i & other) == 0 {
 				otherTrue = true
 				break
 			}
-- 
2.43.0


From 154272b2b8305facb6204e2307d26c39f7f3a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:29 +0000
Subject: [PATCH 07/45] fix: logic.Get returns independent operator instances

---
 logic/factor.go | 80 ++++++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/logic/factor.go b/logic/factor.go
index 2bc0dc3..eaeae92 100644
--- a/logic/factor.go
+++ b/logic/factor.go
@@ -9,59 +9,63 @@ type Factor interface {
 }
 
 // Get logic factors by their name.
+// Each call returns an independent instance.
 //
 // Primarily used for deserialization.
 func Get(name string) (Factor, bool) {
-	f, ok := factors[name]
-	return f, ok
+	create, ok := factors[name]
+	if !ok {
+		return nil, false
+	}
+	return create(), true
 }
 
-var factors = map[string]Factor{
-	"not": Not(),
+var factors = map[string]func() Factor{
+	"not": Not,
 
-	"and":         And(),
-	"not-and":     NotAnd(),
-	"and-not":     AndNot(),
-	"not-and-not": NotAndNot(),
+	"and":         And,
+	"not-and":     NotAnd,
+	"and-not":     AndNot,
+	"not-and-not": NotAndNot,
 
-	"or":         Or(),
-	"not-or":     NotOr(),
-	"or-not":     OrNot(),
-	"not-or-not": NotOrNot(),
+	"or":         Or,
+	"not-or":     NotOr,
+	"or-not":     OrNot,
+	"not-or-not": NotOrNot,
 
-	"xor": XOr(),
+	"xor": XOr,
 
-	"cond":         Cond(),
-	"not-cond":     NotCond(),
-	"cond-not":     CondNot(),
-	"not-cond-not": NotCondNot(),
+	"cond":         Cond,
+	"not-cond":     NotCond,
+	"cond-not":     CondNot,
+	"not-cond-not": NotCondNot,
 
-	"bicond": BiCond(),
+	"bicond": BiCond,
 
-	"if-then":         IfThen(),
-	"if-not-then":     IfNotThen(),
-	"if-then-not":     IfThenNot(),
-	"if-not-then-not": IfNotThenNot(),
+	"if-then":         IfThen,
+	"if-not-then":     IfNotThen,
+	"if-then-not":     IfThenNot,
+	"if-not-then-not": IfNotThenNot,
 
-	"equals":     Equals(),
-	"equals-not": EqualsNot(),
+	"equals":     Equals,
+	"equals-not": EqualsNot,
 
-	"count-true":  CountTrue(),
-	"count-false": CountFalse(),
+	"count-true":  CountTrue,
+	"count-false": CountFalse,
 
-	"count-is":      CountIs(0),
-	"count-less":    CountLess(0),
-	"count-greater": CountGreater(0),
+	"count-is":      func() Factor { return CountIs(0) },
+	"count-less":    func() Factor { return CountLess(0) },
+	"count-greater": func() Factor { return CountGreater(0) },
 
-	"given":      Given(0),
-	"given-not":  GivenNot(0),
-	"given-excl": GivenExcl(0),
+	"given":      func() Factor { return Given(0) },
+	"given-not":  func() Factor { return GivenNot(0) },
+	"given-excl": func() Factor { return GivenExcl(0) },
 
-	"outcome-is":      OutcomeIs(0, 0),
-	"outcome-is-not":  OutcomeIsNot(0, 0),
-	"outcome-either":  OutcomeEither(nil, 0),
-	"outcome-less":    OutcomeLess(0, 0),
-	"outcome-greater": OutcomeGreater(0, 0),
+	"outcome-is":      func() Factor { return OutcomeIs(0, 0) },
+	"outcome-is-not":  func() Factor { return OutcomeIsNot(0, 0) },
+	"outcome-either":  func() Factor { return OutcomeEither(nil, 0) },
+	"outcome-less":    func() Factor { return OutcomeLess(0, 0) },
+	"outcome-greater": func() Factor { return OutcomeGreater(0, 0) },
 
-	"bits": Bits(),
+	"bits": Bits,
 }
-- 
2.43.0


From efe0cd25a5df5576e14f4bd488a6a45d9db2ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:44 +0000
Subject: [PATCH 08/45] fix: reject out-of-range arguments of outcome logic
 operators

---
 logic/outcome.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/logic/outcome.go b/logic/outcome.go
index f46a26b..838d56b 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -4,6 +4,14 @@ import (
 	"fmt"
 )
 
+// checkOutcome checks an outcome index argument to be in range.
+func checkOutcome(idx, count, max int) error {
+	if count < 1 || idx < 0 || idx > max {
+		return fmt.Errorf("logic operator argument %d out of range for a parent with %d outcomes", idx, count)
+	}
+	return nil
+}
+
 type outcomeIsFactor struct {
 	Index  int
 	Length int
@@ -31,6 +39,9 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length-1); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -69,6 +80,9 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length-1); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -107,6 +121,11 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	for _, idx := range f.Indices {
+		if err := checkOutcome(idx, f.Length, f.Length-1); err != nil {
+			return nil, err
+		}
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -148,6 +167,9 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
@@ -188,6 +210,9 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcome(f.Index, f.Length, f.Length); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
-- 
2.43.0


From 54f4f691669cc48d80d1dbe30fe724a677afd02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:18 +0000
Subject: [PATCH 09/45] fix: training leaves decisions and total utility
 weights alone

---
 training.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/training.go b/training.go
index a93e1dd..62a7a14 100644
--- a/training.go
+++ b/training.go
@@ -71,7 +71,7 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode {
+		if !t.isTrained(i) {
 			continue
 		}
 
@@ -110,11 +110,21 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 	}
 }
 
+// isTrained returns whether the table of a node is learned from samples.
+//
+// Decisions have no table to learn, and the table of the total utility node contains weights.
+func (t *Trainer) isTrained(node int) bool {
+	return t.network.Variables()[node].NodeType != ve.DecisionNode && node != t.network.TotalUtilityIndex()
+}
+
 // UpdateNetwork applies the training to the network, and returns a pointer to the original network.
 func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
+		if !t.isTrained(i) {
+			continue
+		}
 		data := t.data[i]
 
 		cols := node.Factor.columns
-- 
2.43.0


From 29b718e9053fd2e5e93dca117a3ef3f957b4505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:19 +0000
Subject: [PATCH 10/45] fix: failed training does not change the network

---
 training.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/training.go b/training.go
index 62a7a14..92232c8 100644
--- a/training.go
+++ b/training.go
@@ -121,21 +121,27 @@ func (t *Trainer) isTrained(node int) bool {
 func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
+	// check for sufficient samples first, to not leave a partially updated network
 	for i, node := range nodes {
 		if !t.isTrained(i) {
 			continue
 		}
-		data := t.data[i]
-
-		cols := node.Factor.columns
-		rows := len(node.Factor.Table) / cols
-		for j := 0; j < rows; j++ {
-			cnt := t.counter[i][j]
+		for j, cnt := range t.counter[i] {
 			if cnt == 0 {
 				return nil, fmt.Errorf("no samples for node '%s', table row %d", node.Name, j)
 			}
+		}
+	}
+
+	for i, node := range nodes {
+		if !t.isTrained(i) {
+			continue
+		}
+		cols := node.Factor.columns
+		for j, row := range t.data[i] {
+			cnt := t.counter[i][j]
 			for k := 0; k < cols; k++ {
-				node.Factor.Table[j*cols+k] = float64(data[j][k]) / float64(cnt)
+				node.Factor.Table[j*cols+k] = float64(row[k]) / float64(cnt)
 			}
 		}
 	}
-- 
2.43.0


From 0b4e087bfde8ace4fe3273cd83a64d895cf9a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:20 +0000
Subject: [PATCH 11/45] fix: train networks without tables

---
 training.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/training.go b/training.go
index 92232c8..72dbb7e 100644
--- a/training.go
+++ b/training.go
@@ -36,7 +36,10 @@ func NewTrainer(net *Network) Trainer {
 
 	for i, node := range nodes {
 		columns := len(node.Outcomes)
-		rows := len(node.Factor.Table) / columns
+		rows := 1
+		for _, outcomes := range node.Factor.outcomes {
+			rows *= outcomes
+		}
 		d := make([][]float64, rows)
 		for j := 0; j < rows; j++ {
 			d[j] = make([]float64, columns)
@@ -138,6 +141,9 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 			continue
 		}
 		cols := node.Factor.columns
+		if node.Factor.Table == nil {
+			node.Factor.Table = make([]float64, len(t.data[i])*cols)
+		}
 		for j, row := range t.data[i] {
 			cnt := t.counter[i][j]
 			for k := 0; k < cols; k++ {
-- 
2.43.0


From 8f4f5ac7c3c06981892a459a5f0c93936e921c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:22 +0000
Subject: [PATCH 12/45] fix: training samples without utility values

---
 training.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/training.go b/training.go
index 72dbb7e..f9b95aa 100644
--- a/training.go
+++ b/training.go
@@ -96,6 +96,9 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 		}
 
 		if node.NodeType == ve.UtilityNode {
+			if utility == nil {
+				continue
+			}
 			u := utility[i]
 			if math.IsNaN(u) {
 				continue
-- 
2.43.0


From 828c997a57b704d93631ecdccd4468f7d615852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:38 +0000
Subject: [PATCH 13/45] fix: reject variables with duplicate IDs in variable
 elimination

---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..cb6bc78 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0


From 6a91c016173caa1601eddd479118d3e03bd41e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:39 +0000
Subject: [PATCH 14/45] fix: reject XML nodes without a definition instead of
 crashing

---
 xml.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/xml.go b/xml.go
index 2c2d591..dd9b5fb 100644
--- a/xml.go
+++ b/xml.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+
+	"github.com/mlange-42/bbn/ve"
 )
 
 type bifXmlWrapper struct {
@@ -52,7 +54,19 @@ func FromBIFXML(content []byte) (*Network, error) {
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		tp, ok := nodeTypes[variable.Type]
+		if !ok {
+			return nil, fmt.Errorf("unknown node type %s", variable.Type)
+		}
+
+		def, ok := defs[variable.Name]
+		if !ok {
+			if tp != ve.DecisionNode {
+				return nil, fmt.Errorf("no definition for node '%s'", variable.Name)
+			}
+			// decisions need no definition, unless they have parents
+			def = &definitionXml{}
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
@@ -66,10 +80,6 @@ func FromBIFXML(content []byte) (*Network, error) {
 		if err != nil {
 			return nil, err
 		}
-		tp, ok := nodeTypes[variable.Type]
-		if !ok {
-			return nil, fmt.Errorf("unknown node type %s", variable.Type)
-		}
 
 		variables[i] = Variable{
 			Name:     variable.Name,
-- 
2.43.0


From 1975a19d04766687423c1ac237f30881b89de6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:10 +0000
Subject: [PATCH 15/45] fix: reject utility nodes without a factor instead of
 crashing

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index d19b59b..3392b2a 100644
--- a/network.go
+++ b/network.go
@@ -173,6 +173,9 @@ func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 		if v.NodeType != ve.UtilityNode {
 			continue
 		}
+		if v.Factor == nil {
+			return fmt.Errorf("utility node %s has no factor", v.Name)
+		}
 		hasUtilParents := false
 		hasOtherParents := false
 		for _, parent := range v.Factor.Given {
-- 
2.43.0


From 5ff722455522710d0ecf0c27b87fc39ac2e86b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:11 +0000
Subject: [PATCH 16/45] fix: reject tables that do not fit the outcomes of a
 variable and its parents

---
 network.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 3392b2a..d20ec36 100644
--- a/network.go
+++ b/network.go
@@ -162,7 +162,36 @@ func (n *Network) prepareVariables() error {
 		}
 	}
 
-	return n.prepareUtilityNodes(varNames)
+	if err := n.prepareUtilityNodes(varNames); err != nil {
+		return err
+	}
+	return n.checkTables()
+}
+
+// checkTables checks that outcomes and tables fit together. Called from prepareVariables.
+//
+// Missing tables (i.e. nil) are allowed, except for the weights of a total utility node.
+func (n *Network) checkTables() error {
+	for i := range n.variables {
+		v := &n.variables[i]
+		if len(v.Outcomes) == 0 {
+			return fmt.Errorf("variable %s has no outcomes", v.Name)
+		}
+		if v.Factor == nil || (v.Factor.Table == nil && i != n.totalUtilityIndex) {
+			continue
+		}
+		expected := v.Factor.columns
+		for _, o := range v.Factor.outcomes {
+			// total utility nodes have only a single row
+			if i != n.totalUtilityIndex {
+				expected *= o
+			}
+		}
+		if len(v.Factor.Table) != expected {
+			return fmt.Errorf("wrong table length for variable %s; expected %d, got %d", v.Name, expected, len(v.Factor.Table))
+		}
+	}
+	return nil
 }
 
 // prepareUtilityNodes, called from prepareVariables.
-- 
2.43.0


From f77e74082be1c22394133880d23f96d5e99385f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:13 +0000
Subject: [PATCH 17/45] fix: reject cyclic networks

---
 network.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index d20ec36..110ec06 100644
--- a/network.go
+++ b/network.go
@@ -165,7 +165,47 @@ func (n *Network) prepareVariables() error {
 	if err := n.prepareUtilityNodes(varNames); err != nil {
 		return err
 	}
-	return n.checkTables()
+	if err := n.checkTables(); err != nil {
+		return err
+	}
+	return n.checkAcyclic(varNames)
+}
+
+// checkAcyclic checks that no variable is its own ancestor. Called from prepareVariables.
+func (n *Network) checkAcyclic(varNames map[string]*Variable) error {
+	const (
+		unvisited = iota
+		inProgress
+		done
+	)
+	state := make(map[string]int, len(n.variables))
+
+	var visit func(v *Variable) error
+	visit = func(v *Variable) error {
+		switch state[v.Name] {
+		case done:
+			return nil
+		case inProgress:
+			return fmt.Errorf("network has a cycle through variable %s", v.Name)
+		}
+		state[v.Name] = inProgress
+		if v.Factor != nil {
+			for _, parent := range v.Factor.Given {
+				if err := visit(varNames[parent]); err != nil {
+					return err
+				}
+			}
+		}
+		state[v.Name] = done
+		return nil
+	}
+
+	for i := range n.variables {
+		if err := visit(&n.variables[i]); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // checkTables checks that outcomes and tables fit together. Called from prepareVariables.
-- 
2.43.0


From 8965704f3ab8f626f44738a2c5679473096792c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:15 +0000
Subject: [PATCH 18/45] fix: reject duplicate parents, and utility nodes as
 parents of other nodes

---
 network.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/network.go b/network.go
index 110ec06..beec37b 100644
--- a/network.go
+++ b/network.go
@@ -158,6 +158,12 @@ func (n *Network) prepareVariables() error {
 			if !ok {
 				return fmt.Errorf("parent variable %s of %s not found", g, v.Name)
 			}
+			if slices.Contains(v.Factor.Given[:i], g) {
+				return fmt.Errorf("duplicate parent variable %s of %s", g, v.Name)
+			}
+			if varNames[g].NodeType == ve.UtilityNode && v.NodeType != ve.UtilityNode {
+				return fmt.Errorf("variable %s has utility node %s as parent", v.Name, g)
+			}
 			v.Factor.outcomes[i] = n
 		}
 	}
-- 
2.43.0


From 1e82593442f30ff7021317c81df2886617cc45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:43 +0000
Subject: [PATCH 19/45] fix: reject YAML tables with rows of wrong length

---
 yml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yml.go b/yml.go
index 93b906f..c2e8588 100644
--- a/yml.go
+++ b/yml.go
@@ -98,7 +98,10 @@ func toTable(v *variableYaml) ([]float64, error) {
 		var table []float64
 		if len(v.Table) > 0 {
 			table = make([]float64, 0, len(v.Table)*len(v.Table[0]))
-			for _, row := range v.Table {
+			for i, row := range v.Table {
+				if len(row) != len(v.Outcomes) {
+					return nil, fmt.Errorf("wrong length of table row %d of node '%s'; expected %d, got %d", i, v.Variable, len(v.Outcomes), len(row))
+				}
 				table = append(table, row...)
 			}
 		}
-- 
2.43.0


From cdc321787a40752f6c71f09897bec246490c2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:45 +0000
Subject: [PATCH 20/45] fix: ToEvidence works before the first query

---
 network.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index beec37b..97b772a 100644
--- a/network.go
+++ b/network.go
@@ -471,15 +471,16 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 // As an example, say we have a variable with outcomes [yes, no]. Given evidence "yes" (index 0):
 // we get the following probabilities: [1, 0].
 func (n *Network) ToEvidence(variable string, value string) ([]float64, error) {
-	vv, ok := n.variableNames[variable]
-	if !ok {
+	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
+	if i < 0 || i == n.totalUtilityIndex {
 		return nil, fmt.Errorf("evidence variable %s not found", variable)
 	}
-	idx := slices.Index(vv.Variable.Outcomes, value)
+	outcomes := n.variables[i].Outcomes
+	idx := slices.Index(outcomes, value)
 	if idx < 0 {
 		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
 	}
-	probs := make([]float64, len(vv.Variable.Outcomes))
+	probs := make([]float64, len(outcomes))
 	probs[idx] = 1.0
 	return probs, nil
 }
-- 
2.43.0


From 4e9b5cddea08c087e263cd43ee8e81bffa61ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:47 +0000
Subject: [PATCH 21/45] fix: querying an evidence variable returns its evidence
 instead of crashing

---
 network.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/network.go b/network.go
index 97b772a..1fee09b 100644
--- a/network.go
+++ b/network.go
@@ -395,6 +395,13 @@ func (n *Network) SolveQuery(evidence map[string]string, query []string, ignoreP
 
 	result := map[string][]float64{}
 	for _, q := range query {
+		if value, ok := evidence[q]; ok {
+			result[q], err = n.ToEvidence(q, value)
+			if err != nil {
+				return nil, nil, err
+			}
+			continue
+		}
 		m := n.Marginal(f, q)
 		n := n.Normalize(&m)
 		result[q] = n.Data()
-- 
2.43.0


From ff403c1f5fe9fbc455f77504dc0a970136222f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:49 +0000
Subject: [PATCH 22/45] fix: reject utility variables as evidence or query, and
 others as utility query

---
 network.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/network.go b/network.go
index 1fee09b..679426a 100644
--- a/network.go
+++ b/network.go
@@ -442,6 +442,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("evidence variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("utility variable %s can't have evidence", name)
+		}
 		idx := slices.Index(vv.Variable.Outcomes, value)
 		if idx < 0 {
 			return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, name)
@@ -455,6 +458,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 		if !ok {
 			return nil, fmt.Errorf("query variable %s not found", name)
 		}
+		if vv.Variable.NodeType == ve.UtilityNode {
+			return nil, fmt.Errorf("query variable %s is a utility variable", name)
+		}
 		q[i] = vv.VeVariable
 	}
 
@@ -465,6 +471,9 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 			if !ok {
 				return nil, fmt.Errorf("utility query variable %s not found", utilityVar)
 			}
+			if u.Variable.NodeType != ve.UtilityNode {
+				return nil, fmt.Errorf("utility query variable %s is not a utility variable", utilityVar)
+			}
 			util = &u.VeVariable
 		}
 		return n.ve.SolveUtility(ev, q, util), nil
-- 
2.43.0


From 88cec940b56d4b0d00592481d8c8d18a64811f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:51 +0000
Subject: [PATCH 23/45] fix: solve decisions that nothing depends on instead of
 crashing

---
 ve/ve.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ve/ve.go b/ve/ve.go
index 65e536f..5240fac 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -2,7 +2,6 @@ package ve
 
 import (
 	"cmp"
-	"fmt"
 	"slices"
 )
 
@@ -288,13 +287,13 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 			fmt.Println(f)
 		}*/
 
-		if len(factors) == 0 {
-			panic(fmt.Sprintf("found no factors containing variable %d and its parents", dec.id))
-		}
-
 		// TODO: check that multiplying when multiple factors are remaining is correct!
 		var fac *Factor
-		if len(factors) == 1 {
+		if len(factors) == 0 {
+			// nothing depends on this decision, so all its outcomes are equally good
+			f := ve.variables.CreateFactor([]Variable{dec}, nil)
+			fac = &f
+		} else if len(factors) == 1 {
 			fac = factors[0]
 		} else {
 			f := ve.variables.Product(factors...)
-- 
2.43.0


From 5a31bbe910d5927869aa51a9731e94b003020c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:28 +0000
Subject: [PATCH 24/45] fix: querying an unsolved decision does not crash

---
 network.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 679426a..4217330 100644
--- a/network.go
+++ b/network.go
@@ -402,7 +402,7 @@ func (n *Network) SolveQuery(evidence map[string]string, query []string, ignoreP
 			}
 			continue
 		}
-		m := n.Marginal(f, q)
+		m := n.Marginal(n.withVariable(f, q), q)
 		n := n.Normalize(&m)
 		result[q] = n.Data()
 	}
@@ -410,6 +410,25 @@ func (n *Network) SolveQuery(evidence map[string]string, query []string, ignoreP
 	return result, f, nil
 }
 
+// withVariable makes sure that a factor contains the given variable.
+//
+// Unsolved decisions that no chance variable depends on are not part of the result of a query.
+// All their outcomes are equally likely, like for any other unsolved decision.
+func (n *Network) withVariable(f *ve.Factor, variable string) *ve.Factor {
+	if _, ok := n.variableIndex(f, variable); ok {
+		return f
+	}
+	vv := n.variableNames[variable]
+	ones := make([]float64, len(vv.Variable.Outcomes))
+	for i := range ones {
+		ones[i] = 1
+	}
+	vars := n.ve.Variables()
+	uniform := vars.CreateFactor([]ve.Variable{vv.VeVariable}, ones)
+	product := vars.Product(f, &uniform)
+	return &product
+}
+
 // SolveUtility solves utility, using variable elimination.
 //
 // Argument utilityVar can be used to solve only the utility for a certain variable.
-- 
2.43.0


From ac08a92362182e70240c86b1d9fab95caae439ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:30 +0000
Subject: [PATCH 25/45] fix: order decisions that depend on each other through
 chance variables

---
 network.go |  8 +++++---
 ve/ve.go   | 29 ++++++++++++++++-------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/network.go b/network.go
index 4217330..8397344 100644
--- a/network.go
+++ b/network.go
@@ -578,9 +578,11 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 			variables[j] = vv.VeVariable
 		}
 
-		// don't add factors for unsolved decision nodes, but add dependencies
+		// dependencies are required for the order of decisions
+		dependencies[forVar.VeVariable] = variables
+
+		// don't add factors for unsolved decision nodes
 		if forVar.VeVariable.NodeType() == ve.DecisionNode {
-			dependencies[forVar.VeVariable] = variables
 			continue
 		}
 		// don't add factors for solved decision nodes, done later
@@ -589,7 +591,7 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 		}
 
 		// append primary variable as last variable of the factor
-		variables = append(variables, forVar.VeVariable)
+		variables = append(slices.Clone(variables), forVar.VeVariable)
 
 		factor := vars.CreateFactor(variables, f.Table)
 
diff --git a/ve/ve.go b/ve/ve.go
index 5240fac..517293f 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -23,6 +23,9 @@ type VE struct {
 // New creates a [VE] instance from the given variables, factors
 // decision dependencies and utility weights.
 //
+// Dependencies of other than decision variables are optional.
+// They are used to determine the order of decisions that depend on each other indirectly.
+//
 // Weights should nil, be  as long as the number of utility variables.
 // Order of weights is the same the order of utility variable in all variables.
 func New(variables *Variables, factors []Factor, dependencies map[Variable][]Variable, weights []float64) *VE {
@@ -458,34 +461,34 @@ func (ve *VE) multiplyAll() *Factor {
 
 func sortTopological(dec []Variable, deps map[Variable][]Variable) []Variable {
 	result := []Variable{}
-	visited := make([]bool, len(dec))
+	visited := map[int]bool{}
 
-	for i := range dec {
-		result = sortTopologicalRecursive(dec, i, deps, visited, result)
+	for _, v := range dec {
+		result = sortTopologicalRecursive(dec, v, deps, visited, result)
 	}
 
 	return result
 }
 
-func sortTopologicalRecursive(dec []Variable, index int, deps map[Variable][]Variable, visited []bool, result []Variable) []Variable {
-	if visited[index] {
+func sortTopologicalRecursive(dec []Variable, v Variable, deps map[Variable][]Variable, visited map[int]bool, result []Variable) []Variable {
+	if visited[v.id] {
 		return result
 	}
 
-	visited[index] = true
+	visited[v.id] = true
 
-	v := dec[index]
 	for id, vars := range deps {
 		if id.id == v.id {
 			for _, p := range vars {
-				if p.NodeType() != DecisionNode {
-					continue
-				}
-				idx := slices.Index(dec, p)
-				result = sortTopologicalRecursive(dec, idx, deps, visited, result)
+				result = sortTopologicalRecursive(dec, p, deps, visited, result)
 			}
 		}
 	}
 
-	return append(result, dec[index])
+	// Skip chance variables between decisions.
+	idx := slices.IndexFunc(dec, v.Is)
+	if idx < 0 {
+		return result
+	}
+	return append(result, dec[idx])
 }
-- 
2.43.0


From c89926d16d485fc52d3b2f06a2741b1f4c9edcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 26/45] fix: reset the selected state when selecting another
 node by mouse

---
 internal/tui/input.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..a17d235 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -206,7 +206,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
 					if err := a.inputEnter(); err != nil {
@@ -222,7 +222,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				a.render(true)
 				a.showTable()
 				break
@@ -288,6 +288,14 @@ func (a *App) mousePosInGraph(x, y int) (int, int) {
 	return x - boxX + scrollX, y - boxY + scrollY
 }
 
+// selectNode selects a node, and its first state if another node was selected before.
+func (a *App) selectNode(index int) {
+	if index != a.selectedNode {
+		a.selectedNode = index
+		a.selectedState = 0
+	}
+}
+
 func (a *App) selectNextNode() {
 	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
 	a.selectedState = 0
-- 
2.43.0


From b2241aebb9e5ab51e7fe0b964123139d9aa918e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 27/45] fix: ignore non-ASCII digits as input

---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index a17d235..059d9cf 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -5,7 +5,6 @@ import (
 	"path"
 	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/gdamore/tcell/v2"
 	"github.com/mlange-42/bbn"
@@ -31,7 +30,7 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 		a.selectedState = (a.selectedState + 1) % len(a.nodes[a.selectedNode].Node().Outcomes)
 		a.render(true)
 		return nil
-	} else if unicode.IsDigit(event.Rune()) {
+	} else if event.Rune() >= '0' && event.Rune() <= '9' {
 		// Select states by index/number keys.
 		a.selectNodeOutcome(string(event.Rune()))
 		return nil
-- 
2.43.0


From c7bb7a6c5c21bf37fb5850e81b9c4c9afb3cf320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 28/45] fix: report unknown node colors instead of crashing

---
 cmd/bbn/inference.go |  6 +++---
 internal/tui/app.go  |  6 ++++--
 internal/tui/node.go | 12 ++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmd/bbn/inference.go b/cmd/bbn/inference.go
index 4e5d922..b26c5f1 100644
--- a/cmd/bbn/inference.go
+++ b/cmd/bbn/inference.go
@@ -72,9 +72,9 @@ func runInferenceCommand(path string, evidence []string) ([]bbn.Variable, map[st
 	}
 
 	nodes := net.Variables()
-	tuiNodes := make([]tui.Node, len(nodes))
-	for i, n := range nodes {
-		tuiNodes[i] = tui.NewNode(n)
+	tuiNodes, err := tui.NewNodes(nodes)
+	if err != nil {
+		return nil, nil, nil, err
 	}
 
 	_, err = net.SolvePolicies(true)
diff --git a/internal/tui/app.go b/internal/tui/app.go
index 933b5ab..7a44e8f 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -65,10 +65,12 @@ func (a *App) Run() error {
 		}
 	}
 
-	a.nodes = make([]Node, len(nodes))
+	a.nodes, err = NewNodes(nodes)
+	if err != nil {
+		return err
+	}
 	a.nodesByName = make(map[string]int, len(nodes))
 	for i, n := range nodes {
-		a.nodes[i] = NewNode(n)
 		a.nodesByName[n.Name] = i
 	}
 
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 75e7414..7b82375 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -91,6 +91,18 @@ func NewNode(n bbn.Variable) Node {
 	return &node
 }
 
+// NewNodes creates nodes for all variables of a network.
+func NewNodes(variables []bbn.Variable) ([]Node, error) {
+	nodes := make([]Node, len(variables))
+	for i, v := range variables {
+		if _, err := nodeColor(&v); err != nil {
+			return nil, err
+		}
+		nodes[i] = NewNode(v)
+	}
+	return nodes, nil
+}
+
 func nodeColor(n *bbn.Variable) (Color, error) {
 	color := White
 	if n.Color == "" {
-- 
2.43.0


From c5811142a95b61e372e4ed9d6be5ca28ce70a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:58 +0000
Subject: [PATCH 29/45] fix: show nodes with negative positions at the border
 instead of crashing

---
 internal/tui/input.go | 3 +--
 internal/tui/node.go  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 059d9cf..4abf90f 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -118,8 +118,7 @@ func (a *App) moveNode(event *tcell.EventKey) *tcell.EventKey {
 		b.X += dx
 		b.Y += dy
 
-		p := a.network.Variables()[a.selectedNode].Position
-		a.network.Variables()[a.selectedNode].Position = [2]int{p[0] + dx, p[1] + dy}
+		a.network.Variables()[a.selectedNode].Position = [2]int{b.X, b.Y}
 
 		if createCanvas {
 			a.createCanvas()
diff --git a/internal/tui/node.go b/internal/tui/node.go
index 7b82375..26fce79 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -48,8 +48,8 @@ func NewNode(n bbn.Variable) Node {
 	}
 
 	bounds := Bounds{
-		X: n.Position[0],
-		Y: n.Position[1],
+		X: max(n.Position[0], 0),
+		Y: max(n.Position[1], 0),
 		W: max(maxStateLen+bars+9, titleLength) + 4,
 		H: len(n.Outcomes) + 3,
 	}
-- 
2.43.0


From 45c53c0ef18fc3bebdd4aac3211bf5f825692cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 30/45] fix: report networks without variables in bbni

---
 internal/tui/app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index 7a44e8f..136dd51 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -57,6 +57,9 @@ func (a *App) Run() error {
 
 	a.network = net
 	nodes := a.network.Variables()
+	if len(nodes) == 0 {
+		return fmt.Errorf("network %s has no variables", a.network.Name())
+	}
 
 	if a.trainingFile != "" {
 		a.network, err = TrainNetwork(net, nodes, a.trainingFile, a.noData, a.csvDelimiter)
-- 
2.43.0


From 84632b9c157b74884dbfc0c80e206629a87f3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:18 +0000
Subject: [PATCH 31/45] fix: reject utility nodes missing in total utility when
 loading

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 8397344..66910e8 100644
--- a/network.go
+++ b/network.go
@@ -174,6 +174,9 @@ func (n *Network) prepareVariables() error {
 	if err := n.checkTables(); err != nil {
 		return err
 	}
+	if _, err := n.prepareUtilityWeights(); err != nil {
+		return err
+	}
 	return n.checkAcyclic(varNames)
 }
 
-- 
2.43.0


From e6ed4549777c3710144b803040393d8fb367c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:59 +0000
Subject: [PATCH 32/45] fix: keep leading line breaks and tabs of names and
 info when saving to YAML

---
 yml.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/yml.go b/yml.go
index c2e8588..780cff7 100644
--- a/yml.go
+++ b/yml.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/mlange-42/bbn/logic"
 	"github.com/mlange-42/bbn/ve"
@@ -30,20 +32,33 @@ var nodeTypeNames = map[ve.NodeType]string{
 	ve.UtilityNode:  UtilityNodeType,
 }
 
+// text is a string that keeps leading whitespace when it is written to YAML.
+// Literal blocks, which multi-line strings are written as by default,
+// lose leading line breaks and can't be read with leading tabs.
+type text string
+
+// MarshalYAML implements [yaml.Marshaler].
+func (t text) MarshalYAML() (any, error) {
+	if strings.TrimLeftFunc(string(t), unicode.IsSpace) == string(t) || !utf8.ValidString(string(t)) {
+		return string(t), nil
+	}
+	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: string(t)}, nil
+}
+
 type variableYaml struct {
-	Variable string      // Name of the node.
+	Variable text        // Name of the node.
 	Given    []string    `yaml:",flow,omitempty"`
 	Type     string      `yaml:",omitempty"`      // Type of the node [nature, decision, utility]
 	Outcomes []string    `yaml:",flow"`           // Names of the node's possible states.
 	Position [2]int      `yaml:",flow"`           // Coordinates for visualization, optional.
-	Color    string      `yaml:",omitempty"`      // Node color, optional.
+	Color    text        `yaml:",omitempty"`      // Node color, optional.
 	Logic    string      `yaml:",omitempty"`      // Logic operations, alternative to a table
 	Table    [][]float64 `yaml:",flow,omitempty"` // Table with the variable's factor
 }
 
 type networkYaml struct {
-	Name      string
-	Info      string `yaml:",omitempty"`
+	Name      text
+	Info      text `yaml:",omitempty"`
 	Variables []variableYaml
 }
 
@@ -67,11 +82,11 @@ func FromYAML(content []byte) (*Network, error) {
 			return nil, fmt.Errorf("unknown node type %s", v.Type)
 		}
 		variables[i] = Variable{
-			Name:     v.Variable,
+			Name:     string(v.Variable),
 			NodeType: tp,
 			Outcomes: v.Outcomes,
 			Position: v.Position,
-			Color:    v.Color,
+			Color:    string(v.Color),
 		}
 
 		table, err := toTable(&v)
@@ -80,13 +95,13 @@ func FromYAML(content []byte) (*Network, error) {
 		}
 
 		factors = append(factors, Factor{
-			For:   v.Variable,
+			For:   string(v.Variable),
 			Given: v.Given,
 			Table: table,
 		})
 	}
 
-	return New(net.Name, net.Info, variables, factors)
+	return New(string(net.Name), string(net.Info), variables, factors)
 }
 
 func toTable(v *variableYaml) ([]float64, error) {
@@ -144,19 +159,19 @@ func ToYAML(network *Network) ([]byte, error) {
 		}
 
 		variables[i] = variableYaml{
-			Variable: v.Name,
+			Variable: text(v.Name),
 			Given:    v.Factor.Given,
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
-			Color:    v.Color,
+			Color:    text(v.Color),
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
-		Name:      network.Name(),
-		Info:      network.Info(),
+		Name:      text(network.Name()),
+		Info:      text(network.Info()),
 		Variables: variables,
 	}
 
-- 
2.43.0


From ce36039c1b7a0464215ddffc44214befb9eace61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:20 +0000
Subject: [PATCH 33/45] fix: use the table of a variable with an empty name

---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 66910e8..297047a 100644
--- a/network.go
+++ b/network.go
@@ -562,7 +562,7 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 	factors := make([]ve.Factor, 0, len(n.factors))
 	for _, f := range n.factors {
 		// skip factor for total utility
-		if f.For == totalUtilityName {
+		if n.totalUtilityIndex >= 0 && f.For == totalUtilityName {
 			continue
 		}
 		// get primary variable
-- 
2.43.0


From b3168fd0d26d18f685cbf51b196478108bac1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:08 +0000
Subject: [PATCH 34/45] fix: reject factors for unknown variables and several
 factors for one variable

---
 network.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/network.go b/network.go
index 297047a..4c68501 100644
--- a/network.go
+++ b/network.go
@@ -143,6 +143,18 @@ func (n *Network) prepareVariables() error {
 		outcomes[v.Name] = len(v.Outcomes)
 	}
 
+	hasFactor := map[string]bool{}
+	for i := range n.factors {
+		f := &n.factors[i]
+		if _, ok := varNames[f.For]; !ok {
+			return fmt.Errorf("variable %s for factor not found", f.For)
+		}
+		if hasFactor[f.For] {
+			return fmt.Errorf("duplicate factor for variable %s", f.For)
+		}
+		hasFactor[f.For] = true
+	}
+
 	for i := range n.variables {
 		v := &n.variables[i]
 		idx := slices.IndexFunc(n.factors, func(f Factor) bool { return f.For == v.Name })
-- 
2.43.0


From 81df5a76ffe71286cef30829ebb8527405b1c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:19 +0000
Subject: [PATCH 35/45] fix: variables without a factor crashed training and
 saving

---
 network.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/network.go b/network.go
index 4c68501..9a95209 100644
--- a/network.go
+++ b/network.go
@@ -154,6 +154,13 @@ func (n *Network) prepareVariables() error {
 		}
 		hasFactor[f.For] = true
 	}
+	// variables without a factor have no parents and no table
+	n.factors = slices.Clip(n.factors)
+	for i := range n.variables {
+		if v := &n.variables[i]; !hasFactor[v.Name] && v.NodeType != ve.UtilityNode {
+			n.factors = append(n.factors, Factor{For: v.Name})
+		}
+	}
 
 	for i := range n.variables {
 		v := &n.variables[i]
-- 
2.43.0


From 8b4c65acb71256634251b725ca26fca6cb5fddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:50 +0000
Subject: [PATCH 36/45] fix: reject variables with more outcomes than can be
 represented

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index 9a95209..9868dfc 100644
--- a/network.go
+++ b/network.go
@@ -2,6 +2,7 @@ package bbn
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"slices"
@@ -245,6 +246,9 @@ func (n *Network) checkTables() error {
 		if len(v.Outcomes) == 0 {
 			return fmt.Errorf("variable %s has no outcomes", v.Name)
 		}
+		if len(v.Outcomes) > math.MaxUint16 {
+			return fmt.Errorf("variable %s has too many outcomes; the maximum is %d", v.Name, math.MaxUint16)
+		}
 		if v.Factor == nil || (v.Factor.Table == nil && i != n.totalUtilityIndex) {
 			continue
 		}
-- 
2.43.0


From 74a84efb1fb3534044df95d81f2a1f1f8594e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:52 +0000
Subject: [PATCH 37/45] fix: reject variables of an unknown type

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 9868dfc..0827790 100644
--- a/network.go
+++ b/network.go
@@ -140,6 +140,9 @@ func (n *Network) prepareVariables() error {
 		if _, ok := varNames[v.Name]; ok {
 			return fmt.Errorf("duplicate variable name %s", v.Name)
 		}
+		if _, ok := nodeTypeNames[v.NodeType]; !ok {
+			return fmt.Errorf("unknown node type %d of variable %s", v.NodeType, v.Name)
+		}
 		varNames[v.Name] = v
 		outcomes[v.Name] = len(v.Outcomes)
 	}
-- 
2.43.0


From 8c6137304e341f4e718074b4ff250aa6b0580cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:54 +0000
Subject: [PATCH 38/45] fix: reject several definitions of one node, and
 definitions of unknown nodes in XML

---
 xml.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xml.go b/xml.go
index dd9b5fb..ecb629c 100644
--- a/xml.go
+++ b/xml.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -48,6 +49,12 @@ func FromBIFXML(content []byte) (*Network, error) {
 	defs := map[string]*definitionXml{}
 	for i := range bifNet.Network.Definitions {
 		def := &bifNet.Network.Definitions[i]
+		if _, ok := defs[def.For]; ok {
+			return nil, fmt.Errorf("duplicate definition for node '%s'", def.For)
+		}
+		if !slices.ContainsFunc(bifNet.Network.Variables, func(v variableXml) bool { return v.Name == def.For }) {
+			return nil, fmt.Errorf("definition for unknown node '%s'", def.For)
+		}
 		defs[def.For] = def
 	}
 
-- 
2.43.0


From 3669ad6e7a81776ab54f1044e211e82cf4f65fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:27 +0000
Subject: [PATCH 39/45] fix: variables without a factor stay unknown in queries
 until they are trained

---
 network.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 0827790..bc36490 100644
--- a/network.go
+++ b/network.go
@@ -28,6 +28,7 @@ type Factor struct {
 	Table    []float64 `yaml:",omitempty"` // Flat representation of the factor's table.
 	outcomes []int     // Number of outcomes of parent/given variables.
 	columns  int       // Number of table columns, i.e. of outcomes of the primary variable.
+	implicit bool      // Whether the factor was added for a variable without one.
 }
 
 // Row returns a table row of the factor for the
@@ -162,7 +163,7 @@ func (n *Network) prepareVariables() error {
 	n.factors = slices.Clip(n.factors)
 	for i := range n.variables {
 		if v := &n.variables[i]; !hasFactor[v.Name] && v.NodeType != ve.UtilityNode {
-			n.factors = append(n.factors, Factor{For: v.Name})
+			n.factors = append(n.factors, Factor{For: v.Name, implicit: true})
 		}
 	}
 
@@ -619,6 +620,11 @@ func (n *Network) toVE(evidence map[string]string) (*ve.VE, map[string]*variable
 			continue
 		}
 
+		// nothing is known about variables without a factor, unless they were trained
+		if f.implicit && f.Table == nil {
+			continue
+		}
+
 		// append primary variable as last variable of the factor
 		variables = append(slices.Clone(variables), forVar.VeVariable)
 
-- 
2.43.0


From 52c292028524bc3bf1fcd986455a1c017ca57b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:40 +0000
Subject: [PATCH 40/45] fix: reject logic operators that do not fit the
 outcomes of a node or its parents

---
 yml.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/yml.go b/yml.go
index 780cff7..88b9238 100644
--- a/yml.go
+++ b/yml.go
@@ -74,6 +74,11 @@ func FromYAML(content []byte) (*Network, error) {
 		return nil, err
 	}
 
+	outcomes := make(map[string]int, len(net.Variables))
+	for _, v := range net.Variables {
+		outcomes[string(v.Variable)] = len(v.Outcomes)
+	}
+
 	variables := make([]Variable, len(net.Variables))
 	factors := []Factor{}
 	for i, v := range net.Variables {
@@ -89,7 +94,7 @@ func FromYAML(content []byte) (*Network, error) {
 			Color:    string(v.Color),
 		}
 
-		table, err := toTable(&v)
+		table, err := toTable(&v, outcomes)
 		if err != nil {
 			return nil, err
 		}
@@ -104,7 +109,7 @@ func FromYAML(content []byte) (*Network, error) {
 	return New(string(net.Name), string(net.Info), variables, factors)
 }
 
-func toTable(v *variableYaml) ([]float64, error) {
+func toTable(v *variableYaml, outcomes map[string]int) ([]float64, error) {
 	if len(v.Table) > 0 && v.Logic != "" {
 		return nil, fmt.Errorf("node can only have one of 'table' or 'logic'")
 	}
@@ -124,7 +129,8 @@ func toTable(v *variableYaml) ([]float64, error) {
 	}
 
 	parts := strings.Split(v.Logic, " ")
-	l, ok := logic.Get(strings.ToLower(parts[0]))
+	op := strings.ToLower(parts[0])
+	l, ok := logic.Get(op)
 	if !ok {
 		return nil, fmt.Errorf("unknown logic operator %s; valid operators are e.g.: not, and, or, xor, if-then, if-not-then, if-then-not, if-not-then-not, not-and, etc", v.Logic)
 	}
@@ -145,6 +151,22 @@ func toTable(v *variableYaml) ([]float64, error) {
 	if err != nil {
 		return nil, fmt.Errorf("logic node %s: %s", v.Logic, err.Error())
 	}
+
+	// parents are boolean, except for operators on the outcomes of a single parent
+	parentOutcomes := 2
+	if strings.HasPrefix(op, "outcome-") {
+		parentOutcomes = args[len(args)-1]
+	}
+	columns := len(table)
+	for _, parent := range v.Given {
+		if n, ok := outcomes[parent]; ok && n != parentOutcomes {
+			return nil, fmt.Errorf("logic node %s: parent '%s' should have %d outcomes, but has %d", v.Logic, parent, parentOutcomes, n)
+		}
+		columns /= parentOutcomes
+	}
+	if columns != len(v.Outcomes) {
+		return nil, fmt.Errorf("logic node %s: node '%s' should have %d outcomes, but has %d", v.Logic, v.Variable, columns, len(v.Outcomes))
+	}
 	return table, nil
 }
 
-- 
2.43.0


From 58b2aecf8ab21949e5bd4ace55f9583fc3137509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:27 +0000
Subject: [PATCH 41/45] fix: queries with variables that have no factor crashed

---
 ve/ve.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ve/ve.go b/ve/ve.go
index 517293f..8f46fac 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -415,6 +415,12 @@ func (ve *VE) removeHidden(variable Variable) {
 		factors = append(factors, utilityFactors[0])
 	}*/
 
+	if len(factors) == 0 {
+		// nothing depends on the variable, and nothing is known about it
+		ve.eliminated[variable.index] = true
+		return
+	}
+
 	prod := ve.variables.Product(factors...)
 	prod = ve.variables.SumOut(&prod, variable)
 
-- 
2.43.0


From bc7e512a0577329a24db75639835b7d54559c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:22 +0000
Subject: [PATCH 42/45] fix: clicks on overlapping nodes went to the hidden one

---
 internal/tui/input.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 4abf90f..cb5d221 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -202,7 +202,8 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 
 	if action == tview.MouseLeftClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
+		for i := len(a.nodes) - 1; i >= 0; i-- { // nodes drawn last are on top
+			node := a.nodes[i]
 			if node.Bounds().Contains(x, y) {
 				a.selectNode(i)
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
@@ -218,7 +219,8 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		return tview.MouseConsumed, nil
 	} else if action == tview.MouseRightClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
+		for i := len(a.nodes) - 1; i >= 0; i-- { // nodes drawn last are on top
+			node := a.nodes[i]
 			if node.Bounds().Contains(x, y) {
 				a.selectNode(i)
 				a.render(true)
-- 
2.43.0


From 5a6d156652a21de17164fb8c7a81e61aba817757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 43/45] fix: solving policies crashed if utilities were
 undefined (NaN)

---
 ve/variables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ve/variables.go b/ve/variables.go
index cb6bc78..2afbd93 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -192,6 +192,10 @@ func (v *Variables) Policy(f *Factor, variable Variable) Factor {
 		}
 		maxUtility := math.Inf(-1)
 		for c, u := range rowData {
+			if math.IsNaN(u) {
+				// undefined utilities are never better than others
+				u = math.Inf(-1)
+			}
 			if u > maxUtility {
 				maxUtility = u
 				maxIndices = maxIndices[:1]
-- 
2.43.0


From d25b869d1ad951f6cb0b1ce0e41f4aef54878a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 44/45] fix: reject tables with negative or undefined
 probabilities

---
 network.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/network.go b/network.go
index bc36490..0a949e1 100644
--- a/network.go
+++ b/network.go
@@ -266,6 +266,14 @@ func (n *Network) checkTables() error {
 		if len(v.Factor.Table) != expected {
 			return fmt.Errorf("wrong table length for variable %s; expected %d, got %d", v.Name, expected, len(v.Factor.Table))
 		}
+		if v.NodeType != ve.ChanceNode {
+			continue
+		}
+		for _, p := range v.Factor.Table {
+			if math.IsNaN(p) || math.IsInf(p, 0) || p < 0 {
+				return fmt.Errorf("invalid probability %g in table of variable %s", p, v.Name)
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 2a6c5bc11c6f1de3c2de9bc759894ff373248581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:21 +0000
Subject: [PATCH 45/45] fix: digits of long utilities stayed on the screen when
 shorter ones were shown, or overwrote the border

---
 internal/tui/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 26fce79..37e0720 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -14,6 +14,7 @@ const maxNodeLabelWidth = 48
 const maxStateLabelWidth = 16
 const maxBars = 10
 const extraUtilityWidth = 5
+const maxUtilityWidth = extraUtilityWidth + 8
 
 type Node interface {
 	Node() *bbn.Variable
@@ -241,7 +242,11 @@ func (n *node) drawUtility(probs []float64) {
 			text = []rune("         ???")
 		} else {
 			text = []rune(fmt.Sprintf("%12.3f", p))
+			if len(text) > maxUtilityWidth {
+				text = []rune(fmt.Sprintf("%12.6g", p))
+			}
 		}
-		copy(n.runes[i+2][n.barsX+1:], text)
+		// pad the text to overwrite longer values drawn before
+		copy(n.runes[i+2][n.barsX+1:], []rune(fmt.Sprintf("%-*s", maxUtilityWidth, string(text))))
 	}
 }
-- 
2.43.0

