------------------------------ MODULE Command -------------------------------
(* The command line tool. An invocation e is described by what it was given  *)
(* (see below), e.res by exit status, the words of the lines it printed, and *)
(* the network document these lines are, if they are one.                    *)
EXTENDS Display

IndexOf(xs, x) ==
  LET I == {i \in 1..Len(xs) : xs[i] = x}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A k \in I : i <= k

-----------------------------------------------------------------------------
(* Training from a data file: e.hdr is its header, e.rows the cells, e.nd    *)
(* the no-data value. e.fault is an error that has nothing to do with that,  *)
(* or "".                                                                    *)

Column(net, e, v) == IndexOf(e.hdr, net.names[v])

(* The total-utility node has nothing to learn.                              *)
Needed(net) == Vars(net) \ {net.total}

Outcome(net, v, cell) == IndexOf(net.outs[v], cell) - 1

CellOk(net, e, v, cell) ==
  \/ cell = e.nd
  \/ IF net.type[v] = "u" THEN RIsNum(RParse(cell)) ELSE Outcome(net, v, cell) >= 0

FileOk(net, e) ==
  /\ e.fault = ""
  /\ \A v \in Needed(net) : Column(net, e, v) > 0
  /\ \A v \in Needed(net) : net.type[v] # "u" => Outcome(net, v, e.nd) < 0
  /\ \A r \in 1..Len(e.rows) :
       /\ Len(e.rows[r]) = Len(e.hdr)
       /\ \A v \in Needed(net) : CellOk(net, e, v, e.rows[r][Column(net, e, v)])

SampleOf(net, e, row) ==
  LET cell(v) == row[Column(net, e, v)]
  IN [s  |-> TLCEval([v \in Vars(net) |->
               IF net.type[v] = "u" \/ cell(v) = e.nd THEN -1 ELSE Outcome(net, v, cell(v))]),
      us |-> TLCEval([v \in Vars(net) |->
               IF net.type[v] # "u" \/ v = net.total THEN "NaN"
               ELSE IF cell(v) = e.nd THEN "NaN" ELSE RParse(cell(v))]),
      unil |-> FALSE]

Learned(net, e) ==
  AddSamples(net, NewTrainer(net), TLCEval([r \in 1..Len(e.rows) |-> SampleOf(net, e, e.rows[r])]))

(* The printed document is the network with the learned tables.              *)
TrainedDocIs(s, d, tab) ==
  /\ d.st = "ok"
  /\ DumpIs(s.net, d.tab, d)
  /\ \A v \in Vars(s.net) :
       IF TrainedNode(s.net, v)
       THEN AllCloseTo(d.tab[v], tab[v], RAdd("1", RSum([i \in 1..Len(tab[v]) |-> RAbs(tab[v][i])])))
       ELSE d.tab[v] = s.ftab[v]

Reported(r) == r.st = "ok" /\ r.code # 0 /\ ~r.panic /\ r.said

TrainOk(s, e) ==
  LET r == e.res
      t == TLCEval(Learned(s.net, e))
  IN IF FileOk(s.net, e) /\ Trainable(s.net, t)
     THEN r.st = "ok" /\ r.code = 0 /\ TrainedDocIs(s, r.doc, TLCEval(Trained(s.net, t)))
     ELSE Reported(r) /\ ~r.isnet

-----------------------------------------------------------------------------
(* Inference: e.ev is the evidence given on the command line; e.fault is not *)
(* "" if the arguments or the file are wrong. e.ow[v][o] and e.nw[v] are the *)
(* words of outcomes and names.                                              *)

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

ValuesOk(net, v, words, vals, marked, scale) ==
  LET k == Len(vals)
      isu == net.type[v] = "u"
      one(w, x) ==
        IF isu THEN IF x = "NaN" THEN w = "NaN" ELSE Rounded(w, x, scale)
        ELSE IF x = "NaN" THEN w = "NaN%"
             ELSE RIsPercent(w) /\ Rounded(RPercent(w), RMul("100", x), "100")
  IN /\ Len(words) = k + (IF marked THEN 1 ELSE 0)
     /\ marked => words[k+1] = "+"
     /\ \A i \in 1..k : one(words[i], vals[i])

InferOk(s, e) ==
  LET r == e.res
      net == s.net
      shown == Shown(s, e.ev, FALSE)
      scale == HowLarge(net)
  IN IF e.fault # ""
     THEN Reported(r) /\ r.code = 1 /\ \A i \in 1..Len(r.lines) : \A k \in 1..Len(r.lines[i]) : ~RIsPercent(r.lines[i][k])
     ELSE /\ r.st = "ok" /\ r.code = 0
          /\ Len(r.lines) = 2 * net.n
          /\ \A v \in Vars(net) :
               LET title == r.lines[2*v-1]
                   line  == r.lines[2*v]
                   k     == Len(e.nw[v])
               IN /\ title = Flat(e.ow[v])
                  /\ Len(line) >= k
                  /\ SubSeq(line, 1, k) = e.nw[v]
                  /\ ValuesOk(net, v, SubSeq(line, k+1, Len(line)), shown[v], v \in EvVars(e), scale)
=============================================================================
