------------------------------- MODULE Screen -------------------------------
(* What the interactive tool shows in a state of Tui.tla, as rows of text.   *)
EXTENDS Command, Tui, Text

StateWidth == 16   \* at most
TitleWidth == 48
BarCells   == 10

LabelLen(net, v) == AtMost(StateWidth, MaxN({0} \cup {TLen(net.outs[v][i]) : i \in 1..Len(net.outs[v])}))
IsUtil(net, v)   == net.type[v] = "u"

Geometry(net) ==
  [n    |-> net.n,
   nout |-> TLCEval([v \in Vars(net) |-> Len(net.outs[v])]),
   util |-> TLCEval([v \in Vars(net) |-> IsUtil(net, v)]),
   lab  |-> TLCEval([v \in Vars(net) |-> LabelLen(net, v)]),
   w    |-> TLCEval([v \in Vars(net) |->
              AtLeast(LabelLen(net, v) + (IF IsUtil(net, v) THEN 5 ELSE BarCells) + 9, AtMost(TitleWidth, TLen(net.names[v]))) + 4]),
   h    |-> TLCEval([v \in Vars(net) |-> Len(net.outs[v]) + (IF IsUtil(net, v) THEN 4 ELSE 3)])]

-----------------------------------------------------------------------------
(* Nodes. Value i of node v is field Field(v, i), a bar is the one after.    *)
Field(v, i) == 1000 * v + 2 * i

Border(s) == IF s THEN << "╔", "═", "╗", "║", "╚", "╝" >> ELSE << "┌", "─", "┐", "│", "└", "┘" >>

Mark(u, v, i) ==
  IF u.sel = v /\ u.out = i - 1 THEN << "[", "]" >>
  ELSE IF u.ev[v] >= 0 THEN << "+", "+" >> ELSE << " ", " " >>

(* Row r (from 0) of node v that has k values.                               *)
NodeRow(net, g, u, v, k, r) ==
  LET b   == Border(u.sel = v)
      w   == g.w[v]
      i   == r - 1
      lab == g.lab[v]
      frame == TPut(TPut(TRep(" ", w), 0, b[4]), w - 1, b[4])
      kind  == IF net.type[v] = "d" THEN "!" ELSE "$"
      title == TPut(frame, 2, TSub(net.names[v], 0, w - 4))
      text  == IF i <= Len(net.outs[v]) THEN net.outs[v][i] ELSE "total"
      label == TPut(frame, 2, TSub(text, 0, lab))
      bar   == TPut(TPut(label, lab + 3, TRep(TMark(Field(v, i) + 1), BarCells)), lab + 14, TRep(TMark(Field(v, i)), 7))
      num   == TPut(label, lab + 4, TRep(TMark(Field(v, i)), 13))
  IN CASE r = 0          -> TPut(TPut(TRep(b[2], w), 0, b[1]), w - 1, b[3])
       [] r = g.h[v] - 1 -> TPut(TPut(TRep(b[2], w), 0, b[5]), w - 1, b[6])
       [] r = 1          -> IF net.type[v] = "c" THEN title ELSE TPut(title, w - 3, kind)
       [] OTHER          -> IF IsUtil(net, v) THEN IF i <= k THEN num ELSE label
                            ELSE TPut(TPut(bar, 1, Mark(u, v, i)[1]), w - 2, Mark(u, v, i)[2])

RECURSIVE Painted(_, _, _, _, _, _)
Painted(net, g, u, shown, v, rows) ==
  IF v > g.n THEN rows
  ELSE Painted(net, g, u, shown, v + 1,
         TLCEval([y \in 1..Len(rows) |->
            LET r == y - 1 - u.at[v][2]
            IN IF r >= 0 /\ r < g.h[v] THEN TPut(rows[y], u.at[v][1], NodeRow(net, g, u, v, Len(shown[v]), r)) ELSE rows[y]]))

(* The canvas; what is beside the nodes is not said.                         *)
Canvas(net, g, u, shown) ==
  Painted(net, g, u, shown, 1, [y \in 1..u.ch |-> TRep(TMark(0), u.cw)])

(* Utilities have 12 places, one more if they do not fit; very large ones    *)
(* are not judged.                                                           *)
ValueOk(net, v, text, x, scale) ==
  LET t == IF IsUtil(net, v) /\ TSub(text, TLen(text) - 1, 1) = " " THEN TSub(text, 0, TLen(text) - 1) ELSE text
  IN IF x = "NaN" THEN TPut(TRep(" ", TLen(t)), TLen(t) - 3, "???") = t
     ELSE \/ IsUtil(net, v) /\ RLe("99999999", RAbs(x))
          \/ /\ Rounded(TTrim(t), IF IsUtil(net, v) THEN x ELSE RMul("100", x), IF IsUtil(net, v) THEN scale ELSE "100")
             /\ TSub(t, TLen(t) - 1, 1) # " "
             /\ IsUtil(net, v) /\ TLen(t) = TLen(text) => TSub(t, 0, 1) # " "

BarOk(text, x) ==
  LET k == TBar(text)
  IN IF x = "NaN" THEN k = 0
     ELSE k >= 0 /\ RLe(RAbs(RSub(RInt(k), RMul("80", x))), "2")

(* The part of the canvas on the screen agrees, and the values in it are     *)
(* right, as far as they are not covered or cut off.                         *)
GraphOk(net, g, u, shown, scale, rows) ==
  LET c == Canvas(net, g, u, shown)
      window(y) == IF u.sy + y <= u.ch THEN TWindow(c[u.sy + y], u.sx, InnerW(u), TMark(0)) ELSE TRep(TMark(0), InnerW(u))
      seen == TLCEval([y \in 1..InnerH(u) |-> TSub(rows[y + 2], 1, InnerW(u))])
      want == TLCEval([y \in 1..InnerH(u) |-> window(y)])
      fieldOk(v, i) ==
        LET y == u.at[v][2] + i + 2 - u.sy
        IN y \in 1..InnerH(u) =>
             LET num == TField(seen[y], want[y], Field(v, i))
                 bar == TField(seen[y], want[y], Field(v, i) + 1)
                 full == IF IsUtil(net, v) THEN 13 ELSE 7
             IN /\ TLen(num) = full => ValueOk(net, v, num, shown[v][i], scale)
                /\ TLen(bar) = BarCells => BarOk(bar, shown[v][i])
  IN /\ \A y \in 1..InnerH(u) : TAgrees(seen[y], want[y])
     /\ \A v \in Vars(net) : \A i \in 1..Len(shown[v]) : fieldOk(v, i)

-----------------------------------------------------------------------------
(* The frame around the graph.                                               *)
FrameOk(net, file, u, rows) ==
  LET head == "BBNi - " \o net.name \o " (" \o file \o ")"
      foot == "Help: H  Network info: I"
  IN /\ Len(rows) = u.h
     /\ \A y \in 1..u.h : TLen(rows[y]) = u.w
     /\ u.dlg # "table" => rows[1] = TPad(head, u.w) /\ rows[u.h] = TPad(foot, u.w)

-----------------------------------------------------------------------------
(* Dialogs are centred boxes of 72 columns.                                  *)
DialogW == 72
Left(u) == (u.w - DialogW) \div 2
Top(u, height) == (u.h - height) \div 2
Cut(u, rows, y) == TSub(rows[y + 1], Left(u), DialogW)

Titled(row, title) == \E i \in 0..DialogW : TSub(row, i, TLen(title)) = title

TextDialogOk(u, rows, title, text) ==
  LET y == Top(u, 20)
  IN /\ Titled(Cut(u, rows, y), " " \o title \o " ")
     /\ TLen(text) <= 60 => TTrim(TSub(Cut(u, rows, y + 1), 1, DialogW - 2)) = TTrim(TSplit(text, "\n")[1])

HelpText == "Set/unset evidence by clicking on the probability bars of nodes."

(* Table of a node: parents and outcomes in the header, then a row for each  *)
(* combination of the parents' outcomes. Parents of a decision are what its  *)
(* policy depends on. sol are the solved policies with what can occur.       *)
Cells(u, rows, y) == LET c == TSplit(TSub(Cut(u, rows, y), 2, DialogW - 4), "│") IN [i \in 1..Len(c) |-> TTrim(c[i])]

CellLens(net, vs, v) ==
  LET of(p) == MaxN({TLen(net.names[p])} \cup {TLen(net.outs[p][i]) : i \in 1..Len(net.outs[p])})
      val == IF IsUtil(net, v) THEN 9 ELSE 8
  IN [i \in 1..(Len(vs) + Len(net.outs[v])) |-> IF i <= Len(vs) THEN of(vs[i]) ELSE AtLeast(val, TLen(net.outs[v][i - Len(vs)]))]

RECURSIVE SumN(_)
SumN(s) == IF s = << >> THEN 0 ELSE Head(s) + SumN(Tail(s))

VarNamed(net, name) == IndexOf(net.names, name)

(* The parents a table shows.                                                *)
ShownParents(net, v, header) ==
  IF net.type[v] # "d" THEN net.par[v]
  ELSE LET k == Len(header) - Len(net.outs[v])
           vs == [i \in 1..k |-> VarNamed(net, header[i])]
       IN IF k < 0 \/ \E i \in 1..k : vs[i] = 0 \/ IsUtil(net, vs[i]) THEN << >> ELSE vs

TableCellOk(net, v, text, x, scale) ==
  IF IsUtil(net, v) THEN Rounded(text, x, scale)
  ELSE IF x = "NaN" THEN text = "NaN%"
  ELSE RIsPercent(text) /\ Rounded(RPercent(text), RMul("100", x), "100")

(* The values in a row for an assignment of the parents are right.           *)
TableRowOk(s, sol, v, ps, a, cells, scale) ==
  LET net == s.net
      k   == Len(net.outs[v])
      vals(t, r) == SubSeq(t, r * k + 1, r * k + k)
      is(xs) == \A i \in 1..k : TableCellOk(net, v, cells[Len(ps) + i], xs[i], scale)
      norm(xs) == LET sum == RSum(xs) IN IF sum = "0" THEN [i \in 1..k |-> "NaN"] ELSE [i \in 1..k |-> RDiv(xs[i], sum)]
  IN IF net.type[v] # "d"
     THEN LET xs == vals(net.tab[v], Row(net.card, ps, a)) IN is(IF IsUtil(net, v) THEN xs ELSE norm(xs))
     ELSE LET S == Situations(net, sol.rev, v)
          IN \A r \in 1..Len(S) :
               (sol.can[v][r] /\ \A i \in 1..Len(ps) : S[r][ps[i]] = a[ps[i]]) => is(vals(s.pol[v].tab, r - 1))

(* All a table might show for a node.                                        *)
MostParents(net, sol, v) ==
  IF net.type[v] = "d" THEN SubSeq(sol.rev, 1, PosOf(sol.rev, v) - 1) ELSE net.par[v]

(* Tables that do not fit on the screen are scrolled, which is not judged.   *)
TableFits(net, u, ps, v) ==
  /\ SumN(CellLens(net, ps, v)) + Len(ps) + Len(net.outs[v]) - 1 <= DialogW - 4
  /\ Size(net.card, ps) + 6 <= u.h

TableTitle(net, v) == IF TLen(net.names[v]) <= 60 THEN " " \o net.names[v] \o " " ELSE " " \o TSub(net.names[v], 0, 60)

TableDialogOk(s, sol, u, scale, rows) ==
  LET net == s.net
      v   == u.sel
      from(y) ==  \* with its title in row y
        LET hd == TLCEval(Cells(u, rows, y + 1))
            ps == TLCEval(ShownParents(net, v, hd))
            m  == Size(net.card, ps)
            row(r) == LET a == Assign(net.card, ps, Free(net), r - 1)
                          c == TLCEval(Cells(u, rows, y + 1 + r))
                      IN /\ Len(c) = Len(ps) + Len(net.outs[v])
                         /\ \A i \in 1..Len(ps) : c[i] = net.outs[ps[i]][a[ps[i]] + 1]
                         /\ TableRowOk(s, sol, v, ps, a, c, scale)
        IN /\ hd = [i \in 1..Len(ps) |-> net.names[ps[i]]] \o net.outs[v]
           /\ \A r \in 1..m : row(r)
           /\ TSub(Cut(u, rows, y + 2 + m), 1, 2) = "╚═" \* and nothing else
  IN TableFits(net, u, MostParents(net, sol, v), v) =>
       \E y \in 1..(u.h - 5) : Titled(Cut(u, rows, y), TableTitle(net, v)) /\ from(y)

-----------------------------------------------------------------------------
ScreenOk(s, sol, g, file, u, shown, scale, rows) ==
  /\ FrameOk(s.net, file, u, rows)
  /\ CASE u.dlg = ""      -> GraphOk(s.net, g, u, shown, scale, rows)
       [] u.dlg = "help"  -> TextDialogOk(u, rows, "Help", HelpText)
       [] u.dlg = "info"  -> TextDialogOk(u, rows, "Info", s.net.info)
       [] u.dlg = "table" -> u.sel = s.net.total \/ TableDialogOk(s, sol, u, scale, rows)

EvSeq(u, n) == SelectSeq([v \in 1..n |-> << v, u.ev[v] >>], LAMBDA p : p[2] >= 0)
=============================================================================
