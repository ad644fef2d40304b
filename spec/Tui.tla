-------------------------------- MODULE Tui ---------------------------------
(* The interactive tool: what keys and clicks do. This module knows nothing  *)
(* of probabilities; Screen.tla says what is shown.                          *)
(*                                                                           *)
(* g describes the nodes: g.n, g.nout[v] (number of outcomes), g.util[v],    *)
(* g.w[v], g.h[v] (size on screen). The state is a record                    *)
(*   sel   selected node                                                     *)
(*   out   its selected outcome                                              *)
(*   ev    evidence: outcome of each node, -1 if there is none               *)
(*   ign   policies are ignored                                              *)
(*   dlg   open dialog: "", "table", "help" or "info"                        *)
(*   at    where nodes are drawn                                             *)
(*   moved nodes that have been moved                                        *)
(*   cw, ch  size of the canvas                                              *)
(*   sx, sy  scroll position                                                 *)
(*   w, h  size of the screen                                                *)
(*   on    still running                                                     *)
EXTENDS Integers, Sequences, FiniteSets

MaxN(S) == CHOOSE x \in S : \A y \in S : y <= x
AtLeast(a, b) == IF a < b THEN b ELSE a
AtMost(a, b)  == IF a > b THEN b ELSE a

InnerW(u) == u.w - 2
InnerH(u) == u.h - 4

CanvasW(g, at) == MaxN({1} \cup {at[v][1] + g.w[v] : v \in 1..g.n})
CanvasH(g, at) == MaxN({1} \cup {at[v][2] + g.h[v] : v \in 1..g.n})

(* Scrolling ends where the canvas does.                                     *)
Clamped(u) ==
  [u EXCEPT !.sx = AtLeast(0, AtMost(u.sx, u.cw - InnerW(u))),
            !.sy = AtLeast(0, AtMost(u.sy, u.ch - InnerH(u)))]

Opened(g, pos, ev, info, w, h) ==
  LET at == [v \in 1..g.n |-> << AtLeast(0, pos[v][1]), AtLeast(0, pos[v][2]) >>]
  IN [sel |-> 1, out |-> 0, ev |-> ev, ign |-> FALSE, dlg |-> IF info THEN "info" ELSE "",
      at |-> at, moved |-> {}, cw |-> CanvasW(g, at), ch |-> CanvasH(g, at),
      sx |-> 0, sy |-> 0, w |-> w, h |-> h, on |-> TRUE]

-----------------------------------------------------------------------------
Toggled(g, u) ==
  IF g.util[u.sel] THEN u
  ELSE [u EXCEPT !.ev[u.sel] = IF @ = u.out THEN -1 ELSE u.out]

Selected(u, v) == IF u.sel = v THEN u ELSE [u EXCEPT !.sel = v, !.out = 0]

Digits == << "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
DigitOf(k) == CHOOSE d \in 1..9 : Digits[d] = k

(* The canvas grows when a node at its edge moves on, or shrinks if nothing  *)
(* else reaches that far.                                                    *)
Moved(g, u, dx, dy) ==
  LET v    == u.sel
      x    == u.at[v][1]
      y    == u.at[v][2]
      at   == [u.at EXCEPT ![v] = << x + dx, y + dy >>]
      edge == (dx = 1 /\ x + g.w[v] >= u.cw) \/ (dy = 1 /\ y + g.h[v] >= u.ch)
  IN IF x + dx < 0 \/ y + dy < 0 THEN u
     ELSE [u EXCEPT !.at = at, !.moved = @ \cup {v},
                    !.cw = IF edge THEN CanvasW(g, at) ELSE @,
                    !.ch = IF edge THEN CanvasH(g, at) ELSE @]

Key(g, u, k) ==
  Clamped(
    IF u.dlg # ""
    THEN IF k \in {"esc", "enter"} THEN [u EXCEPT !.dlg = ""] ELSE u
    ELSE CASE k = "esc"     -> [u EXCEPT !.on = FALSE]
           [] k = "tab"     -> [u EXCEPT !.sel = IF @ = g.n THEN 1 ELSE @ + 1, !.out = 0]
           [] k = "backtab" -> [u EXCEPT !.sel = IF @ = 1 THEN g.n ELSE @ - 1, !.out = 0]
           [] k = " "       -> [u EXCEPT !.out = (@ + 1) % g.nout[u.sel]]
           [] k \in {Digits[d] : d \in 1..9} ->
                IF DigitOf(k) <= g.nout[u.sel] THEN [u EXCEPT !.out = DigitOf(k) - 1] ELSE u
           [] k = "enter"   -> Toggled(g, u)
           [] k = "p"       -> [u EXCEPT !.ign = ~@]
           [] k = "h"       -> [u EXCEPT !.dlg = "help"]
           [] k = "i"       -> [u EXCEPT !.dlg = "info"]
           [] k = "t"       -> [u EXCEPT !.dlg = "table"]
           [] k = "w"       -> Moved(g, u, 0, -1)
           [] k = "a"       -> Moved(g, u, -1, 0)
           [] k = "s"       -> Moved(g, u, 0, 1)
           [] k = "d"       -> Moved(g, u, 1, 0)
           [] k = "up"      -> [u EXCEPT !.sy = @ - 1]
           [] k = "down"    -> [u EXCEPT !.sy = @ + 1]
           [] k = "left"    -> [u EXCEPT !.sx = @ - 1]
           [] k = "right"   -> [u EXCEPT !.sx = @ + 1]
           [] OTHER         -> u)

Saves(u, k) == u.dlg = "" /\ k = "save"

-----------------------------------------------------------------------------
(* Nodes under a cell of the screen; the last one is on top.                 *)
Under(g, u, x, y) ==
  LET cx == x - 1 + u.sx
      cy == y - 2 + u.sy
  IN {v \in 1..g.n : /\ u.at[v][1] <= cx /\ cx < u.at[v][1] + g.w[v]
                     /\ u.at[v][2] <= cy /\ cy < u.at[v][2] + g.h[v]}

(* A click on the graph, or with a dialog open on its content or next to it. *)
Click(g, u, button, x, y) ==
  Clamped(
    IF u.dlg # "" THEN [u EXCEPT !.dlg = ""]
    ELSE IF Under(g, u, x, y) = {} THEN u
    ELSE LET v   == MaxN(Under(g, u, x, y))
             s   == Selected(u, v)
             row == y - 2 + u.sy - u.at[v][2] - 2
         IN IF button = "right" THEN [s EXCEPT !.dlg = "table"]
            ELSE IF button = "left" /\ row >= 0 /\ row < g.nout[v] THEN Toggled(g, [s EXCEPT !.out = row])
            ELSE IF button = "left" THEN s ELSE u)

Resized(u, w, h) == Clamped([u EXCEPT !.w = w, !.h = h])

-----------------------------------------------------------------------------
(* What holds at all times.                                                  *)
Sound(g, u) ==
  /\ u.sel \in 1..g.n
  /\ u.out \in 0..(g.nout[u.sel] - 1)
  /\ \A v \in 1..g.n : u.ev[v] \in -1..(g.nout[v] - 1) /\ (g.util[v] => u.ev[v] = -1)
  /\ u.dlg \in {"", "table", "help", "info"}
  /\ \A v \in 1..g.n : /\ u.at[v][1] >= 0 /\ u.at[v][1] + g.w[v] <= u.cw  \* nodes are on the canvas
                       /\ u.at[v][2] >= 0 /\ u.at[v][2] + g.h[v] <= u.ch
  /\ u.sx >= 0 /\ (u.sx = 0 \/ u.sx + InnerW(u) <= u.cw)                  \* and the screen, too
  /\ u.sy >= 0 /\ (u.sy = 0 \/ u.sy + InnerH(u) <= u.ch)
=============================================================================
