------------------------------- MODULE MCTui --------------------------------
(* All runs of the interactive tool on a few nodes, as long as nodes stay    *)
(* near the origin: any order of keys and clicks.                            *)
EXTENDS Tui, TLC

CONSTANTS N, Far
VARIABLE u
G == [n |-> N, nout |-> << 2, 1, 3 >>, util |-> << FALSE, TRUE, FALSE >>, w |-> << 3, 2, 3 >>, h |-> << 5, 5, 6 >>]

Init == u = Clamped(Opened(G, << << 0, 0 >>, << 1, -1 >>, << 1, 1 >> >>, << 1, -1, -1 >>, TRUE, 5, 9))

Keys == {"esc", "tab", "backtab", " ", "1", "2", "9", "enter", "p", "h", "i", "t", "w", "a", "s", "d", "up", "down", "left", "right", "x", "save"}

(* What an event e must not touch. Evidence changes by the enter key and     *)
(* left clicks only, of one node, and doing it again takes it back; and so   *)
(* on.                                                                       *)
Local(e, v) ==
  /\ v.ev # u.ev => /\ e \in {"enter", "Left"} /\ u.dlg = ""
                    /\ \A i \in 1..G.n : v.ev[i] # u.ev[i] => i = v.sel
                    /\ v.ev[v.sel] \in {v.out, -1}
                    /\ v.ev[v.sel] = -1 => u.ev[v.sel] = v.out
                    /\ (Toggled(G, v).ev = u.ev) = (-1 \in {u.ev[v.sel], v.ev[v.sel]})
  /\ v.ign # u.ign => e = "p" /\ u.dlg = ""
  /\ v.at # u.at => e \in {"w", "a", "s", "d"} /\ \A i \in 1..G.n : v.at[i] # u.at[i] => i = v.sel
  /\ v.sel # u.sel => (e \in {"tab", "backtab", "Right"} /\ v.out = 0) \/ e = "Left"
  /\ ~v.on => e = "esc" /\ u.dlg = ""
  /\ (u.dlg # "" /\ v.dlg # "") => [v EXCEPT !.w = u.w, !.h = u.h, !.sx = u.sx, !.sy = u.sy] = u
  /\ (u.dlg # "" /\ v.dlg = "") => [v EXCEPT !.dlg = u.dlg] = u
  /\ e = "tab" => Key(G, v, "backtab") = [u EXCEPT !.out = IF u.dlg = "" THEN 0 ELSE @]
  /\ (e = "p" /\ u.dlg = "") => Key(G, v, "p") = u

Step(e, v) == u.on /\ u' = v /\ Assert(Local(e, v), << e, u, v >>)

Next == \/ \E k \in Keys : Step(k, Key(G, u, k))
        \/ \E b \in {"left", "right"}, x \in 1..3, y \in 2..6 : Step(IF b = "left" THEN "Left" ELSE "Right", Click(G, u, b, x, y))
        \/ \E s \in {<< 5, 9 >>, << 4, 8 >>} : Step("resize", Resized(u, s[1], s[2]))

Near == \A v \in 1..G.n : u.at[v][1] <= Far /\ u.at[v][2] <= Far

Fine == Sound(G, u)
=============================================================================
