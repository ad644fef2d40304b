------------------------------- MODULE TuiRuns ------------------------------
(* Generates runs of the interactive tool: sequences of keys and clicks that *)
(* the specification says something about, from networks and screens in a    *)
(* file. All runs up to some length, or random ones.                         *)
EXTENDS Screen, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.RUNS)
Depth == atoi(IOEnv.DEPTH)

VARIABLES sc, g, u, script
vars == << sc, g, u, script >>
H == Runs[sc]

Init ==
  /\ sc \in 1..Len(Runs)
  /\ g = Geometry(H.net)
  /\ u = Clamped(Opened(g, H.net.pos, [v \in 1..H.net.n |-> Fix(H.net, H.ev)[v]], H.net.info # "", H.w, H.h))
  /\ script = << >>

Going == u.on /\ Len(script) < Depth
Did(e) == script' = Append(script, e) /\ UNCHANGED << sc, g >>
Press(k) == u' = Key(g, u, k) /\ Did([op |-> "key", key |-> k])
ClickAt(button, x, y) == u' = Click(g, u, button, x, y) /\ Did([op |-> "click", button |-> button, x |-> x, y |-> y])

(* Cells of the screen to click at.                                          *)
Middle(a, n) == a + n \div 2
NodeCells ==
  {<< x, y >> \in UNION {{u.at[v][1] + 1 - u.sx + dx : dx \in {0, 1, g.w[v] \div 2, g.w[v] - 1}} \X {u.at[v][2] + 2 - u.sy + r : r \in 0..(g.h[v] - 1)} : v \in 1..g.n}
     : x \in 1..(u.w - 2) /\ y \in 2..(u.h - 3)}
FreeCells == {<< x, y >> \in {1, u.w \div 3, u.w - 2} \X {2, u.h \div 2, u.h - 3} : Under(g, u, x, y) = {}}
DialogCells ==
  {<< u.w \div 2, u.h \div 2 >>} \cup (IF (u.w - 72) \div 2 > 2 THEN {<< 1, 2 >>, << 1, u.h \div 2 >>} ELSE {})

Tabs    == Going /\ \E k \in {"tab", "backtab"} : Press(k)
States  == Going /\ \E k \in {" ", "1", "2", "3", "4"} : Press(k)
Enter   == Going /\ Press("enter")
Enter2  == Going /\ u.dlg = "" /\ Press("enter")
Policy  == Going /\ Press("p")
Moves   == Going /\ \E k \in {"w", "a", "s", "d"} : Press(k)
Scrolls == Going /\ u.dlg = "" /\ \E k \in {"up", "down", "left", "right"} : Press(k)
Dialogs == Going /\ \E k \in {"h", "i", "t"} : Press(k)
Others  == Going /\ \E k \in {"0", "9", "x", "save"} : Press(k)
Save    == Going /\ Press("save")
Escape  == Going /\ u.dlg # "" /\ Press("esc")
Clicks  == Going /\ u.dlg = "" /\ \E c \in NodeCells : ClickAt("left", c[1], c[2])
Clicks2 == Going /\ u.dlg = "" /\ \E c \in NodeCells : ClickAt("left", c[1], c[2])
Rights  == Going /\ u.dlg = "" /\ \E c \in NodeCells : ClickAt("right", c[1], c[2])
Nowhere == Going /\ u.dlg = "" /\ \E c \in FreeCells : \E b \in {"left", "right"} : ClickAt(b, c[1], c[2])
Closing == Going /\ u.dlg # "" /\ \E c \in DialogCells : ClickAt("left", c[1], c[2])
Closing2 == Going /\ u.dlg # "" /\ \E c \in DialogCells : ClickAt("right", c[1], c[2])
Resizes == Going /\ \E s \in {<< 80, 24 >>, << 100, 30 >>, << 73, 26 >>} :
             u' = Resized(u, s[1], s[2]) /\ Did([op |-> "resize", w |-> s[1], h |-> s[2]])

Emit == ~Going /\ script # << >> /\ PrintT(<<"RUN", ToJson([sc |-> sc, script |-> script])>>) /\ script' = << >> /\ u' = [u EXCEPT !.on = FALSE] /\ UNCHANGED << sc, g >>

Next == \/ Tabs \/ States \/ Enter \/ Enter2 \/ Policy \/ Moves \/ Scrolls \/ Dialogs \/ Others \/ Save
        \/ Escape \/ Clicks \/ Clicks2 \/ Rights \/ Nowhere \/ Closing \/ Closing2 \/ Resizes \/ Emit

(* All short runs: keys only.                                                *)
Keys == {"tab", "backtab", " ", "2", "enter", "p", "t", "i", "w", "d", "s", "save", "esc", "down"}
Short == \/ Going /\ \E k \in Keys : Press(k)
         \/ Emit

Fine == Sound(g, u)
=============================================================================
