--------------------------------- MODULE Log ---------------------------------
(* Where messages go: the screen, a file, nowhere else.                        *)
(*   s.disp, s.flev, s.name  levels and file of the last set-up; level 0 for   *)
(*                           the file means none, for the screen everything    *)
(*   s.begun  the file has been started since then                             *)
(*   s.screen, s.files       messages by number                                *)
EXTENDS Integers, Sequences, TLC
S0 == [disp |-> 20, flev |-> 0, name |-> "", begun |-> FALSE, screen |-> << >>, files |-> << >>]
(* Settings left out have defaults, which differ between the two ways of setting up. *)
Setup(s, o) == [s EXCEPT !.disp = o.disp, !.flev = o.flev, !.name = o.name, !.begun = FALSE]
ToScreen(s, lev) == lev >= s.disp
ToFile(s, lev) == s.flev > 0 /\ lev >= s.flev
(* A file is started, and what it held is lost, by the first message for it. *)
Say(s, lev, m) ==
    [s EXCEPT !.screen = IF ToScreen(s, lev) THEN Append(@, m) ELSE @,
              !.begun = @ \/ ToFile(s, lev),
              !.files = IF ~ ToFile(s, lev) THEN @
                        ELSE (s.name :> (IF s.begun THEN Append(@[s.name], m) ELSE << m >>)) @@ @]
Step(s, o, m) == CASE o.op = "say" -> Say(s, o.lev, m) [] OTHER -> Setup(s, o)
=============================================================================
