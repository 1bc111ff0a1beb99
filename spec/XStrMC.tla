------------------------------- MODULE XStrMC -------------------------------
(* The library's converter as a machine: a facet that turns as many whole characters as fit into a buffer of B units,  *)
(* reporting how it stopped, and the loop around it that collects the buffers.  Checked for every input of up to N     *)
(* units over an alphabet with every class of unit: the loop always ends, and ends with what XStr!Convert says.        *)
EXTENDS XStr
CONSTANTS B, N, From, To, Units

VARIABLES in, pos, out, state
vars == <<in, pos, out, state>>

Inputs == UNION { [1..n -> Units] : n \in 0..N }

\* The facet: from position i, with room for B units.
RECURSIVE Fill(_, _, _)
Fill(s, i, buf) ==
    IF i > Len(s) THEN [res |-> "ok", i |-> i, buf |-> buf]
    ELSE LET ch == Char(From, s, i)
         IN  IF ch.n = 0 THEN [res |-> "error", i |-> i, buf |-> buf]
             ELSE IF ch.n < 0 THEN [res |-> "partial", i |-> i, buf |-> buf]
             ELSE LET u == Enc(To, ch.c)
                  IN  IF Len(buf) + Len(u) > B THEN [res |-> "partial", i |-> i, buf |-> buf]
                      ELSE Fill(s, i + ch.n, buf \o u)

Init == in \in Inputs /\ pos = 1 /\ out = <<>> /\ state = "run"
Step ==
    /\ state = "run"
    /\ LET f == Fill(in, pos, <<>>)
       IN  /\ pos' = f.i
           /\ CASE f.res = "error" -> state' = "error" /\ out' = out
                [] f.res = "ok" -> state' = "done" /\ out' = out \o f.buf
                [] f.res = "partial" ->
                   IF f.buf = <<>> /\ f.i = pos THEN state' = "error" /\ out' = out
                   ELSE state' = "run" /\ out' = out \o f.buf
    /\ in' = in
Next == Step \/ (state # "run" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* What is out is always the conversion of what was taken.
Prefix == state # "error" => Convert(From, To, SubSeq(in, 1, pos - 1)) = [ok |-> TRUE, out |-> out]
Right == /\ state = "done" => Convert(From, To, in) = [ok |-> TRUE, out |-> out]
         /\ state = "error" => ~Convert(From, To, in).ok
Back == state = "done" => Convert(To, From, out) = [ok |-> TRUE, out |-> in]
Ends == <>(state # "run")
=============================================================================
