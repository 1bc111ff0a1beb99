----------------------------- MODULE XDataTrace -----------------------------
(* Is a recorded run of the library a behaviour of XData?  Every line of the log is one command with what the library *)
(* answered and all the data afterwards; the specification must have an outcome of that command in the state so far    *)
(* that agrees with all of it.  What the specification leaves open (order of a map, discriminator among the labels of  *)
(* the selected case) is taken from the log.                                                                           *)
EXTENDS XData, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.XLOG)
LogTypes == Log[1].ts

VARIABLES l, S
vars == <<l, S>>

\* Texts are compared because a wrong answer may have any shape.
AnyText == ToString(ANY)
Answer(a, b) ==
    LET ta == ToString(a) IN
    \/ ta = AnyText
    \/ ta = ToString(b)
    \/ /\ Len(a) = 2 /\ Len(b) = 2 /\ ToString(a[2]) = AnyText /\ ToString(a[1]) = ToString(b[1])
SlotOk(x, logged) ==
    IF x.v = <<>> THEN logged = <<>>
    ELSE /\ logged # <<>>
         /\ logged[1] = NameOf(U(x.t))
         /\ \/ ToString(x.v[1]) = ToString(logged[2])
            \/ Same(x.t, x.v[1], logged[2])
         /\ WellFormed(x.t, logged[2])
StateOk(S1, st) == \A i \in 1..NSlots : SlotOk(S1[i], st[i])
Observed(S1, st) == TLCEval([i \in 1..NSlots |-> [t |-> S1[i].t, v |-> IF st[i] = <<>> THEN <<>> ELSE <<st[i][2]>>]])

\* A command that only reads, through a path that selected a union's member, answers with the discriminator that the
\* library chose: it must be the answer in the state as observed afterwards, where the path has nothing left to do.
Reads == {"get", "cast", "iter", "items", "vec", "foreach", "foreachset", "print", "getmember", "touch", "cur"}
AnswerOk(o, e) ==
    \/ Answer(o.r, e.r)
    \/ e.op \in Reads /\ \E o2 \in Exec(Observed(o.S, e.st), e) :
                            o2.ok = o.ok /\ Answer(o2.r, e.r) /\ StateOk(o2.S, e.st)
Agrees(o, e) == o.ok = e.ok /\ StateOk(o.S, e.st) /\ (o.ok => AnswerOk(o, e))

RECURSIVE NextEpisode(_)
NextEpisode(i) == IF i > Len(Log) \/ Log[i].op \in {"begin", "eof"} THEN i ELSE NextEpisode(i + 1)

Mismatch(outs) ==
    /\ PrintT(<<"MISMATCH", l, Log[l].op>>)
    /\ PrintT(<<"SPECIFIED", { [ok |-> o.ok, r |-> o.r, v |-> TLCEval([i \in 1..NSlots |-> o.S[i].v])] : o \in outs }>>)
    /\ S' = Empty
    /\ l' = NextEpisode(l + 1)

Init == l = 2 /\ S = Empty
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN
       CASE e.op = "begin" -> S' = Empty /\ l' = l + 1
         [] e.op = "eof" -> S' = Empty /\ l' = l + 1
         \* everything was given back, and no type changed by being used
         [] e.op = "end" -> IF e.live = 0 /\ e.types = 1 THEN S' = Empty /\ l' = l + 1 ELSE Mismatch({})
         [] OTHER ->
            IF e.bad = 1 THEN Mismatch({})          \* the data could not be read afterwards
            ELSE LET outs == Exec(S, e)
                     good == { o \in outs : Agrees(o, e) }
                 IN  IF good = {} THEN Mismatch(outs)
                     ELSE LET o == CHOOSE o \in good : TRUE IN S' = Observed(o.S, e.st) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Report == PrintT(<<"TRACE-END", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
