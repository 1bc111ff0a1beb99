----------------------------- MODULE XStrTrace ------------------------------
(* Are recorded conversions of the library those of XStr?  Each line has the widths, the units given, the answer, and  *)
(* the answer to converting the answer back.                                                                           *)
EXTENDS XStr, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.XLOG)
VARIABLE l
Good(e) ==
    LET c == Convert(e.a, e.b, e.s)
    IN  /\ e.ok = c.ok
        /\ e.ok => /\ ToString(e.out) = ToString(c.out)
                   /\ e.ok2 /\ ToString(e.back) = ToString(e.s)
Init == l = 2
Next ==
    /\ l <= Len(Log)
    /\ l' = l + 1
    /\ LET e == Log[l] IN
       IF e.op # "conv" \/ Good(e) THEN TRUE
       ELSE /\ PrintT(<<"MISMATCH", l, e.op>>)
            /\ PrintT(<<"SPECIFIED", Convert(e.a, e.b, e.s)>>)
Spec == Init /\ [][Next]_l
Report == PrintT(<<"TRACE-END", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
