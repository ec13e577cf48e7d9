---------------------------- MODULE LayoutTrace -----------------------------
(* Placements observed in the real library (JSON, one coroutine per line):   *)
(* "b", "t": base and top of the stack, "s": highest address seen in a frame *)
(* of the coroutine-function, "o": what was placed, <<lo, hi, alignment>>.   *)
EXTENDS Layout, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Objs == { [n |-> i, lo |-> E.o[i][1], hi |-> E.o[i][2], al |-> E.o[i][3]] : i \in 1..Len(E.o) }

TraceInit == Init /\ l = 1
\* each line is one execution of the procedure: the placement is arbitrary, but has to fit
TraceNext ==
    /\ l <= Len(Log)
    /\ Fits(Objs, E.b, E.t, E.s)
    /\ base' = E.b /\ top' = E.t /\ sp' = E.s
    /\ objs' = Objs /\ pc' = "done"
    /\ l' = l + 1
    /\ UNCHANGED <<cs, ca, rs, ra>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Accepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    PrintT("@MATCHED " \o ToString(n) \o " OF " \o ToString(Len(Log))) /\ n = Len(Log)
=============================================================================
