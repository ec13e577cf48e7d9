------------------------------- MODULE Trace --------------------------------
(* Is a log of the real library a behaviour of Coroutine2?                   *)
(* The log (JSON, one event per line) is written by the harness in record    *)
(* mode: "e" and "v" are the event as in ev, "m" the allocated stacks        *)
(* (if "o" = 1), "l" the number of transferred objects the library keeps, "h" *)
(* the boolean values of the handles; -1 (in h: 2) = not observed.           *)
EXTENDS Coroutine2, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<vars, l>>

E == Trace[l]

\* what was observed in the new state agrees with the specification
Observed ==
    /\ E.o = 1 => LET M == { E.m[i] : i \in 1..Len(E.m) } IN MustStack' \subseteq M /\ M \subseteq MayStack'
    /\ E.l # -1 => PayloadLo' <= E.l /\ E.l <= PayloadHi'
    /\ LET x == ExcState' IN E.u # 0 /\ x # 0 => E.u = x
    /\ LET hb == [s \in Slot |-> HB(s)]' IN
       \A s \in Slot : E.h[s] # 2 /\ hb[s] # 2 => E.h[s] = hb[s]

Action ==
    LET c == E.v[1]  a == E.v[2]  b == E.v[3]  d == E.v[4]  x == E.v[5] IN
    CASE E.e = "enter"   -> CmdEnter(c, a)
      [] E.e \in {"leave", "return", "end"} -> CmdLeave(c)
      [] E.e = "throw"   -> CmdThrow(c, a)
      [] E.e = "cont"    -> CmdCont(c)
      [] E.e = "rethrow" -> CmdRethrow(c)
      [] E.e = "handle"  -> CmdHandle(c)
      [] E.e = "reraise" -> CmdReraise(c)
      [] E.e = "new"     -> CmdNew(c, b, d, x \div 10, x % 10)
      [] E.e = "res"     -> CmdRes(c, a)
      [] E.e = "push"    -> CmdPush(c, a, b)
      [] E.e = "pusht"   -> CmdPushThrow(c, a, b)
      [] E.e = "apush"   -> CmdPushAgain(c, a, b)
      [] E.e = "ayield"  -> CmdYieldAgain(c, a)
      [] E.e = "get"     -> CmdGet(c, a)
      [] E.e = "mnew"    -> CmdMoveNew(c, a, d)
      [] E.e = "masg"    -> CmdMoveAsg(c, a, b)
      [] E.e = "destroy" -> CmdDestroy(c, a)
      [] E.e = "begin"   -> CmdBegin(c, a)
      [] E.e = "deref"   -> CmdDeref(c, a)
      [] E.e = "inc"     -> CmdInc(c, a)
      [] E.e = "oasg"    -> CmdOAsg(c, a, b)
      [] E.e = "yield"   -> CmdYield(c, a)
      [] E.e = "yieldt"  -> CmdYieldThrow(c, a)
      [] E.e = "next"    -> CmdNext(c)
      [] E.e = "ownget"  -> CmdOwnGet(c)
      [] E.e = "omove"   -> CmdOwnMove(c)
      [] E.e = "wbegin"  -> CmdOwnBegin(c)
      [] E.e = "wderef"  -> CmdOwnDeref(c)
      [] E.e = "winc"    -> CmdOwnInc(c)
      [] E.e = "wasg"    -> CmdOwnAsg(c, a)
      [] E.e = "each"    -> CmdEach(c, a)
      [] E.e = "weach"   -> CmdOwnEach(c)
      [] E.e = "goon"    -> CmdGoon(c)
      [] E.e = "brk"     -> CmdBreak(c)
      [] E.e = "start"   -> Start(c)
      [] E.e \in {"ret", "item"} -> RetOk(c)
      [] E.e = "exc"     -> RetExc(c)
      [] E.e = "catch"   -> Catch(c)
      [] E.e = "hdbeg"   -> TearSlot(c)
      [] E.e = "dtor"    -> TearClean(c)
      [] E.e = "gd"      -> TearFrame(c)
      [] E.e = "fdel"    -> c = 0 /\ FiniSlot
      [] E.e = "fin"     -> c = 0 /\ Fini
      [] OTHER -> FALSE

Step ==
    /\ E.v[1] = run
    /\ Action
    /\ ev' = <<E.e>> \o E.v
    /\ Observed

\* the next behaviour of the log begins
Restart ==
    /\ E.e = "init"
    /\ l = 1 \/ act[0] = "end"
    /\ run' = 0 /\ sig' = "none"
    /\ act'  = [c \in Ctx |-> IF c = 0 THEN "cmd" ELSE "off"]
    /\ pend' = [c \in Ctx |-> NoP]
    /\ frm'  = [c \in Ctx |-> IF c = 0 THEN <<Base>> ELSE <<>>]
    /\ kind' = [k \in Co |-> 0]
    /\ st'   = [k \in Co |-> "none"]
    /\ wk'   = [k \in Co |-> -1]
    /\ cell' = [k \in Co |-> 0]
    /\ mv'   = [k \in Co |-> FALSE]
    /\ own'  = [k \in Co |-> 0]
    /\ nv'   = [k \in Co |-> 0]
    /\ nco'  = 0
    /\ hnd'  = [s \in Slot |-> NoH]
    /\ it'   = [s \in Slot |-> "no"]
    /\ oit'  = [k \in Co |-> "no"]
    /\ ev'   = <<"init", 0, 0, 0, 0, 0>>

\* the action properties of the specification, on the steps of the log
StepsOK == [][E.e # "init" => MonotoneStep /\ UndisturbedStep /\ CellStableStep /\ UnwindOnlyStep /\ NeverStartedStep]_tvars

TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step \/ Restart)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted ==
    LET n == TLCGet("stats").diameter - 1 IN
    PrintT("@MATCHED " \o ToString(n) \o " OF " \o ToString(Len(Trace))) /\ n = Len(Trace)
=============================================================================
