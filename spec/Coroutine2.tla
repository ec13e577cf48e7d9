----------------------------- MODULE Coroutine2 -----------------------------
(***************************************************************************)
(* Behaviour of boost.coroutine2 as its users see it.                      *)
(*                                                                         *)
(* A state holds                                                           *)
(*   - the execution contexts: 0 is the thread that owns the program,      *)
(*     1..NCo are coroutines; exactly one of them runs (run), the others   *)
(*     are suspended in a call (pend);                                     *)
(*   - the C++ call frames of every context (frm): whether a frame is a    *)
(*     try-block, which handles are local objects of it;                   *)
(*   - the coroutines: who resumed them (wk), what was transferred (cell); *)
(*   - the handles (pull_type / push_type objects) in slots 1..NSlot, each *)
(*     either on the heap or local to a frame, plus their iterators.       *)
(*                                                                         *)
(* Every action appends exactly one event (ev): either the command that    *)
(* the user's code issues (a call of the library, entering or leaving a    *)
(* C++ scope, throwing), or something the user can observe as consequence  *)
(* (a call returns, a call throws, a local object is destroyed, ...).      *)
(* Commands are free (any legal client); the observations are determined   *)
(* by this specification.  The harness replays every transition of the     *)
(* state graph in the real library, and logs of the real library are       *)
(* checked against Next (Trace.tla).                                       *)
(*                                                                         *)
(* Legal client (restrictions from the documentation): a handle is not     *)
(* used while its coroutine is active; complete coroutines are not         *)
(* resumed; destructors neither throw nor suspend their coroutine; the     *)
(* unwind exception is not swallowed; a coroutine does not suspend itself  *)
(* inside a catch-block (it may resume others there).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    NCo,        \* coroutines that may be created in one behaviour
    NSlot,      \* handle slots
    MaxDepth,   \* C++ frames per context (base frame included)
    NVal,       \* distinguishable values per coroutine
    NExc,       \* distinguishable user exception types
    Kinds,      \* subset of {1,2}: 1 = pull_type, 2 = push_type
    Feat        \* set of enabled commands (strings)

VARIABLES
    run,    \* running context
    sig,    \* what the running context is about to observe: none/enter/ok/exc
    act,    \* act[c]: off, cmd (user code decides), caught, item, leave, exc, catch, unw, fini, end
    pend,   \* pend[c]: the call in which context c is suspended
    frm,    \* frm[c]: sequence of frames
    kind, st, wk, cell, mv, own, nv, nco,   \* coroutines
    hnd, it, oit,                           \* handles and iterators
    ev                                      \* event of the last step (not part of the state: see VIEW)

ctl  == <<run, sig, act, pend, frm>>
cor  == <<kind, st, wk, cell, mv, own, nv, nco>>
hs   == <<hnd, it, oit>>
view == <<ctl, cor, hs>>
vars == <<run, sig, act, pend, frm, kind, st, wk, cell, mv, own, nv, nco, hnd, it, oit, ev>>

Co   == 1..NCo
Ctx  == 0..NCo
Slot == 1..NSlot

PULL == 1
PUSH == 2
HEAP == 0
STACK == 1
Lost == NVal + 1        \* a cell whose content is unspecified
ExcCopy == 101          \* exceptions that the environment injects
ExcAlloc == 102
ExcFn == 103

NoP  == [op |-> "-", s |-> 0, t |-> 0, x |-> 0]
NoH  == [ex |-> FALSE, p |-> 0, co |-> 0, home |-> -1]
\* a frame: is it a try-block, has it a local object whose destructor runs user code (0 no, 1 yes,
\* 2 at work; then sv, sx: what the destructor interrupts), is it a catch-block (cl = 4; sx: the exception
\* that is handled), its local handles
Base == [try |-> FALSE, cl |-> 0, sv |-> "-", sx |-> 0, sl |-> <<>>]

On(f) == f \in Feat

Event(e, c, a, b, d, x) == ev' = <<e, c, a, b, d, x>>

Opc(op) == CASE op = "new"     -> 1  [] op = "res"    -> 2  [] op = "push"  -> 3
             [] op = "inc"     -> 4  [] op = "oasg"   -> 5  [] op = "yield" -> 6
             [] op = "next"    -> 7  [] op = "winc"   -> 8  [] op = "wasg"  -> 9
             [] op = "destroy" -> 10 [] op = "masg"   -> 11 [] op = "hd"    -> 12
             [] op = "each"    -> 13 [] op = "weach"  -> 14
             [] OTHER -> 0

-----------------------------------------------------------------------------
(* derived notions *)

\* contexts that the running one will (transitively) return to
RECURSIVE ChainFrom(_, _)
ChainFrom(c, n) == IF c = 0 \/ n = 0 \/ wk[c] = -1 THEN {c}
                   ELSE {c} \cup ChainFrom(wk[c], n - 1)
Active(k) == wk[k] # -1

Busy(s) == \E c \in Ctx : /\ pend[c].op \in {"new", "masg", "destroy", "hd"}
                          /\ s \in {pend[c].s, IF pend[c].op = "masg" THEN pend[c].t ELSE 0}

\* may context c touch the handle in slot s
Usable(c, s) == /\ hnd[s].ex
                /\ hnd[s].home \in {-1, c}
                /\ ~ Busy(s)
                /\ hnd[s].co # 0 => ~ Active(hnd[s].co)

IsValid(s) == hnd[s].co # 0 /\ st[hnd[s].co] \in {"fresh", "live"}

FreeSlots == { s \in Slot : ~ hnd[s].ex /\ ~ Busy(s) }
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Depth(c) == Len(frm[c])
InDtor(c) == \E i \in 1..Len(frm[c]) : frm[c][i].cl = 2
InHandler(c) == \E i \in 1..Len(frm[c]) : frm[c][i].cl = 4
Unwinding(c) == act[c] = "unw" \/ \E i \in 1..Len(frm[c]) : frm[c][i].cl = 2 /\ frm[c][i].sv = "unw"
\* is there a handler in reach? (an exception must not leave a destructor)
HasTry(c) == \E i \in 1..Len(frm[c]) : frm[c][i].try /\ \A j \in i..Len(frm[c]) : frm[c][j].cl # 2
MayThrow(c) == HasTry(c) \/ (c # 0 /\ ~ InDtor(c))

Can(c) == run = c /\ sig = "none" /\ act[c] = "cmd"
CanOwn(c) == c # 0 /\ Can(c) /\ ~ InDtor(c) /\ ~ InHandler(c)

DropLocal(f, c, s) == [i \in 1..Len(f) |-> [f[i] EXCEPT !.sl = SelectSeq(@, LAMBDA z : z # s)]]

NextVal(k) == (nv[k] % NVal) + 1

-----------------------------------------------------------------------------
(* What can be observed after every event without disturbing anything:     *)
(* the boolean value of each handle that may be touched, which coroutine   *)
(* stacks are allocated, how many transferred objects the library keeps.   *)

HB(s) == IF ~ hnd[s].ex THEN 3
         ELSE IF Busy(s) \/ (hnd[s].co # 0 /\ Active(hnd[s].co)) THEN 2
         ELSE IF IsValid(s) THEN 1 ELSE 0

MustStack == { k \in Co : st[k] \in {"fresh", "live"} }
MayStack  == MustStack \cup { k \in Co : st[k] = "done" }

PayloadLo == Cardinality({ k \in Co : st[k] = "live" /\ ~ Unwinding(k) /\ cell[k] \in 1..NVal /\ ~ mv[k] })
PayloadHi == Cardinality({ k \in Co : cell[k] # 0 /\ st[k] \in {"live", "done"} })
             \* a call at work may have one of its own (parameter, temporary)
             + Cardinality({ c \in Ctx : pend[c].op \in {"push", "yield", "oasg", "wasg"} })
             + Cardinality({ c \in Ctx : pend[c].op \in {"oasg", "wasg"} })

RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET k == Min(S) IN 2^(k-1) + Mask(S \ {k})

\* exceptions in flight and exceptions being handled, as std::uncaught_exceptions() and
\* std::current_exception() tell (0: not observable at this event)
InFlight == Cardinality({ c \in Ctx : act[c] \in {"exc", "unw"} })
            + Cardinality({ x \in Ctx \X (1..MaxDepth) : x[2] <= Depth(x[1]) /\ frm[x[1]][x[2]].cl = 2 /\ frm[x[1]][x[2]].sv \in {"exc", "unw"} })
Handling == \E c \in Ctx : act[c] = "caught" \/ InHandler(c)
ExcState == IF ev[1] \in {"start", "ret", "exc", "dtor", "item"} THEN 1 + 2 * InFlight + (IF Handling THEN 1 ELSE 0) ELSE 0

Obs == << [s \in Slot |-> HB(s)], Mask(MustStack), Mask(MayStack), PayloadLo, PayloadHi, ExcState >>

-----------------------------------------------------------------------------
Init ==
    /\ run = 0 /\ sig = "none"
    /\ act  = [c \in Ctx |-> IF c = 0 THEN "cmd" ELSE "off"]
    /\ pend = [c \in Ctx |-> NoP]
    /\ frm  = [c \in Ctx |-> IF c = 0 THEN <<Base>> ELSE <<>>]
    /\ kind = [k \in Co |-> 0]
    /\ st   = [k \in Co |-> "none"]
    /\ wk   = [k \in Co |-> -1]
    /\ cell = [k \in Co |-> 0]
    /\ mv   = [k \in Co |-> FALSE]
    /\ own  = [k \in Co |-> 0]
    /\ nv   = [k \in Co |-> 0]
    /\ nco  = 0
    /\ hnd  = [s \in Slot |-> NoH]
    /\ it   = [s \in Slot |-> "no"]
    /\ oit  = [k \in Co |-> "no"]
    /\ ev   = <<"init", 0, 0, 0, 0, 0>>

-----------------------------------------------------------------------------
(* control transfer *)

\* context c calls into coroutine k and waits there
Resume(c, k, op, s) ==
    /\ wk'   = [wk EXCEPT ![k] = c]
    /\ run'  = k
    /\ sig'  = IF st[k] = "fresh" THEN "enter" ELSE "ok"
    /\ st'   = [st EXCEPT ![k] = "live"]
    /\ pend' = [pend EXCEPT ![c] = [op |-> op, s |-> s, t |-> k, x |-> 0]]

\* coroutine k gives control back to the context that resumed it most recently
Suspend(k, op) ==
    /\ run'  = wk[k]
    /\ wk'   = [wk EXCEPT ![k] = -1]
    /\ sig'  = "ok"
    /\ pend' = [pend EXCEPT ![k] = [NoP EXCEPT !.op = op]]

\* the first event of a coroutine-function
Start(k) ==
    /\ run = k /\ sig = "enter"
    /\ sig' = "none"
    /\ act' = [act EXCEPT ![k] = "cmd"]
    /\ frm' = [frm EXCEPT ![k] = <<Base>>]
    /\ Event("start", k, 0, 0, 0, 0)
    /\ UNCHANGED <<run, pend, cor, hs>>

\* a call that was pending in context c returns
RetOk(c) ==
    /\ run = c /\ sig = "ok"
    /\ sig' = "none"
    \* (while an exception leaves frames it is remembered in x)
    /\ pend' = [pend EXCEPT ![c] = IF @.op \in {"each", "weach"} /\ (@.op = "each" => IsValid(@.s)) THEN @
                                   ELSE [NoP EXCEPT !.x = IF pend[c].op = "hd" THEN pend[c].x ELSE 0]]
    /\ LET p == pend[c] IN
       CASE p.op = "new" ->
              LET home == IF p.x = STACK THEN c ELSE -1
                  k    == p.t
                  lost == st[k] = "dead"     \* completed inside the constructor
              IN /\ hnd' = [hnd EXCEPT ![p.s] = [@ EXCEPT !.ex = TRUE, !.co = IF lost THEN 0 ELSE k, !.home = home]]
                 /\ frm' = IF home = -1 THEN frm
                           ELSE [frm EXCEPT ![c][Depth(c)].sl = Append(@, p.s)]
                 /\ Event("ret", c, Opc(p.op), p.s, 0, 0)
                 /\ UNCHANGED <<run, act, cor, it, oit>>
         [] p.op \in {"res", "push"} ->
              /\ Event("ret", c, Opc(p.op), p.s, 0, 0)
              /\ UNCHANGED <<run, act, frm, cor, hs>>
         [] p.op \in {"inc", "oasg"} ->
              /\ it' = [it EXCEPT ![p.s] = IF IsValid(p.s) THEN "at" ELSE "end"]
              /\ Event("ret", c, Opc(p.op), p.s, IF IsValid(p.s) THEN 1 ELSE 0, 0)
              /\ UNCHANGED <<run, act, frm, cor, hnd, oit>>
         [] p.op \in {"yield", "next"} ->
              /\ Event("ret", c, Opc(p.op), 0, 0, 0)
              /\ UNCHANGED <<run, act, frm, cor, hs>>
         [] p.op \in {"winc", "wasg"} ->
              /\ oit' = [oit EXCEPT ![c] = "at"]
              /\ Event("ret", c, Opc(p.op), 0, 1, 0)
              /\ UNCHANGED <<run, act, frm, cor, hnd, it>>
         [] p.op = "each" ->
              \* the loop has another element, or ends
              IF IsValid(p.s)
              THEN /\ act' = [act EXCEPT ![c] = "item"]
                   /\ Event("item", c, p.s, hnd[p.s].co, 0, cell[hnd[p.s].co])
                   /\ UNCHANGED <<run, frm, cor, hs>>
              ELSE /\ Event("ret", c, Opc(p.op), p.s, 0, 0)
                   /\ UNCHANGED <<run, act, frm, cor, hs>>
         [] p.op = "weach" ->
              /\ act' = [act EXCEPT ![c] = "item"]
              /\ Event("item", c, 0, 0, 0, cell[c])
              /\ UNCHANGED <<run, frm, cor, hs>>
         [] p.op \in {"destroy", "hd"} ->
              /\ hnd' = [hnd EXCEPT ![p.s] = NoH]
              /\ it'  = [it EXCEPT ![p.s] = "no"]
              /\ frm' = [frm EXCEPT ![c] = DropLocal(@, c, p.s)]
              /\ Event("ret", c, Opc(p.op), p.s, 0, 0)
              /\ UNCHANGED <<run, act, cor, oit>>
         [] p.op = "masg" ->
              /\ hnd' = [hnd EXCEPT ![p.t].co = hnd[p.s].co, ![p.s].co = 0]
              /\ Event("ret", c, Opc(p.op), p.s, p.t, 0)
              /\ UNCHANGED <<run, act, frm, cor, it, oit>>

\* a call that was pending in context c throws
RetExc(c) ==
    /\ run = c /\ sig = "exc"
    /\ sig' = "none"
    /\ act' = [act EXCEPT ![c] = "caught"]
    /\ pend' = [pend EXCEPT ![c] = [NoP EXCEPT !.x = pend[c].x]]
    /\ LET p == pend[c] IN
         /\ hnd' = IF p.op = "new" THEN [hnd EXCEPT ![p.s] = NoH] ELSE hnd
         /\ it'  = IF p.op \in {"inc", "oasg"} THEN [it EXCEPT ![p.s] = "no"] ELSE it
         /\ oit' = IF p.op \in {"winc", "wasg"} THEN [oit EXCEPT ![c] = "no"] ELSE oit
         /\ Event("exc", c, Opc(p.op), IF p.op = "new" THEN 0 ELSE p.s, 0, p.x)
    /\ UNCHANGED <<run, frm, cor>>

\* the user's handler does more: it is a frame of its own
CmdHandle(c) ==
    /\ On("handler")
    /\ run = c /\ sig = "none" /\ act[c] = "caught"
    /\ Depth(c) < MaxDepth
    /\ act' = [act EXCEPT ![c] = "cmd"]
    /\ pend' = [pend EXCEPT ![c] = NoP]
    /\ frm' = [frm EXCEPT ![c] = Append(@, [Base EXCEPT !.cl = 4, !.sx = pend[c].x])]
    /\ Event("handle", c, 0, 0, 0, 0)
    /\ UNCHANGED <<run, sig, cor, hs>>

\* ... and re-throws what it handles after all
CmdReraise(c) ==
    /\ On("handler") /\ On("rethrow")
    /\ Can(c) /\ MayThrow(c)
    /\ frm[c][Depth(c)].cl = 4
    /\ act' = [act EXCEPT ![c] = "exc"]
    /\ pend' = [pend EXCEPT ![c] = [NoP EXCEPT !.x = frm[c][Depth(c)].sx]]
    /\ Event("reraise", c, 0, 0, 0, frm[c][Depth(c)].sx)
    /\ UNCHANGED <<run, sig, frm, cor, hs>>

\* the user's handler is finished: go on behind the call, or re-throw
CmdCont(c) ==
    /\ run = c /\ sig = "none" /\ act[c] = "caught"
    /\ act' = [act EXCEPT ![c] = "cmd"]
    /\ pend' = [pend EXCEPT ![c] = NoP]
    /\ Event("cont", c, 0, 0, 0, 0)
    /\ UNCHANGED <<run, sig, frm, cor, hs>>

CmdRethrow(c) ==
    /\ On("rethrow")
    /\ run = c /\ sig = "none" /\ act[c] = "caught"
    /\ MayThrow(c)
    /\ act' = [act EXCEPT ![c] = "exc"]
    /\ Event("rethrow", c, 0, 0, 0, pend[c].x)
    /\ UNCHANGED <<run, sig, pend, frm, cor, hs>>

-----------------------------------------------------------------------------
(* C++ scopes *)

\* t: 0 plain frame, 1 try-block, 2 frame with a local object whose destructor runs user code
CmdEnter(c, t) ==
    /\ Can(c) /\ Depth(c) < MaxDepth
    /\ On(CASE t = 0 -> "frame" [] t = 1 -> "try" [] t = 2 -> "dtor")
    /\ frm' = [frm EXCEPT ![c] = Append(@, [Base EXCEPT !.try = (t = 1), !.cl = IF t = 2 THEN 1 ELSE 0])]
    /\ Event("enter", c, t, 0, 0, 0)
    /\ UNCHANGED <<run, sig, act, pend, cor, hs>>

\* leave the innermost frame / return from the coroutine-function / end of the program
CmdLeave(c) ==
    /\ Can(c)
    /\ act' = [act EXCEPT ![c] = "leave"]
    /\ Event(IF Depth(c) > 1 THEN "leave" ELSE IF c # 0 THEN "return" ELSE "end", c, 0, 0, 0, 0)
    /\ UNCHANGED <<run, sig, pend, frm, cor, hs>>

CmdThrow(c, x) ==
    /\ On("throw")
    /\ Can(c)
    /\ MayThrow(c)
    /\ act' = [act EXCEPT ![c] = "exc"]
    /\ pend' = [pend EXCEPT ![c] = [NoP EXCEPT !.x = x]]
    /\ Event("throw", c, x, 0, 0, x)
    /\ UNCHANGED <<run, sig, frm, cor, hs>>

Catch(c) ==
    /\ run = c /\ sig = "none" /\ act[c] = "catch"
    /\ act' = [act EXCEPT ![c] = "cmd"]
    /\ pend' = [pend EXCEPT ![c] = NoP]
    /\ Event("catch", c, Depth(c), 0, 0, pend[c].x)
    /\ UNCHANGED <<run, sig, frm, cor, hs>>

\* the handle in slot s starts to be destroyed (op: destroy, hd) or to be overwritten (op: masg, s = source)
\* by context c; d is the slot whose coroutine goes away
Release(c, d, op, s, t) ==
    LET k == hnd[d].co IN
    /\ pend' = [pend EXCEPT ![c] = [op |-> op, s |-> s, t |-> t, x |-> pend[c].x]]
    /\ IF k = 0
       THEN /\ sig' = "ok"
            /\ UNCHANGED <<run, act, frm, cor, oit>>
       ELSE IF st[k] = "live"
       THEN \* its stack is unwound: all frames are left
            /\ wk'  = [wk EXCEPT ![k] = c]
            /\ run' = k
            /\ sig' = "none"
            /\ act' = [act EXCEPT ![k] = "unw"]
            /\ UNCHANGED <<frm, kind, st, cell, mv, own, nv, nco, oit>>
       ELSE \* never started, or complete
            /\ sig'  = "ok"
            /\ st'   = [st EXCEPT ![k] = "dead"]
            /\ kind' = [kind EXCEPT ![k] = 0]
            /\ cell' = [cell EXCEPT ![k] = 0]
            /\ UNCHANGED <<run, act, frm, wk, mv, own, nv, nco, oit>>

Teardown == {"leave", "exc", "unw"}

\* leaving a frame: its local handles are destroyed, last first
TearSlot(c) ==
    /\ run = c /\ sig = "none" /\ act[c] \in Teardown
    /\ Depth(c) > 0
    /\ frm[c][Depth(c)].sl # <<>>
    /\ LET sl == frm[c][Depth(c)].sl
           s  == sl[Len(sl)]
       IN /\ Release(c, s, "hd", s, 0)
          /\ hnd' = [hnd EXCEPT ![s].ex = FALSE]
          /\ it' = [it EXCEPT ![s] = "no"]
          /\ Event("hdbeg", c, s, 0, 0, 0)

\* ... then an object whose destructor runs user code; that code may use handles, resume other
\* coroutines, throw and catch, but it must not suspend
TearClean(c) ==
    /\ run = c /\ sig = "none" /\ act[c] \in Teardown
    /\ Depth(c) > 1
    /\ frm[c][Depth(c)].sl = <<>> /\ frm[c][Depth(c)].cl = 1
    /\ frm' = [frm EXCEPT ![c][Depth(c)] = [@ EXCEPT !.cl = 2, !.sv = act[c], !.sx = pend[c].x]]
    /\ act' = [act EXCEPT ![c] = "cmd"]
    /\ pend' = [pend EXCEPT ![c] = NoP]
    /\ Event("dtor", c, Depth(c), 0, 0, 0)
    /\ UNCHANGED <<run, sig, cor, hs>>

\* ... then its other local objects
TearFrame(c) ==
    /\ run = c /\ sig = "none" /\ act[c] \in Teardown
    /\ Depth(c) > 0
    /\ frm[c][Depth(c)].sl = <<>> /\ frm[c][Depth(c)].cl # 1
    /\ Event("gd", c, Depth(c), 0, 0, 0)
    /\ frm' = [frm EXCEPT ![c] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<nco, hnd, it>>
    /\ IF Depth(c) > 1
       THEN LET f == frm[c][Depth(c)]
                a == IF f.cl = 2 THEN f.sv ELSE act[c]     \* what goes on now
            IN /\ act' = [act EXCEPT ![c] = IF a = "leave" THEN "cmd"
                                            ELSE IF a = "exc" /\ f.try THEN "catch"
                                            ELSE a]
               /\ pend' = IF f.cl = 2 THEN [pend EXCEPT ![c] = [NoP EXCEPT !.x = f.sx]] ELSE pend
               /\ UNCHANGED <<run, sig, kind, st, wk, cell, mv, own, nv, oit>>
       ELSE IF c = 0
       THEN /\ act' = [act EXCEPT ![c] = "fini"]
            /\ UNCHANGED <<run, sig, pend, kind, st, wk, cell, mv, own, nv, oit>>
       ELSE \* the coroutine-function is left: control goes back to the context that resumed
            \* (or destroys) the coroutine
            LET w     == wk[c]
                ctor  == pend[w].op = "new"
                gone  == ctor \/ act[c] = "unw"
            IN /\ run'  = w
               /\ wk'   = [wk EXCEPT ![c] = -1]
               /\ act'  = [act EXCEPT ![c] = "off"]
               /\ sig'  = IF act[c] = "exc" THEN "exc" ELSE "ok"
               /\ pend' = [pend EXCEPT ![c] = NoP,
                                       ![w].x = IF act[c] = "exc" THEN pend[c].x ELSE @]
               /\ st'   = [st EXCEPT ![c] = IF gone THEN "dead" ELSE "done"]
               /\ kind' = [kind EXCEPT ![c] = IF gone THEN 0 ELSE @]
               /\ cell' = [cell EXCEPT ![c] = IF gone \/ @ = 0 THEN 0 ELSE Lost]
               /\ mv'   = [mv EXCEPT ![c] = FALSE]
               /\ own'  = [own EXCEPT ![c] = 0]
               /\ nv'   = [nv EXCEPT ![c] = 0]
               /\ oit'  = [oit EXCEPT ![c] = "no"]

\* end of the program: objects on the heap are destroyed too (and what belongs to the frames they keep)
FiniSlot ==
    /\ run = 0 /\ sig = "none" /\ act[0] = "fini"
    /\ \E s \in Slot : hnd[s].ex /\ hnd[s].home = -1
    /\ LET s == Min({ z \in Slot : hnd[z].ex /\ hnd[z].home = -1 }) IN
         /\ Release(0, s, "destroy", s, 0)
         /\ hnd' = [hnd EXCEPT ![s].ex = FALSE]
         /\ it' = [it EXCEPT ![s] = "no"]
         /\ Event("fdel", 0, s, 0, 0, 0)

Fini ==
    /\ run = 0 /\ sig = "none" /\ act[0] = "fini"
    /\ \A s \in Slot : ~ hnd[s].ex
    /\ act' = [act EXCEPT ![0] = "end"]
    /\ Event("fin", 0, 0, 0, 0, 0)
    /\ UNCHANGED <<run, sig, pend, frm, cor, hs>>

-----------------------------------------------------------------------------
(* commands on handles *)

\* how the coroutine-function is given: 0 lvalue, 1 rvalue, 2 const lvalue, 3 function pointer, 9 any
\* fault: 0 none, 1 the stack allocator throws, 2 copying the coroutine-function throws
CmdNew(c, p, loc, how, flt) ==
    /\ Can(c) /\ nco < NCo /\ FreeSlots # {}
    /\ loc = HEAP => On("heap")
    /\ loc = STACK => On("local")
    /\ LET s == Min(FreeSlots)
           k == nco + 1
       IN /\ nco' = k
          /\ Event("new", c, s, p, loc, how * 10 + flt)
          /\ hnd' = [hnd EXCEPT ![s] = [NoH EXCEPT !.p = p]]
          /\ UNCHANGED <<frm, act, cell, mv, own, nv, it, oit>>
          /\ IF flt # 0
             THEN /\ pend' = [pend EXCEPT ![c] = [op |-> "new", s |-> s, t |-> k,
                                                  x |-> IF flt = 1 THEN ExcAlloc ELSE ExcFn]]
                  /\ st' = [st EXCEPT ![k] = "dead"]
                  /\ sig' = "exc"
                  /\ UNCHANGED <<run, kind, wk>>
             ELSE /\ pend' = [pend EXCEPT ![c] = [op |-> "new", s |-> s, t |-> k, x |-> loc]]
                  /\ kind' = [kind EXCEPT ![k] = p]
                  /\ IF p = PULL
                     THEN \* the coroutine-function is entered at once
                          /\ st' = [st EXCEPT ![k] = "live"]
                          /\ wk' = [wk EXCEPT ![k] = c]
                          /\ run' = k
                          /\ sig' = "enter"
                     ELSE /\ st' = [st EXCEPT ![k] = "fresh"]
                          /\ sig' = "ok"
                          /\ UNCHANGED <<run, wk>>

CmdRes(c, s) ==
    /\ On("res")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ hnd[s].p = PULL
    /\ Resume(c, hnd[s].co, "res", s)
    /\ it' = [it EXCEPT ![s] = "no"]
    /\ Event("res", c, s, 0, 0, 0)
    /\ UNCHANGED <<act, frm, kind, cell, mv, own, nv, nco, hnd, oit>>

Deliver(k) ==
    /\ cell' = [cell EXCEPT ![k] = NextVal(k)]
    /\ mv'   = [mv EXCEPT ![k] = FALSE]
    /\ nv'   = [nv EXCEPT ![k] = NextVal(k) % NVal]

\* how: 0 lvalue, 1 rvalue, 9 any
CmdPush(c, s, how) ==
    /\ On("push")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ hnd[s].p = PUSH
    /\ LET k == hnd[s].co IN
         /\ Deliver(k)
         /\ Resume(c, k, "push", s)
         /\ it' = [it EXCEPT ![s] = "no"]
         /\ Event("push", c, s, how, k, NextVal(k))
    /\ UNCHANGED <<act, frm, kind, own, nco, hnd, oit>>

\* the object that is transferred is the one that was transferred last (an iterator of the other side refers to it)
CmdPushAgain(c, s, how) ==
    /\ On("again")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ hnd[s].p = PUSH
    /\ LET k == hnd[s].co IN
         /\ cell[k] \in 1..NVal /\ ~ mv[k]
         /\ Resume(c, k, "push", s)
         /\ it' = [it EXCEPT ![s] = "no"]
         /\ Event("apush", c, s, how, k, cell[k])
    /\ UNCHANGED <<act, frm, kind, cell, mv, own, nv, nco, hnd, oit>>

\* copying / moving the argument throws: nothing is transferred, no context is switched
CmdPushThrow(c, s, how) ==
    /\ On("cthrow")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ hnd[s].p = PUSH
    /\ LET k == hnd[s].co IN
         /\ cell' = [cell EXCEPT ![k] = IF @ = 0 THEN 0 ELSE Lost]
         /\ mv' = [mv EXCEPT ![k] = FALSE]
         /\ Event("pusht", c, s, how, k, 0)
    /\ it' = [it EXCEPT ![s] = "no"]
    /\ pend' = [pend EXCEPT ![c] = [op |-> "push", s |-> s, t |-> 0, x |-> ExcCopy]]
    /\ sig' = "exc"
    /\ UNCHANGED <<run, act, frm, kind, st, wk, own, nv, nco, hnd, oit>>

CmdGet(c, s) ==
    /\ On("get")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ hnd[s].p = PULL
    /\ LET k == hnd[s].co IN
         /\ cell[k] \in 1..NVal
         /\ mv[k] => On("reget")
         /\ mv' = [mv EXCEPT ![k] = TRUE]
         /\ Event("get", c, s, k, 0, cell[k])
    /\ UNCHANGED <<ctl, kind, st, wk, cell, own, nv, nco, hs>>

CmdMoveNew(c, s, loc) ==
    /\ On("mnew")
    /\ Can(c) /\ Usable(c, s) /\ FreeSlots # {}
    /\ loc = HEAP => On("heap")
    /\ loc = STACK => On("local")
    /\ LET t == Min(FreeSlots)
           home == IF loc = STACK THEN c ELSE -1
       IN /\ hnd' = [hnd EXCEPT ![t] = [ex |-> TRUE, p |-> hnd[s].p, co |-> hnd[s].co, home |-> home],
                                ![s].co = 0]
          /\ it' = [it EXCEPT ![s] = "no", ![t] = "no"]
          /\ frm' = IF home = -1 THEN frm ELSE [frm EXCEPT ![c][Depth(c)].sl = Append(@, t)]
          /\ Event("mnew", c, s, t, loc, 0)
    /\ UNCHANGED <<run, sig, act, pend, cor, oit>>

CmdMoveAsg(c, s, t) ==
    /\ On("masg")
    /\ Can(c) /\ Usable(c, s) /\ Usable(c, t) /\ hnd[s].p = hnd[t].p
    /\ it' = [it EXCEPT ![s] = "no", ![t] = "no"]
    /\ Event("masg", c, s, t, 0, 0)
    /\ IF s = t
       THEN /\ pend' = [pend EXCEPT ![c] = [op |-> "res", s |-> s, t |-> 0, x |-> 0]]
            /\ sig' = "ok"
            /\ UNCHANGED <<run, act, frm, cor, hnd, oit>>
       ELSE /\ Release(c, t, "masg", s, t)
            /\ UNCHANGED hnd

CmdDestroy(c, s) ==
    /\ On("destroy")
    /\ Can(c) /\ Usable(c, s)
    /\ Release(c, s, "destroy", s, 0)
    /\ hnd' = [hnd EXCEPT ![s].ex = FALSE]
    /\ it' = [it EXCEPT ![s] = "no"]
    /\ Event("destroy", c, s, 0, 0, 0)

(* iterators of a handle: input iterators (pull), output iterators (push) *)
CmdBegin(c, s) ==
    /\ On("iter")
    /\ Can(c) /\ Usable(c, s)
    /\ it' = [it EXCEPT ![s] = IF IsValid(s) THEN "at" ELSE "end"]
    /\ Event("begin", c, s, hnd[s].p, IF IsValid(s) THEN 1 ELSE 0, 0)
    /\ UNCHANGED <<ctl, cor, hnd, oit>>

CmdDeref(c, s) ==
    /\ On("iter")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ it[s] = "at" /\ hnd[s].p = PULL
    /\ LET k == hnd[s].co IN
         /\ cell[k] \in 1..NVal
         /\ mv[k] => On("reget")
         /\ Event("deref", c, s, k, 0, cell[k])
    /\ UNCHANGED <<ctl, cor, hs>>

CmdInc(c, s) ==
    /\ On("iter")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ it[s] = "at" /\ hnd[s].p = PULL
    /\ Resume(c, hnd[s].co, "inc", s)
    /\ Event("inc", c, s, 0, 0, 0)
    /\ UNCHANGED <<act, frm, kind, cell, mv, own, nv, nco, hs>>

CmdOAsg(c, s, how) ==
    /\ On("iter") /\ On("asg")
    /\ Can(c) /\ Usable(c, s) /\ IsValid(s) /\ it[s] = "at" /\ hnd[s].p = PUSH
    /\ LET k == hnd[s].co IN
         /\ Deliver(k)
         /\ Resume(c, k, "oasg", s)
         /\ Event("oasg", c, s, how, k, NextVal(k))
    /\ UNCHANGED <<act, frm, kind, own, nco, hs>>

-----------------------------------------------------------------------------
(* commands of a coroutine-function on the end it was given *)

CmdYield(k, how) ==
    /\ On("yield")
    /\ CanOwn(k) /\ kind[k] = PULL
    /\ Deliver(k)
    /\ Suspend(k, "yield")
    /\ oit' = [oit EXCEPT ![k] = "no"]
    /\ Event("yield", k, how, 0, 0, NextVal(k))
    /\ UNCHANGED <<act, frm, kind, st, own, nco, hnd, it>>

CmdYieldAgain(k, how) ==
    /\ On("again")
    /\ CanOwn(k) /\ kind[k] = PULL
    /\ cell[k] \in 1..NVal /\ ~ mv[k]
    /\ Suspend(k, "yield")
    /\ oit' = [oit EXCEPT ![k] = "no"]
    /\ Event("ayield", k, how, 0, 0, cell[k])
    /\ UNCHANGED <<act, frm, kind, st, cell, mv, own, nv, nco, hnd, it>>

CmdYieldThrow(k, how) ==
    /\ On("cthrow")
    /\ CanOwn(k) /\ kind[k] = PULL
    /\ cell' = [cell EXCEPT ![k] = IF @ = 0 THEN 0 ELSE Lost]
    /\ mv' = [mv EXCEPT ![k] = FALSE]
    /\ oit' = [oit EXCEPT ![k] = "no"]
    /\ pend' = [pend EXCEPT ![k] = [NoP EXCEPT !.op = "yield", !.x = ExcCopy]]
    /\ sig' = "exc"
    /\ Event("yieldt", k, how, 0, 0, 0)
    /\ UNCHANGED <<run, act, frm, kind, st, wk, own, nv, nco, hnd, it>>

CmdNext(k) ==
    /\ On("next")
    /\ CanOwn(k) /\ kind[k] = PUSH
    /\ Suspend(k, "next")
    /\ oit' = [oit EXCEPT ![k] = "no"]
    /\ Event("next", k, 0, 0, 0, 0)
    /\ UNCHANGED <<act, frm, kind, st, cell, mv, own, nv, nco, hnd, it>>

CmdOwnGet(k) ==
    /\ On("get")
    /\ CanOwn(k) /\ kind[k] = PUSH
    /\ cell[k] \in 1..NVal
    /\ mv[k] => On("reget")
    /\ mv' = [mv EXCEPT ![k] = TRUE]
    /\ Event("ownget", k, 0, 0, 0, cell[k])
    /\ UNCHANGED <<ctl, kind, st, wk, cell, own, nv, nco, hs>>

\* the end is moved into another local object
CmdOwnMove(k) ==
    /\ On("omove")
    /\ CanOwn(k) /\ own[k] = 0
    /\ own' = [own EXCEPT ![k] = 1]
    /\ oit' = [oit EXCEPT ![k] = "no"]
    /\ Event("omove", k, 0, 0, 0, 0)
    /\ UNCHANGED <<ctl, kind, st, wk, cell, mv, nv, nco, hnd, it>>

CmdOwnBegin(k) ==
    /\ On("oiter")
    /\ CanOwn(k)
    /\ oit[k] # "at"
    /\ oit' = [oit EXCEPT ![k] = "at"]
    /\ Event("wbegin", k, kind[k], 0, 1, 0)
    /\ UNCHANGED <<ctl, cor, hnd, it>>

CmdOwnDeref(k) ==
    /\ On("oiter")
    /\ CanOwn(k) /\ kind[k] = PUSH /\ oit[k] = "at"
    /\ cell[k] \in 1..NVal
    /\ mv[k] => On("reget")
    /\ Event("wderef", k, 0, 0, 0, cell[k])
    /\ UNCHANGED <<ctl, cor, hs>>

CmdOwnInc(k) ==
    /\ On("oiter")
    /\ CanOwn(k) /\ kind[k] = PUSH /\ oit[k] = "at"
    /\ Suspend(k, "winc")
    /\ Event("winc", k, 0, 0, 0, 0)
    /\ UNCHANGED <<act, frm, kind, st, cell, mv, own, nv, nco, hs>>

CmdOwnAsg(k, how) ==
    /\ On("oiter") /\ On("asg")
    /\ CanOwn(k) /\ kind[k] = PULL /\ oit[k] = "at"
    /\ Deliver(k)
    /\ Suspend(k, "wasg")
    /\ Event("wasg", k, how, 0, 0, NextVal(k))
    /\ UNCHANGED <<act, frm, kind, st, own, nco, hs>>

(* loops over all values (range-for, standard algorithms), of a handle or of the own end; the body of  *)
(* the loop goes on or leaves the loop                                                                 *)
CmdEach(c, s) ==
    /\ On("each")
    /\ Can(c) /\ Usable(c, s) /\ hnd[s].p = PULL
    /\ IsValid(s) => cell[hnd[s].co] \in 1..NVal /\ (mv[hnd[s].co] => On("reget"))
    /\ pend' = [pend EXCEPT ![c] = [op |-> "each", s |-> s, t |-> 0, x |-> 0]]
    /\ sig' = "ok"
    /\ it' = [it EXCEPT ![s] = "no"]
    /\ Event("each", c, s, 0, 0, 0)
    /\ UNCHANGED <<run, act, frm, cor, hnd, oit>>

CmdOwnEach(k) ==
    /\ On("each")
    /\ CanOwn(k) /\ kind[k] = PUSH
    /\ cell[k] \in 1..NVal /\ (mv[k] => On("reget"))
    /\ pend' = [pend EXCEPT ![k] = [NoP EXCEPT !.op = "weach"]]
    /\ sig' = "ok"
    /\ oit' = [oit EXCEPT ![k] = "no"]
    /\ Event("weach", k, 0, 0, 0, 0)
    /\ UNCHANGED <<run, act, frm, cor, hnd, it>>

CmdGoon(c) ==
    /\ run = c /\ sig = "none" /\ act[c] = "item"
    /\ act' = [act EXCEPT ![c] = "cmd"]
    /\ IF pend[c].op = "each" THEN Resume(c, hnd[pend[c].s].co, "each", pend[c].s)
                              ELSE Suspend(c, "weach") /\ UNCHANGED st
    /\ Event("goon", c, 0, 0, 0, 0)
    /\ UNCHANGED <<frm, kind, cell, mv, own, nv, nco, hs>>

CmdBreak(c) ==
    /\ run = c /\ sig = "none" /\ act[c] = "item"
    /\ act' = [act EXCEPT ![c] = "cmd"]
    /\ pend' = [pend EXCEPT ![c] = NoP]
    /\ Event("brk", c, 0, 0, 0, 0)
    /\ UNCHANGED <<run, sig, frm, cor, hs>>

-----------------------------------------------------------------------------
Hows   == IF On("how") THEN {0, 1} ELSE {9}
FnHows == IF On("fnhow") THEN {0, 1, 2, 3} ELSE {9}
Faults == {0} \cup (IF On("ealloc") THEN {1} ELSE {}) \cup (IF On("efn") THEN {2} ELSE {})

\* what the user's code decides
Command(c) ==
    \/ \E t \in 0..2 : CmdEnter(c, t)
    \/ CmdLeave(c)
    \/ \E x \in 1..NExc : CmdThrow(c, x)
    \/ CmdCont(c)
    \/ CmdRethrow(c)
    \/ CmdHandle(c) \/ CmdReraise(c)
    \/ \E p \in Kinds, loc \in {HEAP, STACK}, h \in FnHows, f \in Faults : CmdNew(c, p, loc, h, f)
    \/ \E s \in Slot :
          \/ CmdRes(c, s) \/ CmdGet(c, s) \/ CmdDestroy(c, s)
          \/ \E h \in Hows : CmdPush(c, s, h) \/ CmdPushThrow(c, s, h) \/ CmdPushAgain(c, s, h) \/ CmdOAsg(c, s, h)
          \/ CmdBegin(c, s) \/ CmdDeref(c, s) \/ CmdInc(c, s) \/ CmdEach(c, s)
          \/ \E loc \in {HEAP, STACK} : CmdMoveNew(c, s, loc)
          \/ \E t \in Slot : CmdMoveAsg(c, s, t)
    \/ \E h \in Hows : CmdYield(c, h) \/ CmdYieldAgain(c, h) \/ CmdYieldThrow(c, h) \/ CmdOwnAsg(c, h)
    \/ CmdNext(c) \/ CmdOwnGet(c) \/ CmdOwnMove(c)
    \/ CmdOwnBegin(c) \/ CmdOwnDeref(c) \/ CmdOwnInc(c)
    \/ CmdOwnEach(c) \/ CmdGoon(c) \/ CmdBreak(c)

\* what follows from it
Consequence(c) ==
    \/ c # 0 /\ Start(c)
    \/ RetOk(c) \/ RetExc(c) \/ Catch(c)
    \/ TearSlot(c) \/ TearClean(c) \/ TearFrame(c)
    \/ c = 0 /\ (FiniSlot \/ Fini)

Next == Command(run) \/ Consequence(run)

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Consequence(run))

-----------------------------------------------------------------------------
(* Properties of the design *)

Kinded == [Co -> 0..2]

TypeOK ==
    /\ run \in Ctx /\ sig \in {"none", "enter", "ok", "exc"}
    /\ \A c \in Ctx : act[c] \in {"off", "cmd", "caught", "item", "leave", "exc", "catch", "unw", "fini", "end"}
    /\ \A k \in Co : /\ kind[k] \in 0..2 /\ st[k] \in {"none", "fresh", "live", "done", "dead"}
                     /\ wk[k] \in -1..NCo /\ cell[k] \in 0..Lost /\ mv[k] \in BOOLEAN /\ nv[k] \in 0..NVal
    /\ \A s \in Slot : hnd[s].co \in Ctx /\ hnd[s].home \in -1..NCo

\* the active coroutines form one acyclic chain from the running context to the main context
ChainOK ==
    LET chain == ChainFrom(run, NCo + 1) IN
    /\ 0 \in chain
    /\ \A k \in Co : Active(k) <=> k \in chain
    /\ \A c \in Ctx : c \in chain /\ c # run => pend[c].op # "-"

\* a coroutine with a stack is owned by exactly one handle (or by the constructor / destructor at work)
OwnedOnce ==
    \A k \in Co : st[k] \in {"fresh", "live", "done"} =>
        LET owners == { s \in Slot : hnd[s].co = k }
            inctor == { c \in Ctx : pend[c].op = "new" /\ pend[c].t = k }
        IN Cardinality(owners) + Cardinality(inctor) = 1

\* nothing owns a coroutine that is gone
NoDangling == \A s \in Slot : hnd[s].ex /\ hnd[s].co # 0 =>
                   st[hnd[s].co] \in {"fresh", "live", "done"} \/ Busy(s)

\* nothing is left behind at the end
NoLeak == act[0] = "end" =>
            /\ \A k \in Co : st[k] \in {"none", "dead"} /\ frm[k] = <<>> /\ cell[k] = 0
            /\ \A s \in Slot : ~ hnd[s].ex

\* a coroutine-function that has begun has frames until it is left; no frames otherwise
FramesOK == \A k \in Co : (frm[k] # <<>>) <=> (act[k] # "off")

\* nobody is suspended inside a destructor or a catch-block
HandlersOK == \A k \in Co : ~ Active(k) => ~ InDtor(k) /\ ~ InHandler(k)

\* a handle that is local to a context exists only while that context has frames
HomesOK == \A s \in Slot : hnd[s].ex /\ hnd[s].home > 0 => frm[hnd[s].home] # <<>>

StOrder(x) == CASE x = "none" -> 0 [] x = "fresh" -> 1 [] x = "live" -> 2 [] x = "done" -> 3 [] x = "dead" -> 4
\* coroutines only ever move forward
MonotoneStep == \A k \in Co : StOrder(st'[k]) >= StOrder(st[k])
Monotone == [][MonotoneStep]_vars

\* a suspended coroutine is not disturbed: its frames and the call it is suspended in stay the same
\* unless control enters it
UndisturbedStep == \A k \in Co : ~ Active(k) /\ wk'[k] = -1 =>
                       frm'[k] = frm[k] /\ pend'[k] = pend[k] /\ act'[k] = act[k]
Undisturbed == [][UndisturbedStep]_vars

\* transferred data changes only if the partner transfers (or the coroutine is gone)
CellStableStep == \A k \in Co : cell'[k] # cell[k] =>
                     \/ ev'[1] \in {"push", "pusht", "oasg", "yield", "yieldt", "wasg"}
                     \/ st'[k] \in {"done", "dead"}
CellStable == [][CellStableStep]_vars

\* user code of a coroutine that is being unwound is not executed any more (apart from destructors)
UnwindOnlyStep == \A k \in Co : Unwinding(k) => Unwinding(k)' \/ act'[k] = "off"
UnwindOnly == [][UnwindOnlyStep]_vars

\* never-started coroutine-functions never run
NeverStartedStep == \A k \in Co : st[k] = "fresh" /\ st'[k] = "dead" => frm[k] = <<>> /\ frm'[k] = <<>>
NeverStarted == [][NeverStartedStep]_vars

\* unwinding (and every other consequence) terminates, whatever was on the stack (checked on instances whose
\* destructors run no user code: it could go on for ever)
Unwinds  == \A k \in Co : (act[k] = "unw") ~> (act[k] = "off")
Returns  == (sig # "none") ~> (sig = "none")
Releases == \A c \in Ctx : (pend[c].op \in {"destroy", "hd", "masg"}) ~> (pend[c].op \notin {"destroy", "hd", "masg"})
Passes   == \A c \in Ctx : (act[c] \in {"exc", "leave"}) ~> (act[c] \notin {"exc", "leave"})
Ends     == (act[0] = "fini") ~> (act[0] = "end")
=============================================================================
