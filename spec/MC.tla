-------------------------------- MODULE MC ----------------------------------
(* Model-checking / test-generation instance of Coroutine2: checks the      *)
(* invariants and prints every transition of the state graph.               *)
EXTENDS Coroutine2, TLCExt
CONSTANT Emit

Name(v) == <<TLCFP(<<"a", v>>), TLCFP(<<v, "b">>)>>
EmitTransition ==
    Emit => PrintT("@" \o ToString(<<Name(view), ev', Obs', Name(view')>>))
=============================================================================
