----------------------------- MODULE TraceBase -----------------------------
(* Common to the trace checking modules: the trace (one JSON event per     *)
(* line), comparison with a printed explanation, acceptance.               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Opt(ev, k, d) == IF k \in DOMAIN ev THEN ev[k] ELSE d

\* got equals expected, or say why not
Same(what, got, exp) ==
  IF got = exp THEN TRUE
  ELSE PrintT("MISMATCH " \o what \o " GOT " \o ToString(got) \o " EXPECTED " \o ToString(exp)) /\ FALSE

Reached == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
