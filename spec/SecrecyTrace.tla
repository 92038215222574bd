---------------------------- MODULE SecrecyTrace ----------------------------
(***************************************************************************)
(* Recorded system calls as behaviours of Secrecy.tla.                     *)
(***************************************************************************)
EXTENDS Secrecy, TLC, Json

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i
vars == <<mode, sensitive, t, i>>

Init == SInit /\ t \in 1 .. Len(Traces) /\ i = 0

Step(e) ==
  CASE e.e = "create" -> Create(e.f, e.m)
    [] e.e = "chmod" -> Chmod(e.f, e.m)
    [] e.e = "write" -> Write(e.f, e.secret)
    [] e.e = "tell" -> Tell(e.secret)

Next ==
  /\ i < Len(Traces[t]) /\ i' = i + 1 /\ UNCHANGED t
  /\ Step(Traces[t][i + 1])
Spec == Init /\ [][Next]_vars

Told == PrintT(<<"at", t, i>>)
=============================================================================
