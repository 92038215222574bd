------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* A message source (io.Reader) as SignFrom and VerifyFrom see it, and     *)
(* what they have to make of it.  Each Read delivers some units of the     *)
(* message together with no error, the end of the message, or a failure;   *)
(* also nothing with no error, and data together with an error are         *)
(* allowed.  After an error the source is not read again.                  *)
(*                                                                         *)
(* The outcome is a function of the bytes delivered and of how it ended    *)
(* only: the end of the message means that the message is what was         *)
(* delivered, a failure that the operation fails.  In both cases the       *)
(* sequence number is consumed.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json

CONSTANTS MaxUnits,  \* units a source delivers at most
          MaxReads,
          Failures   \* kinds of failures.  Anything but io.EOF itself is one:
                     \* also errors that look like it, wrap it, or are said to
                     \* be temporary

VARIABLES reads,     \* the behaviour of the source up to now
          delivered, \* units
          ended      \* "no", "eof" or one of Failures
vars == <<reads, delivered, ended>>

Init == reads = <<>> /\ delivered = 0 /\ ended = "no"

Read(k, e) ==
  /\ ended = "no"
  /\ Len(reads) < MaxReads
  /\ delivered + k <= MaxUnits
  /\ reads' = Append(reads, [k |-> k, e |-> e])
  /\ delivered' = delivered + k
  /\ ended' = e

Next == \E k \in 0..MaxUnits, e \in {"no", "eof"} \cup Failures : Read(k, e)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Outcome == [ok |-> ended = "eof", len |-> delivered]

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).k + Total(Tail(s))

\* What counts is what was delivered, and the last result.
SplitIrrelevant ==
  /\ delivered = Total(reads)
  /\ ended # "no" => ended = reads[Len(reads)].e
  /\ \A i \in 1..(Len(reads) - 1) : reads[i].e = "no"

\* Printed for each complete behaviour.
Emit == (ended' = "no") \/ PrintT(ToJson([reads |-> reads', ok |-> ended' = "eof", len |-> delivered']))
=============================================================================
