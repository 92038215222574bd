------------------------------ MODULE Secrecy -------------------------------
(***************************************************************************)
(* Who may read what is derived from a private key.                        *)
(*                                                                         *)
(* A file is sensitive from the moment that secret bytes are written to it *)
(* or that it's mapped as the subtree cache.  Everything written to what   *)
(* is not a file of the owner (standard output, logs, sockets) is readable *)
(* by others.  The actions below are those which are permitted; Confined   *)
(* follows (checked by TLC for a few files).  The real code's system calls *)
(* are accepted step by step (SecrecyTrace.tla).                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS
  Files,   \* identities of files (inodes)
  Modes    \* permissions of group and others: 0 means owner only

VARIABLES
  mode,      \* file -> permissions of group and others
  sensitive  \* files which hold secrets
secrecyVars == <<mode, sensitive>>

SInit == mode = [f \in {} |-> 0] /\ sensitive = {}

Known(f) == f \in DOMAIN mode

(* A file comes into being (empty) *)
Create(f, m) ==
  /\ mode' = [g \in DOMAIN mode \cup {f} |-> IF g = f THEN m ELSE mode[g]]
  /\ sensitive' = sensitive \ {f}

(* Permissions of a sensitive file are not extended to others *)
Chmod(f, m) ==
  /\ Known(f) /\ (f \in sensitive => m = 0)
  /\ mode' = [mode EXCEPT ![f] = m]
  /\ UNCHANGED sensitive

(* Secret bytes only go to files of the owner *)
Write(f, secret) ==
  /\ Known(f) /\ (secret => mode[f] = 0)
  /\ sensitive' = IF secret THEN sensitive \cup {f} ELSE sensitive
  /\ UNCHANGED mode

(* Output which others may read *)
Tell(secret) == ~secret /\ UNCHANGED secrecyVars

SNext ==
  \/ \E f \in Files : \/ \E m \in Modes : Create(f, m) \/ Chmod(f, m)
                      \/ \E s \in BOOLEAN : Write(f, s)
  \/ \E s \in BOOLEAN : Tell(s)

SSpec == SInit /\ [][SNext]_secrecyVars

Confined == \A f \in sensitive : Known(f) /\ mode[f] = 0
=============================================================================
