---- MODULE XmssInstances ----
EXTENDS Sequences
Instances == <<[func |-> "SHA2", n |-> 32, h |-> 10, d |-> 1, w |-> 16, prf |-> "RFC"]>>
====
