---------------------------- MODULE XmssExport ----------------------------
(* Prints the templates of Xmss.tla for the parameters in Instances, which *)
(* the check writes to XmssInstances.tla.                                  *)
EXTENDS Xmss, TLC, Json, XmssInstances

ASSUME \A i \in 1..Len(Instances) :
  /\ Supported(Instances[i])
  /\ PrintT(ToJson(Template(Instances[i])))
===========================================================================
