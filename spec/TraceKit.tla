------------------------------ MODULE TraceKit ------------------------------
(* Replays an ndjson trace recorded from the real code.  Each line must be  *)
(* a step the specification allows; a line that is not is reported with the *)
(* names of the conjuncts it violates, and validation resumes from the      *)
(* state the line reports, so one trace can yield several rejections.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* The names of the failing conjuncts of a sequence of <<name, boolean>>.   *)
Failing(checks) == {c[1] : c \in {x \in {checks[i] : i \in 1..Len(checks)} : ~x[2]}}
Has(e, f) == f \in DOMAIN e
Report(i, names) == IF names = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> i, names |-> names]))
=============================================================================
