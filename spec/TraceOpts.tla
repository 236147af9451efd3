------------------------------ MODULE TraceOpts ------------------------------
(* Option objects are values: records of independent fields.  Objects of three *)
(* kinds: map options, training options, options of adaptive training (which   *)
(* have the fields of both and some of their own).                             *)
EXTENDS Float, TraceKit

VARIABLES l, o                 \* o[k]: the object k, as [kind, fields]
E == Trace[l]

Enum == [ basisType |-> {"ProbabilistHermite", "PhysicistHermite", "HermiteFunctions"},
          posFuncType |-> {"Exp", "SoftPlus"},
          quadType |-> {"ClenshawCurtis", "AdaptiveSimpson", "AdaptiveClenshawCurtis"} ]
MapDefault == [ basisType |-> "ProbabilistHermite", basisLB |-> FNeg(FInf), basisUB |-> FInf, basisNorm |-> TRUE, posFuncType |-> "SoftPlus",
                quadType |-> "AdaptiveSimpson", quadAbsTol |-> FDec("1e-6"), quadRelTol |-> FDec("1e-6"), quadMaxSub |-> 30, quadMinSub |-> 0,
                quadPts |-> 5, contDeriv |-> TRUE, nugget |-> F0 ]
MapOrder == << "basisType", "basisLB", "basisUB", "basisNorm", "posFuncType", "quadType", "quadAbsTol", "quadRelTol", "quadMaxSub", "quadMinSub",
               "quadPts", "contDeriv", "nugget" >>
TrainDefault == [ opt_alg |-> "LD_SLSQP", opt_stopval |-> FNeg(FInf), opt_ftol_rel |-> FDec("1e-3"), opt_ftol_abs |-> FDec("1e-3"),
                  opt_xtol_rel |-> FDec("1e-4"), opt_xtol_abs |-> FDec("1e-4"), opt_maxeval |-> 1000, opt_maxtime |-> FInf, verbose |-> 0 ]
TrainOrder == << "opt_alg", "opt_stopval", "opt_ftol_rel", "opt_ftol_abs", "opt_xtol_rel", "opt_xtol_abs", "opt_maxeval", "opt_maxtime", "verbose" >>
OwnDefault == [ maxPatience |-> 10, maxSize |-> 2147483647, maxDegrees |-> <<>> ]
OwnOrder == << "maxPatience", "maxSize", "maxDegrees" >>

Default(kind) == CASE kind = "map" -> MapDefault [] kind = "train" -> TrainDefault [] OTHER -> MapDefault @@ TrainDefault @@ OwnDefault
Order(kind) == CASE kind = "map" -> MapOrder [] kind = "train" -> TrainOrder [] OTHER -> MapOrder \o TrainOrder \o OwnOrder
Part(f, names) == [n \in {names[i] : i \in 1..Len(names)} |-> f[n]]
Obj(kind, f) == [kind |-> kind, f |-> f]

Int32 == {"quadMaxSub", "quadMinSub", "quadPts", "opt_maxeval", "verbose", "maxPatience", "maxSize"}
Bool == {"basisNorm", "contDeriv"}
Text == {"basisType", "posFuncType", "quadType", "opt_alg"}
RECURSIVE Spaced(_)
Spaced(v) == IF Len(v) = 0 THEN "" ELSE IF Len(v) = 1 THEN ToString(v[1]) ELSE ToString(v[1]) \o " " \o Spaced(Tail(v))
(* One printed line: name, text, the number in the text. *)
Printed(name, v, line) ==
  /\ line.name = name
  /\ CASE name \in Int32 -> line.text = ToString(v)
       [] name \in Bool  -> line.text = (IF v THEN "true" ELSE "false")
       [] name \in Text  -> line.text = v
       [] name = "maxDegrees" -> line.text = Spaced(v)
       [] OTHER -> IF FIsFinite(v) THEN FClose(line.num, v, FDec("1e-5"), FDec("1e-300")) ELSE line.num = v
PrintedAll(obj, lines) == LET names == Order(obj.kind) IN Len(lines) = Len(names) /\ \A i \in 1..Len(names) : Printed(names[i], obj.f[names[i]], lines[i])

Step(e) ==
  CASE e.op = "reset" -> <<>>
    [] e.op = "onew" -> (e.k :> Obj(e.kind, Default(e.kind))) @@ o
    [] e.op = "oset" -> [o EXCEPT ![e.k].f[e.name] = e.v]
    [] e.op = "ocopy" -> (e.k :> o[e.b]) @@ o
    [] e.op = "ofile" -> (e.k :> o[e.b]) @@ o
    [] e.op = "opart" -> (e.k :> Obj(e.kind, Part(o[e.b].f, Order(e.kind)))) @@ o
    [] OTHER -> o
(* Two doubles are equal as numbers: 0 and -0 are. *)
SameValue(name, a, b) == IF name \in Int32 \cup Bool \cup Text \cup {"maxDegrees"} THEN a = b ELSE FEq(a, b)
SameObj(a, b) == \A n \in DOMAIN a.f : SameValue(n, a.f[n], b.f[n])
Reported(e) == IF ~Has(e, "all") THEN <<>> ELSE [k \in {e.all[i].k : i \in 1..Len(e.all)} |-> LET r == CHOOSE i \in 1..Len(e.all) : e.all[i].k = k IN Obj(e.all[r].kind, e.all[r].f)]
Checks(e) ==
  CASE e.op = "Crash" -> << <<"crash", FALSE>> >>
    [] OTHER -> << <<"options-state", Reported(e) = Step(e)>>,
                   <<"options-equality", e.op = "oeq" => e.eq = SameObj(o[e.a], o[e.b])>>,
                   <<"options-text", e.op = "ostr" => PrintedAll(o[e.k], e.lines)>>,
                   <<"options-repr", e.op = "ostr" => e.rep>> >>

Init == l = 1 /\ o = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Checks(E)))
        /\ o' = IF E.op = "Crash" THEN <<>> ELSE Reported(E)
Spec == Init /\ [][Next]_<<l, o>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
