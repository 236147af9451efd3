------------------------------ MODULE CoeffMem ------------------------------
(* Who owns the memory an object's coefficients live in.  A memory m has      *)
(*   m.own  object id -> <<buffer, offset>>, buffer 0: no coefficients yet    *)
(*   m.buf  buffer id -> sequence of values; positive ids belong to the user  *)
(*   m.nb   the last internal buffer id (negative)                            *)
(* hh maps object ids to records with k, nc and, for containers, ch or g.     *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

(* Coefficient memory: who owns which buffer. *)
ValOf(hh, m, id) == IF hh[id].nc = 0 THEN <<>> ELSE LET w == m.own[id] IN SubSeq(m.buf[w[1]], w[2] + 1, w[2] + hh[id].nc)
IsSet(hh, m, id) == hh[id].nc = 0 \/ m.own[id][1] # 0
Fresh(m, v) == [m EXCEPT !.nb = m.nb - 1, !.buf = (m.nb - 1 :> v) @@ @]

(* Point an object, and through it its components, at a slice of a buffer. *)
RECURSIVE Wrap(_, _, _, _, _), WrapKids(_, _, _, _, _, _)
Wrap(hh, m, id, b, o) ==
  LET m1 == [m EXCEPT !.own = (id :> <<b, o>>) @@ @] IN
  CASE hh[id].k \in {"tri", "comp"} -> WrapKids(hh, m1, hh[id].ch, 1, b, o)
    [] hh[id].k = "sum" -> Wrap(hh, m1, hh[id].g, b, o)
    [] OTHER -> m1
WrapKids(hh, m, ch, i, b, o) == IF i > Len(ch) THEN m
   ELSE WrapKids(hh, Wrap(hh, m, ch[i], b, o), ch, i + 1, b, o + hh[ch[i]].nc)

Write(m, b, o, v) == [m EXCEPT !.buf = (b :> [i \in 1..Len(m.buf[b]) |-> IF i > o /\ i <= o + Len(v) THEN v[i - o] ELSE m.buf[b][i]]) @@ @]

(* Copying coefficients in: into the memory the object already looks at, or into new memory. *)
SetOp(hh, m, id, v) ==
  IF Len(v) # hh[id].nc THEN [ret |-> "invalid_argument", m |-> m]
  ELSE LET w == m.own[id] IN
       IF w[1] # 0 THEN [ret |-> "ok", m |-> Wrap(hh, Write(m, w[1], w[2], v), id, w[1], w[2])]
       ELSE LET m1 == Fresh(m, v) IN [ret |-> "ok", m |-> Wrap(hh, m1, id, m1.nb, 0)]
WrapOp(hh, m, id, b) ==
  IF Len(m.buf[b]) # hh[id].nc THEN [ret |-> "invalid_argument", m |-> m]
  ELSE [ret |-> "ok", m |-> Wrap(hh, m, id, b, 0)]
(* Moving the components' coefficients into the container. *)
MoveOp(hh, m, id) ==
  LET ch == hh[id].ch
      v == Cat([i \in 1..Len(ch) |-> ValOf(hh, m, ch[i])])
      m1 == Fresh(m, v)
  IN Wrap(hh, m1, id, m1.nb, 0)

=============================================================================
