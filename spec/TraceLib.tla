------------------------------ MODULE TraceLib ------------------------------
(* Shared scaffolding of the conformance modules: a recorded trace is folded over
   the specification one record per step.  Each step yields a new specification state
   and a list of complaints; complaints are printed as
       <<"COMPLAINT", index, kind, detail>>
   and the run ends with <<"TRACE-END", records, complaints>>.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Range(f) == {f[i] : i \in DOMAIN f}
Has(r, k) == k \in DOMAIN r
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* complaint list from a condition
Expect(ok, kind, detail) == IF ok THEN <<>> ELSE <<[kind |-> kind, detail |-> detail]>>
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
RECURSIVE FoldSeq(_, _, _)
FoldSeq(Op(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldSeq(Op, Op(acc, Head(s)), Tail(s))
Flat(ss) == FoldSeq(LAMBDA a, b : a \o b, <<>>, ss)
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)

Report(i, errs) == \A k \in 1..Len(errs) : PrintT(<<"COMPLAINT", i, errs[k].kind, ToJson(errs[k].detail)>>)
Finish(n, bad) == PrintT(<<"TRACE-END", n, bad>>)
=============================================================================
