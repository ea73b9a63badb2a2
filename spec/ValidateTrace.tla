--------------------------- MODULE ValidateTrace ---------------------------
(* Verdicts of the real validation functions against Validate.tla *)
EXTENDS Validate, TraceLib
VARIABLES i, bad

Verdict(r) ==
  CASE r.op = "msg"  -> Broken(r)
    [] r.op = "body" -> BodyB(r)
    [] r.op = "reset" -> {}
\* a chain number beyond 16 bits is cut to 16 bits before it is checked
Cut(r) == r.op = "msg" /\ r.body.k = "verif_add" /\ r.body.proto = 0 /\ r.body.cut /\ r.body.low \in EvmChains
Errs(r) ==
  IF r.op = "reset" THEN <<>>
  ELSE IF r.op = "contract" THEN Expect(ContractAsked(r), "contract-asked-wrongly", r) \o Expect((r.res = "ok") = ContractOk(r), "contract-verdict", r)
  ELSE IF r.op = "fname" THEN Expect((r.res = "ok") = FnameOk(r), "fname-verdict", r)
  ELSE IF r.op = "recover" THEN Expect(r.is = r.same, "custody-signature", r)
  ELSE IF r.op = "request" THEN Expect((r.res = "ok") = RequestOk(r) /\ r.is = (r.res = "ok"), "key-request", r)
  ELSE LET b == Verdict(r) IN
       IF Judged(b, r.res) THEN <<>>
       ELSE IF Cut(r) /\ Judged(b \ {{"InvalidData"}}, r.res)
       THEN <<[kind |-> "KNOWN-chain-id-cut-to-16-bits", detail |-> r]>>
       ELSE IF r.res = "ok" /\ b = {UserErrors} /\ r.body.k = "user_data" /\ r.body.ty = 9 /\ GithubOk(WithAsciiDigits(r.body.val))
       THEN <<[kind |-> "KNOWN-github-name-with-unicode-digits", detail |-> r]>>
       ELSE <<[kind |-> IF b = {} THEN "refused-a-valid-message" ELSE IF r.res = "ok" THEN "accepted-an-invalid-message" ELSE "wrong-reason",
               detail |-> [rec |-> r, broken |-> b]]>>
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e)
              /\ (i + 1 = Len(Trace) => Finish(i + 1, bad'))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
