----------------------------- MODULE HttpTrace -----------------------------
EXTENDS Http, TraceLib
VARIABLES i, bad
Init == i = 1 /\ bad = 0

Diff(got, want) == [extra |-> got \ want, missing |-> want \ got]

\* What came back: a failure of the service, or its answer as JSON.
AnswerStep(r) ==
  IF r.code # ""
  THEN Expect(r.status = FailStatus(r.path, r.code), "failure-status", <<r.path, r.code, r.status>>) \o
       Expect(r.ctype = "application/json" /\ \E l \in Range(r.out) : l[1] = ".error", "failure-body", <<r.path, r.out>>)
  ELSE LET want == Render(r.resp, "") got == Range(r.out) IN
       Expect(r.status = 200 /\ r.ctype = "application/json", "answer-status", <<r.path, r.status, r.ctype>>) \o
       Expect(r.status # 200 \/ got = want, "answer-json", <<r.path, Diff(got, want)>>)

Allow(r) == Expect(r.allow = r.cors, "cross-origin", <<r.path, r.allow, r.cors>>)

GetStep(r) ==
  LET e == EndpointAt(r.path) want == RequestOf(e, r.args)
  IN Allow(r) \o
     IF want = Bad
     THEN Expect(r.calls = <<>>, "malformed-query-called", <<r.target, r.calls>>) \o
          Expect(r.status = 400, "malformed-query-status", <<r.target, r.status>>)
     ELSE IF Len(r.calls) # 1
     THEN Expect(FALSE, "query-not-called", <<r.target, r.status, r.calls, r.out>>)
     ELSE LET c == r.calls[1] IN
          Expect(c.rpc = e.rpc, "called-procedure", <<r.path, c.rpc>>) \o
          Expect(Range(c.req) = want, "called-request", <<r.target, Diff(Range(c.req), want)>>) \o
          AnswerStep(r)

PostStep(r) ==
  LET e == EndpointAt(r.path)
      ok == r.sentType = "application/octet-stream" /\ r.form # "garbage"
  IN Allow(r) \o
     IF ~ok
     THEN Expect(r.calls = <<>> /\ r.status = 400, "malformed-body", <<r.path, r.sentType, r.form, r.status>>)
     ELSE IF Len(r.calls) # 1
     THEN Expect(FALSE, "body-not-called", <<r.path, r.status, r.form>>)
     ELSE LET c == r.calls[1] IN
          Expect(c.rpc = e.rpc, "called-procedure", <<r.path, c.rpc>>) \o
          Expect(Range(c.req) = Range(r.outer) \cup Range(r.inner), "called-request",
                 <<r.path, Diff(Range(c.req), Range(r.outer) \cup Range(r.inner))>>) \o
          Expect(r.path = "/v1/validateMessage" \/ c.auth = r.auth, "credentials", <<r.path, r.auth, c.auth>>) \o
          AnswerStep(r)

Off == {"false", "0"}
MeshStep(r) ==
  LET crawl == r.crawl \notin (Off \cup {""}) only == r.only \notin Off
      c == IF Len(r.calls) = 1 THEN r.calls[1] ELSE [rpc |-> "-", req |-> <<>>, auth |-> <<>>]
  IN Expect(r.allow = r.cors, "cross-origin", r) \o
     Expect(c.rpc = (IF crawl THEN "get_mesh_topology" ELSE "get_mesh_view"), "mesh-procedure", r) \o
     Expect(Range(c.req) = (IF only THEN {<<"validators_only", "true">>} ELSE {}), "mesh-request", r) \o
     Expect(c.auth = r.auth, "credentials", r) \o
     Expect(r.status = (IF r.code = "" THEN 200 ELSE IF r.code = "Unauthenticated" THEN 401 ELSE 500), "mesh-status", r) \o
     Expect(r.code # "" \/ r.ctype = (IF r.format = "ascii" THEN "text/plain; charset=utf-8" ELSE "application/json"), "mesh-format", r)

UnknownStep(r) == Expect(r.status = 404 /\ r.calls = <<>> /\ r.allow = r.cors, "unknown-path", r)

Step(r) ==
  CASE r.op = "get" -> GetStep(r)
    [] r.op = "post" -> PostStep(r)
    [] r.op = "mesh" -> MeshStep(r)
    [] r.op = "unknown" -> UnknownStep(r)

Next == /\ i <= Len(Trace)
        /\ LET z == Step(Trace[i]) IN
             /\ Report(i, z)
             /\ bad' = bad + Len(z)
             /\ i' = i + 1
             /\ (i = Len(Trace)) => Finish(i, bad + Len(z))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
