--------------------------- MODULE LinSolveTrace ---------------------------
EXTENDS LinSolve, TraceBase
StartSt(ev) == [kind |-> ev.kind, m |-> ev.m, n |-> ev.n, nrhs |-> ev.nrhs]
Judge(z, ev) ==
  CASE ev.op = "parse" ->
         <<ev.res = IF ev.name \in {"qr", "QR", "Qr"} THEN "qr"
                    ELSE IF ev.name \in {"svd", "SVD", "Svd"} THEN "svd"
                    ELSE IF ev.name \in {"normalequations", "NormalEquations", "NORMALEQUATIONS"} THEN "ne"
                    ELSE "err", z>>
    [] ev.op = "solve" ->
         LET m == z.m  n == z.n  ld == IF m > n THEN m ELSE n
             bcol(p) == SubSeq(ev.b, (p - 1) * ld + 1, (p - 1) * ld + m)
             xcol(p, s) == SubSeq(ev.x, (p - 1) * s + 1, (p - 1) * s + n)
             good(s) == \A p \in 1..z.nrhs : Orthogonal(ev.a, m, n, bcol(p), xcol(p, s))
         IN <<IF m < n THEN (z.kind = "qr" => ~ev.ok)
              ELSE IF HasZeroColumn(ev.a, m, n) THEN (z.kind = "svd" \/ ~ev.ok \/ good(ld)
                                                           \/ (z.kind = "ne" /\ good(n)))
              ELSE ev.ok /\ (IF z.kind = "ne" THEN good(n) \/ good(ld) ELSE good(ld)), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
