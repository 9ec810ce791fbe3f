--------------------------- MODULE FlaggingTrace ---------------------------
EXTENDS Flagging, TraceBase

StartSt(ev) == [tod0 |-> ev.tod0, up |-> FALSE, kind |-> "", set |-> <<>>, inf |-> <<>>, blc |-> <<>>, chc |-> <<>>, nt |-> 0, rep |-> <<>>]

Unchanged(ev, o) == /\ o.k = "reg" /\ o.t = ev.t /\ o.exp = ev.exp /\ o.names = ev.names
                    /\ o.w = [b \in DOMAIN ev.w |-> [c \in DOMAIN ev.w[b] |-> [p \in DOMAIN ev.w[b][c] |-> 4096 * ev.w[b][c][p]]]]
                    /\ o.uvw = [b \in DOMAIN ev.uvw |-> [k \in 1..3 |-> 4096 * ev.uvw[b][k]]]
                    /\ \A b \in DOMAIN ev.f : \A c \in DOMAIN ev.f[b] : \A p \in DOMAIN ev.f[b][c] : \A k \in 1..2 :
                         IF ev.d[1][b][c][p][k] >= 7777 THEN o.d[1][b][c][p][k] = 1000000000
                         ELSE o.d[1][b][c][p][k] = 4096 * ev.d[1][b][c][p][k]
                    /\ Len(o.f) = Len(ev.f)
                    /\ \A b \in DOMAIN ev.f : Len(o.f[b]) = Len(ev.f[b])
                    /\ \A b \in DOMAIN ev.f : \A c \in DOMAIN ev.f[b] : Len(o.f[b][c]) = Len(ev.f[b][c])

Invalid(ev, b, c) == \E p \in DOMAIN ev.w[b][c] : ev.w[b][c][p] = 0 \/ ev.d[1][b][c][p][1] >= 7777 \/ ev.d[1][b][c][p][2] >= 7777
\* the selection and the permitted new flags for each kind of step
UvwOf(z, ev, b) == IF z.set.centre = <<>> THEN ev.uvw[b]
                   ELSE LET q == ((z.tod0 + ev.t) \div 21600000) % 4
                            l == IF z.set.centre[1] = "sun" THEN 2 * q ELSE z.set.centre[2] IN
                        Towards(z.inf.pos[z.inf.ant1[b] + 1], z.inf.pos[z.inf.ant2[b] + 1], q, l, z.set.centre[3])
Allowed(z, ev, b, c) ==
  LET old == ev.f[b][c][1] = 1 IN
  CASE z.kind = "uvw" -> {old \/ UvwSel(z.set.m, z.set.l, UvwOf(z, ev, b), 2 * z.inf.freqs[c])}
    [] z.kind = "pre" -> NewFlags(z.set.mode, Sel(z.set, z.inf, z.tod0, z.nt, ev, b, c), old, Invalid(ev, b, c))
    [] z.kind = "counter" -> {old}
\* counted: what changed (flaggers) or what is flagged (counter)
Cnt(z, ev, o, b, c) ==
  IF z.kind = "counter" THEN ev.f[b][c][1] ELSE IF ev.f[b][c][1] # o.f[b][c][1] THEN 1 ELSE 0
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE f[n] + Total(f, n - 1)

JBuf(z, ev) ==
  LET o == ev.out[1]
      good == /\ ev.res = "ok" /\ ev.fin = 0 /\ Len(ev.out) = 1
              /\ Unchanged(ev, o)
              /\ \A b \in DOMAIN ev.f : \A c \in DOMAIN ev.f[b] :
                   LET al == Allowed(z, ev, b, c) IN
                   /\ (o.f[b][c][1] = 1) \in al
                   /\ \A p \in DOMAIN o.f[b][c] : o.f[b][c][p] = o.f[b][c][1]
      nc == Len(z.inf.freqs)
      nz == IF ~ good THEN z
            ELSE [z EXCEPT !.nt = @ + 1,
                    !.blc = [b \in DOMAIN @ |-> @[b] + Total([c \in 1..nc |-> Cnt(z, ev, o, b, c)], nc)],
                    !.chc = [c \in DOMAIN @ |-> @[c] + Total([b \in 1..Len(z.inf.ant1) |-> Cnt(z, ev, o, b, c)], Len(z.inf.ant1))]]
  IN <<good, nz>>

\* baseline-dependent rows (uvw flagging): channel c of m of a baseline
BdaF2(inf, m, c) == LET n == Len(inf.freqs) IN inf.freqs[((c - 1) * n) \div m + 1] + inf.freqs[(c * n) \div m]
RowFlag(z, r, c) ==
  LET u == IF z.set.centre = <<>> THEN r.uvw
           ELSE LET q == ((z.tod0 + r.t) \div 21600000) % 4
                    l == IF z.set.centre[1] = "sun" THEN 2 * q ELSE z.set.centre[2] IN
                Towards(z.inf.pos[z.inf.ant1[r.bl] + 1], z.inf.pos[z.inf.ant2[r.bl] + 1], q, l, z.set.centre[3]) IN
  r.f[c][1] = 1 \/ UvwSel(z.set.m, z.set.l, u, BdaF2(z.inf, z.inf.bda.m[r.bl], c))
RECURSIVE RowCnt(_, _, _, _, _)
RowCnt(ev, k, b, c, acc) ==     \* c = 0: all channels; b = 0: all baselines
  IF k > Len(ev.rows) THEN acc
  ELSE LET r == ev.rows[k]  o == ev.out[1].rows[k]
           n == IF (b # 0 /\ r.bl # b) THEN 0
                ELSE Cardinality({x \in DOMAIN r.f : (c = 0 \/ x = c) /\ r.f[x][1] # o.f[x][1]})
       IN RowCnt(ev, k + 1, b, c, acc + n)
JBda(z, ev) ==
  LET o == ev.out[1]
      good == /\ ev.res = "ok" /\ ev.fin = 0 /\ Len(ev.out) = 1 /\ o.k = "bda" /\ Len(o.rows) = Len(ev.rows)
              /\ \A k \in DOMAIN ev.rows : LET r == ev.rows[k]  q == o.rows[k] IN
                   /\ q.t = r.t /\ q.int = r.int /\ q.exp = r.exp /\ q.bl = r.bl
                   /\ q.nch = Len(r.f) /\ q.nc = Len(r.f[1])
                   /\ \A x \in 1..3 : q.uvw[x] = 4096 * r.uvw[x]
                   /\ \A c \in DOMAIN r.f : \A p \in DOMAIN r.f[c] :
                        /\ q.f[c][p] = (IF RowFlag(z, r, c) THEN 1 ELSE 0)
                        /\ q.w[c][p] = 4096 * r.w[c][p]
                        /\ q.d[1][c][p] = <<4096 * r.d[c][p][1], 4096 * r.d[c][p][2]>>
      nz == IF ~ good THEN z
            ELSE [z EXCEPT !.nt = @ + 1,
                    !.blc = [b \in DOMAIN @ |-> @[b] + RowCnt(ev, 1, b, 0, 0)],
                    !.chc = [c \in DOMAIN @ |-> @[c] + RowCnt(ev, 1, 0, c, 0)]]
  IN <<good, nz>>

\* the report
Near(x, n, d) == LET e == 100000 * n - x * d IN e <= d /\ 0 - e <= d
Mille(x, n, d) == LET e == 1000 * n - x * d IN 2 * e <= d /\ 0 - d <= 2 * e
TableOk(z, ts) ==
  LET nm == z.rep.dir \o "/" \o z.rep.base \o "_" \o z.rep.step
      np == z.nt * Len(z.chc)  nb == z.nt * Len(z.blc) IN
  IF z.rep.save = 0 \/ np = 0 \/ nb = 0 THEN z.rep.save = 1 \/ Len(ts) = 0
  ELSE /\ Len(ts) = 2
       /\ \E k \in 1..2 : LET q == ts[k] IN
            /\ q.name = nm \o ".flagstat" /\ q.rows = Cardinality(Used(z.inf)) /\ Len(q.st) = q.rows
            /\ Rg(q.st) = Used(z.inf)
            /\ \A x \in DOMAIN q.st : LET W == BlWith(z.inf, q.st[x]) IN
                 /\ Near(q.perc[x], SumOver(z.blc, W), Cardinality(W) * np)
                 /\ q.nm[x] = z.inf.names[q.st[x] + 1]
       /\ \E k \in 1..2 : LET q == ts[k] IN
            /\ q.name = nm \o ".flagfreq" /\ q.rows = Len(z.chc) /\ Len(q.perc) = q.rows
            /\ \A x \in DOMAIN q.perc : Near(q.perc[x], z.chc[x], nb)
            /\ q.fr = z.inf.freqs
ReportOk(z, r) ==
  LET np == z.nt * Len(z.chc)  nb == z.nt * Len(z.blc)
      tot == Total(z.chc, Len(z.chc)) IN
  IF np = 0 \/ nb = 0 THEN Len(r.cells) = 0 /\ Len(r.chans) = 0 /\ Len(r.totals) = 0
  ELSE /\ Rg(r.cells) = Cells(z.inf, z.blc, np)
       /\ Rg(r.totals) = AntPerc(z.inf, z.blc, np)
       /\ r.chans = [c \in DOMAIN z.chc |-> Perc(z.chc[c], nb)]
       /\ r.total = <<Perc3(tot, nb * Len(z.chc)), tot, nb * Len(z.chc)>>
       /\ {x[1] : x \in Rg(r.nst)} = IF z.rep.warn = 0 THEN {} ELSE NoteAnt(z.inf, z.blc, np, z.rep.warn)
       /\ \A x \in Rg(r.nst) : LET W == BlWith(z.inf, x[1]) IN Mille(x[2], SumOver(z.blc, W), Cardinality(W) * np)
       /\ {x[1] : x \in Rg(r.nch)} = IF z.rep.warn = 0 THEN {} ELSE {c \in 0..Len(z.chc) - 1 : 100 * z.chc[c + 1] >= z.rep.warn * nb}
       /\ \A x \in Rg(r.nch) : Mille(x[2], z.chc[x[1] + 1], nb)
       /\ Rg(r.full) = IF z.rep.full = 0 THEN {} ELSE Full(z.inf, z.blc, np)
JCounts(z, ev) ==
  LET r == ev.rep
      np == z.nt * Len(z.chc)
      silent == z.kind = "uvw" /\ z.set.none = 1
      good == IF silent THEN Len(r.cells) = 0 /\ Len(r.chans) = 0
              ELSE /\ ReportOk(z, r)
                   /\ TableOk(z, r.tables)
                   /\ ("st" \in DOMAIN r) =>
                        /\ Len(r.st) = Len(z.inf.names)
                        /\ \A x \in DOMAIN r.st : LET W == BlWith(z.inf, x - 1) IN
                             /\ r.st[x][1] = z.inf.names[x]
                             /\ IF W = {} \/ np = 0 THEN r.st[x][2] = 0
                                ELSE Near(r.st[x][2], SumOver(z.blc, W), Cardinality(W) * np)
  IN <<good, z>>

\* two counters, their sum, and the report per correlation
JFc(z, ev) ==
  LET n(kind, k) == Total([x \in 1..Len(ev.inc) |-> IF ev.inc[x][1] = kind /\ ev.inc[x][2] = k THEN ev.inc[x][3] ELSE 0], Len(ev.inc))
      nb == Len(ev.info.ant1)  nc == Len(ev.info.freqs)  np == ev.info.ncorr
      w == [z EXCEPT !.inf = ev.info, !.blc = [b \in 1..nb |-> n("b", b)], !.chc = [c \in 1..nc |-> n("c", c)],
                     !.nt = ev.nt, !.rep = [warn |-> 0, full |-> 0, save |-> 0]]
      all == ev.nt * nb * nc
      d == IF all = 0 THEN 1 ELSE all
  IN <<ReportOk(w, ev.rep) /\ ev.corr.n = [p \in 1..np |-> n("p", p)] /\ ev.corr.d = d
       /\ ev.corr.perc = [p \in 1..np |-> (200 * n("p", p) + d) \div (2 * d)], z>>

Judge(z, ev) ==
  CASE ev.op = "make" ->
         IF ev.set.bad = 1 THEN <<ev.res = "err", z>>
         ELSE <<ev.res = "ok", [z EXCEPT !.up = TRUE, !.kind = ev.set.kind, !.set = ev.set, !.inf = ev.info, !.nt = 0, !.rep = ev.set.rep,
                                !.blc = [b \in 1..Len(ev.info.ant1) |-> 0], !.chc = [c \in 1..Len(ev.info.freqs) |-> 0]]>>
    [] ev.op = "buf" -> JBuf(z, ev)
    [] ev.op = "bda" -> JBda(z, ev)
    [] ev.op = "counts" -> JCounts(z, ev)
    [] ev.op = "fc" -> JFc(z, ev)
    [] ev.op = "finish" -> <<ev.fin = 1 /\ Len(ev.out) = 0, z>>

TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
