------------------------------ MODULE BdaTrace ------------------------------
EXTENDS Bda, TraceBase
\* kind of chain under test: "avg"; "exp" (averaged, then expanded); "again"
\* (averaged, expanded, averaged again by the same rule)
StartSt(ev) == [ph |-> "idle"]

\* ---- averaging -----------------------------------------------------------
RECURSIVE StepB(_, _, _)
\* add slot ev to baselines b..n; returns the state with completed rows queued
StepB(z, ev, b) ==
  IF b > Len(z.m) THEN z
  ELSE LET s == Append(z.slots[b], ev)
       IN IF Len(s) = z.fac[b]
          THEN StepB([z EXCEPT !.slots[b] = <<>>, !.queue = Append(@, [b |-> b, s |-> s])], ev, b + 1)
          ELSE StepB([z EXCEPT !.slots[b] = s], ev, b + 1)
RECURSIVE Drain(_, _)
Drain(z, b) ==
  IF b > Len(z.m) THEN z
  ELSE IF z.slots[b] = <<>> THEN Drain(z, b + 1)
       ELSE Drain([z EXCEPT !.slots[b] = <<>>, !.queue = Append(@, [b |-> b, s |-> z.slots[b]])], b + 1)

RECURSIVE Rows(_, _)
Rows(out, k) == IF k = 0 THEN <<>> ELSE Rows(out, k - 1) \o out[k].rows
RowsOk(z, rows) ==
  /\ Len(rows) <= Len(z.queue)
  /\ \A k \in 1..Len(rows) :
       RowOk(z.queue[k].s, z.queue[k].b, z.m[z.queue[k].b], z.weighted, z.int, z.nr + k - 1, rows[k])
Later(s, k) == SubSeq(s, k + 1, Len(s))

\* buffers: requested sizes first; none holds more than its size, none goes
\* out early while the next row would have fitted
RECURSIVE NeedOf(_, _, _)
NeedOf(z, lo, hi) == IF lo > hi THEN 0 ELSE Size(z, z.queue[lo].b) + NeedOf(z, lo + 1, hi)
Cap(z, k, o) == IF k <= Len(z.req) THEN o.cap = z.req[k] ELSE o.cap >= MaxSize(z)
RECURSIVE BufsOk(_, _, _, _, _)
BufsOk(z, out, k, done, last) ==
  IF k > Len(out) THEN TRUE
  ELSE LET o == out[k]
           n == Len(o.rows)
       IN /\ o.k = "bda" /\ n > 0
          /\ o.names = z.names
          /\ o.n = NeedOf(z, done + 1, done + n) /\ o.n <= o.cap
          /\ Cap(z, k, o)
          /\ \/ o.n = o.cap
             \/ done + n < Len(z.queue) /\ o.n + Size(z, z.queue[done + n + 1].b) > o.cap
             \/ last /\ done + n = Len(z.queue)
          /\ BufsOk(z, out, k + 1, done + n, last)
AvgInfo(z, inf, o) ==
  /\ o.ntimeavgs = z.fac
  /\ o.freqs = [b \in 1..Len(z.m) |-> OutFreqs(inf, z.m[b])]
  /\ o.widths = [b \in 1..Len(z.m) |-> OutWidths(inf, z.m[b])]
  /\ o.ntime = inf.ntime /\ o.int = inf.interval /\ o.t0 = inf.t0
  /\ o.bw = 16 * Sum(inf.widths)
  /\ o.bdaint /\ o.ant1 = inf.ant1 /\ o.ant2 = inf.ant2
  /\ o.nchan = (CHOOSE x \in {z.m[b] : b \in 1..Len(z.m)} : \A y \in {z.m[b] : b \in 1..Len(z.m)} : y <= x)
  /\ o.ncorr = inf.ncorr

\* ---- expanding (of averaged data) ----------------------------------------
\* The slot with index k (from 0) shows, for each baseline, the row that
\* covers it; with weights shared equally over the samples the row stands for.
RowStart(ev, b, fac) == (ev \div fac) * fac
ExpSlotOk(z, k, o) ==
  LET all == z.hist                 \* every slot received, in order
      N == Len(all)
      np == z.nc
      n == z.n
  IN /\ o.k = "reg"
     /\ o.t = all[k].t
     /\ o.exp = z.int
     /\ \A b \in 1..Len(z.m) :
          LET s0 == (((k - 1) \div z.fac[b]) * z.fac[b]) + 1
              s1 == MinI(s0 + z.fac[b] - 1, N)
              slots == SubSeq(all, s0, s1)
              T == Len(slots)
              m == z.m[b]
          IN /\ \A x \in 1..3 : Is(o.uvw[b][x], Sum([j \in 1..T |-> slots[j].uvw[b][x]]), T)
             /\ \A c \in 1..n : \A p \in 1..np :
                  LET co == CHOOSE q \in 1..m : Lo(q, m, n) <= c /\ c <= Hi(q, m, n)
                      u == Use(BSamples(slots, 1, b, co, p, m), z.weighted)
                      ww == Weight(u)
                      share == T * (Hi(co, m, n) - Lo(co, m, n) + 1)
                  IN /\ o.f[b][c][p] = 0
                     /\ Is(o.w[b][c][p], ww, share)
                     /\ IF ww = 0 THEN o.d[1][b][c][p] = <<0, 0>>
                        ELSE Is(o.d[1][b][c][p][1], WRe(u), ww) /\ Is(o.d[1][b][c][p][2], WIm(u), ww)
ExpInfo(z, inf, o) ==
  /\ o.freqs = <<[c \in 1..Len(inf.freqs) |-> 16 * inf.freqs[c]]>>
  /\ o.widths = <<[c \in 1..Len(inf.freqs) |-> 16 * inf.widths[c]]>>
  /\ o.bw = 16 * Sum(inf.widths) /\ o.nchan = Len(inf.freqs)
  /\ o.ntime = inf.ntime /\ o.int = inf.interval /\ o.t0 = inf.t0
  /\ o.ant1 = inf.ant1 /\ o.ant2 = inf.ant2

\* ---- expanding rows given directly ---------------------------------------
\* output channel c of mm shows the input channel (of m) its centre lies in
Covering(c, m, mm, n) == CHOOSE q \in 1..m : /\ (Lo(q, m, n) - 1) * 2 * mm <= (2 * c - 1) * n
                                             /\ (2 * c - 1) * n < Hi(q, m, n) * 2 * mm
CoverRow(z, b, k) == {x \in 1..Len(z.rows) : LET w == z.rows[x] IN
                        /\ w.bl = b
                        /\ 2 * w.t - w.int <= 2 * (z.t0 + k * z.int)
                        /\ 2 * (z.t0 + k * z.int) < 2 * w.t + w.int}
Complete(z, k) == \A b \in 1..Len(z.m) : CoverRow(z, b, k) # {}
RECURSIVE Leading(_, _)
Leading(z, k) == IF Complete(z, k) THEN Leading(z, k + 1) ELSE k
RawSlotOk(z, k, o) ==
  LET mm == CHOOSE x \in {z.m[b] : b \in 1..Len(z.m)} : \A y \in {z.m[b] : b \in 1..Len(z.m)} : y <= x
  IN /\ o.k = "reg" /\ o.t = z.t0 + k * z.int /\ o.exp = z.int
     /\ \A b \in 1..Len(z.m) :
          LET w == z.rows[CHOOSE x \in CoverRow(z, b, k) : TRUE]
              T == w.int \div z.int
          IN /\ \A x \in 1..3 : o.uvw[b][x] = Scale * w.uvw[x]
             /\ Len(o.w[b]) = mm
             /\ \A c \in 1..mm :
                  LET q == Covering(c, z.m[b], mm, z.n)
                      share == T * Cardinality({c2 \in 1..mm : Covering(c2, z.m[b], mm, z.n) = q})
                  IN \A p \in 1..z.nc :
                       /\ o.d[1][b][c][p] = <<Scale * w.d[q][p][1], Scale * w.d[q][p][2]>>
                       /\ o.f[b][c][p] = w.f[q][p]
                       /\ Is(o.w[b][c][p], w.w[q][p], share)
RawInfo(z, inf, mm, o) ==
  LET bw == Sum(inf.widths)
  IN /\ o.nchan = mm /\ o.bw = 16 * bw
     /\ Len(o.freqs) = 1 /\ Len(o.freqs[1]) = mm
     /\ \A c \in 1..mm : /\ AbsI(o.widths[1][c] * mm - 16 * bw) <= mm
                         /\ AbsI((o.freqs[1][c] - 16 * inf.freqs[1] + 8 * inf.widths[1]) * 2 * mm - 16 * bw * (2 * c - 1)) <= 2 * mm

Judge(z, ev) ==
  CASE ev.op = "make" /\ ev.kind = "rows" ->
         LET z0 == [ph |-> "on", kind |-> "rows", fac |-> ev.info.bda.fac, m |-> ev.info.bda.m, t0 |-> ev.info.t0, int |-> ev.info.interval,
                    n |-> Len(ev.info.freqs), nc |-> ev.info.ncorr, rows |-> <<>>, sent |-> 0]
             M == {z0.m[b] : b \in 1..Len(z0.m)}
         IN IF ~ev.info.bda.integer THEN <<ev.res = "err", [ph |-> "idle"]>>
            ELSE <<ev.res = "ok" /\ RawInfo(z0, ev.info, CHOOSE x \in M : \A y \in M : y <= x, ev.out), z0>>
    [] ev.op = "bda" ->
         LET z1 == [z EXCEPT !.rows = z.rows \o ev.rows]
             to == Leading(z1, z.sent)
         IN <<ev.res = "ok" /\ ev.fin = 0 /\ Len(ev.out) = to - z.sent
              /\ \A k \in 1..Len(ev.out) : RawSlotOk(z1, z.sent + k - 1, ev.out[k]),
              [z1 EXCEPT !.sent = to]>>
    [] ev.op = "finish" /\ z.ph = "on" /\ z.kind = "rows" -> <<ev.res = "ok" /\ ev.fin = 1 /\ ev.out = <<>>, z>>
    [] ev.op = "make" /\ ev.kind # "rows" ->
         LET z0 == [ph |-> "on", kind |-> ev.kind, fac |-> Facs(ev.cfg, ev.info), m |-> Chans(ev.cfg, ev.info),
                    slots |-> [b \in 1..Len(ev.info.ant1) |-> <<>>], queue |-> <<>>, nr |-> 0,
                    int |-> ev.info.interval, weighted |-> ev.cfg.weighted, nc |-> ev.info.ncorr,
                    n |-> Len(ev.info.freqs), req |-> ev.cfg.req, names |-> ev.names, hist |-> <<>>, sent |-> 0]
         IN <<ev.res = "ok" /\ (IF ev.kind = "exp" THEN ExpInfo(z0, ev.info, ev.out) ELSE AvgInfo(z0, ev.info, ev.out)), z0>>
    [] ev.op \in {"buf", "finish"} /\ z.kind \in {"avg", "again"} ->
         LET last == ev.op = "finish"
             z1 == IF last THEN Drain(z, 1) ELSE StepB(z, ev, 1)
             rows == Rows(ev.out, Len(ev.out))
         IN <<ev.res = "ok" /\ ev.fin = (IF last THEN 1 ELSE 0)
              /\ RowsOk(z1, rows)
              /\ (last => Len(rows) = Len(z1.queue))
              /\ (z.kind = "avg" => BufsOk(z1, ev.out, 1, 0, last)),
              [z1 EXCEPT !.queue = Later(z1.queue, Len(rows)), !.nr = z1.nr + Len(rows),
                         !.req = Later(z1.req, MinI(Len(z1.req), Len(ev.out)))]>>
    [] ev.op = "buf" /\ z.kind = "exp" ->
         LET h == Append(z.hist, ev)
         IN \* what has come out must be complete: judged at the end, as a row
            \* may have been cut short only by the end
            <<ev.res = "ok" /\ ev.fin = 0 /\ z.sent + Len(ev.out) <= Len(h)
              /\ \A k \in 1..Len(ev.out) : ExpSlotOk([z EXCEPT !.hist = h], z.sent + k, ev.out[k]),
              [z EXCEPT !.hist = h, !.sent = z.sent + Len(ev.out)]>>
    [] ev.op = "finish" /\ z.kind = "exp" ->
         <<ev.res = "ok" /\ ev.fin = 1 /\ z.sent + Len(ev.out) = Len(z.hist)
           /\ \A k \in 1..Len(ev.out) : ExpSlotOk(z, z.sent + k, ev.out[k]), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
