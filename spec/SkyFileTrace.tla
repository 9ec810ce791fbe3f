---------------------------- MODULE SkyFileTrace ----------------------------
EXTENDS SkyFile, TraceBase, Sky
StartSt(ev) == [m |-> Empty, pats |-> <<>>]

Near(a, b, d) == Abs(a - b) <= d
Same(n, d, turn) == LET x == Abs(n - d) % turn IN x <= 400 \/ turn - x <= 400
SourceIs(o, s) ==
  /\ o.name = s.name /\ o.type = s.type /\ o.ref = s.ref /\ o.patch = s.patch
  /\ Near(o.ra, s.ra, 2) /\ Near(o.dec, s.dec, 2)
  /\ <<o.I, o.Q, o.U, o.V>> = <<s.I, s.Q, s.U, s.V>>
  /\ <<o.maj, o.min, o.ori>> = <<s.maj, s.min, s.ori>> /\ o.abs = s.abs
  /\ (s.frac = -1 \/ Near(o.frac, s.frac, 2 + Abs(s.frac) \div 100000)) /\ Same(o.ang, s.ang, HalfTurn) /\ o.rm = s.rm
  /\ o.terms = s.terms /\ o.log = s.log /\ o.freq = s.freq /\ o.useRM = s.useRM
SourcesAre(os, ss) == Len(os) = Len(ss) /\ \A k \in 1..Len(ss) : SourceIs(os[k], ss[k])

\* positions on a grid of 5 degrees have sines from the table
Step == 180000
OnGrid(s) == s.ra % Step = 0 /\ s.dec % Step = 0
Scale(ms) == IF \E k \in 1..Len(ms) : Abs(ms[k].I) > 20000 THEN 10 ELSE 1
Weighted(ms) ==
  [c \in 1..3 |-> SumSeq([k \in 1..Len(ms) |-> (ms[k].I \div Scale(ms)) * Unit(ms[k].ra \div Step, ms[k].dec \div Step)[c]])]
Along(m, d) ==
  LET big == Abs(m[1]) + Abs(m[2]) + Abs(m[3])
      q == (big \div 10000) + 1
      n == [c \in 1..3 |-> m[c] \div q]
      x == Cross(n, d)
  IN Dot(n, d) > 0 /\ \A k \in 1..3 : Abs(x[k]) <= 200000
MeanOk(ms, o) ==
  LET total == SumSeq([k \in 1..Len(ms) |-> ms[k].I])
      size == SumSeq([k \in 1..Len(ms) |-> Abs(ms[k].I)])
      w == Weighted(ms)
      m == IF total < 0 THEN [c \in 1..3 |-> -w[c]] ELSE w
  IN IF \A k \in 1..Len(ms) : ms[k].ra = ms[1].ra /\ ms[k].dec = ms[1].dec
     THEN Same(o.ra, ms[1].ra, 12960000) /\ Near(o.dec, ms[1].dec, 2)
     ELSE IF (\A k \in 1..Len(ms) : OnGrid(ms[k])) /\ Size1(m) > 3000 * (size \div Scale(ms)) /\ 5 * Abs(total) > size
          THEN Along(m, o.u)
     ELSE o.u # <<99999, 99999, 99999>>
PatchIs(m, o, p) ==
  LET ms == IF p.name \in m.groups THEN Members(m, p.name) ELSE <<>>
      total == SumSeq([k \in 1..Len(ms) |-> ms[k].I])
  IN /\ o.name = p.name /\ o.cat = p.cat
     /\ IF total # 0 THEN o.flux = total /\ MeanOk(ms, o)
        ELSE o.flux = p.flux /\ Near(o.ra, p.ra, 2) /\ Near(o.dec, p.dec, 2)
PatchesAre(m, os) == Len(os) = Len(m.pats) /\ \A k \in 1..Len(os) : PatchIs(m, os[k], m.pats[k])
ReadOk(m, ev) == /\ ev.err = ~m.ok
                 /\ m.ok => SourcesAre(ev.srcs, m.srcs) /\ PatchesAre(m, ev.pats) /\ ev.names = Names(m)

PatOf(z, n) == CHOOSE k \in 1..Len(z.pats) : z.pats[k].name = n
MadeOk(z, ev) ==
  LET ns == ev.chosen
      bad == ev.how # "all" /\ \E k \in 1..Len(ev.names) : ev.names[k] = <<>>
  IN IF bad THEN ev.err
     ELSE /\ ns = (IF ev.how = "all" THEN Names(z.m) ELSE IF ev.how = "list" THEN ev.names ELSE Chosen(z.m, ev.names))
          /\ ev.polarized = Polarized(z.m, ns) /\ ev.absolute = Absolute(z.m, ns)
          /\ ev.err = ~Makeable(z.m, ns)
          /\ ~ev.err =>
             /\ Len(ev.out) = Len(ns)
             /\ \A k \in 1..Len(ns) :
                  LET o == ev.out[k] p == z.pats[PatOf(z, ns[k])] ms == Members(z.m, ns[k]) IN
                  /\ o.name = ns[k] /\ o.ra = p.ra /\ o.dec = p.dec /\ o.flux = p.flux /\ o.index = k - 1
                  /\ Len(o.comps) = Len(ms)
                  /\ \A j \in 1..Len(ms) :
                       LET c == o.comps[j] s == ms[j] IN
                       /\ Near(c.ra, s.ra, 2) /\ Near(c.dec, s.dec, 2) /\ c.gauss = (s.type = 2)
                       /\ c.I = s.I
                       /\ c.gauss => /\ Near(c.maj, s.maj, 1) /\ Near(c.min, s.min, 1) /\ Near(c.ori, s.ori, 1) /\ c.abs = s.abs
             \* every component once, with its patch
             /\ ev.pairs = Concat([k \in 1..Len(ns) |-> [j \in 1..Len(ev.out[k].comps) |-> <<k - 1, j - 1>>]])
             /\ Len(ev.each) = Len(ev.pairs)
             /\ \A k \in 1..Len(ev.each) :
                  LET o == ev.out[ev.pairs[k][1] + 1] c == o.comps[ev.pairs[k][2] + 1] e == ev.each[k] IN
                  /\ e.name = o.name \o <<95>> \o NatText(ev.pairs[k][2])
                  /\ e.pair = ev.pairs[k] /\ e.ra = c.ra /\ e.dec = c.dec
\* the first component that is in no group yet starts a group, and takes all
\* others within the limit
RECURSIVE Lead(_, _, _)
Lead(us, left, c) ==
  IF left = <<>> THEN <<>>
  ELSE LET f == Head(left)
           near(k) == k = f \/ Dot(us[f], us[k]) \div 10000 > c
       IN <<SelectSeq(left, near)>> \o Lead(us, SelectSeq(left, LAMBDA k : ~near(k)), c)
ClusterOk(z, ev) ==
  LET all == ev.comps     \* <<patch name, ra, dec>> in order
      us == [k \in 1..Len(all) |-> Unit(all[k][2] \div Step, all[k][3] \div Step)]
      gs == Lead(us, [k \in 1..Len(all) |-> k], ev.cos)
      near(a, b) == Abs(a - b) <= 20
  IN (\A k \in 1..Len(all) : all[k][2] % Step = 0 /\ all[k][3] % Step = 0) =>
       /\ Len(ev.groups) = Len(gs)
       /\ \A k \in 1..Len(gs) :
            /\ ev.groups[k].members = [j \in 1..Len(gs[k]) |-> gs[k][j] - 1]
            /\ ev.groups[k].name = all[gs[k][1]][1] \o <<95>> \o NatText(k - 1)
            /\ PatchDirection([j \in 1..Len(gs[k]) |-> <<all[gs[k][j]][2] \div Step, all[gs[k][j]][3] \div Step>>], ev.groups[k].u)
PlainText(t) == \A k \in 1..Len(t) : IsNameCh(t[k]) \/ t[k] \in {DOT, MINUS}
\* what is written and read again; only what the written form holds
AgainOk(z, ev) ==
  LET plain == \A k \in 1..Len(z.m.srcs) : z.m.srcs[k].ref = J2000 /\ z.m.srcs[k].type \in {1, 2}
                                       /\ PlainText(z.m.srcs[k].name) /\ PlainText(z.m.srcs[k].patch) IN
  plain => /\ ~ev.err
           /\ Len(ev.srcs) = Len(z.m.srcs)
           /\ \A k \in 1..Len(ev.srcs) :
                LET o == ev.srcs[k] s == z.m.srcs[k] IN
                /\ o.name = s.name /\ o.type = s.type /\ o.patch = s.patch
                /\ Near(o.ra, s.ra, 2) /\ Near(o.dec, s.dec, 2) /\ o.I = s.I
                /\ o.terms = s.terms /\ o.log = s.log /\ o.freq = s.freq
                /\ <<o.maj, o.min, o.ori>> = <<s.maj, s.min, s.ori>> /\ (s.type = 2 => o.abs = s.abs)
Judge(z, ev) ==
  CASE ev.op = "read" ->
         LET m == Reading(IF ev.given THEN ev.format ELSE FormatIn(LinesOf(ev.text, 1)), ev.text)
         IN <<ReadOk(m, ev), [m |-> IF m.ok THEN m ELSE Empty, pats |-> ev.pats]>>
    [] ev.op = "find" -> <<ev.out = Found(z.m, ev.pattern), z>>
    [] ev.op = "make" -> <<MadeOk(z, ev), z>>
    [] ev.op = "cluster" -> <<ClusterOk(z, ev), z>>
    [] ev.op = "again" -> <<AgainOk(z, ev), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
