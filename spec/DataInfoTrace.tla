---------------------------- MODULE DataInfoTrace ----------------------------
EXTENDS DataInfo, TraceBase
\* fr and ref are kept multiplied by 16 so that
\* repeated averaging stays whole (the generator keeps factors to 16)
StartSt(ev) == [d |-> Blank(0, 0, ""), khz |-> ev.khz]
Up(s) == [k \in 1..Len(s) |-> 16 * s[k]]
UpUp(s) == [k \in 1..Len(s) |-> Up(s[k])]
Shows(z, o) ==
  LET d == z.d IN
  /\ o.ncorr = d.ncorr /\ o.orignchan = d.orig /\ o.nchan = d.nchan /\ o.startchan = d.start /\ o.set = d.set
  /\ o.nchanavg = d.ca /\ o.ntimeavgs = d.ta /\ o.meta = d.meta
  /\ (d.timed => o.t0 = d.t0 /\ o.t1 = d.t1 /\ o.int = d.int /\ o.ntime = d.nt /\ 2 * o.start = 2 * d.t0 - d.int)
  /\ Len(o.freqs) = Len(d.fr)
  /\ \A b \in 1..Len(d.fr) : o.freqs[b] = d.fr[b]
  /\ o.widths = UpUp(d.wi) /\ o.res = UpUp(d.re) /\ o.ebw = UpUp(d.eb)
  /\ o.bw = 16 * d.bw
  /\ (d.fr[1] # <<>> => o.ref = d.ref)
  /\ o.regular = Regular(d, z.khz, 16)
  /\ o.ant1 = d.a1 /\ o.ant2 = d.a2 /\ o.names = d.names /\ o.diam = d.diam /\ o.pos = d.pos
  /\ o.used = SortSet(UsedSet(d)) /\ o.map = Map(d) /\ o.usednames = Pick(d.names, SortSet(UsedSet(d)))
  /\ o.nbl = NBl(d) /\ o.nant = Len(d.names)
Same(z) == <<FALSE, z.d>>            \* refused, nothing changed
\* <<accepted by the code?, new description>>
Effect(z, ev) ==
  LET d == z.d IN
  CASE ev.op = "make" -> <<TRUE, Blank(ev.n, ev.ncorr, ev.set)>>
    [] ev.op = "copy" -> <<TRUE, d>>
    [] ev.op = "times" ->
         IF ev.last < ev.first \/ ev.int <= 0 THEN Same(z)
         ELSE <<TRUE, [d EXCEPT !.t0 = ev.first, !.t1 = ev.last, !.int = ev.int, !.timed = TRUE,
                                !.nt = (2 * (ev.last - ev.first) + 3 * ev.int) \div (2 * ev.int)]>>
    [] ev.op = "chan" ->
         IF ~ChanOk(ev.f, ev.w, Or(ev.r, ev.w), Or(ev.e, ev.w)) THEN Same(z)
         ELSE <<TRUE, SetChan([d EXCEPT !.ref = 0], Up(ev.f), ev.w, ev.r, ev.e, 16 * ev.ref)>>
    [] ev.op = "bdachan" ->
         IF ~BdaOk(d, ev.f, ev.w, Or(ev.r, ev.w), Or(ev.e, ev.w)) THEN Same(z)
         ELSE <<TRUE, SetBda(d, UpUp(ev.f), ev.w, ev.r, ev.e, 16 * ev.ref)>>
    [] ev.op = "ant" ->
         IF Len(ev.names) # Len(ev.diam) \/ Len(ev.names) # Len(ev.pos) \/ Len(ev.a1) # Len(ev.a2) THEN Same(z)
         ELSE <<TRUE, [d EXCEPT !.names = ev.names, !.diam = ev.diam, !.pos = ev.pos, !.a1 = ev.a1, !.a2 = ev.a2]>>
    [] ev.op = "selch" ->
         IF ev.start = 0 /\ ev.n = d.nchan THEN <<TRUE, d>>
         ELSE IF Len(d.fr) # 1 \/ ev.start + ev.n > Len(d.fr[1]) THEN Same(z)
         ELSE <<TRUE, SelectCh(d, ev.start, ev.n)>>
    [] ev.op = "selbl" ->
         <<TRUE, [d EXCEPT !.a1 = Pick(@, ev.b), !.a2 = Pick(@, ev.b)]>>
    [] ev.op = "update" ->
         LET ca == MinI(ev.ca, d.nchan) ta == MinI(ev.ta, d.nt) IN
         IF Len(d.fr) # 1 \/ d.nchan % ca # 0 THEN Same(z) ELSE <<TRUE, Average(d, ca, ta)>>
    [] ev.op = "bdaupdate" -> <<TRUE, [d EXCEPT !.ta = ev.ta]>>
    [] ev.op = "unused" -> <<TRUE, DropUnused(d)>>
    [] ev.op = "clearmeta" -> <<TRUE, [d EXCEPT !.meta = FALSE]>>
    [] ev.op = "setmeta" -> <<TRUE, [d EXCEPT !.meta = TRUE]>>
    [] ev.op = "array" -> <<TRUE, [d EXCEPT !.phase = ev.phase, !.orig_phase = ev.phase, !.delay = ev.delay, !.tile = ev.tile]>>
    [] ev.op = "phase" -> <<TRUE, [d EXCEPT !.phase = ev.phase]>>
    [] ev.op \in {"lengths", "auto", "dirs"} -> <<TRUE, d>>
Answer(z, ev) ==
  CASE ev.op = "update" -> ev.res = "ok" => ev.got = MinI(ev.ca, z.d.nchan)
    [] ev.op = "lengths" -> Len(ev.len) = NBl(z.d) /\ \A b \in 1..NBl(z.d) : IsRoot(ev.len[b], Dist2(z.d, b))
    [] ev.op = "auto" -> ev.auto = AutoIndex(z.d)
    [] ev.op = "dirs" -> ev.pc = z.d.phase /\ ev.opc = z.d.orig_phase /\ ev.dc = z.d.delay /\ ev.tc = z.d.tile
    [] OTHER -> TRUE
Judge(z, ev) ==
  LET e == Effect(z, ev)
      n == [z EXCEPT !.d = e[2]]
  IN <<ev.res = (IF e[1] THEN "ok" ELSE "err") /\ Answer(z, ev) /\ Shows(n, ev.out), n>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
