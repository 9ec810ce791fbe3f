------------------------------- MODULE SkyTrace -------------------------------
EXTENDS Sky, TraceBase
\* state: the description of the component under inspection, and what the
\* inspector extracted last
Fresh == [dir |-> <<0, 0>>, s |-> <<0, 0, 0, 0>>, terms |-> <<>>, log |-> TRUE, ref |-> 0,
          rm |-> <<>>, gauss |-> FALSE, pa |-> 0, abs |-> TRUE, maj |-> 0, min |-> 0]
StartSt(ev) == [c |-> Fresh]
Pad3(t) == [k \in 1..3 |-> IF k <= Len(t) THEN t[k] ELSE 0]
\* flux seen at wavelength lam (m): Q and U from the rotation measure
Chi(c, ev) == 2 * (c.rm[2] + (c.rm[3] * ev.lam * ev.lam) \div (ev.lamd * ev.lamd))
Near(a, b, t) == Abs(a - b) <= t
Flux(c, ev) == IF c.terms = <<>> THEN <<c.s[1], 1>>
               ELSE IF c.log
               THEN LET e == LogExp(c.terms, ev.l) IN IF e >= 0 THEN <<c.s[1] * Pow10(e), 1>> ELSE <<c.s[1], Pow10(-e)>>
               ELSE <<PolyFlux(c.s[1], c.terms, ev.xn, ev.xd), PowI(ev.xd, Len(c.terms))>>
Judge(z, ev) ==
  CASE ev.op = "make" -> <<TRUE, [c |-> [dir |-> ev.dir, s |-> IF ev.nostokes THEN <<0, 0, 0, 0>> ELSE ev.s, terms |-> <<>>, log |-> TRUE, ref |-> 0,
                                        rm |-> <<>>, gauss |-> ev.gauss, pa |-> 0, abs |-> TRUE, maj |-> 0, min |-> 0]]>>
    [] ev.op = "dir"   -> <<TRUE, [c |-> [z.c EXCEPT !.dir = ev.dir]]>>
    [] ev.op = "stokes" -> <<TRUE, [c |-> [z.c EXCEPT !.s = ev.s]]>>
    [] ev.op = "terms" -> <<TRUE, [c |-> [z.c EXCEPT !.terms = ev.terms, !.log = ev.log, !.ref = ev.ref]]>>
    [] ev.op = "rm"    -> <<TRUE, [c |-> [z.c EXCEPT !.rm = ev.rm]]>>
    [] ev.op = "shape" -> <<TRUE, [c |-> [z.c EXCEPT !.pa = ev.pa, !.maj = ev.maj, !.min = ev.min, !.abs = ev.abs]]>>
    \* what is read back
    [] ev.op = "get"   -> <<LET c == z.c IN
          /\ ev.dir = c.dir /\ ev.s = c.s /\ ev.terms = c.terms
          /\ ev.hasterms = (c.terms # <<>>) /\ ev.log = c.log /\ ev.hasrm = (c.rm # <<>>)
          /\ ev.ref = c.ref
          /\ (c.rm # <<>> => ev.rm = c.rm)
          /\ (c.gauss => ev.shape = <<c.pa, c.maj, c.min>> /\ ev.abs = c.abs), z>>
    \* extraction into an object that has been used before
    [] ev.op = "inspect" -> <<LET c == z.c IN
          IF Len(c.terms) > 3 THEN ev.res = "err"
          ELSE /\ ev.res = "ok" /\ ev.dir = c.dir /\ ev.s = c.s
               /\ ev.spec = Pad3(c.terms) /\ ev.ref = c.ref
               /\ ev.type = (IF c.gauss THEN "gauss" ELSE "point")
               /\ (c.gauss => ev.shape = <<c.pa, c.maj, c.min>>), z>>
    \* flux at a frequency (flux: <<numerator scaled by ev.scale>>)
    [] ev.op = "flux" -> <<LET c == z.c
                               f == Flux(c, ev)     \* I = f[1] / f[2]
                           IN /\ ev.den = f[2]
                              /\ Near(ev.I, f[1], 0)
                              /\ ev.V = c.s[4]
                              /\ IF c.rm = <<>> THEN ev.Q = c.s[2] /\ ev.U = c.s[3]
                                 ELSE \* fraction in percent; ev.q, ev.u: Q/I, U/I in 1e-4
                                      f[1] # 0 =>
                                      /\ Near(100 * ev.q, c.rm[1] * Cos(Chi(c, ev)), 200)
                                      /\ Near(100 * ev.u, c.rm[1] * Sin(Chi(c, ev)), 200), z>>
    [] ev.op = "patch" -> <<IF ev.dirs = <<>> THEN ev.d = <<10000, 0, 0>>
                            ELSE /\ PatchDirection(ev.dirs, ev.d)
                                 /\ ev.n = Len(ev.dirs) /\ ev.order = ev.dirs
                                 /\ ev.name = ev.asked /\ ev.range
                                 /\ ev.after = ev.moved, z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
