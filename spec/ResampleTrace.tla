---------------------------- MODULE ResampleTrace ----------------------------
EXTENDS Resample, TraceBase
StartSt(ev) == [nsol |-> ev.nsol, solint |-> ev.solint, nant |-> ev.nant]
\* input values are numbered: value at [time][block][offset] is unique
Judge(z, ev) ==
  LET N == NSub(z.nsol, z.solint)  D == Len(z.nsol)  T == Total(z.nsol) IN
  <<CASE ev.op = "sub" -> ev.res = N
      [] ev.op = "map" ->
           ev.res = Origin(z.nsol, z.solint, ev.t, ev.ant, ev.dir, ev.pol, ev.npol)
      [] ev.op = "up" ->      \* in: nt intervals, nb channel blocks, npol
           /\ Len(ev.out) = ev.nt * N
           /\ \A t \in 1..(ev.nt * N) :
                /\ Len(ev.out[t]) = ev.nb
                /\ \A b \in 1..ev.nb :
                    /\ Len(ev.out[t][b]) = z.nant * D * ev.npol
                    /\ \A an \in 0..(z.nant - 1), d \in 0..(D - 1), p \in 0..(ev.npol - 1) :
                        LET o == Origin(z.nsol, z.solint, t - 1, an, d, p, ev.npol)
                            v == (o[1] * ev.nb + (b - 1)) * (z.nant * T * ev.npol) + o[2]
                        IN ev.out[t][b][(an * D + d) * ev.npol + p + 1] = <<v, 0 - v - 1>>
      [] ev.op = "cons" ->    \* in: nt intervals, nc constraints, ns types, rest = product of further axes
           /\ Len(ev.out) = ev.nt * N
           /\ \A t \in 1..(ev.nt * N) :
                /\ Len(ev.out[t]) = ev.nc
                /\ \A c \in 1..ev.nc :
                    /\ Len(ev.out[t][c]) = ev.ns
                    /\ \A s \in 1..ev.ns :
                        LET r == ev.out[t][c][s]
                            rest == IF Len(ev.more) = 0 THEN 1 ELSE IF Len(ev.more) = 1 THEN ev.more[1] ELSE ev.more[1] * ev.more[2]
                            size == z.nant * T * rest
                            base == (((t - 1) \div N) * ev.nc + (c - 1)) * ev.ns + (s - 1)
                        IN /\ r.dims = <<z.nant, D>> \o ev.more
                           /\ r.axes = ev.axes /\ r.name = base % (ev.nc * ev.ns)
                           /\ Len(r.vals) = z.nant * D * rest /\ Len(r.weights) = Len(r.vals)
                           /\ \A an \in 0..(z.nant - 1), d \in 0..(D - 1), q \in 0..(rest - 1) :
                               LET old == (an * T + SumTo(z.nsol, d) + SubOf(z.nsol[d + 1], (t - 1) % N, N)) * rest + q
                                   v == base * size + old
                               IN /\ r.vals[(an * D + d) * rest + q + 1] = v
                                  /\ r.weights[(an * D + d) * rest + q + 1] = v + 1000000,
    z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
