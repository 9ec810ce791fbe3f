----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, TraceBase
ASSUME Unambiguous
ASSUME TypesDistinct
StartSt(ev) == <<>>
RcuText(k) == Rcu[k].set \o " " \o ToString(Rcu[k].lo) \o "-" \o ToString(Rcu[k].hi) \o " MHz"
Judge(z, ev) ==
  <<CASE ev.op = "cal"   -> ev.res = CalOf(ev.name)
                            /\ (ev.res # "err" => ev.npol = Cal[ev.res].npol)
      [] ev.op = "caltext" -> \* the printed name is one that selects the mode
                            ev.mode \in DOMAIN Cal /\ ev.text \in Cal[ev.mode].names
      [] ev.op = "rcu"   -> IF ev.k < 0 \/ ev.k > 7 THEN ev.res = "err"
                            ELSE /\ ev.res = "ok" /\ ev.same
                                 /\ IF ev.k = 0 THEN ev.ant = "?" /\ ev.text = "unused" /\ ev.freqs = "err"
                                    ELSE /\ ev.ant = Rcu[ev.k].ant /\ ev.text = RcuText(ev.k)
                                         /\ ev.freqs = "ok"
                                         /\ ev.bw2 = BandwidthHz2(ev.k) /\ ev.centre = CentreMHz(ev.k)
                                         /\ ev.offset = OffsetMHz(ev.k)
      [] ev.op = "type"  -> ev.res = Types[ev.t]
                            /\ ev.arr = "array<" \o Types[ev.t] \o ">"
                            /\ ev.arr2 = "array<array<" \o Types[ev.t] \o ">>",
    z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
