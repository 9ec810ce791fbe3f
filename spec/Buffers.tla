------------------------------- MODULE Buffers -------------------------------
(* The two buffer kinds that carry visibilities from step to step.          *)
(* A buffer is a value: what is done to one buffer shows in that buffer     *)
(* only.  Arrays are [s |-> shape, v |-> values].                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
NameOrder == <<"", "a", "b", "c">>
DirOrder == <<"da", "db", "dc">>
Sorted(names, order) == SelectSeq(order, LAMBDA x : x \in names)
Empty3 == [s |-> <<0, 0, 0>>, v |-> <<>>]
Empty2 == [s |-> <<0, 0>>, v |-> <<>>]
Elem(s) == IF Len(s) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3]
Zero(s) == [s |-> s, v |-> [k \in 1..Elem(s) |-> 0]]
Put(f, k, v) == (k :> v) @@ f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(fields, x) == \E k \in 1..Len(fields) : fields[k] = x

(* ---- regular buffers ---------------------------------------------------- *)
NewReg(t, e) == [t |-> t, exp |-> e, rows |-> <<>>, d |-> ("" :> Empty3), f |-> Empty3, w |-> Empty3,
                 u |-> Empty2, sol |-> <<>>]
CopyFields(to, from, fields, extra) ==
  [t |-> from.t, exp |-> from.exp, rows |-> from.rows,
   d |-> LET main == IF Has(fields, "data") THEN from.d[""] ELSE to.d[""]
             rest == IF extra THEN from.d ELSE to.d
         IN [x \in DOMAIN rest |-> IF x = "" THEN main ELSE rest[x]],
   f |-> IF Has(fields, "flags") THEN from.f ELSE to.f,
   w |-> IF Has(fields, "weights") THEN from.w ELSE to.w,
   u |-> IF Has(fields, "uvw") THEN from.u ELSE to.u,
   sol |-> from.sol]
\* solutions arrive per channel, antenna, direction, polarisation
SolutionOf(sol, k, nd, nant, npol) ==
  [c \in 1..Len(sol) |-> [x \in 1..(nant * npol) |->
      sol[c][((((x - 1) \div npol) * nd) + (k - 1)) * npol + ((x - 1) % npol) + 1]]]
RECURSIVE AddSol(_, _, _, _, _, _)
AddSol(s, dirs, sol, nant, npol, k) ==
  IF k > Len(dirs) THEN s
  ELSE AddSol(Put(s, dirs[k], SolutionOf(sol, k, Len(dirs), nant, npol)), dirs, sol, nant, npol, k + 1)
ShowsReg(b, o) ==
  /\ o.t = b.t /\ o.exp = b.exp /\ o.rows = b.rows
  /\ o.names = Sorted(DOMAIN b.d, NameOrder)
  /\ \A k \in 1..Len(o.names) : o.d[k] = b.d[o.names[k]]
  /\ \A k \in 1..4 : o.has[k] = (NameOrder[k] \in DOMAIN b.d)
  /\ o.f = b.f /\ o.w = b.w /\ o.u = b.u
  /\ o.sd = Sorted(DOMAIN b.sol, DirOrder)
  /\ \A k \in 1..Len(o.sd) : o.sv[k] = b.sol[o.sd[k]]

(* ---- baseline-dependent buffers ------------------------------------------ *)
\* contents of a row that nobody has written are unknown: <<>>
NewBda(cap, fields) == [cap |-> cap, n |-> 0, rows |-> <<>>, hf |-> Has(fields, "flags"), hw |-> Has(fields, "weights"),
                        d |-> IF Has(fields, "data") THEN ("" :> <<>>) ELSE <<>>, f |-> <<>>, w |-> <<>>]
Zeros(n) == [k \in 1..n |-> 0]
\* a row may not end before or at the start of the row added last (t: half seconds)
Misplaced(b, ev) == b.rows # <<>> /\ LET l == b.rows[Len(b.rows)] IN ev.t + ev.int <= l.t - l.int
Fits(b, ev) == b.cap - b.n >= ev.nch * ev.nc
AddRowTo(b, ev) ==
  LET n == ev.nch * ev.nc
  IN [b EXCEPT !.n = @ + n,
       !.rows = Append(@, [t |-> ev.t, int |-> ev.int, exp |-> ev.exp, nr |-> ev.nr, bl |-> ev.bl, nch |-> ev.nch, nc |-> ev.nc,
                           uvw |-> IF ev.uvw = <<>> THEN <<999999999, 999999999, 999999999>> ELSE ev.uvw]),
       !.d = [x \in DOMAIN b.d |-> Append(b.d[x], IF x = "" /\ ev.d # <<>> THEN ev.d ELSE Zeros(n))],
       !.f = IF b.hf THEN Append(@, IF ev.f = <<>> THEN Zeros(n) ELSE ev.f) ELSE @,
       !.w = IF b.hw THEN Append(@, IF ev.w = <<>> THEN Zeros(n) ELSE ev.w) ELSE @]
Unknown(b) == [k \in 1..Len(b.rows) |-> <<>>]
CopyBda(b, fields) ==
  LET dd == IF ~Has(fields, "data") THEN <<>>
            ELSE IF "" \in DOMAIN b.d THEN b.d ELSE Put(b.d, "", Unknown(b))
  IN [cap |-> b.n, n |-> b.n, rows |-> b.rows, d |-> dd,
      hf |-> Has(fields, "flags"), hw |-> Has(fields, "weights"),
      f |-> IF ~Has(fields, "flags") THEN <<>> ELSE IF b.hf THEN b.f ELSE Unknown(b),
      w |-> IF ~Has(fields, "weights") THEN <<>> ELSE IF b.hw THEN b.w ELSE Unknown(b)]
Match(seen, known, n) == Len(seen) = n /\ (known = <<>> \/ seen = known)
ShowsBda(b, o) ==
  /\ o.n = b.n /\ o.rem = b.cap - b.n
  /\ o.names = Sorted(DOMAIN b.d, NameOrder)
  /\ \A k \in 1..4 : o.has[k] = (NameOrder[k] \in DOMAIN b.d)
  /\ Len(o.rows) = Len(b.rows)
  /\ \A r \in 1..Len(b.rows) :
       LET x == b.rows[r] y == o.rows[r] n == x.nch * x.nc
       IN /\ \A q \in DOMAIN x : x[q] = y[q]
          /\ y.size = n
          /\ \A k \in 1..Len(o.names) : Match(y.d[k], b.d[o.names[k]][r], n)
          /\ Match(y.f, IF b.hf THEN b.f[r] ELSE <<>>, IF b.hf THEN n ELSE 0)
          /\ Match(y.w, IF b.hw THEN b.w[r] ELSE <<>>, IF b.hw THEN n ELSE 0)
=============================================================================
