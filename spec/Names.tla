-------------------------------- MODULE Names --------------------------------
(* Name tables.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* calibration mode -> [names accepted, number of polarizations of a solution]
Cal == [ Scalar            |-> [names |-> {"scalar", "scalarcomplexgain", "scalarcomplex"}, npol |-> 1],
         ScalarAmplitude   |-> [names |-> {"scalaramplitude"}, npol |-> 1],
         ScalarPhase       |-> [names |-> {"scalarphase"}, npol |-> 1],
         Diagonal          |-> [names |-> {"diagonal", "complexgain"}, npol |-> 2],
         DiagonalAmplitude |-> [names |-> {"diagonalamplitude", "amplitudeonly"}, npol |-> 2],
         DiagonalPhase     |-> [names |-> {"diagonalphase", "phaseonly"}, npol |-> 2],
         FullJones         |-> [names |-> {"fulljones"}, npol |-> 4],
         Tec               |-> [names |-> {"tec"}, npol |-> 1],
         TecAndDelay       |-> [names |-> {"tec+delay"}, npol |-> 1],
         TecAndPhase       |-> [names |-> {"tec+phase", "tecandphase"}, npol |-> 1],
         TecPhaseAndDelay  |-> [names |-> {"tec+phase+delay"}, npol |-> 1],
         TecScreen         |-> [names |-> {"tecscreen"}, npol |-> 1],
         RotationAndDiagonal |-> [names |-> {"rotation+diagonal"}, npol |-> 4],
         Rotation          |-> [names |-> {"rotation"}, npol |-> 4],
         FaradayRotation   |-> [names |-> {"faradayrotation"}, npol |-> 4],
         Leakage           |-> [names |-> {"leakage"}, npol |-> 4],
         LeakageAmplitude  |-> [names |-> {"leakageamplitude"}, npol |-> 4] ]
\* no name selects two modes
Unambiguous == \A a, b \in DOMAIN Cal : a # b => Cal[a].names \cap Cal[b].names = {}
CalOf(name) == IF \E m \in DOMAIN Cal : name \in Cal[m].names
               THEN CHOOSE m \in DOMAIN Cal : name \in Cal[m].names ELSE "err"

\* receiver unit modes 1..7: antenna type, filter band in MHz, sample clock in
\* MHz and Nyquist zone
Rcu == << [ant |-> "LBA", set |-> "LBA_OUTER", lo |-> 10,  hi |-> 90,  clock |-> 200, zone |-> 1],
          [ant |-> "LBA", set |-> "LBA_OUTER", lo |-> 30,  hi |-> 90,  clock |-> 200, zone |-> 1],
          [ant |-> "LBA", set |-> "LBA_INNER", lo |-> 10,  hi |-> 90,  clock |-> 200, zone |-> 1],
          [ant |-> "LBA", set |-> "LBA_INNER", lo |-> 30,  hi |-> 90,  clock |-> 200, zone |-> 1],
          [ant |-> "HBA", set |-> "HBA",       lo |-> 110, hi |-> 190, clock |-> 200, zone |-> 2],
          [ant |-> "HBA", set |-> "HBA",       lo |-> 170, hi |-> 230, clock |-> 160, zone |-> 3],
          [ant |-> "HBA", set |-> "HBA",       lo |-> 210, hi |-> 270, clock |-> 200, zone |-> 3] >>
\* derived: 512 subbands per zone; the zone starts at (zone-1) * clock/2
BandwidthHz2(k) == ((Rcu[k].clock * 1000000) \div 512)     \* twice the bandwidth (1/1024 of the clock)
CentreMHz(k) == (Rcu[k].lo + Rcu[k].hi) \div 2
OffsetMHz(k) == ((Rcu[k].zone - 1) * Rcu[k].clock) \div 2

Types == [void |-> "unknown", bool |-> "bool", char |-> "char", i8 |-> "char", u8 |-> "uchar",
          i16 |-> "int16", u16 |-> "uint16", i32 |-> "int32", u32 |-> "uint32",
          i64 |-> "int64", u64 |-> "uint64", f32 |-> "float", f64 |-> "double",
          c32 |-> "fcomplex", c64 |-> "dcomplex"]
\* a stored type name identifies the type (char and int8 coincide by design)
TypesDistinct == \A a, b \in DOMAIN Types : a # b /\ {a, b} # {"char", "i8"} => Types[a] # Types[b]
=============================================================================
