---------------------------------- MODULE QE ----------------------------------
(* The interface to Quantum Espresso: the input files it writes (a grammar of  *)
(* Fortran namelists and cards), what they have to say about a crystal, the    *)
(* output files as functions of the same crystal, and lattices.                *)
EXTENDS Lib
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

(* --- namelists: tokens [k, s, v], read one after the other --- *)
P0 == [mode |-> "out", grp |-> "", name |-> "", out |-> <<>>, grps |-> <<>>]
Values == {"str", "num", "log"}
PStep(p, t) == CASE
     p.mode = "out" /\ t.k = "grp" -> [p EXCEPT !.mode = "in", !.grp = t.s, !.grps = Append(@, t.s)]
  [] p.mode = "in" /\ t.k = "id" -> [p EXCEPT !.mode = "eq", !.name = t.s]
  [] p.mode = "in" /\ t.k = "end" -> [p EXCEPT !.mode = "out"]
  [] p.mode = "eq" /\ t.k = "eq" -> [p EXCEPT !.mode = "val"]
  [] p.mode = "val" /\ t.k \in Values -> [p EXCEPT !.mode = "after", !.out = Append(@, [g |-> p.grp, n |-> p.name, t |-> t])]
  [] p.mode = "after" /\ t.k = "com" -> [p EXCEPT !.mode = "in"]
  [] p.mode = "after" /\ t.k = "id" -> [p EXCEPT !.mode = "eq", !.name = t.s]
  [] p.mode = "after" /\ t.k = "end" -> [p EXCEPT !.mode = "out"]
  [] OTHER -> [p EXCEPT !.mode = "error"]
Parse(ts) == FoldLeft(PStep, P0, ts)
Accepts(ts) == Parse(ts).mode = "out"
Unique(p) == \A i, j \in 1..Len(p.out) : p.out[i].g = p.out[j].g /\ p.out[i].n = p.out[j].n => i = j
Lookup(p, g, n) == {x.t : x \in {y \in Range1(p.out) : y.g = g /\ y.n = n}}
Str(p, g, n, s) == \E t \in Lookup(p, g, n) : t.k = "str" /\ t.s = s
Log(p, g, n, b) == IF b THEN \E t \in Lookup(p, g, n) : t.k = "log" /\ t.s = "T"
                   ELSE \A t \in Lookup(p, g, n) : t.k = "log" /\ t.s = "F"
Micro == 1000000
Num(p, g, n, v, tol) == \E t \in Lookup(p, g, n) : t.k = "num" /\ Abs(t.v - v) <= tol

(* --- what the input of a calculation says about a crystal c --- *)
(* temperature: degauss in Ry = k_B T *)
Degauss(T) == IF T = 0 THEN 20000 ELSE (T * 63336) \div 10000
System(p, c) == <<
   <<"ibrav", Num(p, "system", "ibrav", 0, 0)>>,
   <<"nat", Num(p, "system", "nat", Micro * Len(c.types), 0)>>,
   <<"ntyp", Num(p, "system", "ntyp", Micro * Cardinality(Range1(c.types)), 0)>>,
   <<"ecutwfc", Num(p, "system", "ecutwfc", Micro * c.ecut, 1)>>,
   <<"spin_orbit", Log(p, "system", "lspinorb", c.rel) /\ Log(p, "system", "noncolin", c.rel)>> >>
Smear(p, c) == <<
   <<"occupations", Str(p, "system", "occupations", "smearing")>>,
   <<"smearing", Str(p, "system", "smearing", IF c.T = 0 THEN "marzari-vanderbilt" ELSE "fermi-dirac")>>,
   <<"degauss", Num(p, "system", "degauss", Degauss(c.T), 2)>> >>
Control(p, c, calc) == <<
   <<"calculation", Str(p, "control", "calculation", calc)>>,
   <<"prefix", Str(p, "control", "prefix", c.name)>>,
   <<"outdir", Str(p, "control", "outdir", "./qe-data/")>>,
   <<"pseudo_dir", Str(p, "control", "pseudo_dir", "./pseudo/")>> >>
PwGroups(kind) == IF kind = "relax" THEN <<"control", "system", "electrons", "ions", "cell">> ELSE <<"control", "system", "electrons">>
Calc(kind) == CASE kind = "scf" -> "scf" [] kind = "relax" -> "vc-relax" [] kind = "bands" -> "bands" [] OTHER -> "nscf"
Suffix(kind) == CASE kind = "bands" -> "band" [] kind = "nosym" -> "nscf" [] OTHER -> kind

(* --- masses of the elements in units of 1/10 u --- *)
Symbols == <<"H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr",
  "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu",
  "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U">>
Masses == <<10, 40, 69, 90, 108, 120, 140, 160, 190, 202, 230, 243, 270, 281, 310, 321, 355, 399, 391, 401, 450, 479, 509, 520, 549, 558, 589, 587, 635, 654, 697, 726, 749, 790, 799, 838,
  855, 876, 889, 912, 929, 960, 970, 1011, 1029, 1064, 1079, 1124, 1148, 1187, 1218, 1276, 1269, 1313, 1329, 1373, 1389, 1401, 1409, 1442, 1450, 1504, 1520, 1573, 1589, 1625, 1649, 1673, 1689, 1730, 1750,
  1785, 1809, 1838, 1862, 1902, 1922, 1951, 1970, 2006, 2044, 2072, 2090, 2090, 2100, 2220, 2230, 2260, 2270, 2320, 2310, 2380>>
Mass(t) == Masses[CHOOSE i \in 1..Len(Symbols) : Symbols[i] = t]
(* files have 3 digits: within 1 u / 10 and 6 per mille *)
NearMass(t, milli) == Abs(milli - 100 * Mass(t)) <= 60 + (6 * Mass(t)) \div 10

(* --- cards; lattice vectors in quarters of the unit (rows), positions in eighths --- *)
CardsOf(cs, n) == SelectSeq(cs, LAMBDA x: x.n = n)
Cards(cs, c) == <<
   <<"card_names", [i \in 1..Len(cs) |-> cs[i].n] = <<"CELL_PARAMETERS", "ATOMIC_SPECIES", "ATOMIC_POSITIONS", "K_POINTS">>>>,
   <<"cell_parameters", LET x == CardsOf(cs, "CELL_PARAMETERS") IN Len(x) = 1 /\ x[1].o = c.unit /\ x[1].rows = c.A>>,
   <<"species", LET x == CardsOf(cs, "ATOMIC_SPECIES") IN Len(x) = 1 /\ AllDistinct(x[1].rows) /\ {r.t : r \in Range1(x[1].rows)} = Range1(c.types) /\ Len(x[1].rows) = Cardinality(Range1(c.types))
        /\ \A r \in Range1(x[1].rows) : NearMass(r.t, r.m) /\ r.pp = c.pp[r.t]>>,
   <<"positions", LET x == CardsOf(cs, "ATOMIC_POSITIONS") IN Len(x) = 1 /\ x[1].o = "crystal" /\ x[1].rows = [i \in 1..Len(c.types) |-> [t |-> c.types[i], x |-> c.basis[i]]]>>,
   <<"k_points", LET x == CardsOf(cs, "K_POINTS") IN Len(x) = 1 /\ x[1].o = c.k.o /\ x[1].rows = c.k.rows>> >>

(* --- the output file: Hartree and bohr, cartesian coordinates --- *)
(* c.A in quarters of bohr, c.basis in eighths; positions in 1/32 bohr, cutoff in halves of a Hartree *)
Cart(A, x) == MV(Transp(A), x)
XmlOf(c) == [a |-> c.A, pos |-> [i \in 1..Len(c.basis) |-> [t |-> c.types[i], x |-> Cart(c.A, c.basis[i])]], ecut |-> c.ecut, fd |-> c.T # 0, kT |-> c.T, rel |-> c.rel]
(* inverse: positions in crystal coordinates from cartesian ones, in eighths *)
Crystal(A, y) == LET d == Det(Transp(A)) v == MV(Adj(Transp(A)), y) IN [i \in 1..3 |-> (Sgn(d) * v[i]) \div Abs(d)]
Readable(x) == \A i \in 1..Len(x.pos) : LET d == Det(Transp(x.a)) v == MV(Adj(Transp(x.a)), x.pos[i].x) IN d # 0 /\ \A j \in 1..3 : v[j] % Abs(d) = 0
FromXml(x) == [A |-> x.a, basis |-> [i \in 1..Len(x.pos) |-> Crystal(x.a, x.pos[i].x)], types |-> [i \in 1..Len(x.pos) |-> x.pos[i].t], ecut |-> x.ecut, T |-> IF x.fd THEN x.kT ELSE 0, rel |-> x.rel]

(* --- symmetries: in the file for positions (crystal coordinates), translations in twelfths; the interface gives those of k --- *)
Block(s, t) == [i \in 1..4 |-> IF i < 4 THEN [j \in 1..4 |-> IF j < 4 THEN s[i][j] ELSE t[i]] ELSE <<0, 0, 0, 1>>]
OwnOps(ops) == SelectSeq(ops, LAMBDA o: o.own)
Translated(ops) == \E i \in 1..Len(ops) : ops[i].t # <<0, 0, 0>>
IsDual(S, s) == MMul(Transp(S), s) = Eye(3)
(* the translation is scaled with 12 on both sides *)
IsDual4(S, s, t) == /\ \A i \in 1..3 : S[i][4] = 0
                    /\ S[4][4] = 1
                    /\ LET L == [i \in 1..3 |-> [j \in 1..3 |-> S[i][j]]] IN IsDual(L, s) /\ \A j \in 1..3 : S[4][j] + SumSeq([i \in 1..3 |-> t[i] * L[i][j]]) = 0

(* --- lattices: lengths, cosines in tenths, Gram matrices times ten; half coordinates of centered cells --- *)
Gram(a, b, c, al, be, ga) == <<<<10 * a * a, a * b * ga, a * c * be>>, <<a * b * ga, 10 * b * b, b * c * al>>, <<a * c * be, b * c * al, 10 * c * c>>>>
Even(x) == x % 2 = 0
InCell(kind, v) == CASE kind = "P" -> \A i \in 1..3 : Even(v[i])
   [] kind = "I" -> Even(v[1] - v[2]) /\ Even(v[2] - v[3])
   [] kind = "F" -> Even(v[1] + v[2] + v[3])
   [] kind = "C" -> Even(v[1] - v[2]) /\ Even(v[3])
(* volume of the primitive cell in eighths of the conventional one *)
Vol8(kind) == CASE kind = "P" -> 8 [] kind = "I" -> 4 [] kind = "F" -> 2 [] kind = "C" -> 4
ValidAngles(al, be, ga) == /\ \A x \in {al, be, ga} : Abs(x) < 10
                           /\ 1000 + 2 * al * be * ga - 10 * (al * al + be * be + ga * ga) > 0
=============================================================================
