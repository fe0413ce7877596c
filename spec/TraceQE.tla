-------------------------------- MODULE TraceQE --------------------------------
EXTENDS QE, TraceBase
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
(* --- an input file written for the crystal e.c --- *)
InputClauses(e) == LET p == Parse(e.tokens) c == e.c pw == e.kind \in {"scf", "relax", "bands", "nscf", "nosym"} IN
  <<<<"grammar", p.mode = "out" /\ Unique(p)>>,
    <<"command", e.cmd.prog = e.prog /\ e.cmd.inp = c.name \o "." \o Suffix(e.kind) \o ".in" /\ e.cmd.out = c.name \o "." \o Suffix(e.kind) \o ".out" /\ e.cmd.nk = c.nk /\ e.cmd.runs = 1>>,
    <<"crystal_unchanged", e.same>> >>
  \o IF p.mode # "out" THEN <<>> ELSE
  (IF pw THEN << <<"groups", p.grps = PwGroups(e.kind)>> >> \o Control(p, c, Calc(e.kind)) \o System(p, c) \o Cards(e.cards, c)
      \o (IF e.kind # "bands" THEN Smear(p, c) ELSE <<>>)
      \o (IF e.kind \in {"bands", "nscf", "nosym"} THEN << <<"nbnd", Num(p, "system", "nbnd", Micro * e.nbnd, 0)>> >> ELSE << <<"no_nbnd", Lookup(p, "system", "nbnd") = {}>> >>)
      \o << <<"symmetry_flags", Log(p, "system", "nosym", e.kind = "nosym") /\ Log(p, "system", "noinv", e.kind = "nosym") /\ Log(p, "system", "force_symmorphic", e.kind = "nscf")>> >>
   ELSE IF e.kind = "projwfc" THEN << <<"projwfc", p.grps = <<"projwfc">> /\ Str(p, "projwfc", "prefix", c.name) /\ Str(p, "projwfc", "outdir", "./qe-data/") /\ Log(p, "projwfc", "lwrite_overlaps", e.flag)>> >>
   ELSE IF e.kind = "bandx" THEN << <<"bandx", p.grps = <<"bands">> /\ Str(p, "bands", "prefix", c.name) /\ Str(p, "bands", "outdir", "./qe-data/") /\ Str(p, "bands", "filband", c.name \o ".Bandx.dat")>> >>
   ELSE IF e.kind = "dos" THEN << <<"dos", Str(p, "dos", "prefix", c.name) /\ Str(p, "dos", "outdir", "./qe-data/") /\ Str(p, "dos", "fildos", c.name \o ".Dos.dat")>> >>
   ELSE IF e.kind = "epsilon" THEN << <<"epsilon", Str(p, "inputpp", "prefix", c.name) /\ Str(p, "inputpp", "outdir", "./qe-data/") /\ Num(p, "energy_grid", "nw", Micro * e.nbnd, 0)>> >>
   ELSE IF e.kind = "pw2wan" THEN << <<"pw2wan", Str(p, "inputpp", "prefix", c.name) /\ Str(p, "inputpp", "seedname", c.name) /\ Str(p, "inputpp", "outdir", "./qe-data/") /\ Log(p, "inputpp", "write_mmn", TRUE) /\ Log(p, "inputpp", "write_amn", TRUE)
        /\ Log(p, "inputpp", "write_dmn", e.flag) /\ Log(p, "inputpp", "read_sym", e.flag)>> >>
   ELSE << <<"unknown kind", FALSE>> >>)
(* --- a crystal restored from the output of a calculation --- *)
DiskClauses(e) == LET x == XmlOf(e.c) IN <<
   <<"machinery_xml", e.xml = x /\ FromXml(x).basis = e.c.basis>>,
   <<"lattice", e.A = e.c.A>>, <<"unit", e.unit = "angstrom">>,
   <<"basis", e.basis = e.c.basis>>, <<"types", e.types = e.c.types>>,
   <<"cutoff", e.ecut = e.c.ecut>>,
   <<"temperature", Abs(e.T - e.c.T) <= 1 + e.c.T \div 1000>>,
   <<"spin_orbit", e.rel = e.c.rel>>,
   <<"parallel", e.par = e.c.par>>,
   <<"name", e.name = e.c.name>>,
   <<"pseudopotentials", e.pps = [i \in 1..Len(e.c.types) |-> e.c.pp[e.c.types[i]]]>> >>
(* --- bands, k points, symmetries and Fermi energy of a calculation --- *)
BandsClauses(e) == LET own == OwnOps(e.ops) n == Len(own) IN <<
   <<"k_points", Len(e.kp) = Len(e.k0) /\ \A i \in 1..Len(e.kp) : VMod(VSub(e.kp[i], e.k0[i]), 8) = <<0, 0, 0>>>>,
   <<"bands", e.bands = e.bands0>>,
   <<"fermi_energy", e.ef = e.ef0>>,
   <<"lattice_of_the_output", e.A = e.c.A>>,
   <<"unit_kept", e.unit = e.c.unit>>,
   <<"symmetries", IF n = 0 THEN e.S = <<Eye(3)>>
       ELSE Len(e.S) = n /\ IF Translated(own) THEN \A i \in 1..n : Len(e.S[i]) = 4 /\ IsDual4(e.S[i], own[i].s, own[i].t)
                            ELSE \A i \in 1..n : Len(e.S[i]) = 3 /\ IsDual(e.S[i], own[i].s)>> >>
WaveClauses(e) == <<
   <<"k_points", e.kp = e.k0>>,
   <<"plane_waves", e.g = e.g0>>,
   <<"shapes", e.shapes = [i \in 1..Len(e.g0) |-> <<e.nb, Len(e.g0[i]), e.npol>>]>>,
   <<"coefficients", \A i \in 1..Len(e.c0) : \A b \in 1..e.nb : \A j \in 1..Len(e.g0[i]) : \A s \in 1..e.npol : e.cs[i][b][j][s] = e.c0[i][b][(s - 1) * Len(e.g0[i]) + j]>> >>
ChargeClauses(e) == << <<"plane_waves", e.g = e.g0>>, <<"density", e.rho = e.rho0>> >>
ProjClauses(e) == <<
   <<"k_points", e.kp = e.k0>>, <<"bands", e.bands = e.bands0>>, <<"fermi_energy", e.ef = e.ef0>>, <<"electrons", e.ne = e.ne0>>,
   <<"projections", \A i \in 1..Len(e.p0) : \A s \in 1..Len(e.p0[i]) : \A w \in 1..Len(e.p0[i][s]) : \A b \in 1..Len(e.p0[i][s][w]) : e.p[i][b][s][w] = e.p0[i][s][w][b]>>,
   <<"shapes", \A i \in 1..Len(e.p) : Len(e.p[i]) = Len(e.bands0[1]) /\ \A b \in 1..Len(e.p[i]) : Len(e.p[i][b]) = Len(e.p0[1]) /\ \A s \in 1..Len(e.p0[1]) : Len(e.p[i][b][s]) = Len(e.p0[1][1])>>,
   <<"overlaps", e.o = e.o0>> >>
TableClauses(e) == << <<"values", e.got = e.want>> >>
(* --- lattices --- *)
LatticeClauses(e) == LET ok == e.a > 0 /\ e.b > 0 /\ e.cc > 0 /\ ~e.bad /\ ValidAngles(e.al, e.be, e.ga) IN
   IF e.raised THEN << <<"raised", ~ok>> >> ELSE <<
   <<"accepted", ok>>,
   <<"metric", e.cell # "P" \/ e.gram = Gram(e.a, e.b, e.cc, e.al, e.be, e.ga)>>,
   <<"centering", e.cell = "P" \/ e.half = <<>> \/ \A j \in 1..3 : InCell(e.cell, Transp(e.half)[j])>>,
   <<"volume", e.half = <<>> \/ Abs(Det(e.half)) = Vol8(e.cell)>> >>
MassSum(ts) == SumSeq([i \in 1..Len(ts) |-> 100 * Mass(ts[i])])
(* 1.66054 u / A^3 = 1660.54 kg / m^3; lattice in quarters of A *)
DensityClauses(e) == LET want == ((MassSum(e.types) * 1660) \div Abs(Det(e.A))) * 64 IN <<
   <<"density", Abs(e.rho - want \div 1000) <= 2 + (want \div 1000) \div 50>>,
   <<"scaled_density", Abs(e.rho2 - e.target) <= 1>>,
   <<"shape_kept", e.uniform>>, <<"arguments_unchanged", e.same>>,
   <<"meters", e.meters>> >>
OrbitalClauses(e) == LET w == [i \in 1..Len(e.amp) |-> e.amp[i] * e.amp[i]]
        S == {i \in 1..Len(w) : w[i] >= e.thr}
        o == SortSeq(SetToSeq(S), LAMBDA i, j: w[i] > w[j])
    IN << <<"printed", e.out = [i \in 1..Len(o) |-> <<e.names[o[i]], w[o[i]]>>]>> >>
KPointsClauses(e) == << <<"text", e.card = [n |-> "K_POINTS", o |-> e.o, rows |-> e.rows]>> >>
PrepareClauses(e) == LET bad(f) == \E i \in 1..Len(e.evil) : e.evil[i] = f IN <<
   <<"downloads", e.got = [i \in 1..Len(SelectSeq(e.files, LAMBDA f: ~bad(f) /\ ~\E j \in 1..Len(e.have) : e.have[j] = f)) |-> SelectSeq(e.files, LAMBDA f: ~bad(f) /\ ~\E j \in 1..Len(e.have) : e.have[j] = f)[i]]>>,
   <<"folders", e.dirs>>, <<"where", e.where>>, <<"dictionary", e.dict>> >>
WinClauses(e) == LET V(n) == {x[2] : x \in {y \in Range1(e.keys) : y[1] = n}} c == e.c IN <<
   <<"num_bands", V("num_bands") = {ToString(e.nbnd)}>>,
   <<"num_wann", V("num_wann") = {ToString(e.nwann)}>>,
   <<"windows", e.plot \/ (e.win = e.win0 /\ (e.froz = IF e.sym THEN <<>> ELSE e.froz0))>>,
   <<"grid", V("mp_grid") = {e.grid}>>,
   <<"unit", V("length_unit") = {IF c.unit = "bohr" THEN "Bohr" ELSE "Ang"}>>,
   <<"flags", e.plot \/ (V("site_symmetry") = {IF e.sym THEN "true" ELSE "false"} /\ V("write_tb") = {IF e.tb THEN "true" ELSE "false"} /\ V("exclude_bands") = IF e.excl = "" THEN {} ELSE {e.excl})>>,
   <<"keys_once", AllDistinct([i \in 1..Len(e.keys) |-> e.keys[i][1]])>>,
   <<"cell", e.cell = c.A /\ e.cellunit = c.unit>>,
   <<"atoms", e.atoms = [i \in 1..Len(c.types) |-> [t |-> c.types[i], x |-> c.basis[i]]]>>,
   <<"k_points", e.kp = e.k0>>,
   <<"path", e.path = e.path0>>,
   <<"command", e.cmd>> >>
(* --- what is drawn: positions in 1/32, from lattice vectors (rows) in quarters and positions in eighths --- *)
At(c, b) == <<SumSeq([j \in 1..3 |-> b[j] * c.A[j][1]]), SumSeq([j \in 1..3 |-> b[j] * c.A[j][2]]), SumSeq([j \in 1..3 |-> b[j] * c.A[j][3]])>>
Shifts(r) == IF r = 2 THEN {0, 8} ELSE {-8, 0, 8}
OfType(c, t) == {i \in 1..Len(c.types) : c.types[i] = t}
Shown(c, t, r) == LET all == {<<i, VAdd(c.basis[i], <<x, y, z>>)>> : i \in OfType(c, t), x \in Shifts(r), y \in Shifts(r), z \in Shifts(r)} IN
   IF r # 1 THEN all ELSE {p \in all : \A a \in 1..3 : p[2][a] \in 0..8}
CountIn(sq, x) == Cardinality({i \in 1..Len(sq) : sq[i] = x})
SamePoints(c, sq, pts) == LET img == TLCEval([p \in pts |-> At(c, p[2])]) IN
   /\ Len(sq) = Cardinality(pts)
   /\ \A p \in pts : CountIn(sq, img[p]) = Cardinality({q \in pts : img[q] = img[p]})
Corners(c) == {At(c, <<x, y, z>>) : x, y, z \in {0, 8}}
Edges(c) == {{At(c, w[1]), At(c, [w[1] EXCEPT ![w[2]] = 8])} : w \in {u \in ({0, 8} \X {0, 8} \X {0, 8}) \X (1..3) : u[1][u[2]] = 0}}
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
CrystalPlotClauses(e) == LET c == e.c T == Range1(c.types)
    every == UNION {{At(c, p[2]) : p \in Shown(c, t, e.repeat)} : t \in T} \cup {<<0, 0, 0>>}
    box == IF e.repeat = 1 THEN Corners(c) ELSE every IN <<
   <<"atoms", /\ {a.t : a \in Range1(e.atoms)} = T /\ Len(e.atoms) = Cardinality(T)
              /\ \A i \in 1..Len(e.atoms) : SamePoints(c, e.atoms[i].x, Shown(c, e.atoms[i].t, e.repeat))>>,
   <<"legend", Range1(e.legend) = T /\ Len(e.legend) = Cardinality(T)>>,
   <<"basis_atoms", /\ {a.t : a \in Range1(e.basis)} = T
              /\ \A i \in 1..Len(e.basis) : SamePoints(c, e.basis[i].x, {<<j, c.basis[j]>> : j \in OfType(c, e.basis[i].t)})>>,
   <<"poles", {p : p \in Range1(e.poles)} = {<<<<x[1], x[2], 0>>, x>> : x \in UNION {Range1(a.x) : a \in Range1(e.atoms)}}>>,
   <<"cell", {{s[1], s[2]} : s \in Range1(e.lines)} = Edges(c)>>,
   <<"vectors", {x : x \in Range1(e.texts)} = {<<"$a_" \o ToString(i) \o "$", [a \in 1..3 |-> 8 * c.A[i][a]]>> : i \in 1..3}>>,
   <<"limits", \A a \in 1..3 : LET S == {x[a] : x \in box} IN S = {0} \/ (e.lim[a][1] <= Lo(S) /\ e.lim[a][2] >= Hi(S) /\ (Cardinality(S) > 1 => e.lim[a] = <<Lo(S), Hi(S)>>))>>,
   <<"unit", \A a \in 1..3 : e.labels[a] = <<"x", "y", "z">>[a] \o " [" \o e.uname \o "]">>,
   <<"crystal_unchanged", e.same>> >>
(* points are connected in the order of the file as long as x grows *)
RECURSIVE Runs(_, _, _)
Runs(z, i, cur) == IF i > Len(z) THEN <<cur>> ELSE
   IF cur = <<>> \/ z[i][1] > cur[Len(cur)][1] THEN Runs(z, i + 1, Append(cur, z[i])) ELSE <<cur>> \o Runs(z, i + 1, <<z[i]>>)
Column(e, j) == [i \in 1..Len(e.z) |-> <<IF e.kind = "x" THEN e.z[i][1] ELSE 8 * (i - 1), e.z[i][j + 1]>>]
BandsPlotClauses(e) == LET drawn == SelectSeq(e.lines, LAMBDA x : x.k = "bands") X == {p[1] : p \in Range1(e.z)} Y == {p[2] : p \in Range1(e.z)} IN
   IF e.kind = "bandx" THEN <<
     <<"bands", Len(drawn) = 1 /\ drawn[1].runs = Runs(e.z, 1, <<>>)>>,
     <<"fermi_energy", \E x \in Range1(e.lines) : x.k = "level" /\ x.runs = <<<<<<0, e.ef0>>, <<8, e.ef0>>>>>> >>,
     <<"range", e.xlim = <<Lo(X), Hi(X)>> /\ e.ylim = <<Lo(Y), Hi(Y)>>>>,
     <<"special_points", e.vl = [i \in 1..Len(e.xs) |-> <<<<e.xs[i], Lo(Y)>>, <<e.xs[i], Hi(Y)>>>>] /\ e.ret = e.xs>>,
     <<"title", e.title = "Bandstructure of " \o e.c.name>> >>
   ELSE IF e.kind = "wannier" THEN << <<"points", Len(drawn) = 1 /\ drawn[1].runs = <<e.z>> /\ drawn[1].ls = "None" /\ e.style = <<".">> >> >>
   ELSE << <<"bands", Len(drawn) = Len(e.z[1]) - 1 /\ \A j \in 1..Len(drawn) : drawn[j].runs = <<Column(e, j)>> >>,
           <<"style", \A j \in 1..Len(drawn) : drawn[j].ls = (IF e.kind = "x" THEN "--" ELSE "-")>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "input" -> InputClauses(e)
         [] e.k = "disk" -> DiskClauses(e)
         [] e.k = "bands" -> BandsClauses(e)
         [] e.k = "wave" -> WaveClauses(e)
         [] e.k = "charge" -> ChargeClauses(e)
         [] e.k = "proj" -> ProjClauses(e)
         [] e.k = "table" -> TableClauses(e)
         [] e.k = "lattice" -> LatticeClauses(e)
         [] e.k = "density" -> DensityClauses(e)
         [] e.k = "orbitals" -> OrbitalClauses(e)
         [] e.k = "kpoints" -> KPointsClauses(e)
         [] e.k = "prepare" -> PrepareClauses(e)
         [] e.k = "crystalplot" -> CrystalPlotClauses(e)
         [] e.k = "bandsplot" -> BandsPlotClauses(e)
         [] e.k = "win" -> WinClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
