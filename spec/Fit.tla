--------------------------------- MODULE Fit ---------------------------------
(* Loss functions, the fit log, and the protocol of the optimizers.           *)
EXTENDS Lib
LOCAL INSTANCE FiniteSetsExt

(* ---- loss functions on integer bands: B, R are sequences (k) of sequences (bands) *)
Sq(x) == x * x
Err(B, R, off) == TLCEval([k \in 1..Len(R) |-> [j \in 1..Len(R[1]) |-> B[k][off + j] - R[k][j]]])
(* the squared loss times the number of k points *)
Loss2(B, R, w, off) == LET e == Err(B, R, off) IN SumSeq([k \in 1..Len(R) |-> SumSeq([j \in 1..Len(R[1]) |-> Sq(w[j] * e[k][j])])])
(* squared Frobenius norm of a matrix of Gaussian integers <<re, im>> *)
Norm2Mat(M) == SumSeq([i \in 1..Len(M) |-> SumSeq([j \in 1..Len(M[i]) |-> Sq(M[i][j][1]) + Sq(M[i][j][2])])])
MaxErr(B, R, off) == LET e == Err(B, R, off) IN [j \in 1..Len(R[1]) |-> MaxOf({Abs(e[k][j]) : k \in 1..Len(R)})]
(* windowed: the narrower set of bands is moved over the wider one *)
Offsets(B, R) == 0..Abs(Len(B[1]) - Len(R[1]))
Common(B, R) == Min2(Len(B[1]), Len(R[1]))
Shifted(B, R, o) == TLCEval([k \in 1..Len(R) |-> [j \in 1..Common(B, R) |->
    IF Len(B[1]) < Len(R[1]) THEN <<R[k][o + j] - B[k][j], R[k][o + j]>> ELSE <<R[k][j] - B[k][o + j], R[k][j]>>]])
WinCost(B, R, lo, hi, o) == LET s == Shifted(B, R, o) IN
    SumSeq([k \in 1..Len(R) |-> SumSeq([j \in 1..Common(B, R) |-> IF lo <= s[k][j][2] /\ s[k][j][2] <= hi THEN Sq(s[k][j][1]) ELSE 0])])
Windowed2(B, R, lo, hi) == MinOf({WinCost(B, R, lo, hi, o) : o \in Offsets(B, R)})
(* free assignment: the cheapest injection of the smaller set into the larger one *)
Inject(n, m) == {f \in [1..n -> 1..m] : \A a, b \in 1..n : f[a] = f[b] => a = b}
Cheapest(r, b) == IF Len(r) = 0 THEN 0 ELSE IF Len(r) <= Len(b)
    THEN MinOf({SumSeq([i \in 1..Len(r) |-> Sq(r[i] - b[f[i]])]) : f \in Inject(Len(r), Len(b))})
    ELSE MinOf({SumSeq([i \in 1..Len(b) |-> Sq(b[i] - r[f[i]])]) : f \in Inject(Len(b), Len(r))})
InWindow(r, lo, hi) == SelectSeq(r, LAMBDA x: lo <= x /\ x <= hi)
Assigned2(B, R, lo, hi) == SumSeq([k \in 1..Len(R) |-> Cheapest(InWindow(R[k], lo, hi), B[k])])
(* histogram of the largest errors over n bins; everything times n-1 *)
HistLo(B, R) == Max2(MinOf(UNION {Range1(R[k]) : k \in 1..Len(R)}), MinOf(UNION {Range1(B[k]) : k \in 1..Len(R)}))
HistHi(B, R) == Min2(MaxOf(UNION {Range1(R[k]) : k \in 1..Len(R)}), MaxOf(UNION {Range1(B[k]) : k \in 1..Len(R)}))
Center(B, R, n, i) == HistLo(B, R) * (n - 1) + (i - 1) * (HistHi(B, R) - HistLo(B, R))
HistAt(B, R, n, o, i, strict) ==
    LET s == Shifted(B, R, o) h == HistHi(B, R) - HistLo(B, R)
        in(r) == LET d == 2 * Abs(r * (n - 1) - Center(B, R, n, i)) IN IF strict THEN d < h ELSE d <= h
    IN MaxOf({0} \cup {Abs(s[k][j][1]) : <<k, j>> \in {kj \in (1..Len(R)) \X (1..Common(B, R)) : in(s[kj[1]][kj[2]][2])}})
PlainCost(B, R, o) == LET s == Shifted(B, R, o) IN SumSeq([k \in 1..Len(R) |-> SumSeq([j \in 1..Common(B, R) |-> Sq(s[k][j][1])])])
Best(B, R) == {o \in Offsets(B, R) : \A p \in Offsets(B, R) : PlainCost(B, R, o) <= PlainCost(B, R, p)}

(* the same with skipped bands: pairs <<error, reference>> of a cheapest assignment per point, for absolute or squared errors *)
PairSets(r, b) == IF Len(r) <= Len(b) THEN {[i \in 1..Len(r) |-> <<Abs(r[i] - b[f[i]]), r[i]>>] : f \in Inject(Len(r), Len(b))}
    ELSE {[i \in 1..Len(b) |-> <<Abs(b[i] - r[f[i]]), r[f[i]]>>] : f \in Inject(Len(b), Len(r))}
Cost1(ps) == SumSeq([i \in 1..Len(ps) |-> ps[i][1]])
Cost2(ps) == SumSeq([i \in 1..Len(ps) |-> Sq(ps[i][1])])
CheapPairs(r, b) == TLCEval(LET A == PairSets(r, b) m1 == MinOf({Cost1(p) : p \in A}) m2 == MinOf({Cost2(p) : p \in A}) IN {p \in A : Cost1(p) = m1 \/ Cost2(p) = m2})
(* largest error of the bin i of one point *)
BinOf(B, R, n, ps, i, strict) == LET h == HistHi(B, R) - HistLo(B, R)
        in(r) == LET d == 2 * Abs(r * (n - 1) - Center(B, R, n, i)) IN IF strict THEN d < h ELSE d <= h
    IN MaxOf({0} \cup {ps[j][1] : j \in {x \in 1..Len(ps) : in(ps[x][2])}})
RECURSIVE SkipHist(_, _, _, _, _, _, _)
(* choose the assignments one point after the other; lo and hi collect the bins *)
SkipHist(B, R, n, v, k, lo, hi) == IF k > Len(R) THEN \A i \in 1..n : lo[i] <= v[i] /\ v[i] <= hi[i]
    ELSE (\A i \in 1..n : lo[i] <= v[i]) /\ \E ps \in CheapPairs(R[k], B[k]) :
         SkipHist(B, R, n, v, k + 1, TLCEval([i \in 1..n |-> Max2(lo[i], BinOf(B, R, n, ps, i, TRUE))]), TLCEval([i \in 1..n |-> Max2(hi[i], BinOf(B, R, n, ps, i, FALSE))]))

(* ---- the log: a state machine driven by calls *)
Log0(count) == [stream |-> <<>>, its |-> <<>>, loss |-> <<>>, aborted |-> FALSE, count |-> count]
LastIt(g) == IF g.its = <<>> THEN -1 ELSE g.its[Len(g.its)]
AddMsg(g, m) == [g EXCEPT !.stream = Append(@, [t |-> "msg", m |-> m])]
AddData(g, i, x) == [g EXCEPT !.stream = Append(@, [t |-> "data", i |-> i, loss |-> x]),
                              !.its = Append(@, IF g.count THEN LastIt(g) + 1 ELSE i), !.loss = Append(@, x)]
Abort(g) == [AddMsg(g, "aborted") EXCEPT !.aborted = TRUE]
(* one bar per band: eighths of the largest error, nothing below one sixteenth *)
BarOk(level, err, scale) == IF 16 * err <= scale THEN level = 0
                            ELSE level \in 1..8 /\ 2 * Abs(8 * err - scale * level) <= scale

(* ---- the protocol of an optimizer run, as a log: what a run of n iterations may write *)
(* data entries of iterations (increasing), then the end: all iterations done | converged | aborted, then one last entry *)
RECURSIVE Datas(_)
Datas(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s).t = "data" THEN <<Head(s)>> ELSE <<>>) \o Datas(Tail(s))
Position(s, m) == {i \in 1..Len(s) : s[i].t = "msg" /\ s[i].m = m}
RunOk(s, n, every) == LET d == Datas(s) e == Len(d) IN
   /\ e >= 1 /\ s[Len(s)].t = "data"
   /\ \A i \in 1..(e - 1) : d[i].i = (i - 1) * every \* logged every .. iterations
   /\ \A i \in 1..(e - 1) : d[i].i < n
   /\ Cardinality(Position(s, "converged")) <= 1 /\ Cardinality(Position(s, "aborted")) <= 1
   /\ \A m \in {"converged", "aborted"} : \A i \in Position(s, m) : \A j \in (i + 1)..Len(s) : s[j].t = "data" => j = Len(s)
   /\ IF Position(s, "converged") = {} /\ Position(s, "aborted") = {}
      THEN d[e].i = n /\ e - 1 = (n + every - 1) \div every
      ELSE d[e].i <= n /\ (e > 1 => d[e].i >= d[e - 1].i)
=============================================================================
