------------------------------ MODULE C15Trace ------------------------------
(* Recorded fits, residuals, degree vectors and tail estimators.              *)
EXTENDS Decay, Judge
BTwo == BInt(2)
Coef(e, i) == VHex(e.C[i])
Deg(e) == SubSeq(Degrees(e.job.d, e.job.n), e.job.ign + 1, Len(Degrees(e.job.d, e.job.n)))
FitOf(e, i) == Fit(LnMag(Coef(e, i), e.job.d, e.job.n, e.job.ign), Deg(e))
\* relative closeness of exp(ln) to the recorded positive number x
ExpClose(ln, x, tol) == FxNear(FxLn(x), ln, tol)
\* residual of element i: const sqrt((n+1)^(2e+1) / -(2e+1)) / |c|
LnRes(e, i, f) ==
    LET c == Coef(e, i)
        s == BAdd(BMul(BTwo, f[2]), FxOne)
        l2 == LnBig(VSum(Force([k \in 1..Len(c) |-> BMul(c[k], c[k])])), -160)
    IN  BSub(BAdd(f[1], BShr(BSub(FxMul(s, FxLn(FxInt(e.job.n + 1))), FxLn(BNeg(s))), 1)), BShr(l2, 1))
FitTol == FxEps(33)
ElemOK(e, i, f) ==
    /\ FxClose(VHex(e.expn)[i], f[2], FitTol)
    /\ BLt(BZero, VHex(e.const)[i]) /\ ExpClose(f[1], VHex(e.const)[i], FitTol)
ResOK(e, i, f) ==
    LET s == BAdd(BMul(BTwo, f[2]), FxOne)
        r == VHex(e.res)[i]
    IN  \* only for decaying coefficients is the tail finite
        BLt(s, BNeg(FxEps(16))) =>
          LET l == LnRes(e, i, f)
          IN  IF BLt(FxEps(20), l) THEN r = BZero
              ELSE IF BLt(l, BNeg(FxEps(20))) THEN
                   (IF BLt(l, FxInt(-70)) THEN BLt(r, FxEps(90)) ELSE BLt(BZero, r) /\ ExpClose(l, r, FxEps(30)))
              ELSE TRUE
FitV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE IF ~e.shapes THEN <<"shapes">>
    ELSE LET F == Force([i \in 1..Len(e.C) |-> FitOf(e, i)])
         IN  Failing(<< <<"fit", \A i \in 1..Len(e.C) : ElemOK(e, i, F[i])>>,
                        <<"residual", \A i \in 1..Len(e.C) : ResOK(e, i, F[i])>>,
                        <<"permuting elements", e.permuted>>,
                        <<"signs", e.signs>>,
                        <<"argument", e.argument>> >>)
MaxDeg(fs, idx) == FoldLeft(LAMBDA a, k : Max2(a, IdxSum(TPSub(fs, k, idx))), 0, RG(1, Len(fs)))
DegV2(el) == LET L == TPIdx(el.fs) IN [i \in 1..Len(L) |-> MaxDeg(el.fs, L[i])]
DegV(e) == IF e.cls # "ok" THEN <<"available">>
           ELSE Failing(<< <<"degrees", e.deg = DegV2(e.job.el)>> >>)
TailV(e) ==
    IF e.cls # "ok" THEN <<"available">>
    ELSE LET fs == e.job.el.fs
             n == SpaceDim(fs)
             D == DegV2(e.job.el)
             top == FoldLeft(LAMBDA a, v : Max2(a, v), 0, D)
             sel == SelectSeq([i \in 1..n |-> i], LAMBDA i : D[i] > top - e.job.tail)
             V == Vals(e.job.kind, fs, Force([k \in DOMAIN e.X |-> VHex(e.X[k])]), n)
             A == Force([i \in DOMAIN e.A |-> VHex(e.A[i])])
             nrm == FoldLeft(LAMBDA a, r : BMax(a, FxSum(Force([i \in 1..Len(r) |-> BAbs(r[i])]))), FxOne, A)
         IN  IF e.shape # <<Len(sel), n>> THEN <<"rows">>
             ELSE Failing(<< <<"coefficients of the highest orders", \A i \in 1..Len(sel) : \A j \in 1..n :
                     FxNear(FxDot(A[i], V[j]), IF j = sel[i] THEN FxOne ELSE BZero, FxMul(FxEps(30), nrm))>> >>)
DecayVerdict(e) == CASE e.job.fam = "fit" -> FitV(e) [] e.job.fam = "deg" -> DegV(e) [] OTHER -> TailV(e)
=============================================================================
