-------------------------------- MODULE C11MC --------------------------------
(* Plan: Jacobi polynomials over a grid of parameters (units of 1/4), degrees *)
(* and points, end points included.  (OrthoMC checks the recurrences, their   *)
(* derivatives and norms exactly.)                                            *)
EXTENDS OrthoMC, Elem, Json

JQ == IF Quick THEN <<-3, -2, -1, 0, 1, 2, 3, 4, 6, 8, 12, 20, 40>>
      ELSE <<-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 28, 40, 44, 60>>
\* alpha + beta within 2^-k of -1, k = 5..20, from both sides (exact in floating point)
NearMinusOne ==
    Cat2(IF Quick THEN <<1, 64, 2048, 32768>> ELSE <<1, 2, 8, 64, 256, 2048, 8192, 32768>>, <<-524288, -262144, -917504>>,
         LAMBDA d, a : <<a, -1048576 - a + d, 1048576>>)
    \o Cat2(<<1, 64, 2048, 32768>>, <<-524288>>, LAMBDA d, a : <<a, -1048576 - a - d, 1048576>>)
\* nearly equal, nearly opposite and nearly integer parameters
M20 == 1048576
NearOthers ==
    Cat2(IF Quick THEN <<32, 4096>> ELSE <<1, 32, 512, 4096, 65536>>, <<0, M20, -(M20 \div 2), 2 * M20, (7 * M20) \div 4>>, LAMBDA d, a : <<a, a + d, M20>>)
    \o Cat2(<<32, 4096>>, <<0, M20, M20 \div 2>>, LAMBDA d, a : <<a + d, a, M20>>)
    \o Cat2(<<32, 4096>>, <<M20 \div 2, (3 * M20) \div 4>>, LAMBDA d, a : <<a, d - a, M20>>)
    \o Cat2(<<32, 4096>>, <<M20, 2 * M20, 3 * M20>>, LAMBDA d, a : <<a - d, d, M20>>)
LargePars == << <<400, 240, 4>>, <<320, 320, 4>>, <<800, 0, 4>>, <<0, 1202, 4>>, <<680, -2, 4>>, <<596, 4, 4>>, <<604, 0, 4>>, <<120, 80, 4>>, <<604, -3, 4>>, <<302, 302, 4>>, <<-2, 610, 4>> >>
Pairs == Cat2(JQ, JQ, LAMBDA a, b : <<a, b, 4>>)
         \o << <<-9, -1, 10>>, <<-1, -9, 10>>, <<1, 2, 3>>, <<-1, -2, 3>>, <<-2, -1, 3>>, <<-19, 17, 20>>, <<0, -9, 10>>,
               <<-9, -9, 10>>, <<-2, -2, 3>>, <<-7, -1, 8>>, <<-1, -7, 8>>, <<-19, -1, 20>> >>
         \o NearMinusOne \o NearOthers \o LargePars
Degs(p) == IF p \in {<<0, 0, 4>>, <<4, 4, 4>>, <<-2, -2, 4>>, <<4, 0, 4>>}
           THEN RG(0, 25) \o <<32, 40, 64, 150, 171, 200>> \o (IF Quick THEN <<>> ELSE <<80, 100, 120, 149, 151, 169, 170, 172, 250, 300>>)
           ELSE IF p \in {<<120, 80, 4>>, <<2, 8, 4>>} THEN <<0, 1, 3, 70, 100, 110, 140, 171>>
           ELSE (IF Quick THEN RG(0, 8) \o <<11, 16, 24>> ELSE RG(0, 24) \o <<30, 40>>)
Pts1 == [i \in 1..41 |-> << <<-1048576 + (i - 1) * 52428, 0>> >>] \o << << <<1048576, 0>> >> >>
        \o Nudged(1, <<2, 4096, 8388608>>) \o Random(1, 10, 5)
Job(f, p, var) == [f |-> f, par |-> p, degs |-> Degs(p), var |-> var, pts |-> PtsRec(Pts1, 1)]
Funs == <<"jacobi", "grad_jacobi", "scaled_jacobi">>
VarPairs == << <<0, 0, 4>>, <<4, 0, 4>>, <<-2, 2, 4>>, <<-2, -2, 4>>, <<3, 8, 4>>,
              <<-524288, -523264, 1048576>>, <<-524288, -491520, 1048576>>, <<-524288, -524287, 1048576>>, <<-524288, -524352, 1048576>> >>
Plan == Cat2(Pairs, Funs, LAMBDA p, f : Job(f, p, "nd"))
        \o FlattenSeq([k \in 1..Len(Funs) |->
              Cat2(VarPairs, <<"pt", "3d", "empty", "f32", "int", "fort", "one", "many", "float", "zerod">>,
                   LAMBDA p, v : Job(Funs[k], p, v))])
ASSUME ndJsonSerialize("plan.ndjson", Plan)
ASSUME PrintT(<<"plan", Len(Plan)>>)
=============================================================================
