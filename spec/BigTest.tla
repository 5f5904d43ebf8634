------------------------------ MODULE BigTest ------------------------------
(* The overridden operators of Big agree with their definitions.            *)
EXTENDS Big, TLC
Samples == { <<0>>, <<1,1>>, <<-1,1>>, <<1,32767>>, <<-1,32767>>, <<1,0,1>>,
             <<1,5,0,7>>, <<-1,32767,32767,32767>>, <<1,12345,678,32000,1,9>>,
             <<-1,0,0,0,0,0,0,1>>, <<1,2,3,4,5,6,7,8,9,10,11,12,13>> }
Ks == {0, 1, 7, 15, 16, 29, 30, 45, 90}
VARIABLES a, b, ok
vars == <<a, b, ok>>
Init == a \in Samples /\ b \in Samples /\ ok = "todo"
Agree ==
    /\ BAdd(a, b) = PAdd(a, b) /\ BSub(a, b) = PSub(a, b)
    /\ BMul(a, b) = PMul(a, b) /\ BCmp(a, b) = PCmp(a, b)
    /\ BNeg(a) = PNeg(a) /\ BAbs(a) = PAbs(a)
    /\ (b # <<0>> => BDiv(a, b) = PDiv(a, b))
    /\ BGcd(a, b) = PGcd(a, b)
    /\ (a[1] >= 0 => BSqrt(a) = PSqrt(a))
    /\ \A k \in Ks : BShl(a, k) = PShl(a, k) /\ BShr(a, k) = PShr(a, k)
    /\ LET u == <<a, b, BMul(a, b)>>  v == <<b, b, BSub(a, b)>> IN
       /\ VAdd(u, v) = PVAdd(u, v) /\ VSub(u, v) = PVSub(u, v)
       /\ VMul(u, v, 30) = PVMul(u, v, 30) /\ VDot(u, v) = PVDot(u, v)
       /\ VSum(u) = PVSum(u) /\ VMaxAbs(u) = PVMaxAbs(u)
       /\ VScale(u, <<-1,7>>, <<1,3,1>>) = PVScale(u, <<-1,7>>, <<1,3,1>>)
    /\ \A n \in {-2147483647, -32769, -32768, -1, 0, 1, 32767, 32768, 2147483647} :
           BInt(n) = PInt(n)
    /\ VHex("0 -1a2b3c4d5e6f708192a3 ffffffffffffffff") =
           PVHex("0 -1a2b3c4d5e6f708192a3 ffffffffffffffff")
    /\ BHex("-deadbeef0") = PHex("-deadbeef0") /\ VHex("") = PVHex("")
Next == ok = "todo" /\ ok' = (IF Agree THEN "yes" ELSE "no") /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
Inv == ok # "no"
=============================================================================
