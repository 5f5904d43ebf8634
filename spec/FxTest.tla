---- MODULE FxTest ----
EXTENDS Fx, TLC
VARIABLE x
T == FxEps(74)
Tests == <<
  FxNear(FxGamma(FxInt(1)), FxOne, T), FxNear(FxGamma(FxInt(5)), FxInt(24), BMul(BInt(100),T)),
  FxNear(FxMul(FxGamma(FxQ(1,2)),FxGamma(FxQ(1,2))), FxPi, T),
  FxNear(FxMul(FxGamma(FxQ(1,4)),FxGamma(FxQ(3,4))), FxMul(FxPi,FxSqrt(FxInt(2))), BMul(BInt(8),T)),
  FxNear(FxExp(FxLn(FxQ(7,3))), FxQ(7,3), T), FxNear(FxLn(FxExp(FxQ(-7,3))), FxQ(-7,3), T),
  FxNear(FxExp(FxInt(0)), FxOne, T),
  FxNear(FxExp(FxInt(1)), BShl(BHex("adf85458a2bb4a9aafdc562"), 70), BShl(T,2)),
  FxNear(FxPi, BShl(BHex("c90fdaa22168c234c4c6628"), 70), BShl(T,2))
 >>
Init == x = 0 /\ PrintT(Tests)
Next == x' = x
Inv == \A i \in DOMAIN Tests : Tests[i]
====
