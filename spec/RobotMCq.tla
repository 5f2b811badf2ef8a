------------------------------ MODULE RobotMCq ------------------------------
(* the family of robots checked on every change: two joints, chain and fork   *)
EXTENDS RobotMC
QShapes == {<<1, 2>>, <<1, 1>>}
QTypes  == {"revolute", "prismatic", "fixed"}
QAxes   == {<<<<0, U, 0>>>>, <<<<0, 0, 0 - U>>>>}
O(p, r) == <<[xyz |-> p, rpy |-> r]>>
QOrigins == {<<>>, O(<<<<U, 0 - U, 2 * U>>>>, <<<<1, 0, 1>>>>)}
I1 == <<U, 0, 0, 2 * U, 0, 3 * U>>
I2 == <<3 * U, U, 0, 4 * U, 0 - U, 5 * U>>
Mass(m, o, I) == <<[mass |-> m, origin |-> o, I |-> I]>>
A1 == Mass(2 * U, O(<<<<0, U, 0>>>>, <<<<0, 1, 3>>>>), I2)
A2 == Mass(2 * U, <<>>, I1)
A3 == Mass(U, O(<<<<0 - U, 0, U>>>>, <<>>), I1)
QInertials == [n \in {2} |-> {<<<<>>, A1, A2>>, <<A2, A3, A3>>}]
QBases == {<<0, 0, 0, 0, 0, 0>>, <<U, 0 - 2 * U, 0, 1, 0, 2>>, <<0, U, U, 2, 1, 3>>}
=============================================================================
