------------------------------- MODULE WritingQ -------------------------------
EXTENDS Writing
P1 == <<U, 0 - U, 2 * U>>
R1 == <<1, 0, 3>>
Or(p, r) == <<[xyz |-> p, rpy |-> r]>>
QTypes == {"revolute", "continuous", "prismatic", "fixed"}
QOrigins == {<<>>, Or(<<P1>>, <<>>), Or(<<>>, <<R1>>), Or(<<P1>>, <<R1>>)}
QAxes == {<<>>, <<EY>>}
QLowerUpper == {<<<<>>, <<>>>>, <<<<0 - U>>, <<>>>>, <<<<>>, <<2 * U>>>>, <<<<0 - U>>, <<U>>>>}
Q2(t, p, o, a, l) == [type |-> t, parent |-> p, origin |-> o, axis |-> a, limit |-> l]
QSeconds == {Q2("revolute", "a", Or(<<P1>>, <<>>), <<>>, <<Lim(<<>>, <<U>>)>>),
             Q2("fixed", "m", Or(<<>>, <<R1>>), <<>>, <<>>)}
In(o) == <<[mass |-> 2 * U, origin |-> o, I |-> <<3 * U, U, 0, 4 * U, 0 - U, 5 * U>>]>>
(* smaller families *)
OneSecond == {Q2("revolute", "a", Or(<<P1>>, <<R1>>), <<EY>>, <<Lim(<<0 - U>>, <<U>>)>>)}
TwoInertials == {<<>>, In(Or(<<>>, <<R1>>))}
ThreeRanges == {<<<<>>, <<>>>>, <<<<0 - U>>, <<>>>>, <<<<>>, <<2 * U>>>>}
NoOrigin == {<<>>}
NoInertial == {<<>>}
QInertials == {<<>>, In(<<>>), In(Or(<<>>, <<R1>>)), In(Or(<<P1>>, <<R1>>))}
===============================================================================
