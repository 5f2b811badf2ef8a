------------------------------ MODULE RobotMCt ------------------------------
(* the larger family: three joints, every tree shape, four joint types        *)
EXTENDS RobotMCq
TShapes == {<<1, 2, 3>>, <<1, 2, 2>>, <<1, 1, 2>>, <<1, 1, 1>>}
TTypes  == {"revolute", "prismatic", "continuous", "fixed"}
TAxes   == {<<>>, <<<<0, 0 - U, 0>>>>}
TOrigins == {O(<<<<U, 0 - U, 2 * U>>>>, <<<<1, 0, 1>>>>), O(<<<<0, U, 0>>>>, <<<<0, 3, 2>>>>)}
TInertials == [n \in {3} |-> {<<A3, A1, <<>>, A3>>}]
TBases == {<<0, 0, 0, 0, 0, 0>>, <<U, 0 - 2 * U, 0, 3, 0, 2>>}
=============================================================================
