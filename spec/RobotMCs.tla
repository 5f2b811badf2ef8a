------------------------------ MODULE RobotMCs ------------------------------
(* one joint, all 24 signed axis/offset placements: every axis, every offset  *)
(* rotation, every base rotation in quarter turns                             *)
EXTENDS RobotMCq
SShapes == {<<1>>}
STypes  == {"revolute", "prismatic", "continuous"}
SAxes   == {<<>>} \union {<<v>> : v \in {<<s * U, 0, 0>> : s \in {-1}} \union {<<0, s * U, 0>> : s \in {-1, 1}} \union {<<0, 0, s * U>> : s \in {-1, 1}}}
SOrigins == {<<>>, O(<<>>, <<>>)} \union {O(<<p>>, <<>>) : p \in {<<U, 2 * U, 3 * U>>}} \union {O(<<<<U, 2 * U, 0 - U>>>>, <<<<a, b, c>>>>) : a \in 0..3, b \in {-1, 0, 1}, c \in 0..3}
SInertials == [n \in {1} |-> {<<A1, A2>>}]
SBases == {<<0, 0, 0, 0, 0, 0>>, <<U, 0, 0 - U, 1, 0, 3>>}
=============================================================================
