-------------------------------- MODULE RigidQ --------------------------------
EXTENDS Rigid
QPositions == {<<0, 0, 0>>, <<U, 0 - U, 0>>}
================================================================================
