------------------------------ MODULE MCServer ------------------------------
(* Server with every pair of streams of a pool, in every segmentation.        *)
EXTENDS Server, IOUtils

Deep == IOEnv.DEEP = "1"
a == <<97>>
Inc == << 0, 1, 0, 0, 0, 1, 97 >>
Echo == << 100, 0 >>
Stats == << 101 >>
Delete == << 12, 1, 0, 0, 0, 1, 97 >>
NoCommand == << 127 >>
NoType8 == << 128, 9 >>

Streams == { Echo \o Stats, NoCommand \o Echo, SubSeq(Inc, 1, 6) }
           \cup (IF Deep THEN { Inc, Stats \o Echo \o Stats, Inc \o Stats, Stats \o NoType8 \o Stats, Delete } ELSE {})
Pairs == [Conns -> Streams]

Init == SInit /\ stream \in Pairs
Spec == Init /\ [][SNext]_svars /\ Fair
SpecC == Spec /\ ClientsFair
=============================================================================
