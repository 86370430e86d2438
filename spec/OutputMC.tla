------------------------------ MODULE OutputMC ------------------------------
EXTENDS Output
PartOf == [p \in Path |-> p + 10]
=============================================================================
