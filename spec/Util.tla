-------------------------------- MODULE Util --------------------------------
\* F(e), with the value of e computed once (LET is call-by-name in TLC)
With(e, F(_)) == CHOOSE y \in {F(v) : v \in {e}} : TRUE
=============================================================================
