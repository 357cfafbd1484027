---- MODULE MC_Piecewise ----
EXTENDS Piecewise
AllNames == DOMAIN Lib
AllUn == {"addn", "raddn", "subn", "rsubn", "muln", "rmuln", "divn", "rdivn", "pow", "shift", "split", "restrict", "interp"}
AllBin == {"add", "sub", "mul", "div"}
FewUn == {"addn", "muln", "shift", "split", "restrict"}
FewBin == {"add", "mul"}
FewNames == {"hole", "mixed", "pole", "ptail"}
====
