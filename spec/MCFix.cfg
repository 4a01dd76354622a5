SPECIFICATION Spec
INVARIANT SmallOK
INVARIANT LawOK
INVARIANT TenOK
INVARIANT DivOK
