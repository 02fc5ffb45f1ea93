S(p01)
S(p02)
S(p03)
S(p04)
S(p16)
S(p11)
S(p12)
S(p05)
S(p06)
S(p07)
S(p10)
S(p15)
S(p17)
S(p13)
S(p08) S(p09)
S(p14)
