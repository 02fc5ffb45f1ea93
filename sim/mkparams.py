#!/usr/bin/env python3
# Embeds sim/params/*.param into params_gen.h
import glob, os, sys
here = os.path.dirname(os.path.abspath(__file__))
out = ["const fam_t fams[] = {"]
for fn in sorted(glob.glob(os.path.join(here, "params", "*.param"))):
    t = open(fn).read(); n = os.path.basename(fn)[:-6]
    ty = t.split("type ")[1].split()[0]; c = '1' if ty == 'a1' else ty
    sym = int(ty in ("a", "a1", "e", "i")); quot = int(ty in ("d", "f", "g")); i = int(ty == "i")
    out.append('  { "%s", "%s", \'%s\', %d, %d, %d, %d, %d },' % (n, t.replace("\n", "\\n"), c, int(n.startswith("toy_")), sym, quot, 1 - i, 1 - i))
out.append("};")
open(sys.argv[1], "w").write("\n".join(out) + "\n")
