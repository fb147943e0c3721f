#!/usr/bin/env python3
"""addmod.py CRATE cNN...: registers harness modules in the crate's lib.rs and Cargo.toml"""
import re, sys
crate, new = sys.argv[1], sys.argv[2:]
p = f'/verif/h/{crate}/src/lib.rs'; s = open(p).read()
m = re.search(r'modules! \{(.*?)\}\n', s, re.S)
mods = sorted(set(re.findall(r'(c\d\d) =', m.group(1))) | set(new))
s = s[:m.start()] + 'modules! { ' + ', '.join(f'{x} = "{x}"' + (f' "../../../build/gen/{x}.rs"' if crate == "prog" else "") for x in mods) + ' }\n' + s[m.end():]
open(p, 'w').write(s)
p = f'/verif/h/{crate}/Cargo.toml'; s = open(p).read()
s = re.sub(r'thorough = \[\]\n(c\d\d = \[\]\n)*', 'thorough = []\n' + ''.join(f'{x} = []\n' for x in mods), s)
open(p, 'w').write(s)
