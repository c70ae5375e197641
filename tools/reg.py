#!/usr/bin/env python3
"""rewrite the harness table of harness/src/all.rs from the pub fns of the modules"""
import re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S=V+'/harness/src/'
order=["h_esc","h_parse","h_mirror","h_build","h_reject","h_edit","h_find","h_ns","h_attr","h_eq","h_io","h_prolog","h_kind","h_misc","h_big","h_forms","h_reach","h_same","h_words","h_again","h_history"]
mods=[m for m in order if os.path.exists(S+m+'.rs')]
o="#[macro_use]\npub mod g;\npub mod m;\npub mod gen;\npub mod fsm;\n"+"".join(f"pub mod {m};\n" for m in mods)
o+="\nmacro_rules! harnesses {\n    ($x:ident) => {\n        $x! {\n"
for m in mods:
    n=re.findall(r'^pub fn (c\d\d_\w+)\(\)',open(S+m+'.rs').read(),re.M)
    o+="            "+" ".join(f"{m}::{x}," for x in n)+"\n"
o+="        }\n    };\n}\n"
if open(S+'all.rs').read()!=o: open(S+'all.rs','w').write(o)
