#!/usr/bin/env python3
# Writes src/table.rs from spec.txt (both are checked in; nothing here reads /repo).
import os
here=os.path.dirname(os.path.abspath(__file__))
OWN={'G':'GraphAttributes','N':'NodeAttributes','E':'EdgeAttributes','S':'SubgraphAttributes'}
TY={'text':'Text','bool':'Bool','number':'F32','integer':'I32','color':'Color'}
helpers=[];defaults=[];enums=[];colors=[]
for l in open(here+'/spec.txt'):
    l=l.rstrip('\n')
    if not l or l.startswith('#'): continue
    f=l.split('\t')
    if f[0]=='colors': colors=f[1].split(); continue
    kind,name,own,rest,dflt=f; dflt=dflt.replace('\\t','\t')
    esc=lambda s: '"'+s.replace('\\','\\\\').replace('"','\\"').replace('\t','\\t')+'"'
    if kind=='enum':
        vals=rest.split()
        ident=lambda v: v+'_' if v in('box','virtual') else v
        enums.append(f'    ("{name}", &[{", ".join(f"""("{v}", || a::{name}::{ident(v)}.into_attr())""" for v in vals)}]),')
        for o in own:
            helpers.append(f'    Helper {{ name: "{name}", owner: "{OWN[o]}", make: Make::Values(&[{", ".join(f"""("{v}", || a::{OWN[o]}::{name}(a::{name}::{ident(v)}))""" for v in vals)}]) }},')
    else:
        for o in own:
            helpers.append(f'    Helper {{ name: "{name}", owner: "{OWN[o]}", make: Make::{TY[kind]}(a::{OWN[o]}::{name}) }},')
    if dflt!='-':
        defaults.append(f'    ("{name}", {esc(dflt)}, || a::{name}::default().into_attr()),')
with open(here+'/src/table.rs','w') as w:
    w.write('// Written by gen_table.py from spec.txt.\nuse super::*;\n')
    w.write('pub static HELPERS: &[Helper] = &[\n'+'\n'.join(helpers)+'\n];\n')
    w.write('pub static DEFAULTS: &[(&str, &str, fn() -> ds::Attribute)] = &[\n'+'\n'.join(defaults)+'\n];\n')
    w.write('pub static ENUMS: &[(&str, Values)] = &[\n'+'\n'.join(enums)+'\n];\n')
    w.write('pub static COLORS: &[(&str, fn() -> a::color_name)] = &[\n'+'\n'.join(f'    ("{c}", || a::color_name::{c}),' for c in colors)+'\n];\n')
