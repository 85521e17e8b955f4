#!/usr/bin/env python3
"""Development-time generator (NOT run by the checks): lists the public native
functions of qcd-sme and writes harness/src/registry.rs, a name -> closure table."""
import re,sys,os
SRC="/repo/qcd-sme/src"
FILES={
 "common/mod.rs":"common","common/thermal.rs":"common::thermal","low_level/common/mod.rs":"low_level::common",
 "low_level/oneloop/ghost.rs":"low_level::oneloop::ghost","low_level/oneloop/gluon.rs":"low_level::oneloop::gluon",
 "low_level/oneloop/thermal/mod.rs":"low_level::oneloop::thermal",
 "low_level/oneloop/thermal/ghost.rs":"low_level::oneloop::thermal::ghost",
 "low_level/oneloop/thermal/gluon.rs":"low_level::oneloop::thermal::gluon",
 "low_level/oneloop/thermal/zero_matsubara.rs":"low_level::oneloop::thermal::zero_matsubara",
 "low_level/oneloop/thermal/zero_momentum.rs":"low_level::oneloop::thermal::zero_momentum",
 "ym/ghost.rs":"ym::ghost","ym/gluon.rs":"ym::gluon","ym/thermal.rs":"ym::thermal",
 "qcd/gluon.rs":"qcd::gluon","qcd/thermal.rs":"qcd::thermal"}
def strip(s):
    s=re.sub(r'//[^\n]*','',s)
    return s
fns=[]
for f,base in FILES.items():
    t=strip(open(os.path.join(SRC,f)).read())
    # walk with a module stack
    i=0; stack=[]; depth=0
    tok=re.compile(r'(#\[cfg\(test\)\]\s*)?\b(?:pub(?:\(crate\))?\s+)?mod\s+(\w+)\s*\{|(pub(?:\(crate\))?\s+(?:extern\s+"C"\s+)?fn\s+\w+)|\{|\}')
    while True:
        m=tok.search(t,i)
        if not m: break
        i=m.end()
        if m.group(2):
            stack.append((m.group(2),depth)); depth+=1
        elif m.group(3):
            mods=[s for s,_ in stack]
            # signature until '{' at paren/angle depth 0
            j=i
            d=0
            while not(t[j]=='{' and d==0):
                if t[j] in '([': d+=1
                if t[j] in ')]': d-=1
                j+=1
            sig=re.sub(r'\s+',' ',t[m.start():j]).strip()
            i=j
            if 'ffi' in mods or 'inlines' in mods or 'tests' in mods: continue
            if 'extern' in sig : continue
            path=[x for x in mods if x!='native']
            fns.append(("::".join([base]+path),sig))
        elif m.group(0)=='{': depth+=1
        else:
            depth-=1
            if stack and stack[-1][1]==depth: stack.pop()
def splittop(s):
    out=[];d=0;cur=''
    for k,ch in enumerate(s):
        if ch in '(<[':d+=1
        if ch in ')]' or (ch=='>' and s[k-1]!='-'): d-=1
        if ch==',' and d==0: out.append(cur.strip());cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out
# re-exports
extra=[]
for p,s in fns:
    if p=="ym::ghost": extra.append(("qcd::ghost",s))
    if p=="ym::thermal::ghost": extra.append(("qcd::thermal::ghost",s))
    if p=="ym::thermal::zero_matsubara::ghost": extra.append(("qcd::thermal::zero_matsubara::ghost",s))
    if p=="ym::thermal::zero_momentum::ghost": extra.append(("qcd::thermal::zero_momentum::ghost",s))
fns+=extra
out=[];sigs=[];n=0;jout=[]
for path,sig in fns:
    m=re.match(r'pub(?:\(crate\))? fn (\w+)\s*(<.*?>)?\s*\((.*)\)\s*->\s*(\S.*)$',sig)
    if not m:
        # generic with nested <>
        m2=re.match(r'pub(?:\(crate\))? fn (\w+)\s*<',sig)
        k=m2.end();d=1
        while d:
            if sig[k]=='<':d+=1
            if sig[k]=='>' and sig[k-1]!='-':d-=1
            k+=1
        gen=sig[m2.end()-1:k]; rest=sig[k:]
        mm=re.match(r'\s*\((.*)\)\s*->\s*(\S.*)$',rest)
        name,args,ret=m2.group(1),mm.group(1),mm.group(2)
    else:
        name,gen,args,ret=m.groups()
        if gen and gen.count('<')!=gen.count('>'):
            m2=re.match(r'pub(?:\(crate\))? fn (\w+)\s*<',sig)
            k=m2.end();d=1
            while d:
                if sig[k]=='<':d+=1
                if sig[k]=='>' and sig[k-1]!='-':d-=1
                k+=1
            gen=sig[m2.end()-1:k]; rest=sig[k:]
            mm=re.match(r'\s*\((.*)\)\s*->\s*(\S.*)$',rest)
            args,ret=mm.group(1),mm.group(2)
    ret=ret.strip()
    gs=[g.split(':')[0].strip() for g in splittop(gen[1:-1])] if gen else []
    insts=[]
    if not gs: insts=[('',{})]
    else:
        insts=[('#R'*1+'R'*(len(gs)-1),{g:'R' for g in gs}),('#C'+'C'*(len(gs)-1),{g:'C' for g in gs})]
        if len(gs)>1:
            insts.append(('#C'+'R'*(len(gs)-1),{g:('C' if i==0 else 'R') for i,g in enumerate(gs)}))
    al=[a.split(':',1) for a in splittop(args)]
    if gs and path.split('::')[0] in ('ym','qcd','low_level'):
        call=[];ty=[]
        for k,(an,at) in enumerate(al):
            at=at.strip()
            if at in gs: call.append(f'J(a[{k}].c())');ty.append('C')
            elif at=='R': call.append(f'a[{k}].r()');ty.append('R')
            elif at in('Integral','crate::Integral'): call.append(f'a[{k}].integral()');ty.append('I')
            elif 'FieldConfig' in at: call.append(f'a[{k}].cfg(e)');ty.append('F')
            else: sys.exit(f'{path} {name} {at}')
        rt='.0' if ret in gs else ''
        nm='", "'.join(an.strip() for an,_ in al)
        jout.append(f'    m.insert("{path}::{name}#J", (&["{nm}"], "{"".join(ty)}", |e, a| {{ let _ = e; V::C(qcd_sme::{path}::{name}({", ".join(call)}){rt}) }}));')
    for suf,mp in insts:
        call=[];ty=[]
        for k,(an,at) in enumerate(al):
            at=at.strip()
            at=mp.get(at,at)
            if at=='R': call.append(f'a[{k}].r()');ty.append('R')
            elif at=='C': call.append(f'a[{k}].c()');ty.append('C')
            elif at in('Integral','crate::Integral'): call.append(f'a[{k}].integral()');ty.append('I')
            elif 'FieldConfig' in at: call.append(f'a[{k}].cfg(e)');ty.append('F')
            else: sys.exit(f'{path} {name} {at}')
        rt=mp.get(ret,ret)
        assert rt in('R','C'),(path,name,rt)
        conv='V::R' if rt=='R' else 'V::C'
        out.append(f'    m.insert("{path}::{name}{suf}", (&["{chr(34)+", "+chr(34) if False else (chr(34)+", "+chr(34)).join(an.strip() for an,_ in al)}"], "{"".join(ty)}", |e, a| {{ let _ = e; {conv}(qcd_sme::{path}::{name}({", ".join(call)})) }}));')
        n+=1
open('/verif/harness/src/registry.rs','w').write('''// Generated by tools/gen_registry.py at development time: the public native functions of
// qcd-sme, one entry per instantiation of their generic parameters.
use super::{Env, V};
use std::collections::BTreeMap;

pub type Entry = (&'static [&'static str], &'static str, fn(&Env, &[V]) -> V);

pub fn registry() -> BTreeMap<&'static str, Entry> {
    let mut m: BTreeMap<&'static str, Entry> = BTreeMap::new();
'''+"\n".join(out)+"\n    m\n}\n")
open('/verif/harness/src/jregistry.rs','w').write('''// Generated by tools/gen_registry.py at development time: the generic correlators of qcd-sme,
// instantiated at the number type of sched.rs that lets other work happen between its operations.
use super::registry::Entry;
use super::sched::J;
use super::V;
use std::collections::BTreeMap;

pub fn registry() -> BTreeMap<&'static str, Entry> {
    let mut m: BTreeMap<&'static str, Entry> = BTreeMap::new();
'''+"\n".join(jout)+"\n    m\n}\n")
print(len(jout),'at J')
print(n,'entries',len(fns),'functions')
