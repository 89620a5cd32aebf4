#!/usr/bin/env python3
"""Turns a dump of the element tables (pinned commit) into sim/src/tables.rs.  Run once; the
result is committed, so the oracle's tables do not follow later changes in /repo."""
import sys
E_,G_,A_=[],{},[]
for l in open(sys.argv[1]):
    pass
raw=open(sys.argv[1]).read()
for l in raw.split('\n'):
    f=l.split('|')
    if f[0]=='G': G_[f[1]]=f[2].split(',')
    elif f[0]=='A': A_.append(f[1:5])
import re
for l in raw.split('\n'):
    if not l.startswith('E|'): continue
    # the delimiter of Cell contains '|'
    m=re.match(r'E\|(\w+)\|([^|]*)\|([^|]*)\|(\w+)\|([^|]*)\|(None|Some\("(?:.*?)"\))\|(true|false)\|(true|false)\|(true|false)\|(true|false)\|(true|false)\|(true|false)\|([^|]*)\|([^|]*)\|(.*)$',l)
    assert m,l
    E_.append(m.groups())
o=['// Generated once by tools/gen_tables.py from the pinned commit; the oracle uses these facts, not /repo\'s.',
 'use folia::{ElementType,AnnotationType};','use ElementType as E;','use AnnotationType as A;','',
 'pub struct Row { pub et: ElementType, pub name: &\'static str, pub tag: &\'static str, pub at: Option<AnnotationType>, pub delim: Option<&\'static str>, pub printable: bool, pub hidden: bool, pub textcontainer: bool, pub phoncontainer: bool, pub wrefable: bool, pub space: bool, pub subset: Option<&\'static str>, pub accepts: &\'static [ElementType] }','']
o.append('pub static ROWS: &[Row] = &[')
idx={}
for i,e in enumerate(E_):
    name,tag,xmltag,rt,at,delim,pr,hid,tc,pc,wr,sp,sub,pat,acc=e
    idx[name]=i
    accs=[]
    for a in [x for x in acc.split(',') if x]:
        k,n=a.split(':')
        for t in (G_[n] if k=='G' else [n]):
            if t not in accs: accs.append(t)
    o.append('    Row { et: E::%s, name: "%s", tag: "%s", at: %s, delim: %s, printable: %s, hidden: %s, textcontainer: %s, phoncontainer: %s, wrefable: %s, space: %s, subset: %s, accepts: &[%s] },'%(
      name,name,tag,'None' if at=='-' else 'Some(A::%s)'%at,delim,pr,hid,tc,pc,wr,sp,'None' if sub=='-' else 'Some("%s")'%sub,','.join('E::'+x for x in accs)))
o.append('];\n')
o.append('pub fn idx(et: ElementType) -> usize { match et {\n'+'\n'.join('    E::%s => %d,'%(n,i) for n,i in idx.items())+'\n} }\n')
o.append('pub fn row(et: ElementType) -> &\'static Row { &ROWS[idx(et)] }\n')
for g in G_:
    o.append('pub static G_%s: &[ElementType] = &[%s];'%(g.upper(),','.join('E::'+x for x in G_[g])))
o.append('\npub struct ARow { pub at: AnnotationType, pub name: &\'static str, pub et: ElementType, pub layer: Option<ElementType> }')
o.append('pub static AROWS: &[ARow] = &[')
for at,name,et,layer in A_:
    o.append('    ARow { at: A::%s, name: "%s", et: E::%s, layer: %s },'%(at,name,et,'None' if layer=='-' else 'Some(E::%s)'%layer))
o.append('];\n')
o.append('pub fn aidx(at: AnnotationType) -> usize { match at {\n'+'\n'.join('    A::%s => %d,'%(a[0],i) for i,a in enumerate(A_))+'\n} }')
o.append('pub fn arow(at: AnnotationType) -> &\'static ARow { &AROWS[aidx(at)] }')
print('\n'.join(o))
