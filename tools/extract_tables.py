#!/usr/bin/env python3
"""One-off: transcribe the coefficient tables of the pinned base revision into the
reference model (/verif/harness/src/refm/tables.rs).  The result is committed, and is
validated at start-up of every check against the verification values IAPWS published
(src/refm/selftest.rs); it is NOT regenerated by checks, so a coefficient changed in /repo
later does not propagate into the oracle."""
import re,sys,glob,os
src=sys.argv[1]
out=[]
seen={}
for f in sorted(glob.glob(src+'/**/*.rs',recursive=True)):
    t=open(f).read()
    t=re.sub(r'//[^\n]*','',t)
    t=re.sub(r'//！[^\n]*','',t)
    # walk tokens: track fn name
    for m in re.finditer(r'\bfn\s+(\w+)|(?:const|let)\s+(\w+)\s*:\s*(\[(?:\(|f64|i32)[^=]*?\])\s*=\s*\[',t):
        if m.group(1):
            # function scope ends at the first "\n}" after it
            fn=m.group(1); fnend=t.find('\n}',m.end()); seen[f]=(fn,fnend); continue
        name,ty=m.group(2),m.group(3)
        if 'usize' in ty: continue
        # body
        i=m.end()-1; d=0
        for j in range(i,len(t)):
            if t[j]=='[': d+=1
            if t[j]==']':
                d-=1
                if d==0: break
        body=t[i+1:j]
        fn,fe=seen.get(f,('',-1))
        ctx=fn if m.start()<fe else os.path.basename(f)[:-3]
        full=(ctx+'__'+name).upper()
        body=re.sub(r'\s+','',body).rstrip(',')
        if '(' in ty:
            el=re.findall(r'\(([^()]*)\)',body)
            rows=[]
            for e in el:
                a,b,c=e.rstrip(',').split(',')
                fl=lambda x: x if re.search(r'[.eE]',x) else x+'.0'
                rows.append('(%s, %s, %s)'%(fl(a),fl(b),fl(c)))
            out.append('pub const %s: [(f64, f64, f64); %d] = [\n    %s,\n];'%(full,len(rows),',\n    '.join(rows)))
        else:
            nums=re.findall(r'[-+0-9.eE]+',body)
            fl=lambda x: x if re.search(r'[.eE]',x) else x+'.0'
            out.append('pub const %s: [f64; %d] = [\n    %s,\n];'%(full,len(nums),',\n    '.join(fl(n) for n in nums)))
print('// Transcribed once from the pinned base revision by tools/extract_tables.py; see its header.')
print('#![allow(clippy::all)]')
print('\n'.join(out))
