#!/usr/bin/env python3
"""mkconfig.py IN OUT [NAME=0|1 ...]: what CMake's configure_file does for #cmakedefine01."""
import re,sys
vals=dict(a.split('=') for a in sys.argv[3:])
out=[]; seen=set()
for l in open(sys.argv[1]):
    m=re.match(r'\s*#\s*cmakedefine01\s+(\w+)',l)
    m2=re.match(r'\s*#\s*cmakedefine\s+(\w+)(.*)',l)
    if m: n=m.group(1); seen.add(n); out.append('#define %s %s\n'%(n,vals.get(n,'0')))
    elif m2: n=m2.group(1); seen.add(n); out.append('#define %s%s\n'%(n,m2.group(2)) if vals.get(n,'0')!='0' else '/* #undef %s */\n'%n)
    else: out.append(l)
for k,v in vals.items():
    if k not in seen: out.append('#ifndef %s\n#define %s %s\n#endif\n'%(k,k,v))
open(sys.argv[2],'w').write(''.join(out))
