#!/usr/bin/env python3
"""Every MPI_ function the real library exports that the simulator does not implement becomes a stub that stops the run."""
import re, subprocess, sys
src, out = sys.argv[1], sys.argv[2]
have = set(re.findall(r'^(?:int|double) (MPI_\w+)\(', open(src).read(), re.M))
ldd = subprocess.check_output(['ldd', '/usr/lib/x86_64-linux-gnu/libp4est-2.3.so'], text=True)
lib = re.search(r'libmpi\.so\S* => (\S+)', ldd).group(1)
syms = set()
for l in subprocess.check_output(['nm', '-D', '--defined-only', lib], text=True).splitlines():
    f = l.split()
    if len(f) == 3 and f[1] in 'TW' and f[2].startswith('MPI_'):
        syms.add(f[2])
with open(out, 'w') as o:
    o.write('extern "C" void sim_unsupported(const char*);\nextern "C" {\n')
    for s in sorted(syms - have):
        o.write('void %s(void){ sim_unsupported("%s"); }\n' % (s, s))
    o.write('}\n')
