"""Runs recorded calls through the Python package.  usage: pydrive.py PKGDIR IN OUT
IN: records of (u32 function, i32 id, f64, f64); function >= 256: the short form, e.g. pt2h. OUT: (f64 value, u64 status)"""
import struct, sys
sys.path.insert(0, sys.argv[1])
import seuif97
N = ['pt', 'ph', 'ps', 'hs', 'pv', 'tv', 'th', 'ts', 'px', 'tx', 'hx', 'sx']
L = {0: 'p', 1: 't', 3: 'v', 4: 'h', 5: 's', 15: 'x'}
data = open(sys.argv[2], 'rb').read()
out = bytearray()
fs = [getattr(seuif97, n, None) for n in N]
short = {}
for i, n in enumerate(N):
    for o, l in L.items():
        if l not in n: short[(i, o)] = getattr(seuif97, f'{n}2{l}', None)
pack = struct.Struct('<dQ').pack
for f, o, a, b in struct.iter_unpack('<Iidd', data):
    st, y = 0, 0.0
    g = fs[f] if f < 256 else short[(f - 256, o)]
    if g is None: st = 1                       # not there
    else:
        try:
            y = g(a, b, o) if f < 256 else g(a, b)
            if type(y) is not float: st, y = 2, 0.0
            elif abs(a) < 1e15 and abs(b) < 1e15 and (a == int(a) or b == int(b)):   # written as Python integers
                i, j = int(a) if a == int(a) else a, int(b) if b == int(b) else b
                z = g(i, j, o) if f < 256 else g(i, j)
                if pack(z, 0) != pack(y, 0) and not (a == 0 and str(a) == '-0.0' or b == 0 and str(b) == '-0.0'): st = 4
        except BaseException: st = 3           # raised (a Rust panic arrives as PanicException)
    out += pack(y, st)
open(sys.argv[3], 'wb').write(out)
