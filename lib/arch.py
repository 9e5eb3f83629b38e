"""The same tasks for code that is not part of the default build of this host: the kernels of other processors (compiled by the
same clang, sampled paths and counterexamples run under qemu) and crcutil, which the default x86 build uses without PCLMULQDQ."""
import random
import build, props_decode as D, props_encode as E, props_crc as C, props_bind as B
from native_check import Group

NODEFS = ['-DYENC_DISABLE_CRCUTIL=1']
TARGETS = [dict(name='AArch64', variant=dict(defs=NODEFS, target='aarch64'), simd=(20,), crc=(21, 22))]
# tasks a quick run takes at most per target
QUICK = dict(C01=40, C02=40, C03=30, C04=26, C05=26, C06=10, C07=26, C08=30, C09=60, C10=110, C11=110, C12=40, C13=24, C14=2, C15=30, C26=220)
THOROUGH = 3000

def tasks(prop, quick, t):
    rnd = random.Random(31)
    if prop in ('C01', 'C02', 'C03'):
        mode = int(prop[2]) - 1; g = E.group(mode, quick, (), simd=t['simd'], scale=0.5)
    elif prop in ('C04', 'C05', 'C06', 'C07', 'C08', 'C10'):
        old, D.SIMD = D.SIMD, t['simd']
        try: g = getattr(D, prop)(quick)
        finally: D.SIMD = old
    elif prop == 'C09':
        old, B.SIMD = B.SIMD, t['simd']
        try: g = B.C09(quick)
        finally: B.SIMD = old
    else:
        old, C.ISAS = C.ISAS, t['crc']
        try: g = getattr(C, prop)(quick)
        finally: C.ISAS = old
    simd = set(t['simd'] + t['crc'])
    ts = [x for x in g[0].tasks if x['isa'] in simd]
    n = QUICK[prop] if quick else THOROUGH
    if len(ts) > n: rnd.shuffle(ts); ts = ts[:n]
    return g[0].harness, ts

def groups(prop, quick):
    out = []
    if prop not in QUICK: return out
    anf = prop in ('C11', 'C12', 'C13', 'C14', 'C15', 'C26')
    for t in TARGETS:
        h, ts = tasks(prop, quick, t)
        if ts: out.append(Group(h, ts, name=t['name'], variant=t['variant'], anf=anf, weight=0.3 if quick else 0.5))
    if prop in ('C11', 'C12', 'C26'): # crcutil
        ts = [x for x in dict(C11=C.C11, C12=C.C12, C26=C.C26)[prop](quick)[0].tasks if x['isa'] == 0 and (prop != 'C12' or x.get('mode') == 5)]
        if quick and len(ts) > 150: random.Random(32).shuffle(ts); ts = ts[:150]
        if prop == 'C11': ts += [dict(isa=0, mode=0, n=n, al=al, ends=8) for n in ((1023, 1024, 1031, 2049) if quick else (1000, 1023, 1024, 1025, 1031, 1087, 2048, 2049, 5000)) for al in ((0, 3) if quick else range(8))]
        out.append(Group('crc', ts, name='crcutil', variant=build.crcutil(), anf=True, weight=0.3 if quick else 0.5))
    return out
