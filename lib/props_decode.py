"""Tasks for the decoder properties C04 C05 C06 C07 C08 C10."""
from native_check import Group
SIMD = (1, 2, 3, 4, 5)
def W(isa): return 64 if isa >= 4 else 32

def windows(isa, apis, quick, long=False, **kw):
    # n = 2w+10: the SIMD code handles exactly two blocks, so 2w is where it hands over to the scalar code
    w = W(isa); n = 3 * w + 40 if long else 2 * w + 10; out = []
    if not quick and not long: out = windows(isa, apis, quick, True, **kw)
    size = 6 if quick else 7
    starts = [(0, 0), (0, w - 3)]                       # (window, alignment): first block; scalar prologue into first block
    for b in ((16, w, 2 * w) if quick else (16, 32, 48, w, w + 16, 2 * w, 3 * w)):
        starts += [(b - size + 1, 0), (b - 3, 0), (b - 1, 0)]
    starts += [(w - 4, w - 5), (n - size, 0), (w + 3, 7), (2 * w - 1, w - 3)]
    for api in apis:
        for s, al in starts:
            if s < 0 or s + size > n: continue
            t = dict(isa=isa, api=api, n=n, w0=s, w1=s + size, al=al, dm=0, st=3, **kw)
            if s == 0: t['st'] = -1 if api == 2 else 3; t['w1'] = s + size - (2 if api == 2 else 1)
            out.append(t)
    return out

def ends(isa, apis, quick, **kw):
    """every length around the kernel threshold, specials in the last bytes"""
    w = W(isa); out = []
    for api in apis:
        for n in range(2 * w - 2, 3 * w + 8, 3 if quick else 1):
            out.append(dict(isa=isa, api=api, n=n, w0=n - 4, w1=n, al=0 if n % 2 else 3, dm=1, st=3, **kw))
    return out

def busy(isa, apis, quick, **kw):
    """dense specials around a symbolic window"""
    w = W(isa); out = []; n = 3 * w + 40
    for api in apis:
        for k in range(2 if quick else 8):
            p = (w - 2, 2 * w + 11, w + 13, 2 * w - 3, 20, 35, 5, 2 * w + 1)[k]
            out.append(dict(isa=isa, api=api, n=n, w0=p, w1=p + 4, al=k, dm=0, st=3, bg=3 + 5 * k + isa, **kw))
    return out

def masks(isa, api, quick, lanes=16, **kw):
    """all 2^lanes positions of line feeds inside one 16-byte vector (every entry of the compaction tables), and of '='"""
    w = W(isa); out = []; n = 2 * w + 8; fx = 4 if lanes > 12 else 0
    for base in ((0,) if quick else (0, 16, w - 8)):
        for v in range(1 << fx):
            out.append(dict(isa=isa, api=api, n=n, w0=base, w1=base + lanes - fx, dm=2, fxn=fx, fxv=v, st=3, **kw))
        out.append(dict(isa=isa, api=api, n=n, w0=base, w1=base + (14 if quick else 20), dm=3, st=3, **kw))
        out.append(dict(isa=isa, api=api, n=n, w0=w - 7, w1=w + 7, dm=3, st=3, **kw))
    return out

def scalar(apis, nmax, **kw):
    return [dict(isa=0, api=a, n=n, w0=0, w1=n, dm=0, st=-1 if a == 2 else 3, **kw) for a in apis for n in range(0, nmax + 1)]

def by_cost(ts): return sorted(ts, key=lambda t: -(t.get('w1', 0) - t.get('w0', 0)) - (20 if t.get('dm') == 3 else 0))

COMMON = ['clang 18 -O1 IR of the kernels stands for the gcc -O3 build (sampled paths are replayed on the gcc build)',
          'x86 and AArch64 (NEON) kernels and portable code; 32-bit ARM and RISC-V are not encoded',
          'out-of-window bytes are arbitrary bytes other than CR, LF, "=", "." (or a fixed dense pattern of them in the "bg" tasks)']
BOUNDS = dict(scalar='all byte strings up to the listed n', simd='n up to 3 blocks + 40 bytes (136 SSE, 232 AVX2/VBMI2) with 4-7 adjacent fully arbitrary bytes at block/vector/start/end boundaries; all 2^16 line-feed patterns of one vector', alignments='source offsets 0..63 as listed in the tasks')

def c_decode(prop, api, quick):
    g = []
    t = scalar([api], 6 if api < 2 else 5) if quick else scalar([api], 8 if api < 2 else 7)
    for i in SIMD:
        t += windows(i, [api], quick) + ends(i, [api], quick) + busy(i, [api], quick)
    if quick:
        for i in (SIMD if api == 0 else ()): t += masks(i, api, True)
        if api: t += [x for i in SIMD for x in masks(i, api, True, lanes=8)]
    else:
        for i in SIMD: t += masks(i, api, False)
    t += windows(6, [api], True)[:4]
    return [Group('decode', by_cost(t), reach=(('decode',) if api < 2 else ('ended', 'open')))]

def C04(quick): return c_decode('C04', 0, quick)
def C05(quick): return c_decode('C05', 1, quick)
def C07(quick): return c_decode('C07', 2, quick)

def C06(quick):
    t = []
    for n in range(1, 6 if quick else 8):
        for cut in range(0, n + 1): t.append(dict(isa=0, api=2, n=n, w0=0, w1=n, dm=0, st=-1, mode=2, cut=cut))
    for i in SIMD:
        w = W(i)
        for cut in ((2 * w + 5, 3 * w) if quick else (w + 3, 2 * w + 1, 2 * w + 5, 3 * w - 1, 3 * w)):
            for al2 in ((0,) if cut == 2 * w + 5 and quick else (0, w - 2, 3)):
                n = cut + 2 * w + 9 + (w if al2 else 0) # both the whole text and the second chunk reach the SIMD code
                for d, k, dm in ((-4, 6, 1), (-2, 6, 1), (-1, 6, 1)) if al2 == 0 else ((-4, 7, 1), (-2, 6, 1)):
                    t.append(dict(isa=i, api=2, n=n, w0=cut + d, w1=cut + d + k + (0 if quick else 1), dm=dm, st=3, mode=2, cut=cut, al=0, al2=al2))
                if not quick or al2 == 0: t.append(dict(isa=i, api=2, n=n, w0=cut - 3, w1=cut + 2, dm=0, st=3, mode=2, cut=cut, al=5 if cut % 2 else 0, al2=al2, bg=0 if quick else 7))
        t += [dict(x, mode=0) for x in windows(i, [2], True) if x['w0'] in (0, x['n'] - 6, 2 * w - 1) or not quick]
        t += ends(i, [2], quick)
    t += scalar([2], 5 if quick else 7)
    return [Group('decode', by_cost(t), reach=('second', 'split', 'open'))]

def C08(quick):
    t = []
    for a in (0, 1, 2): t += [dict(isa=0, api=a, n=n, w0=0, w1=n, dm=0, st=-1 if a == 2 else 3, mode=1) for n in range(1, 5 if quick else 7)]
    for i in SIMD:
        t += windows(i, (0, 1, 2), True, mode=1) + busy(i, (0, 1, 2), quick, mode=1)
        w = W(i)
        for a in (0, 1, 2):
            for base in (0, w - 4): t.append(dict(isa=i, api=a, n=2 * w + 8 + base, w0=base, w1=base + 8, dm=2, st=3, mode=1)); t.append(dict(isa=i, api=a, n=2 * w + 8 + base, w0=base, w1=base + 10, dm=3, st=3, mode=1))
    return [Group('decode', by_cost(t), reach=('inplace',))]

def C10(quick):
    t = scalar((0, 1, 2), 4 if quick else 6)
    for i in SIMD:
        w = W(i)
        for a in (0, 1, 2):
            # every remainder of the aligned part by the block size that matters for where the last loads of a block reach
            for r in sorted(set(list(range(0, 7)) + [16, 18, 20, w // 2 + 2, w // 2 + 4, w - 2, w - 1] + ([] if quick else list(range(w))))):
                for al in ((0,) if quick and r > 6 else (0, w - 5)):
                    n = 2 * w + r + (w - al) % w + (w if r == 0 else 0)
                    t.append(dict(isa=i, api=a, n=n, w0=n - 6, w1=n, dm=1, st=3, al=al, dal=(n * 5) % 64, bg=0 if r % 2 else 3))
            for n in range(0, 2 * w + 2, 5 if quick else 1): t.append(dict(isa=i, api=a, n=n, w0=max(0, n - 4), w1=n, dm=1, st=3, al=(n * 7) % 64, dal=(n * 5) % 64))
            for al in range(0, 64, 3 if quick else 1):
                n = 2 * w + 40 + al % 9
                t.append(dict(isa=i, api=a, n=n, w0=n - 3, w1=n, dm=1, st=3, al=al, dal=al * 3 % 64, bg=al % 5))
            t += [dict(x, dm=1) for x in windows(i, [a], True)[::3]]
            t.append(dict(isa=i, api=a, n=2 * w + 8, w0=0, w1=8, dm=2, st=3))
    return [Group('decode', by_cost(t), reach=('decode', 'ended', 'open'))]
