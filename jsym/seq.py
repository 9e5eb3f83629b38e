"""Strings and byte buffers with symbolic elements: lists of int | T | Tok | Blob."""
import numpy as np, z3
from core import *

WS = set([9, 10, 11, 12, 13, 32, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff] + list(range(0x2000, 0x200b)))
_wsm = np.zeros(65536, dtype=bool); _wsm[list(WS)] = True

class SStr:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e

def u16(s):
    if all(ord(c) < 0x10000 for c in s): return s
    o = []
    for c in s:
        c = ord(c)
        if c >= 0x10000: c -= 0x10000; o.append(chr(0xd800 + (c >> 10))); o.append(chr(0xdc00 + (c & 1023)))
        else: o.append(chr(c))
    return ''.join(o)

def elems(s): return [ord(c) for c in s] if isinstance(s, str) else s.e
def mk(e):
    for x in e:
        if not isinstance(x, int): return SStr(list(e))
    return ''.join(map(chr, e))
def isstr(x): return isinstance(x, (str, SStr))
_LT = frozenset((Tok, Blob))
def long(x): return type(x) in _LT
def anylong(e): return not _LT.isdisjoint(map(type, e))
def elen(x): return x.ln if isinstance(x, (Tok, Blob)) else 1

def tok(c, n):
    """Decimal digits of the non-negative integer n, as elements."""
    if isinstance(n, int): return [ord(ch) for ch in str(n)]
    if isinstance(n, T):
        n2 = c.norm(c.to_sn(n))
        if isinstance(n2, int): return tok(c, n2)
        n = n2
    e = z3.IntVal(17); z = c.z(n)
    for k in range(16, 0, -1): e = z3.If(z < 10 ** k, z3.IntVal(k), e)
    return [Tok(n, c.atom(e, 1, 17))]

_isd10 = None
def expand(c, t):
    if t.exp is None:
        z = c.z(t.n); k = 1
        while k < 17 and not c.decide_z(z < 10 ** k): k += 1
        ds = []; tot = []
        for i in range(k):
            c.fresh += 1; v = Var('!d%d' % c.fresh, 10); c.vars[v.name] = v; m = np.ones(10, dtype=bool)
            if i == 0 and k > 1: m[0] = False
            c.dom[v.name] = m; c.link(v); ds.append(T(v, np.arange(10) + 48)); tot.append(v.z * 10 ** (k - 1 - i))
        c.add(z == z3.Sum(tot)); t.exp = ds
    return t.exp
def expand_all(c, e):
    if Tok not in map(type, e): return e
    o = []
    for x in e:
        if isinstance(x, Tok): o += expand(c, x)
        else: o.append(x)
    return o
def chars(c, e):
    """Expands tokens; refuses blobs."""
    e = expand_all(c, e)
    if Blob in map(type, e): raise Unsupported('character access into opaque data')
    return e

def seqlen(c, e):
    if not anylong(e): return len(e)
    n = 0; s = 0
    for x in e:
        if isinstance(x, (Tok, Blob)): s = c.addn(s, x.ln)
        else: n += 1
    return c.addn(s, n) if not isinstance(s, int) else s + n

def locate(c, e, pos):
    """(elements, index) with total length of elements[:index] == pos; pos beyond the end gives len(e)."""
    if isinstance(pos, (int, float)) and not anylong(e):
        return e, min(int(pos), len(e)) if pos < len(e) else len(e)
    e = list(e); start = 0; i = 0
    while i < len(e):
        d = c.sub(pos, start)
        if isinstance(d, int) and d <= 0: return e, i
        x = e[i]
        if not long(x):
            if not isinstance(d, int) and not c.cmp('>', d, 0): return e, i
            start = c.addn(start, 1); i += 1; continue
        r = c.sub(d, x.ln)
        if (r >= 0) if isinstance(r, int) else c.cmp('>=', r, 0): start = c.addn(start, x.ln); i += 1; continue
        if not isinstance(d, int) and c.cmp('<=', d, 0): return e, i
        if isinstance(x, Tok): e[i:i + 1] = expand(c, x); continue
        raise Unsupported('position inside opaque data')
    return e, len(e)

def getat(c, e, pos):
    """element at pos or None"""
    if isinstance(pos, int) and not anylong(e): return e[pos] if 0 <= pos < len(e) else None
    if c.cmp('<', pos, 0): return None
    e, i = locate(c, e, pos)
    if i >= len(e): return None
    x = e[i]
    if isinstance(x, Tok): return expand(c, x)[0]
    if isinstance(x, Blob):
        if c.cmp('==', x.ln, 0): return getat(c, e[i + 1:], 0)
        raise Unsupported('character access into opaque data')
    return x

def cut(c, e, a, b):
    """elements from position a to b (0 <= a, a <= b expected; clamped)"""
    if isinstance(a, int) and isinstance(b, int) and not anylong(e): return e[a:b] if b > a else []
    if c.cmp('<=', b, a): return []
    e, j = locate(c, e, b); e = e[:j]
    e, i = locate(c, e, a); return e[i:]

def eqel(c, x, y):
    if isinstance(x, int) and isinstance(y, int): return x == y
    return c.cmp('==', x, y)
def isdig(c, x):
    if isinstance(x, int): return 48 <= x <= 57
    return c.decide_un(x.v, (x.tab >= 48) & (x.tab <= 57))

def eqseq(c, a, b):
    if len(a) == len(b):
        if a is b: return True
        if not anylong(a) and not anylong(b):
            for x, y in zip(a, b):          # known differences first
                if isinstance(x, int) and isinstance(y, int) and x != y: return False
            for x, y in zip(a, b):
                if not eqel(c, x, y): return False
            return True
    elif not anylong(a) and not anylong(b): return False
    i = j = 0; a = list(a); b = list(b)
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if isinstance(x, Blob) or isinstance(y, Blob):
            if isinstance(x, Blob) and isinstance(y, Blob):
                if x.key != y.key: 
                    return False
                if not c.cmp('==', x.ln, y.ln): return False
                i += 1; j += 1; continue
            z = x if isinstance(x, Blob) else y
            if c.cmp('==', z.ln, 0):
                if z is x: i += 1
                else: j += 1
                continue
            return False
        if isinstance(x, Tok) and isinstance(y, Tok):
            nx = a[i + 1] if i + 1 < len(a) else 32; ny = b[j + 1] if j + 1 < len(b) else 32
            if isinstance(nx, int) and isinstance(ny, int) and not 48 <= nx <= 57 and not 48 <= ny <= 57:
                if not c.cmp('==', x.n, y.n): return False
                i += 1; j += 1; continue
            a[i:i + 1] = expand(c, x); b[j:j + 1] = expand(c, y); continue
        if isinstance(x, Tok) or isinstance(y, Tok):
            if isinstance(y, Tok): a, b, i, j = b, a, j, i; x, y = y, x
            # digits of b from j on
            k = j; run = []
            while k < len(b) and not long(b[k]) and isdig(c, b[k]): run.append(b[k]); k += 1
            nx = a[i + 1] if i + 1 < len(a) else 32
            if not run and (k >= len(b) or not long(b[k])): return False
            if (k < len(b) and long(b[k])) or not isinstance(nx, int) or 48 <= nx <= 57: a[i:i + 1] = expand(c, x); continue
            if len(run) > 1 and eqel(c, run[0], 48): return False
            v = 0
            for q in run: v = c.addn(c.mul(v, 10), c.addn(q, -48))
            if not c.cmp('==', x.n, v): return False
            i += 1; j = k; continue
        if not eqel(c, x, y): return False
        i += 1; j += 1
    for r in (a[i:], b[j:]):
        for x in r:
            if isinstance(x, Blob) and c.cmp('==', x.ln, 0): continue
            return False
    return True

def match_at(c, e, i, pat):
    """does the concrete/symbolic pattern match elements from index i on? None: needs expansion of e[k]"""
    k = i
    for p in pat:
        if k >= len(e): return False, None
        x = e[k]
        if isinstance(x, Tok):
            if isinstance(p, int) and not 48 <= p <= 57: return False, None
            return None, k
        if isinstance(x, Blob):
            if isinstance(p, int) and p in x.no and (k == i or not c.cmp('==', x.ln, 0)): return False, None
            return None, k
        if not eqel(c, x, p): return False, None
        k += 1
    return True, None

def find(c, e, pat, start=0):
    """position of the first occurrence at or after start, or -1"""
    if anylong(pat): pat = chars(c, pat)
    if not anylong(e) and isinstance(start, int):
        if all(isinstance(x, int) for x in e) and all(isinstance(x, int) for x in pat):
            return ''.join(map(chr, e)).find(''.join(map(chr, pat)), start) if start <= len(e) else (-1 if pat else len(e))
        for i in range(start, len(e) - len(pat) + 1):
            if match_at(c, e, i, pat)[0]: return i
        return -1
    e, i = locate(c, e, start); e = list(e)
    while i < len(e):
        r, k = match_at(c, e, i, pat)
        if r: return seqlen(c, e[:i])
        if r is None:
            x = e[k]
            if isinstance(x, Tok): e[k:k + 1] = expand(c, x); continue
            if c.cmp('==', x.ln, 0): del e[k]; continue
            raise Unsupported('search into opaque data')
        i += 1
    return -1 if pat else seqlen(c, e)

def rfind(c, e, pat, last=None):
    """position of the last occurrence (starting at or before last), or -1"""
    if anylong(pat): pat = chars(c, pat)
    e = list(e)
    if last is None: i = len(e)
    else: e, i = locate(c, e, last); e = list(e)
    i = min(i, len(e))
    while i >= 0:
        if i < len(e) and isinstance(e[i], Blob) and pat:
            if isinstance(pat[0], int) and pat[0] in e[i].no: i -= 1; continue
            if c.cmp('==', e[i].ln, 0): del e[i]; continue
            raise Unsupported('search into opaque data')
        r, k = match_at(c, e, i, pat)
        if r: return seqlen(c, e[:i])
        if r is None:
            x = e[k]
            if isinstance(x, Tok): q = expand(c, x); e[k:k + 1] = q; i = i + (len(q) - 1 if k < i else 0); continue
            if c.cmp('==', x.ln, 0): del e[k]; continue
            raise Unsupported('search into opaque data')
        i -= 1
    return -1

def isws(c, x):
    if isinstance(x, int): return x in WS
    if isinstance(x, (Tok, Blob)): return False
    return c.decide_un(x.v, _wsm[x.tab])
def trim(c, e, left=True, right=True):
    i, j = 0, len(e)
    if left:
        while i < j and isws(c, e[i]): i += 1
    if right:
        while j > i and isws(c, e[j - 1]): j -= 1
    return e[i:j]

def inr(c, x, lo, hi):
    if isinstance(x, int): return lo <= x <= hi
    return c.decide_un(x.v, (x.tab >= lo) & (x.tab <= hi))
def lin2(c, parts, k):
    """sum of x*m over parts (x int or T) + k, as an element"""
    if all(isinstance(x, int) for x, m in parts): return sum(x * m for x, m in parts) + k
    ts = [x for x, m in parts if not isinstance(x, int)]
    if len(ts) == 1 or all(t.v is ts[0].v for t in ts):
        tab = 0
        for x, m in parts: tab = tab + (x.tab if not isinstance(x, int) else x) * m
        return T(ts[0].v, tab + k)
    raise Unsupported('a character depending on two symbolic bytes')
def conc2(c, parts):
    """make at most one of the parts symbolic"""
    seen = None; out = []
    for x, m in parts:
        if isinstance(x, T):
            if seen is None or seen is x.v: seen = x.v
            else: x = c.concretize(x)
        out.append((x, m))
    return out
def utf8_decode(c, e):
    o = []; i = 0; n = len(e)
    while i < n:
        x = e[i]
        if long(x): o.append(x); i += 1; continue
        if inr(c, x, 0, 0x7f): o.append(x); i += 1; continue
        need = 0; lo, hi = 0x80, 0xbf
        if inr(c, x, 0xc2, 0xdf): need = 1
        elif inr(c, x, 0xe0, 0xef):
            need = 2
            if eqel(c, x, 0xe0): lo = 0xa0
            elif eqel(c, x, 0xed): hi = 0x9f
        elif inr(c, x, 0xf0, 0xf4):
            need = 3
            if eqel(c, x, 0xf0): lo = 0x90
            elif eqel(c, x, 0xf4): hi = 0x8f
        if not need: o.append(0xfffd); i += 1; continue
        seq = []; k = i + 1
        while len(seq) < need and k < n and not long(e[k]) and inr(c, e[k], lo, hi): seq.append(e[k]); k += 1; lo, hi = 0x80, 0xbf
        if len(seq) < need: o.append(0xfffd); i = k; continue
        if need == 1: o.append(lin2(c, conc2(c, [(x, 64), (seq[0], 1)]), -0xc0 * 64 - 0x80))
        elif need == 2: o.append(lin2(c, conc2(c, [(x, 4096), (seq[0], 64), (seq[1], 1)]), -0xe0 * 4096 - 0x80 * 64 - 0x80))
        else:
            b = [c.concretize(q) if isinstance(q, T) else q for q in [x] + seq]
            cp = ((b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | b[3] & 63) - 0x10000
            o += [0xd800 + (cp >> 10), 0xdc00 + (cp & 1023)]
        i = k
    return o
def utf8_encode(c, e):
    o = []; i = 0
    while i < len(e):
        x = e[i]; i += 1
        if long(x): o.append(x); continue
        if inr(c, x, 0, 0x7f): o.append(x); continue
        f = (lambda t, g: g(t) if isinstance(t, int) else T(t.v, g(t.tab)))
        if inr(c, x, 0x80, 0x7ff): o += [f(x, lambda t: 0xc0 + (t >> 6)), f(x, lambda t: 0x80 + (t & 63))]; continue
        if inr(c, x, 0xd800, 0xdfff):
            if inr(c, x, 0xd800, 0xdbff) and i < len(e) and not long(e[i]) and inr(c, e[i], 0xdc00, 0xdfff):
                y = e[i]; i += 1
                # 10000 + (x-d800)<<10 + (y-dc00)
                o.append(f(x, lambda t: 0xf0 + ((((t - 0xd800) << 10) + 0x10000) >> 18)))
                o.append(f(x, lambda t: 0x80 + (((((t - 0xd800) << 10) + 0x10000) >> 12) & 63)))
                hi = f(x, lambda t: ((t - 0xd800) & 3) << 4); lo = f(y, lambda t: (t - 0xdc00) >> 6)
                o.append(lin2(c, conc2(c, [(hi, 1), (lo, 1)]), 0x80)); o.append(f(y, lambda t: 0x80 + (t & 63)))
            else: o += [0xef, 0xbf, 0xbd]
            continue
        o += [f(x, lambda t: 0xe0 + (t >> 12)), f(x, lambda t: 0x80 + ((t >> 6) & 63)), f(x, lambda t: 0x80 + (t & 63))]
    return o

def tonum(c, s):
    """ToNumber of a string"""
    e = trim(c, list(elems(s)))
    if not e: return 0
    if len(e) == 1 and isinstance(e[0], Tok): return c.norm(e[0].n) if isinstance(e[0].n, SN) else e[0].n
    e = chars(c, e)
    if all(isinstance(x, int) for x in e): return pynum(''.join(map(chr, e)))
    if len(e) > 15: raise Unsupported('long symbolic number')
    for x in e:
        if not isdig(c, x): break
    else:
        v = 0
        for x in e: v = c.addn(c.mul(v, 10), c.addn(x, -48))
        return v
    # not all digits: anything that can still be a number has only these characters
    ok = set(map(ord, '0123456789+-.eExXoObBaAcCdDfFInity_n'))
    out = []
    for x in e:
        if isinstance(x, int):
            if x not in ok: return float('nan')
            out.append(x)
        else:
            m = np.zeros(int(x.tab.max()) + 1, dtype=bool)
            for q in ok:
                if q < len(m): m[q] = True
            if not c.decide_un(x.v, m[x.tab]): return float('nan')
            out.append(x)
    return pynum(''.join(chr(c.concretize(x) if isinstance(x, T) else x) for x in out))
def pynum(t):
    import re
    t = t.strip(''.join(map(chr, WS)))
    if t == '': return 0
    m = re.fullmatch(r'0[xX]([0-9a-fA-F]+)', t)
    if m: return int(m[1], 16)
    m = re.fullmatch(r'0[oO]([0-7]+)', t)
    if m: return int(m[1], 8)
    m = re.fullmatch(r'0[bB]([01]+)', t)
    if m: return int(m[1], 2)
    m = re.fullmatch(r'([+-]?)Infinity', t)
    if m: return float('-inf') if m[1] == '-' else float('inf')
    if re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', t): return normnum(float(t))
    return float('nan')
def normnum(x):
    if isinstance(x, float) and x == x and abs(x) < MAXSAFE and x == int(x):
        if x == 0 and str(x)[0] == '-': return x
        return int(x)
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > MAXSAFE: return float(x)
    return x
