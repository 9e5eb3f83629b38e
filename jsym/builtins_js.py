"""The parts of the JavaScript and Buffer libraries the code under test uses."""
import math, struct
import numpy as np, z3
from core import *
from seq import *
from regex import Regex
import interp as I

INF = float('inf')
_tabs = []
def tables():
    if not _tabs:
        low = np.arange(65536); upp = np.arange(65536)
        for x in range(65536):
            q = chr(x).lower()
            if len(q) == 1 and ord(q) < 65536: low[x] = ord(q)
            q = chr(x).upper()
            if len(q) == 1 and ord(q) < 65536: upp[x] = ord(q)
        _tabs.extend((low, upp))
    return _tabs
def install(it):
    c = it.c; g = it.g.v; U = UNDEF
    def A(a, i): return a[i] if i < len(a) else U
    def defs(proto, d):
        proto.hidden = set(getattr(proto, 'hidden', ())) | set(d); proto.builtin = True
        for k, f in d.items():
            q = it.fn(f, k); proto.p[k] = q
    def ctor(name, call, construct, proto, **statics):
        f = I.Fun(it.FP_, call, name, construct); f.p['prototype'] = proto; proto.p['constructor'] = f
        proto.hidden = set(getattr(proto, 'hidden', ())) | {'constructor'}; proto.builtin = True; f.hidden = {'prototype'}
        for k, v in statics.items(): f.p[k] = it.fn(v, k) if callable(v) else v; f.hidden.add(k)
        g[name] = f; return f
    # clamp of a possibly symbolic integer to 0..n
    def clamp(x, n, neg=False):
        x = it.toint(x)
        if isinstance(x, float): return n if x > 0 else 0
        if isinstance(x, int) and isinstance(n, int):
            if x < 0: x = max(0, x + n) if neg else 0
            return min(x, n)
        if c.cmp('<', x, 0):
            if not neg: return 0
            x = c.addn(x, n)
            if c.cmp('<', x, 0): return 0
        if c.cmp('>', x, n): return n
        return x
    def le(a, b): return a <= b if isinstance(a, int) and isinstance(b, int) else c.cmp('<=', a, b)
    def S(t):
        if t is U or t is None: it.throw('TypeError', 'String.prototype method called on null or undefined')
        return it.tostr(t)
    def E(t): return elems(S(t))
    # ---------------- globals
    it.regobj = lambda r: _reg(r)
    def _reg(r):
        o = I.RegObj(it.RP); o.r = r; o.p['lastIndex'] = 0; o.hidden = ('lastIndex',); return o
    g['globalThis'] = it.obj(); g['Infinity'] = INF; g['NaN'] = float('nan')
    g['console'] = it.obj(log=it.fn(lambda t, a: U), error=it.fn(lambda t, a: U), warn=it.fn(lambda t, a: U))
    # ---------------- Object
    def o_assign(t, a):
        for src in a[1:]:
            if src is U or src is None: continue
            for k in it.keys(src): it.put(a[0], k, it.get(src, k))
        return a[0]
    def o_create(t, a):
        o = I.Obj(a[0] if isinstance(a[0], I.Obj) else None)
        if len(a) > 1 and isinstance(a[1], I.Obj):
            for k in it.keys(a[1]): defprop(o, k, it.get(a[1], k))
        return o
    def defprop(o, k, d):
        k = it.key(k); kk = it.ownkey(o, k)
        if kk is None:
            kk = k
            if not isinstance(k, str): kk = I.SymKey(k.e); o.sym = True
        k = kk
        if it.has(d, 'get') or it.has(d, 'set'):
            acc = I.Acc(); acc.get = it.get(d, 'get'); acc.set = it.get(d, 'set'); o.p[k] = acc
        else: o.p[k] = it.get(d, 'value')
        if not it.truth(it.get(d, 'enumerable')): o.hidden = set(getattr(o, 'hidden', ())) | {k}
        return o
    def getdesc(t, a):
        o, k = a[0], A(a, 1)
        if not isinstance(o, I.Obj) or not it.hasown(o, k): return U
        if isinstance(o, (I.Arr, I.Buf)) and it.idx(k) is not None: v = it.get(o, k)
        else: v = o.p[it.ownkey(o, it.key(k))]
        if isinstance(v, I.Acc): return it.obj(get=v.get, set=v.set, enumerable=True, configurable=True)
        return it.obj(value=v, writable=not o.frozen, enumerable=True, configurable=True)
    def o_freeze(t, a):
        if isinstance(a[0], I.Obj): a[0].frozen = True
        return a[0]
    def chk(v):
        if v is U or v is None: it.throw('TypeError', 'Cannot convert undefined or null to object')
        return v
    def okeys(v): return it.keys(chk(v)) if isinstance(v, I.Obj) or isstr(v) else []
    def setproto(t, a): a[0].proto = a[1]; return a[0]
    def fromentries(t, a):
        o = I.Obj(it.OP)
        for kv in it.iterate(a[0]): it.put(o, it.get(kv, 0), it.get(kv, 1))
        return o
    ctor('Object', lambda t, a: a[0] if a and isinstance(a[0], I.Obj) else I.Obj(it.OP), lambda a: I.Obj(it.OP), it.OP,
        keys=lambda t, a: it.arr(okeys(A(a, 0))), values=lambda t, a: it.arr([it.get(a[0], k) for k in okeys(A(a, 0))]),
        entries=lambda t, a: it.arr([it.arr([k, it.get(a[0], k)]) for k in okeys(A(a, 0))]), assign=o_assign, create=o_create, freeze=o_freeze, seal=o_freeze,
        defineProperty=lambda t, a: defprop(a[0], a[1], a[2]), getOwnPropertyDescriptor=getdesc, getPrototypeOf=lambda t, a: a[0].proto, setPrototypeOf=setproto,
        getOwnPropertyNames=lambda t, a: it.arr([k if isinstance(k, str) else SStr(k.e) for k in a[0].p]),
        fromEntries=fromentries, hasOwn=lambda t, a: it.hasown(a[0], A(a, 1)), is_=lambda t, a: it.seq_eq(a[0], a[1]), isFrozen=lambda t, a: a[0].frozen)
    g['Object'].p['is'] = g['Object'].p.pop('is_')
    def o_tostring(t, a):
        if t is U: return '[object Undefined]'
        if t is None: return '[object Null]'
        if isinstance(t, I.Obj): return '[object %s]' % {'Arr': 'Array', 'Array': 'Array', 'Function': 'Function', 'Error': 'Error', 'RegExp': 'RegExp', 'Buffer': 'Uint8Array'}.get(t.cls, 'Object')
        return '[object %s]' % {'string': 'String', 'number': 'Number', 'boolean': 'Boolean'}[it.typeof(t)]
    defs(it.OP, dict(hasOwnProperty=lambda t, a: it.hasown(t, A(a, 0)), toString=o_tostring, valueOf=lambda t, a: t, toLocaleString=o_tostring,
        isPrototypeOf=lambda t, a: False, propertyIsEnumerable=lambda t, a: it.hasown(t, A(a, 0)), __defineGetter__=lambda t, a: U, __defineSetter__=lambda t, a: U, __lookupGetter__=lambda t, a: U, __lookupSetter__=lambda t, a: U))
    # ---------------- Function
    def fbind(t, a):
        this = A(a, 0); pre = a[1:]; f = it.fn(lambda _, b: t.call(this, pre + b), 'bound ' + t.name); return f
    def fapply(t, a): 
        x = A(a, 1); return it.call(t, A(a, 0), it.iterate(x) if isinstance(x, I.Obj) else [])
    defs(it.FP_, dict(call=lambda t, a: it.call(t, A(a, 0), a[1:]), apply=fapply, bind=fbind, toString=lambda t, a: 'function ' + t.name + '() { [native code] }'))
    def nofun(*a): raise Unsupported('Function constructor')
    ctor('Function', lambda t, a: nofun(), nofun, it.FP_)
    # ---------------- Error
    def mkerr(name, parent):
        proto = it.EP if parent is None else I.Obj(parent)
        def con(a, p=None):
            e = I.Obj(p or proto); e.cls = 'Error'
            if a and a[0] is not U: e.p['message'] = it.tostr(a[0]); e.hidden = {'message', 'stack'}
            e.p['stack'] = ''; e.hidden = {'message', 'stack'}; return e
        f = ctor(name, lambda t, a: con(a), con, proto); proto.p['name'] = name; proto.p['message'] = ''; proto.hidden |= {'name', 'message'}
        return f
    mkerr('Error', None)
    for n in ('TypeError', 'RangeError', 'ReferenceError', 'SyntaxError'): mkerr(n, it.EP)
    g['Error'].p['captureStackTrace'] = it.fn(lambda t, a: U)
    def e_tostring(t, a):
        n = it.tostr(it.get(t, 'name')); m = it.tostr(it.get(t, 'message')); return n if m == '' else it.add(it.add(n, ': '), m)
    defs(it.EP, dict(toString=e_tostring))
    # ---------------- Boolean, Number, Math
    ctor('Boolean', lambda t, a: it.truth(A(a, 0)), None, it.BoolP)
    defs(it.BoolP, dict(toString=lambda t, a: it.tostr(t), valueOf=lambda t, a: t))
    def isinteger(v):
        if not I.isnum(v): return False
        if isinstance(v, float): return False if v != v or v in (INF, -INF) else v == int(v)
        if isinstance(v, Rat): return c.decide_z(c.z(v.a) % c.z(v.b) == 0)
        if isinstance(v, FP): raise Unsupported('symbolic double')
        return True
    def isnan(v):
        if isinstance(v, FP): return c.decide_z(z3.fpIsNaN(v.e))
        return isinstance(v, float) and v != v
    def isfinite(v):
        if isinstance(v, FP): return not c.decide_z(z3.Or(z3.fpIsNaN(v.e), z3.fpIsInf(v.e)))
        return not (isinstance(v, float) and (v != v or v in (INF, -INF)))
    def parseint(t, a):
        s = it.tostr(A(a, 0)); e = trim(c, list(elems(s)), True, False); r = it.toint(A(a, 1)) if len(a) > 1 else 10
        r = r or 10
        if r not in (10, 16): raise Unsupported('parseInt radix')
        if len(e) == 1 and isinstance(e[0], Tok) and r == 10: return e[0].n
        e = chars(c, e); sign = 1; i = 0
        if e and eqel(c, e[0], 45): sign = -1; i = 1
        elif e and eqel(c, e[0], 43): i = 1
        if r == 10 and A(a, 1) is U and i + 1 < len(e) and eqel(c, e[i], 48) and (eqel(c, e[i + 1], 120) or eqel(c, e[i + 1], 88)): r = 16; i += 2
        v = 0; n = 0
        while i < len(e):
            x = e[i]
            if inr(c, x, 48, 57): d = c.addn(x, -48)
            elif r == 16 and inr(c, x, 97, 102): d = c.addn(x, -87)
            elif r == 16 and inr(c, x, 65, 70): d = c.addn(x, -55)
            else: break
            v = c.addn(c.mul(v, r), d); n += 1; i += 1
        return float('nan') if not n else (v if sign > 0 else c.neg(v))
    def parsefloat(t, a):
        s = it.tostr(A(a, 0)); e = trim(c, list(elems(s)), True, False)
        if len(e) == 1 and isinstance(e[0], Tok): return e[0].n
        import re
        e = chars(c, e)
        if not all(isinstance(x, int) for x in e): e = [c.concretize(x) if isinstance(x, T) else x for x in e]
        m = re.match(r'[+-]?(Infinity|([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?)', ''.join(map(chr, e)))
        return pynum(m[0]) if m else float('nan')
    g['parseInt'] = it.fn(parseint, 'parseInt'); g['parseFloat'] = it.fn(parsefloat, 'parseFloat')
    g['isNaN'] = it.fn(lambda t, a: isnan(it.tonum(A(a, 0)))); g['isFinite'] = it.fn(lambda t, a: isfinite(it.tonum(A(a, 0))))
    def safeint(v): return isinteger(v) and (abs(v) < MAXSAFE if isinstance(v, (int, float)) else c.cmp('<', v, MAXSAFE) and c.cmp('>', v, -MAXSAFE))
    ctor('Number', lambda t, a: it.tonum(a[0]) if a else 0, None, it.NP, isInteger=lambda t, a: isinteger(A(a, 0)), isSafeInteger=lambda t, a: safeint(A(a, 0)),
        isNaN=lambda t, a: I.isnum(A(a, 0)) and isnan(a[0]), isFinite=lambda t, a: I.isnum(A(a, 0)) and isfinite(a[0]), parseInt=parseint, parseFloat=parsefloat,
        MAX_SAFE_INTEGER=MAXSAFE - 1, MIN_SAFE_INTEGER=1 - MAXSAFE, POSITIVE_INFINITY=INF, NEGATIVE_INFINITY=-INF, EPSILON=2.0 ** -52, MAX_VALUE=1.7976931348623157e308)
    def n_tostring(t, a):
        r = A(a, 0)
        if r is U or r == 10: return it.numstr(t)
        if isinstance(t, int) and t >= 0:
            o = ''; n = t
            while True:
                o = '0123456789abcdefghijklmnopqrstuvwxyz'[n % r] + o; n //= r
                if not n: return o
        if isinstance(t, T) and r == 16:
            if c.cmp('<', t, 16): return mk([T(t.v, hexd(t.tab & 15))])
            if c.cmp('<', t, 256): return mk([T(t.v, hexd(t.tab >> 4 & 15)), T(t.v, hexd(t.tab & 15))])
        raise Unsupported('number formatting')
    defs(it.NP, dict(toString=n_tostring, valueOf=lambda t, a: t, toFixed=lambda t, a: it.numstr(t) if I.isint(t) and A(a, 0) in (U, 0) else nofun()))
    def m_floor(t, a):
        v = it.tonum(A(a, 0))
        if isinstance(v, (int, T, SN)): return v
        if isinstance(v, float): return v if v != v or v in (INF, -INF) else normnum(math.floor(v))
        if isinstance(v, FP): return FP(z3.fpRoundToIntegral(z3.RTN(), v.e))
        return c.floor(v)
    def m_ceil(t, a):
        v = it.tonum(A(a, 0))
        if isinstance(v, (int, T, SN)): return v
        if isinstance(v, float): return v if v != v or v in (INF, -INF) else normnum(math.ceil(v))
        if isinstance(v, FP): return FP(z3.fpRoundToIntegral(z3.RTP(), v.e))
        return c.ceil(v)
    def m_trunc(t, a):
        v = it.tonum(A(a, 0))
        if isinstance(v, float): return v if v != v or v in (INF, -INF) else normnum(math.trunc(v))
        return it.toint(v)
    def m_round(t, a):
        v = it.tonum(A(a, 0))
        if isinstance(v, (int, T, SN)): return v
        if isinstance(v, float): return v if v != v or v in (INF, -INF) else normnum(math.floor(v + 0.5))
        if isinstance(v, Rat): return c.floor(Rat(c.addn(c.mul(v.a, 2), v.b), c.mul(v.b, 2)))
        raise Unsupported('round')
    def mm(op):
        def f(t, a):
            r = INF if op == '<' else -INF
            for x in a:
                x = it.tonum(x)
                if isinstance(x, float) and x != x: return x
                if (x < r if op == '<' else x > r) if isinstance(x, (int, float)) and isinstance(r, (int, float)) else c.cmp(op, x, r): r = x
            return r
        return f
    def m_abs(t, a):
        v = it.tonum(A(a, 0))
        if isinstance(v, (int, float)): return abs(v)
        return c.neg(v) if c.cmp('<', v, 0) else v
    def m_sign(t, a):
        v = it.tonum(A(a, 0)); return 1 if c.cmp('>', v, 0) else -1 if c.cmp('<', v, 0) else 0
    g['Math'] = it.obj(floor=it.fn(m_floor), ceil=it.fn(m_ceil), trunc=it.fn(m_trunc), round=it.fn(m_round), min=it.fn(mm('<')), max=it.fn(mm('>')), abs=it.fn(m_abs), sign=it.fn(m_sign),
        pow=it.fn(lambda t, a: it.arith('**', a[0], a[1])), PI=math.pi)
    # ---------------- String
    def rng(t, a, neg, swap):
        e = E(t); n = seqlen(c, e)
        x = clamp(A(a, 0), n, neg); y = n if A(a, 1) is U else clamp(a[1], n, neg)
        if swap and not le(x, y): x, y = y, x
        return mk(cut(c, e, x, y))
    def substr(t, a):
        e = E(t); n = seqlen(c, e); x = clamp(A(a, 0), n, True)
        if A(a, 1) is U: return mk(cut(c, e, x, n))
        l = it.toint(a[1])
        if isinstance(l, float): l = n if l > 0 else 0
        y = c.addn(x, l) if not (isinstance(x, int) and isinstance(l, int)) else x + l
        if not le(y, n): y = n
        return mk(cut(c, e, x, y)) if le(x, y) else ''
    def s_indexof(t, a):
        e = E(t); p = E(A(a, 0)); n = seqlen(c, e); return find(c, e, p, clamp(A(a, 1), n) if len(a) > 1 else 0)
    def s_lastindexof(t, a):
        e = E(t); p = E(A(a, 0)); x = A(a, 1)
        if x is not U:
            x = it.tonum(x)
            x = None if isinstance(x, float) and x != x else clamp(x, seqlen(c, e))
        else: x = None
        return rfind(c, e, p, x)
    def found(x): return x >= 0 if isinstance(x, int) else c.cmp('>=', x, 0)
    def startswith(t, a):
        e = E(t); p = E(A(a, 0)); i = clamp(A(a, 1), seqlen(c, e)) if len(a) > 1 else 0
        return prefix(cut(c, e, i, seqlen(c, e)) if i != 0 else e, p)
    def prefix(e, p):
        e = list(e)
        while True:
            r, k = match_at(c, e, 0, p)
            if r is not None: return r
            if isinstance(e[k], Tok): e[k:k + 1] = expand(c, e[k])
            else: raise Unsupported('prefix test of opaque data')
    def endswith(t, a):
        e = E(t); p = E(A(a, 0)); e = chars(c, e) if any(isinstance(x, Tok) for x in e[-len(p) or len(e):]) else e
        return len(e) >= len(p) and (not p or eqseq(c, e[len(e) - len(p):], p))
    low, upp = tables()
    def cased(tab, meth):
        def f(t, a):
            s = S(t)
            if isinstance(s, str): return getattr(s, meth)()
            o = []
            for x in s.e:
                if isinstance(x, int):
                    q = getattr(chr(x), meth)(); o += [ord(y) for y in q]
                elif isinstance(x, T):
                    if c.decide_un(x.v, x.tab >= 128) : raise Unsupported('case mapping of non-ASCII symbolic characters')
                    o.append(T(x.v, tab[np.clip(x.tab, 0, 65535)]))
                else: o.append(x)
            return mk(o)
        return f
    def s_split(t, a):
        e = E(t); sep = A(a, 0)
        if sep is U: return it.arr([mk(e)])
        if isinstance(sep, I.RegObj):
            o = []; p = 0; i = 0; e = list(e)
            while i <= len(e):
                m = sep.r.exec(c, e, i)
                if m is None or m[1] >= len(m[0]) and len(m[0]): break
                if m[0] is not e and len(m[0]) != len(e): raise Unsupported('split of symbolic digits')
                if m[2] == m[1] or m[2] == p:
                    i = max(i + 1, m[1] + 1)
                    if m[2] == p: continue
                    o.append(mk(e[p:m[1]])); p = m[2]; continue
                o.append(mk(e[p:m[1]])); 
                for q in range(1, sep.r.ngroups + 1): o.append(mk(e[m[3][q][0]:m[3][q][1]]) if q in m[3] else U)
                p = i = m[2]
            o.append(mk(e[p:])); r = o
        else:
            p = E(sep)
            if not p: r = [mk([x]) for x in chars(c, e)]
            else:
                r = []; e = list(e)
                while True:
                    i = find(c, e, p, 0)
                    if not found(i): r.append(mk(e)); break
                    e2, k = locate(c, e, i); r.append(mk(e2[:k])); e = e2[k + len(p):]
        if len(a) > 1 and a[1] is not U: r = r[:it.toint(a[1])]
        return it.arr(r)
    def resultarr(r, m):
        e, i, j, gr = m; a = it.arr([mk(e[i:j])] + [mk(e[gr[q][0]:gr[q][1]]) if q in gr else U for q in range(1, r.ngroups + 1)])
        a.p['index'] = seqlen(c, e[:i]); a.p['input'] = mk(e)
        if r.names:
            o = I.Obj(None)
            for nm, q in r.names.items(): o.p[nm] = a.a[q]
            a.p['groups'] = o
        else: a.p['groups'] = U
        return a
    def r_exec(t, a):
        e = elems(it.tostr(A(a, 0))); r = t.r; st = 0
        if r.g or r.y:
            li = it.toint(t.p['lastIndex'])
            if not le(li, seqlen(c, e)): t.p['lastIndex'] = 0; return None
            e, st = locate(c, e, li)
        m = r.exec(c, e, st)
        if m is None:
            if r.g or r.y: t.p['lastIndex'] = 0
            return None
        if r.g or r.y: t.p['lastIndex'] = seqlen(c, m[0][:m[2]])
        return resultarr(r, m)
    def toreg(x, fl=''):
        if isinstance(x, I.RegObj): return x
        return _reg(Regex(it.tostr(x) if x is not U else '(?:)', fl))
    def s_match(t, a):
        r = toreg(A(a, 0))
        if not r.r.g: return r_exec(r, [S(t)])
        o = []; r.p['lastIndex'] = 0
        while True:
            m = r_exec(r, [S(t)])
            if m is None: break
            o.append(m.a[0])
            if m.a[0] == '': r.p['lastIndex'] = c.addn(r.p['lastIndex'], 1)
        return it.arr(o) if o else None
    def s_matchall(t, a):
        r = toreg(A(a, 0), 'g'); r = _reg(r.r); o = []
        while True:
            m = r_exec(r, [S(t)])
            if m is None: return it.arr(o)
            o.append(m)
            if m.a[0] == '': r.p['lastIndex'] = c.addn(r.p['lastIndex'], 1)
    def subst(rep, e, i, j, gr, ng):
        if isinstance(rep, I.Fun):
            return elems(it.tostr(rep.call(U, [mk(e[i:j])] + [mk(e[gr[q][0]:gr[q][1]]) if q in gr else U for q in range(1, ng + 1)] + [seqlen(c, e[:i]), mk(e)])))
        o = []; rs = elems(it.tostr(rep)); k = 0
        while k < len(rs):
            if rs[k] == 36 and k + 1 < len(rs) and isinstance(rs[k + 1], int):
                d = rs[k + 1]
                if d == 36: o.append(36); k += 2; continue
                if d == 38: o += e[i:j]; k += 2; continue
                if d == 96: o += e[:i]; k += 2; continue
                if d == 39: o += e[j:]; k += 2; continue
                if 49 <= d <= 57 and d - 48 <= ng:
                    q = d - 48; o += e[gr[q][0]:gr[q][1]] if q in gr else []; k += 2; continue
            o.append(rs[k]); k += 1
        return o
    def s_replace(all_):
        def f(t, a):
            e = list(E(t)); p = A(a, 0); rep = A(a, 1)
            if isinstance(p, I.RegObj):
                o = []; i = 0; p.p['lastIndex'] = 0 if p.r.g else p.p['lastIndex']
                while i <= len(e):
                    m = p.r.exec(c, e, i)
                    if m is None: break
                    e, x, y, gr = m; o += e[i:x]; o += subst(rep, e, x, y, gr, p.r.ngroups)
                    if y == x:
                        if x < len(e): o.append(e[x])
                        i = x + 1
                    else: i = y
                    if not p.r.g: break
                return mk(o + e[i:])
            pe = E(p); o = []
            while True:
                i = find(c, e, pe, 0)
                if not found(i): return mk(o + e)
                e, k = locate(c, e, i); o += e[:k] + subst(rep, e, k, k + len(pe), {}, 0); e = e[k + len(pe):]
                if not all_: return mk(o + e)
                if not pe:
                    if not e: return mk(o)
                    o.append(e[0]); e = e[1:]
        return f
    def pad(left):
        def f(t, a):
            e = E(t); n = it.toint(A(a, 0)); fill = E(A(a, 1)) if len(a) > 1 else [32]
            if anylong(e): e = chars(c, e)
            k = n - len(e); q = (fill * (k // max(1, len(fill)) + 1))[:max(0, k)]
            return mk(q + e if left else e + q)
        return f
    def s_at(t, a):
        e = E(t); i = it.toint(A(a, 0)); n = seqlen(c, e)
        if not le(0, i): i = c.addn(i, n)
        x = getat(c, e, i); return x
    def or_(x, d, f): return d if x is None else f(x)
    def codepoint(t, a):
        x = s_at0(t, a); return U if x is None else x
    def s_at0(t, a): return getat(c, E(t), it.toint(A(a, 0)) if a else 0)
    defs(it.SP, dict(toString=lambda t, a: t, valueOf=lambda t, a: t, indexOf=s_indexof, lastIndexOf=s_lastindexof, substring=lambda t, a: rng(t, a, False, True), slice=lambda t, a: rng(t, a, True, False), substr=substr,
        trim=lambda t, a: mk(trim(c, list(E(t)))), trimStart=lambda t, a: mk(trim(c, list(E(t)), True, False)), trimEnd=lambda t, a: mk(trim(c, list(E(t)), False, True)), trimLeft=lambda t, a: mk(trim(c, list(E(t)), True, False)), trimRight=lambda t, a: mk(trim(c, list(E(t)), False, True)),
        match=s_match, matchAll=s_matchall, replace=s_replace(False), replaceAll=s_replace(True), split=s_split, search=lambda t, a: (lambda m: -1 if m is None else m.p['index'])(r_exec(_reg(toreg(a[0]).r), [S(t)])),
        charAt=lambda t, a: or_(s_at0(t, a), '', lambda x: mk([x])), charCodeAt=lambda t, a: or_(s_at0(t, a), float('nan'), lambda x: x), codePointAt=codepoint, at=lambda t, a: or_(s_at(t, a), U, lambda x: mk([x])),
        toLowerCase=cased(low, 'lower'), toUpperCase=cased(upp, 'upper'), startsWith=startswith, endsWith=endswith, includes=lambda t, a: found(s_indexof(t, a)), concat=lambda t, a: mk(E(t) + sum([elems(it.tostr(x)) for x in a], [])),
        repeat=lambda t, a: mk(E(t) * it.toint(A(a, 0))), padStart=pad(True), padEnd=pad(False), normalize=lambda t, a: S(t), localeCompare=lambda t, a: nofun()))
    ctor('String', lambda t, a: it.tostr(a[0]) if a else '', None, it.SP, fromCharCode=lambda t, a: mk([x & 65535 if isinstance(x, int) else x for x in map(it.tonum, a)]), raw=lambda t, a: nofun())
    # ---------------- RegExp
    defs(it.RP, dict(test=lambda t, a: r_exec(t, a) is not None, exec=r_exec, toString=lambda t, a: '/' + t.r.src + '/' + t.r.flags))
    def newreg(a): return _reg(Regex(a[0].r.src if isinstance(a[0], I.RegObj) else it.tostr(A(a, 0)), '' if A(a, 1) is U else it.tostr(a[1])))
    ctor('RegExp', lambda t, a: newreg(a), newreg, it.RP)
    # ---------------- Array
    def AR(t):
        if not isinstance(t, I.Arr): raise Unsupported('array method on another object')
        return t.a
    def cb(a):
        f = A(a, 0)
        if not isinstance(f, I.Fun): it.throw('TypeError', 'callback is not a function')
        th = A(a, 1); return f, th
    def a_foreach(t, a):
        f, th = cb(a)
        for i, x in enumerate(list(AR(t))): f.call(th, [x, i, t])
        return U
    def a_map(t, a): f, th = cb(a); return it.arr([f.call(th, [x, i, t]) for i, x in enumerate(list(AR(t)))])
    def a_filter(t, a): f, th = cb(a); return it.arr([x for i, x in enumerate(list(AR(t))) if it.truth(f.call(th, [x, i, t]))])
    def a_some(t, a): f, th = cb(a); return any(it.truth(f.call(th, [x, i, t])) for i, x in enumerate(list(AR(t))))
    def a_every(t, a): f, th = cb(a); return all(it.truth(f.call(th, [x, i, t])) for i, x in enumerate(list(AR(t))))
    def a_find(idx, rev=False):
        def g_(t, a):
            f, th = cb(a); L = list(enumerate(AR(t)))
            for i, x in (reversed(L) if rev else L):
                if it.truth(f.call(th, [x, i, t])): return i if idx else x
            return -1 if idx else U
        return g_
    def a_reduce(right):
        def g_(t, a):
            f, _ = cb(a); L = list(enumerate(AR(t))); L = L[::-1] if right else L
            if len(a) > 1: acc = a[1]
            else:
                if not L: it.throw('TypeError', 'Reduce of empty array with no initial value')
                acc = L[0][1]; L = L[1:]
            for i, x in L: acc = f.call(U, [acc, x, i, t])
            return acc
        return g_
    def a_push(t, a):
        if t.frozen: it.throw('TypeError', 'Cannot add property')
        AR(t).extend(a); return len(t.a)
    def a_indexof(t, a):
        L = AR(t); st = clamp(A(a, 1), len(L), True) if len(a) > 1 else 0
        for i in range(st, len(L)):
            if it.seq_eq(L[i], A(a, 0)): return i
        return -1
    def a_lastindexof(t, a):
        L = AR(t)
        for i in range(len(L) - 1, -1, -1):
            if it.seq_eq(L[i], A(a, 0)): return i
        return -1
    def a_slice(t, a):
        L = AR(t); n = len(L); x = clamp(A(a, 0), n, True); y = n if A(a, 1) is U else clamp(a[1], n, True); return it.arr(L[x:y])
    def a_splice(t, a):
        L = AR(t); n = len(L); x = clamp(A(a, 0), n, True); k = n - x if len(a) < 2 else max(0, min(it.toint(a[1]), n - x)); r = L[x:x + k]; L[x:x + k] = a[2:]; return it.arr(r)
    def a_concat(t, a):
        o = list(AR(t))
        for x in a: o += x.a if isinstance(x, I.Arr) else [x]
        return it.arr(o)
    def a_join(t, a):
        sep = ',' if A(a, 0) is U else it.tostr(a[0]); o = ''
        for i, x in enumerate(AR(t)):
            if i: o = it.add(o, sep)
            o = it.add(o, '' if x is U or x is None else it.tostr(x))
        return o
    def a_flat(t, a): 
        o = []
        for x in AR(t): o += x.a if isinstance(x, I.Arr) else [x]
        return it.arr(o)
    def a_fill(t, a):
        L = AR(t); n = len(L); x = clamp(A(a, 1), n, True) if len(a) > 1 else 0; y = n if A(a, 2) is U else clamp(a[2], n, True)
        for i in range(x, y): L[i] = A(a, 0)
        return t
    def a_pop(t, a): return AR(t).pop() if AR(t) else U
    def a_shift(t, a): return AR(t).pop(0) if AR(t) else U
    def a_unshift(t, a): AR(t)[0:0] = a; return len(t.a)
    def a_reverse(t, a): AR(t).reverse(); return t
    def a_sort(t, a):
        import functools
        f = A(a, 0)
        if f is U: key = functools.cmp_to_key(lambda x, y: -1 if it.less('<', it.tostr(x), it.tostr(y)) else 1 if it.less('>', it.tostr(x), it.tostr(y)) else 0)
        else:
            def cmp(x, y):
                r = it.tonum(f.call(U, [x, y])); return -1 if it.less('<', r, 0) else 1 if it.less('>', r, 0) else 0
            key = functools.cmp_to_key(cmp)
        AR(t).sort(key=key); return t
    def a_at(t, a):
        L = AR(t); i = it.toint(A(a, 0)); i += len(L) if i < 0 else 0; return L[i] if 0 <= i < len(L) else U
    defs(it.AP, dict(forEach=a_foreach, map=a_map, filter=a_filter, some=a_some, every=a_every, find=a_find(False), findIndex=a_find(True), findLast=a_find(False, True), findLastIndex=a_find(True, True), reduce=a_reduce(False), reduceRight=a_reduce(True), push=a_push, pop=a_pop, shift=a_shift, unshift=a_unshift,
        indexOf=a_indexof, lastIndexOf=a_lastindexof, includes=lambda t, a: a_indexof(t, a) >= 0, slice=a_slice, splice=a_splice, concat=a_concat, join=a_join, toString=lambda t, a: a_join(t, []), flat=a_flat, flatMap=lambda t, a: a_flat(a_map(t, a), []), fill=a_fill, reverse=a_reverse, sort=a_sort, at=a_at,
        keys=lambda t, a: it.arr(range(len(AR(t)))), values=lambda t, a: it.arr(AR(t)), entries=lambda t, a: it.arr([it.arr([i, x]) for i, x in enumerate(AR(t))])))
    def newarr(a):
        if len(a) == 1 and I.isnum(a[0]): return it.arr([U] * it.toint(a[0]))
        return it.arr(a)
    def a_from(t, a):
        src = A(a, 0)
        if isinstance(src, (I.Arr, I.Buf, I.MapObj)) or isstr(src): L = it.iterate(src)
        else: L = [it.get(src, i) for i in range(it.toint(it.get(src, 'length')))]
        if len(a) > 1: L = [a[1].call(U, [x, i]) for i, x in enumerate(L)]
        return it.arr(L)
    ctor('Array', lambda t, a: newarr(a), newarr, it.AP, isArray=lambda t, a: isinstance(A(a, 0), I.Arr), of=lambda t, a: it.arr(a), **{'from': a_from})
    # ---------------- Map, Set
    def mapnew(ismap):
        def f(a, p=None):
            o = I.MapObj(it.MP if ismap else it.SetP); o.m = []; o.ismap = ismap
            if a and a[0] is not U and a[0] is not None:
                for x in it.iterate(a[0]): mset(o, [it.get(x, 0), it.get(x, 1)] if ismap else [x, x])
            return o
        return f
    def mfind(o, k):
        for i, (kk, v) in enumerate(o.m):
            if it.seq_eq(kk, k): return i
        return -1
    def mset(o, a):
        i = mfind(o, A(a, 0)); (o.m.append((A(a, 0), A(a, 1))) if i < 0 else o.m.__setitem__(i, (o.m[i][0], A(a, 1)))); return o
    def mget(o, a): i = mfind(o, A(a, 0)); return o.m[i][1] if i >= 0 else U
    def mdel(o, a):
        i = mfind(o, A(a, 0))
        if i >= 0: del o.m[i]
        return i >= 0
    def mclear(o, a): o.m.clear(); return U
    def mforeach(o, a):
        for k, v in list(o.m): a[0].call(U, [v, k, o])
        return U
    common = dict(has=lambda t, a: mfind(t, A(a, 0)) >= 0, clear=mclear, forEach=mforeach, keys=lambda t, a: it.arr([k for k, v in t.m]), values=lambda t, a: it.arr([v for k, v in t.m]))
    common['delete'] = mdel
    defs(it.MP, dict(common, get=mget, set=mset, entries=lambda t, a: it.arr([it.arr([k, v]) for k, v in t.m])))
    defs(it.SetP, dict(common, add=lambda t, a: mset(t, [A(a, 0), A(a, 0)])))
    ctor('Map', lambda t, a: it.throw('TypeError', 'Map requires new'), mapnew(True), it.MP); ctor('Set', lambda t, a: it.throw('TypeError', 'Set requires new'), mapnew(False), it.SetP)
    # ---------------- Buffer
    def hexd(v): return np.where(v < 10, v + 48, v + 87)
    def enc_name(x):
        if x is U or x is None or x == '': return 'utf8'
        x = it.tostr(x)
        if isinstance(x, SStr): raise Unsupported('symbolic encoding')
        x = x.lower()
        if x in ('utf8', 'utf-8'): return 'utf8'
        if x in ('latin1', 'binary'): return 'latin1'
        if x in ('hex', 'ascii', 'base64'): return x
        if x in ('utf16le', 'ucs2', 'utf-16le', 'ucs-2'): return 'utf16le'
        it.throw('TypeError', 'Unknown encoding: ' + x)
    def encode(s, en):
        e = elems(s)
        if en == 'utf8': return utf8_encode(c, e)
        if en in ('latin1', 'ascii'): return [x if long(x) else x & 255 if isinstance(x, int) else T(x.v, x.tab & 255) for x in e]
        if en == 'hex':
            e = chars(c, e)
            if all(isinstance(x, int) for x in e):
                o = []
                for i in range(0, len(e) - 1, 2):
                    try: o.append(int(chr(e[i]) + chr(e[i + 1]), 16))
                    except ValueError: break
                return o
        raise Unsupported('encoding ' + en)
    def decode(e, en):
        if en == 'utf8': return mk(utf8_decode(c, e))
        if en == 'latin1': return mk(e)
        if en == 'ascii': return mk([x if long(x) else x & 127 if isinstance(x, int) else T(x.v, x.tab & 127) for x in e])
        if en == 'hex':
            o = []
            for x in chars(c, e):
                if isinstance(x, int): o += [ord(y) for y in '%02x' % x]
                else: o += [T(x.v, hexd(x.tab >> 4)), T(x.v, hexd(x.tab & 15))]
            return mk(o)
        raise Unsupported('encoding ' + en)
    it.encode = encode; it.decode = decode
    def isbuf(x): return isinstance(x, I.Buf)
    def b_from(t, a):
        x = A(a, 0)
        if isstr(x): return it.buf(encode(x, enc_name(A(a, 1))))
        if isbuf(x): return it.buf(x.e)
        if isinstance(x, I.Arr): return it.buf([it.byteval(y) for y in x.a])
        if isinstance(x, I.Obj) and it.has(x, 'length'): return it.buf([it.byteval(it.get(x, i)) for i in range(it.toint(it.get(x, 'length')))])
        it.throw('TypeError', 'The first argument must be of type string or an instance of Buffer, ArrayBuffer, or Array')
    def b_alloc(t, a):
        n = it.toint(A(a, 0))
        if not I.isnum(A(a, 0)): it.throw('TypeError', 'The "size" argument must be of type number')
        if not isinstance(n, int):
            return it.buf([Blob('zero', n)])
        if n < 0: it.throw('RangeError', 'The value of "size" is out of range')
        if n > 1 << 22: raise Unsupported('large buffer')
        b = it.buf([0] * n)
        if len(a) > 1 and a[1] is not U: b_fill(b, a[1:])
        return b
    def b_fill(t, a):
        v = A(a, 0); n = len(t.e); x = clamp(A(a, 1), n) if len(a) > 1 else 0; y = n if A(a, 2) is U else clamp(a[2], n)
        pat = encode(v, 'utf8') if isstr(v) else v.e if isbuf(v) else [it.byteval(v)]
        for i in range(x, y): it.bufset(t, i, pat[(i - x) % len(pat)] if pat else 0)
        return t
    def b_concat(t, a):
        L = A(a, 0)
        if not isinstance(L, I.Arr): it.throw('TypeError', 'The "list" argument must be an instance of Array')
        o = []
        for x in L.a:
            if not isbuf(x): it.throw('TypeError', 'list[] must be an instance of Buffer or Uint8Array')
            o += x.e
        if len(a) > 1 and a[1] is not U:
            n = it.toint(a[1]); cur = seqlen(c, o)
            if not (isinstance(n, int) and isinstance(cur, int) and n == cur) and not c.cmp('==', n, cur):
                if c.cmp('<', n, cur): o = cut(c, o, 0, n)
                else:
                    d = c.sub(n, cur); o = o + ([0] * d if isinstance(d, int) else [Blob('zero', d)])
        return it.buf(o)
    def b_compare(t, a):
        x, y = a[0].e, a[1].e
        return 0 if eqseq(c, x, y) else nofun()
    def bytelen(t, a):
        x = A(a, 0); return seqlen(c, x.e) if isbuf(x) else seqlen(c, encode(x, enc_name(A(a, 1))))
    def BT(t):
        if not isbuf(t): it.throw('TypeError', 'argument must be a Buffer')
        return t
    def b_slice(t, a):
        BT(t); n = seqlen(c, t.e); x = clamp(A(a, 0), n, True); y = n if A(a, 1) is U else clamp(a[1], n, True)
        if not le(x, y): y = x
        return it.view(t, x, y)
    def b_tostring(t, a):
        if not isbuf(t): return o_tostring(t, a)
        e = t.e
        if A(a, 1) is not U or A(a, 2) is not U:
            n = seqlen(c, e); x = clamp(A(a, 1), n) if A(a, 1) is not U else 0; y = n if A(a, 2) is U else clamp(a[2], n); e = cut(c, e, x, y) if le(x, y) else []
        return decode(e, enc_name(A(a, 0)))
    def bpat(v, en):
        if isstr(v): return encode(v, enc_name(en))
        if isbuf(v): return v.e
        if I.isnum(v): return [it.byteval(v)]
        it.throw('TypeError', 'The "value" argument must be one of type number, string, Buffer')
    def b_indexof(t, a):
        BT(t); off = A(a, 1); en = A(a, 2)
        if isstr(off): en = off; off = U
        p = bpat(A(a, 0), en); n = seqlen(c, t.e); x = clamp(it.tonum(off) if off is not U else 0, n, True)
        return find(c, t.e, p, x)
    def b_lastindexof(t, a):
        BT(t); off = A(a, 1); en = A(a, 2)
        if isstr(off): en = off; off = U
        p = bpat(A(a, 0), en); n = seqlen(c, t.e)
        if off is U: return rfind(c, t.e, p)
        v = it.tonum(off)
        if isinstance(v, float) and v != v: return rfind(c, t.e, p)
        v = it.toint(v)
        if v == -1: return rfind(c, t.e, p)
        if not le(0, v):
            v = c.addn(v, n)
            if not le(0, v): return -1
        return rfind(c, t.e, p, v)
    def b_copy(t, a):
        d = A(a, 0); ts = it.toint(A(a, 1)) if A(a, 1) is not U else 0; n = seqlen(c, t.e); x = clamp(A(a, 2), n) if A(a, 2) is not U else 0; y = n if A(a, 3) is U else clamp(a[3], n)
        if not isinstance(d, I.Buf): it.throw('TypeError', 'argument must be an instance of Buffer or Uint8Array')
        src = cut(c, t.e, x, y)
        if anylong(src) or not isinstance(ts, int) or anylong(d.e):
            # splice opaque data into a buffer of the right size
            dn = seqlen(c, d.e); sl = seqlen(c, src); end = c.addn(ts, sl)
            if d.base is not None or getattr(d, 'views', None): raise Unsupported('copy into a view')
            if c.cmp('>', end, dn): raise Unsupported('truncated copy')
            d.e = zcut(d.e, 0, ts) + src + zcut(d.e, end, dn); return sl
        k = 0
        for q in list(src):
            if ts + k >= len(d.e): break
            it.bufset(d, ts + k, q); k += 1
        return k
    def zcut(e, a, b):
        """cut that may divide zero filled blobs"""
        if le(b, a): return []
        o = []; pos = 0
        for x in e:
            l = elen(x); nx = c.addn(pos, l) if not (isinstance(pos, int) and isinstance(l, int)) else pos + l
            if not (isinstance(x, Blob) and x.key == 'zero'):
                if le(a, pos) and le(nx, b): o.append(x)
                elif le(nx, a) or le(b, pos): pass
                else: raise Unsupported('copy dividing opaque data')
            else:
                lo = pos if le(a, pos) else a; hi = nx if le(nx, b) else b
                if not le(hi, lo):
                    d = c.sub(hi, lo); o += [0] * d if isinstance(d, int) and d < 64 else [Blob('zero', d)]
            pos = nx
        return o
    def b_write(t, a):
        s = E(A(a, 0)); off = it.toint(A(a, 1)) if len(a) > 1 and not isstr(a[1]) else 0; en = next((x for x in a[1:] if isstr(x)), U)
        src = encode(mk(s), enc_name(en))
        return b_copy(it.buf(src), [t, off])
    def rd(n, big, signed=False):
        def f(t, a):
            o = it.toint(A(a, 0)) if a else 0
            if not isinstance(o, int) or o + n > len(t.e) or o < 0: it.throw('RangeError', 'The value of "offset" is out of range')
            b = chars(c, t.e[o:o + n]); b = b if big else b[::-1]; v = 0
            for x in b: v = c.addn(c.mul(v, 256), x) if not (isinstance(v, int) and isinstance(x, int)) else v * 256 + x
            if signed and c.cmp('>=', v, 1 << (8 * n - 1)): v = c.addn(v, -(1 << (8 * n)))
            return v
        return f
    def wr(n, big):
        def f(t, a):
            v = it.tonum(A(a, 0)); o = it.toint(A(a, 1)) if len(a) > 1 else 0
            if not isinstance(o, int): raise Unsupported('store at a symbolic index')
            if not (c.cmp('>=', v, -(1 << (8 * n - 1))) and c.cmp('<', v, 1 << (8 * n))): it.throw('RangeError', 'The value of "value" is out of range')
            if o < 0 or o + n > len(t.e): it.throw('RangeError', 'The value of "offset" is out of range')
            if not isinstance(v, int): raise Unsupported('integer store of a symbolic value')
            b = list((v % (1 << 8 * n)).to_bytes(n, 'big' if big else 'little'))
            for i, x in enumerate(b): it.bufset(t, o + i, x)
            return o + n
        return f
    d = dict(slice=b_slice, subarray=b_slice, toString=b_tostring, indexOf=b_indexof, lastIndexOf=b_lastindexof, includes=lambda t, a: found(b_indexof(t, a)), equals=lambda t, a: eqseq(c, BT(t).e, BT(A(a, 0)).e), copy=b_copy, fill=b_fill, write=b_write,
        set=lambda t, a: (b_copy(a[0] if isbuf(a[0]) else b_from(U, [a[0]]), [t, A(a, 1)]), U)[1], compare=lambda t, a: b_compare(U, [t, a[0]]), toLocaleString=b_tostring,
        readBigInt64BE=lambda t, a: nofun(), readUInt8=rd(1, True), readInt8=rd(1, True, True), at=lambda t, a: it.get(t, a[0] if it.less('>=', a[0], 0) else c.addn(a[0], seqlen(c, t.e))),
        map=lambda t, a: it.buf([it.byteval(x) for x in a_map(ta(t), a).a]), filter=lambda t, a: it.buf(a_filter(ta(t), a).a), reverse=lambda t, a: b_rev(t))
    def ta(t): return it.arr(chars(c, BT(t).e))
    def b_rev(t):
        for i, x in enumerate(chars(c, BT(t).e)[::-1]): it.bufset(t, i, x)
        return t
    for nm in ('forEach', 'every', 'some', 'join', 'find', 'findIndex', 'findLast', 'findLastIndex', 'reduce', 'reduceRight', 'keys', 'values', 'entries'):
        d[nm] = (lambda f: lambda t, a: f.call(ta(t), a))(it.AP.p[nm])
    for n, w in ((2, '16'), (4, '32')):
        for big, q in ((True, 'BE'), (False, 'LE')):
            for nm in ('readUInt', 'readUint'): d[nm + w + q] = rd(n, big)
            d['readInt' + w + q] = rd(n, big, True)
            for nm in ('writeUInt', 'writeUint', 'writeInt'): d[nm + w + q] = wr(n, big)
    d['writeUInt8'] = d['writeInt8'] = wr(1, True)
    defs(it.BP, d)
    def newbuf(a):
        if I.isnum(A(a, 0)): return b_alloc(U, a)
        return b_from(U, a)
    ctor('Buffer', lambda t, a: newbuf(a), newbuf, it.BP, alloc=b_alloc, allocUnsafe=lambda t, a: b_alloc(t, a[:1]), allocUnsafeSlow=lambda t, a: b_alloc(t, a[:1]), concat=b_concat, isBuffer=lambda t, a: isbuf(A(a, 0)), byteLength=bytelen, compare=b_compare, isEncoding=lambda t, a: True, **{'from': b_from})
    g['Uint8Array'] = g['Buffer']
    # ---------------- process, misc
    g['process'] = it.obj(version='v22.0.0', versions=it.obj(node='22.0.0'), platform='linux', env=it.obj(), emitWarning=it.fn(lambda t, a: U))
    def jstr(v):
        if isstr(v) and isinstance(v, str):
            import json; return json.dumps(v)
        raise Unsupported('JSON')
    g['JSON'] = it.obj(stringify=it.fn(lambda t, a: jstr(A(a, 0))))
    g['Symbol'] = it.obj(iterator='@@iterator')
    # names the real library has: a lookup of one that is not modelled must not read as undefined
    import json, os
    for n, names in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'jsnames.json'))).items():
        o = g.get(n.split('.')[0])
        if o is None: continue
        if n.endswith('.prototype'): o = o.p['prototype']
        o.real = frozenset(names)
