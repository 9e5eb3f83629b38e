"""Symbolic values, path constraints and decisions."""
import z3, time, random
import numpy as np

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class Budget(Exception): pass
class Diverges(Exception): pass
MAX_STEPS = 250000   # statements on one path

class _Undef:
    def __repr__(self): return 'undefined'
    def __bool__(self): return False
UNDEF = _Undef()

MAXSAFE = 1 << 53

class Var:
    """An input with a finite domain 0..size-1, kept as an explicit set."""
    __slots__ = ('name', 'size', 'z')
    def __init__(s, name, size): s.name = name; s.size = size; s.z = z3.Int(name)

class T:
    """A value that is a function of one finite-domain input (a table over its domain)."""
    __slots__ = ('v', 'tab')
    def __init__(s, v, tab): s.v = v; s.tab = tab
    def map(s, f): return T(s.v, f(s.tab))

class SN:
    """Symbolic integer: linear form over atoms."""
    __slots__ = ('lin', 'c')
    def __init__(s, lin, c=0): s.lin = lin; s.c = c

class Rat:
    """Exact quotient of two symbolic/concrete integers, before rounding."""
    __slots__ = ('a', 'b')
    def __init__(s, a, b): s.a = a; s.b = b

class FP:
    """Symbolic double."""
    __slots__ = ('e',)
    def __init__(s, e): s.e = e

class Tok:
    """Decimal digits of a non-negative symbolic integer, inside a string or Buffer."""
    __slots__ = ('n', 'ln', 'exp')
    def __init__(s, n, ln): s.n = n; s.ln = ln; s.exp = None

class Blob:
    """Opaque bytes of symbolic length."""
    __slots__ = ('key', 'ln', 'no')
    def __init__(s, key, ln, no=frozenset()): s.key = key; s.ln = ln; s.no = no     # no: byte values that do not occur in it

RNE = z3.RNE(); F64 = z3.Float64()

class Ctx:
    def __init__(s, stats): s.stats = stats; s.reset([])
    def reset(s, prefix, z3_timeout=20000):
        s.prefix = prefix; s.dec = []; s.pending = []
        s.dom = {}; s.vars = {}; s.order = []
        s.atoms = {}; s.linked = set(); s.solver = None; s.zc = []
        s.fresh = 0; s.deadline = None; s.steps = 0; s.z3_timeout = z3_timeout
        s.ncons = 0; s.picks = {}; s.bnd = {}
    # ---- inputs
    def new_var(s, name, size, dom=None):
        n = name; i = 1
        while n in s.vars: i += 1; n = '%s#%d' % (name, i)
        v = Var(n, size); s.vars[n] = v; s.dom[n] = np.ones(size, dtype=bool) if dom is None else dom.copy(); s.order.append((n, 'v'))
        return v
    def new_int(s, name, lo, hi):
        n = name; i = 1
        while n in s.atoms: i += 1; n = '%s#%d' % (name, i)
        e = z3.Int(n); s.atoms[n] = e; s.order.append((n, 'i'))
        s.bnd[n] = (lo, hi)
        if lo is not None: s.add(e >= lo)
        if hi is not None: s.add(e <= hi)
        return SN({n: 1})
    def new_fp(s, name):
        e = z3.FP(name, F64); s.atoms[name] = e; s.order.append((name, 'f')); return FP(e)
    def atom(s, e, lo=None, hi=None):
        s.fresh += 1; n = '!%d' % s.fresh; s.atoms[n] = e; s.bnd[n] = (lo, hi); return SN({n: 1})
    def interval(s, x):
        lo = hi = x.c
        for n, k in x.lin.items():
            if n[:2] == 'v:':
                d = np.flatnonzero(s.dom[n[2:]]); a, b = (int(d[0]), int(d[-1])) if len(d) else (None, None)
            else: a, b = s.bnd.get(n, (None, None))
            if k < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
            if lo is None and hi is None: break
        return lo, hi
    # ---- solver
    def sol(s):
        if s.solver is None:
            s.solver = z3.Solver(); s.solver.set('timeout', s.z3_timeout)
            for c in s.zc: s.solver.add(c)
        return s.solver
    def add(s, c): s.zc.append(c); s.ncons += 1; (s.solver is not None) and s.solver.add(c)
    def check(s, *extra):
        t = time.time(); r = s.sol().check(*extra); s.stats['ztime'] += time.time() - t; s.stats['queries'] += 1
        if r == z3.unknown: raise Unsupported('solver gave no answer')
        s.stats['sat' if r == z3.sat else 'unsat'] += 1
        return r == z3.sat
    def domz(s, v, m=None):
        m = s.dom[v.name] if m is None else m
        idx = np.flatnonzero(m)
        if len(idx) == 0: return z3.BoolVal(False)
        br = np.flatnonzero(np.diff(idx) > 1); lo = np.concatenate(([idx[0]], idx[br + 1])); hi = np.concatenate((idx[br], [idx[-1]]))
        return z3.Or([z3.And(v.z >= int(a), v.z <= int(b)) if a != b else v.z == int(a) for a, b in zip(lo, hi)])
    def link(s, v):
        if v.name not in s.linked: s.linked.add(v.name); s.add(s.domz(v))
    def tz(s, t):
        """z3 expression of a table term."""
        s.link(t.v); d = s.dom[t.v.name]; idx = np.flatnonzero(d); tab = t.tab[idx]; off = tab - idx
        if (off == off[0]).all(): return t.v.z + int(off[0]) if off[0] else t.v.z
        if (tab == tab[0]).all(): return z3.IntVal(int(tab[0]))
        # piecewise: runs of constant offset, or of constant value
        e = None; i = len(idx) - 1; pieces = []
        while i >= 0:
            j = i
            while j > 0 and off[j - 1] == off[i]: j -= 1
            if j == i:
                while j > 0 and tab[j - 1] == tab[i]: j -= 1
                pieces.append((int(idx[j]), None, int(tab[i])))
            else: pieces.append((int(idx[j]), int(off[i]), None))
            i = j - 1
        for lo, o, c in pieces:
            x = z3.IntVal(c) if o is None else t.v.z + o
            e = x if e is None else z3.If(t.v.z >= e_lo, e, x)
            e_lo = lo
        return e
    def z(s, x):
        if isinstance(x, bool): return z3.IntVal(int(x))
        if isinstance(x, int): return z3.IntVal(x)
        if isinstance(x, T): return s.tz(x)
        if isinstance(x, SN):
            r = [s.atoms[n] * k if k != 1 else s.atoms[n] for n, k in x.lin.items()]
            if x.c or not r: r.append(z3.IntVal(x.c))
            return z3.Sum(r) if len(r) > 1 else r[0]
        if isinstance(x, Rat): return z3.ToReal(s.z(x.a)) / z3.ToReal(s.z(x.b))
        if isinstance(x, float) and x == int(x): return z3.IntVal(int(x))
        raise Unsupported('no solver term for %r' % (x,))
    def to_sn(s, x):
        if isinstance(x, SN): return x
        if isinstance(x, T):
            idx = np.flatnonzero(s.dom[x.v.name]); off = x.tab[idx] - idx
            if (off == off[0]).all():
                s.link(x.v); n = 'v:' + x.v.name; s.atoms[n] = x.v.z; return SN({n: 1}, int(off[0]))
            return s.atom(s.tz(x))
        if isinstance(x, (bool, int)): return SN({}, int(x))
        raise Unsupported('not an integer: %r' % (x,))
    def norm(s, x):
        if isinstance(x, SN):
            l = {n: k for n, k in x.lin.items() if k}
            return SN(l, x.c) if l else x.c
        return x
    # ---- decisions
    def _take(s, forced, cond):
        pass
    def replaying(s): return len(s.dec) < len(s.prefix)
    def tick(s):
        s.steps += 1
        if not s.steps & 255:
            if s.steps > MAX_STEPS: raise Diverges()
            if s.deadline and time.time() > s.deadline: raise Budget()
    def decide_un(s, v, mask):
        """mask: boolean table over v's domain."""
        d = s.dom[v.name]; t = d & mask; nt = bool(t.any())
        if not nt: return False
        f = d & ~mask
        if not f.any(): return True
        linked = v.name in s.linked
        i = len(s.dec)
        if i < len(s.prefix): r = s.prefix[i]
        else:
            r = None
            if linked:
                if not s.check(s.domz(v, t)): r = 2
                elif not s.check(s.domz(v, f)): r = 3
            if r is None: r = 1; s.pending.append(s.dec + [0]); s.stats['forks'] += 1
        s.dec.append(r); res = r in (1, 3)
        s.dom[v.name] = t if res else f
        if linked and r < 2: s.add(s.domz(v))
        return res
    def decide_z(s, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(s.dec)
        if i < len(s.prefix): r = s.prefix[i]
        else:
            if not s.check(c): r = 2
            elif not s.check(z3.Not(c)): r = 3
            else: r = 1; s.pending.append(s.dec + [0]); s.stats['forks'] += 1
        s.dec.append(r); res = r in (1, 3)
        if r < 2: s.add(c if res else z3.Not(c))
        return res
    def choose(s, n):
        """An unconstrained choice 0..n-1."""
        i = len(s.dec)
        if i < len(s.prefix): r = s.prefix[i] - 10
        else:
            r = 0
            for k in range(1, n): s.pending.append(s.dec + [10 + k]); s.stats['forks'] += 1
        s.dec.append(10 + r); return r
    def assume_un(s, v, mask):
        d = s.dom[v.name] & mask
        if not d.any(): raise Infeasible()
        s.dom[v.name] = d
        if v.name in s.linked:
            s.add(s.domz(v))
            if not s.replaying() and not s.check(): raise Infeasible()
    def concretize(s, t):
        """Fork over the values of a table term."""
        vals = sorted(set(int(x) for x in t.tab[s.dom[t.v.name]]))
        if len(vals) > 300: raise Unsupported('too many values to enumerate')
        for x in vals[:-1]:
            if s.decide_un(t.v, t.tab == x): return x
        return vals[-1]
    # ---- comparison of numbers
    def cmp(s, op, a, b):
        """a op b for int/T/SN/Rat/FP; op in == < <= > >="""
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, FP) or isinstance(b, FP):
            x, y = s.fp(a), s.fp(b)
            return s.decide_z({'==': z3.fpEQ, '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[op](x, y))
        for q, o in ((a, b), (b, a)):
            if isinstance(q, float):
                if q != q: return False
                if q in (float('inf'), float('-inf')):
                    w = {'==': False, '<': q > 0, '<=': q > 0, '>': q < 0, '>=': q < 0}[op]
                    return w if q is b else ((not w) if op != '==' else False)
        if isinstance(b, T) and not isinstance(a, T): a, b = b, a; op = {'==': '==', '<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        if isinstance(a, T):
            if isinstance(b, (int, float)):
                m = {'==': a.tab == b, '<': a.tab < b, '<=': a.tab <= b, '>': a.tab > b, '>=': a.tab >= b}[op]
                return s.decide_un(a.v, m)
            if isinstance(b, T) and a.v is b.v:
                m = {'==': a.tab == b.tab, '<': a.tab < b.tab, '<=': a.tab <= b.tab, '>': a.tab > b.tab, '>=': a.tab >= b.tab}[op]
                return s.decide_un(a.v, m)
        if isinstance(a, Rat) or isinstance(b, Rat): return s.cmp_rat(op, a, b)
        d = s.sub(a, b)
        if isinstance(d, int): return {'==': d == 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
        if isinstance(a, float) or isinstance(b, float): raise Unsupported('fraction')
        if isinstance(d, SN):
            lo, hi = s.interval(d)
            if lo is not None and lo > 0: return op in ('>', '>=')
            if hi is not None and hi < 0: return op in ('<', '<=')
            if lo is not None and lo >= 0 and op in ('<', '>='): return op == '>='
            if hi is not None and hi <= 0 and op in ('>', '<='): return op == '<='
        x, y = s.z(a), s.z(b)
        return s.decide_z({'==': x == y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
    def cmp_rat(s, op, a, b):
        # a quotient compared with an integer: rounding of the double quotient cannot cross an integer below 2^53
        if isinstance(a, Rat) and isinstance(b, (int, SN, T)):
            s.exact_div(a)
            x, y = s.z(a.a), s.z(b) * s.z(a.b)
            pos = s.decide_z(s.z(a.b) > 0)
            if not pos: raise Unsupported('negative divisor')
            return s.decide_z({'==': x == y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if isinstance(b, Rat) and isinstance(a, (int, SN, T)):
            return s.cmp_rat({'==': '==', '<': '>', '<=': '>=', '>': '<', '>=': '<='}[op], b, a)
        raise Unsupported('comparison of two quotients')
    def exact_div(s, r):
        a, b = s.z(r.a), s.z(r.b)
        if not s.decide_z(z3.And(a >= 0, b > 0, a + b < MAXSAFE)): raise Unsupported('quotient outside the exact range')
    def whole(s, r):
        s.exact_div(r)
        if not s.decide_z(s.z(r.a) % s.z(r.b) == 0): raise Unsupported('product of quotients')
        return s.atom(s.z(r.a) / s.z(r.b))
    def floor(s, r):
        s.exact_div(r); return s.atom(s.z(r.a) / s.z(r.b))
    def ceil(s, r):
        s.exact_div(r); return s.atom((s.z(r.a) + s.z(r.b) - 1) / s.z(r.b))
    def fp(s, x):
        if isinstance(x, FP): return x.e
        if isinstance(x, (int, float)): return z3.FPVal(float(x), F64)
        return z3.fpRealToFP(RNE, z3.ToReal(s.z(x)), F64)
    # ---- arithmetic
    def addn(s, a, b):
        if isinstance(a, FP) or isinstance(b, FP): return FP(z3.fpAdd(RNE, s.fp(a), s.fp(b)))
        if isinstance(a, T) and isinstance(b, int): return T(a.v, a.tab + b)
        if isinstance(b, T) and isinstance(a, int): return T(b.v, b.tab + a)
        if isinstance(a, T) and isinstance(b, T) and a.v is b.v: return T(a.v, a.tab + b.tab)
        if isinstance(a, float) or isinstance(b, float):
            for x in (a, b):
                if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))): return x
            raise Unsupported('fraction')
        if isinstance(a, Rat) or isinstance(b, Rat): raise Unsupported('sum of quotients')
        a, b = s.to_sn(a), s.to_sn(b); l = dict(a.lin)
        for n, k in b.lin.items(): l[n] = l.get(n, 0) + k
        return s.norm(SN(l, a.c + b.c))
    def neg(s, a):
        if isinstance(a, FP): return FP(z3.fpNeg(a.e))
        if isinstance(a, T): return T(a.v, -a.tab)
        if isinstance(a, SN): return SN({n: -k for n, k in a.lin.items()}, -a.c)
        if isinstance(a, Rat): return Rat(s.neg(a.a), a.b)
        return -a
    def sub(s, a, b):
        if isinstance(a, FP) or isinstance(b, FP): return FP(z3.fpSub(RNE, s.fp(a), s.fp(b)))
        return s.addn(a, s.neg(b))
    def mul(s, a, b):
        if isinstance(a, FP) or isinstance(b, FP): return FP(z3.fpMul(RNE, s.fp(a), s.fp(b)))
        if isinstance(b, (T, SN, Rat)) and not isinstance(a, (T, SN, Rat)): a, b = b, a
        if isinstance(b, float):
            if b != b: return b
            n, d = b.as_integer_ratio()
            if d > 1 << 20: raise Unsupported('product with a fraction')
            return s.div(s.mul(a, n), d)
        if isinstance(a, Rat): a = s.whole(a)
        if isinstance(b, Rat): b = s.whole(b)
        if isinstance(a, int) and isinstance(b, int): return a * b
        if isinstance(b, int):
            if isinstance(a, T): return T(a.v, a.tab * b)
            if b == 0: return 0
            return SN({n: k * b for n, k in a.lin.items()}, a.c * b)
        if isinstance(b, Rat): raise Unsupported('product of quotients')
        if isinstance(a, T) and isinstance(b, T) and a.v is b.v: return T(a.v, a.tab * b.tab)
        return s.atom(s.z(a) * s.z(b))
    def div(s, a, b):
        if isinstance(a, FP) or isinstance(b, FP): return FP(z3.fpDiv(RNE, s.fp(a), s.fp(b)))
        if isinstance(b, int) and b == 1: return a
        if isinstance(a, float) or isinstance(b, float): raise Unsupported('fraction')
        if isinstance(a, Rat) or isinstance(b, Rat): raise Unsupported('nested quotient')
        if isinstance(b, (int, SN, T)) and s.cmp('==', b, 0): raise Unsupported('division by zero')
        return Rat(a, b)
    def mod(s, a, b):
        if isinstance(a, T) and isinstance(b, int) and b > 0: return T(a.v, np.fmod(a.tab, b))
        if not isinstance(a, (int, T, SN)) or not isinstance(b, (int, T, SN)): raise Unsupported('remainder')
        if not (s.cmp('>=', a, 0) and s.cmp('>', b, 0)): raise Unsupported('remainder of a negative number')
        return s.atom(s.z(a) % s.z(b))
    # ---- models
    def model(s, rnd, small=True):
        """Concrete values for all inputs satisfying the path condition (None if there are none)."""
        vals = {}
        m = None; s.mdl = None; s.vals = vals
        if s.zc:
            sol = s.sol(); ints = [s.atoms[n] for n, k in s.order if k == 'i']
            ok = None
            for lim in ((40, 5000, 1 << 20, None) if small and ints else (None,)):
                ex = [z3.And(e <= lim, e >= -lim) for e in ints] if lim is not None else []
                t = time.time(); r = sol.check(*ex); s.stats['ztime'] += time.time() - t; s.stats['queries'] += 1
                if r == z3.sat: ok = sol.model(); break
                if r == z3.unknown and lim is None: raise Unsupported('solver gave no model')
            if ok is None: return None
            m = s.mdl = ok
        for n, k in s.order:
            if k == 'c': vals[n] = s.picks[n]; continue
            if k == 'v':
                v = s.vars[n]
                if n in s.linked: x = m.eval(v.z, model_completion=True).as_long()
                else:
                    idx = np.flatnonzero(s.dom[n])
                    x = int(idx[rnd.randrange(len(idx))])
            elif k == 'i': x = m.eval(s.atoms[n], model_completion=True).as_long() if m is not None else 0
            else:
                f = m.eval(s.atoms[n], model_completion=True) if m is not None else None
                if f is None: x = 0.0
                elif z3.is_fprm(f): x = 0.0
                else:
                    if f.isNaN(): x = 'NaN'
                    elif f.isInf(): x = '-Infinity' if f.isNegative() else 'Infinity'
                    else:
                        bv = z3.simplify(z3.fpToIEEEBV(f)).as_long()
                        import struct; x = struct.unpack('<d', struct.pack('<Q', bv))[0]
            vals[n] = x
        return vals
    def val(s, x):
        """value of a symbolic number under the last model"""
        if isinstance(x, T):
            n = x.v.name
            if n in s.vals: return int(x.tab[s.vals[n]])
            return int(x.tab[s.mdl.eval(x.v.z, model_completion=True).as_long()]) if n in s.linked else int(x.tab[np.flatnonzero(s.dom[n])[0]])
        if isinstance(x, SN):
            r = x.c
            for n, k in x.lin.items():
                q = n[2:] if n.startswith('v:') else None
                if q is not None and q in s.vals: r += k * s.vals[q]
                else: r += k * s.mdl.eval(s.atoms[n], model_completion=True).as_long()
            return r
        if isinstance(x, Rat): return s.val(x.a) / s.val(x.b)
        if isinstance(x, FP): return None
        return x
