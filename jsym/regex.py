"""Backtracking regular expression matcher over symbolic elements."""
import re._parser as sp, re._constants as sc
import numpy as np
from core import *
from seq import *

DIG = [(48, 57)]; WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]
def _ranges(vals):
    o = []
    for v in sorted(vals):
        if o and o[-1][1] == v - 1: o[-1] = (o[-1][0], v)
        else: o.append((v, v))
    return o
WSR = _ranges(WS)
CAT = {sc.CATEGORY_DIGIT: (DIG, 0), sc.CATEGORY_NOT_DIGIT: (DIG, 1), sc.CATEGORY_WORD: (WORD, 0), sc.CATEGORY_NOT_WORD: (WORD, 1), sc.CATEGORY_SPACE: (WSR, 0), sc.CATEGORY_NOT_SPACE: (WSR, 1)}
LT = (10, 13, 0x2028, 0x2029)

def tpl(ranges, neg=False):
    m = np.zeros(65536, dtype=bool)
    for a, b in ranges: m[a:b + 1] = True
    return ~m if neg else m

class Regex:
    def __init__(s, src, flags):
        s.src, s.flags = src, flags; s.g = 'g' in flags; s.i = 'i' in flags; s.m = 'm' in flags; s.y = 'y' in flags; s.dot = 's' in flags
        p = src.replace('[^]', r'[\s\S]').replace('(?<', '(?P<').replace('(?P<=', '(?<=').replace('(?P<!', '(?<!')
        import re
        p = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda q: '\\u%04x' % int(q[1], 16), p)
        p = re.sub(r'\\k<(\w+)>', r'(?P=\1)', p)
        try: s.t = sp.parse(p)
        except Exception as ex: raise Unsupported('regular expression %r: %s' % (src, ex))
        s.ngroups = s.t.state.groups - 1; s.names = dict(s.t.state.groupdict); s.cache = {}
    def cls(s, op, av):
        k = (op, str(av))
        if k in s.cache: return s.cache[k]
        if op is sc.LITERAL: m = tpl([(av, av)])
        elif op is sc.NOT_LITERAL: m = tpl([(av, av)], True)
        elif op is sc.ANY: m = tpl([], True) if s.dot else tpl([(x, x) for x in LT], True)
        else:
            m = np.zeros(65536, dtype=bool); neg = False
            for o, a in av:
                if o is sc.NEGATE: neg = True
                elif o is sc.LITERAL: m[a] = True
                elif o is sc.RANGE: m[a[0]:a[1] + 1] = True
                elif o is sc.CATEGORY: r, n = CAT[a]; m |= tpl(r, n)
                else: raise Unsupported('class ' + str(o))
            if s.i:
                for a in range(26):
                    if m[65 + a] or m[97 + a]: m[65 + a] = m[97 + a] = True
            if neg: m = ~m
            s.cache[k] = m; return m
        if s.i:
            for a in range(26):
                x, y = m[65 + a], m[97 + a]
                v = (x and y) if op is sc.NOT_LITERAL else (x or y)
                m[65 + a] = m[97 + a] = v
        s.cache[k] = m; return m
    def isin(s, c, x, m):
        if isinstance(x, int): return bool(m[x])
        return c.decide_un(x.v, m[x.tab])
    def word(s, c, e, i): return 0 <= i < len(e) and s.isin(c, e[i], s.cls(sc.IN, [(sc.CATEGORY, sc.CATEGORY_WORD)])) if not (0 <= i < len(e) and isinstance(e[i], Tok)) else True
    def step(s, c, e, i, op, av, items, k, g):
        """continuation-passing match of items[k:] at i; yields (end, groups)"""
        pass
    def run(s, c, e, items, k, i, g, cont):
        if k == len(items): return cont(i, g)
        op, av = items[k]; c.tick()
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i >= len(e): return None
            x = e[i]
            if isinstance(x, Blob): raise Unsupported('pattern match into opaque data')
            m = s.cls(op, av)
            if isinstance(x, Tok):
                if not m[48:58].any(): return None
                raise NeedExpand(i)
            if not s.isin(c, x, m): return None
            return s.run(c, e, items, k + 1, i + 1, g, cont)
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING): ok = i == 0 or (s.m and not long(e[i - 1]) and s.isin(c, e[i - 1], tpl([(x, x) for x in LT])))
            elif av in (sc.AT_END, sc.AT_END_STRING): ok = i == len(e) or (s.m and not long(e[i]) and s.isin(c, e[i], tpl([(x, x) for x in LT])))
            elif av is sc.AT_BOUNDARY: ok = s.word(c, e, i - 1) != s.word(c, e, i)
            elif av is sc.AT_NON_BOUNDARY: ok = s.word(c, e, i - 1) == s.word(c, e, i)
            else: raise Unsupported('anchor')
            return s.run(c, e, items, k + 1, i, g, cont) if ok else None
        if op is sc.SUBPATTERN:
            gid, af, df, p = av
            if gid is None: return s.run(c, e, list(p), 0, i, g, lambda j, g2: s.run(c, e, items, k + 1, j, g2, cont))
            return s.run(c, e, list(p), 0, i, g, lambda j, g2: s.run(c, e, items, k + 1, j, {**g2, gid: (i, j)}, cont))
        if op is sc.BRANCH:
            for alt in av[1]:
                r = s.run(c, e, list(alt), 0, i, g, lambda j, g2: s.run(c, e, items, k + 1, j, g2, cont))
                if r is not None: return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av; p = list(p); hi = 1 << 30 if hi is sc.MAXREPEAT else hi
            greedy = op is sc.MAX_REPEAT
            if len(p) == 1 and p[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN) and greedy:
                m = s.cls(*p[0]); ends = [i]; j = i; n = 0; full = m[48:58].all()
                while n < hi and j < len(e):
                    x = e[j]
                    if isinstance(x, Blob): raise Unsupported('pattern match into opaque data')
                    if isinstance(x, Tok):
                        if not m[48:58].any(): break
                        if not full or hi != 1 << 30 or lo > 1: raise NeedExpand(j)
                        n += 1; j += 1; ends.append(j); continue
                    if not s.isin(c, x, m): break
                    n += 1; j += 1; ends.append(j)
                for q in range(len(ends) - 1, lo - 1, -1):
                    r = s.run(c, e, items, k + 1, ends[q], g, cont)
                    if r is not None: return r
                    if q and isinstance(e[ends[q] - 1], Tok): raise NeedExpand(ends[q] - 1)
                return None
            def rep(n, j, g):
                def more():
                    if n >= hi: return None
                    return s.run(c, e, p, 0, j, g, lambda j2, g2: rep(n + 1, j2, g2) if j2 > j or n < lo else None)
                def stop(): return s.run(c, e, items, k + 1, j, g, cont) if n >= lo else None
                for f in ((more, stop) if greedy else (stop, more)):
                    r = f()
                    if r is not None: return r
                return None
            return rep(0, i, g)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth(); r = None
                for w in range(lo, hi + 1):
                    if i - w >= 0: r = s.run(c, e, list(p), 0, i - w, g, lambda j, g2: (j, g2) if j == i else None)
                    if r: break
            else: r = s.run(c, e, list(p), 0, i, g, lambda j, g2: (j, g2))
            if (r is not None) != (op is sc.ASSERT): return None
            return s.run(c, e, items, k + 1, i, r[1] if r and op is sc.ASSERT else g, cont)
        if op is sc.GROUPREF:
            if av in g:
                a, b = g[av]; ok, _ = match_at(c, e, i, e[a:b])
                if not ok: return None
                i += b - a
            return s.run(c, e, items, k + 1, i, g, cont)
        raise Unsupported('regular expression construct %s' % op)
    def exec(s, c, e, start=0):
        """(elements, start index, end index, groups) as element indices, or None"""
        e = list(e)
        while True:
            try:
                i = start
                if Blob in map(type, e): raise Unsupported('pattern match into opaque data')
                items = list(s.t)
                while i <= len(e):
                    r = s.run(c, e, items, 0, i, {}, lambda j, g: (j, g))
                    if r is not None: return e, i, r[0], r[1]
                    if s.y: return None
                    i += 1
                return None
            except NeedExpand as q:
                x = e[q.i]; d = expand(c, x); e[q.i:q.i + 1] = d
                if q.i < start: start += len(d) - 1
class NeedExpand(Exception):
    def __init__(s, i): s.i = i
