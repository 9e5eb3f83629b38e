"""Generic check of a property of the C/C++ code: symbolic tasks, sampled-path validation, counterexample replay, evidence."""
import os, time, json, hashlib
import build, engine
from concurrent.futures import ThreadPoolExecutor

NOCRCUTIL = {'defs': ['-DYENC_DISABLE_CRCUTIL=1']}
STRICT_MEM = {'C09', 'C10', 'C26'}

class Group:
    def __init__(self, harness, tasks, name=None, variant=NOCRCUTIL, anf=False, reach=(), traces=1, extra=(), validate=True, weight=1.0, memory_owner=None, describe=''):
        self.harness, self.tasks, self.variant, self.anf, self.reach, self.traces, self.extra, self.validate, self.weight = harness, tasks, variant, anf, reach, traces, extra, validate, weight
        self.name = name or harness; self.describe = describe

def relevant(prop, v):
    k = v['kind']
    if k == 'assert': return True          # foreign assertions are not evaluated (--prop)
    if k == 'shared': return prop == 'C19'
    return True

def replay(rep, g, r, prop, errors):
    """Counterexamples against the native build; returns its path."""
    exe = exs = None
    if r.violations or (g.validate and r.traces):
        try: exe = build.native(g.harness, g.variant)
        except build.BuildError as e: errors.append('native build: ' + str(e)[-300:])
    seen = set()
    for v in r.violations:
        if not relevant(prop, v): continue
        sig = (v['kind'], v['msg'][:60], v['params'].get('isa'), v['params'].get('api'))
        if sig in seen and len(seen) > 3: continue
        seen.add(sig)
        conf = 'not replayed'
        if exe and g.validate:
            n = engine.native_run(exe, v)
            if n['unsupported']: conf = 'host CPU lacks the instruction set'
            elif n['crash']: conf = 'reproduced: native run crashed (%s)' % n['crash']
            elif n['asserts'] or n['memory']: conf = 'reproduced: ' + '; '.join((n['asserts'] + n['memory'])[:2])
            elif v['kind'] == 'assert' and not v.get('oob'): conf = None
            else:
                try:
                    exs = exs or build.native(g.harness, g.variant, True); m = engine.native_run(exs, v)
                    conf = ('reproduced under AddressSanitizer: ' + m['crash']) if m['crash'] else 'symbolic memory model only'
                except build.BuildError: conf = 'symbolic memory model only'
        if conf is None:
            rep.unconfirmed.append(dict(msg=v['msg'], params=v['params'])); rep.notes.append('counterexample did not reproduce natively (not reported): ' + v['msg']); continue
        key = hashlib.sha256(json.dumps([g.harness, v['kind'], v['msg'], v['params']], sort_keys=True).encode()).hexdigest()[:16]
        rep.violation(key, v['msg'], dict(kind=v['kind'], harness=g.harness, params=v['params'], inputs=v['inputs'], stack=v.get('stack'), replayed=conf))
    return exe

def run(rep, groups, budget, assumptions, bounds, max_validate=160):
    prop = rep.prop
    build.ensure_engine()
    tot = dict(tasks=0, completed=0, paths=0, instrs=0, forks=0, branches=0, queries=0, z3=0, sat=0, unsat=0, ztime=0.0, asserts=0, byrew=0, bysol=0, eng=0.0)
    functions = set(); validated = 0; mism = []; reach = {}; incomplete = 0; errors = []
    wsum = sum(g.weight for g in groups); left = budget
    for gi, g in enumerate(groups):
        if rep.viol: rep.notes.append('%s not run: a violation is confirmed already' % g.name); continue
        try: bc = build.harness_bitcode(g.harness, g.variant)
        except build.BuildError as e: errors.append('%s does not build: %s' % (g.harness, str(e)[-400:])); wsum -= g.weight; continue
        t0 = time.time()
        slot = max(10.0, left * g.weight / wsum * (1.0 if gi == len(groups) - 1 else 1.5)); slot = min(slot, left) if left > 10 else 10.0
        lenient = prop not in STRICT_MEM
        for stop_after in (20.0, None):
            r = engine.run_engine(bc, g.tasks, time_budget=slot, traces=g.traces, anf=g.anf, prop=prop, lenient=lenient, seed=rep.seed, extra=g.extra, stop_after=stop_after)
            if not r.stopped: break
            nv = len(rep.viol)
            replay(rep, g, r, prop, errors)
            if len(rep.viol) > nv: break   # settled; otherwise the whole of it, without stopping
            left -= r.wall; slot = max(10.0, min(slot, left))
        left -= r.wall; wsum -= g.weight
        tot['tasks'] += len(g.tasks); tot['completed'] += len(r.stats); tot['eng'] += r.wall
        for a, b in (('paths', 'paths'), ('instrs', 'instrs'), ('forks', 'forks'), ('branches', 'branches'), ('queries', 'queries'), ('z3', 'z3_queries'), ('sat', 'sat'), ('unsat', 'unsat'), ('ztime', 'ztime'), ('asserts', 'asserts'), ('byrew', 'asserts_rewrite'), ('bysol', 'asserts_solver')): tot[a] += r.total(b)
        for s in r.stats:
            functions.update(s.get('funcs', []))
            for k, n in s.get('reach', {}).items(): reach[g.name + ':' + k] = reach.get(g.name + ':' + k, 0) + n
        incomplete += len(r.incomplete); errors += r.errors
        exe = None if r.stopped else replay(rep, g, r, prop, errors)
        if g.validate and exe:
            tr = r.traces
            if len(tr) > max_validate: step = len(tr) / max_validate; tr = [tr[int(i * step)] for i in range(max_validate)]
            with ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda t: engine.native_run(exe, t), tr))
            for t, n in zip(tr, outs):
                if n['unsupported']: continue
                if n['obs'] == t['obs'] and not n['crash']: validated += 1
                else: mism.append(dict(harness=g.harness, params=t['params'], native=str(n)[:300]))
                if len(rep.samples) < 6 and n['obs'] == t['obs'] and (len(rep.samples) < 2 or t['params'] != rep.samples[-1].get('params')):
                    rep.samples.append(dict(harness=g.harness, params=t['params'], inputs=compact(t['inputs']), observed=[[o[0], o[1][:160]] for o in t['obs']]))
        for w in g.reach:
            if not reach.get(g.name + ':' + w): rep.notes.append('vacuity: no path of %s reached "%s"' % (g.name, w))
    if not tot['completed']: rep.no_answer = True
    if mism: rep.notes.append('%d sampled path(s) differ between the encoding and the native build: %s' % (len(mism), json.dumps(mism[0])[:400]))
    if incomplete: rep.notes.append('%d task(s) not finished within the time budget (not claimed)' % incomplete)
    if errors: rep.notes.append('engine: %d message(s), first: %s' % (len(errors), errors[0][:300]))
    rep.assumptions = list(assumptions)
    rep.cov.update(states=tot['forks'] + tot['completed'], transitions=tot['instrs'], traces_validated_against_impl=validated,
        symbolic_branches=tot['branches'], tasks=tot['tasks'], tasks_completed=tot['completed'] - incomplete,
        solver=dict(sat_queries=tot['queries'], sat_answers=tot['sat'], unsat_answers=tot['unsat'], cross_checked_with_z3=tot['z3'], solver_seconds=round(tot['ztime'], 2)),
        assertions=dict(evaluated=tot['asserts'], decided_by_simplification=tot['byrew'], decided_by_solver=tot['bysol']),
        reachability=reach, functions_encoded=demangle(functions), bounds=bounds, engine_seconds=round(tot['eng'], 2),
        exhaustive=bool(not incomplete and not errors), method='states = symbolic states created, transitions = IR instructions executed symbolically')

def compact(inp):
    if len(inp) > 24 and all(n == 'in' for n, _ in inp): return 'in=' + ''.join('%02x' % v for _, v in inp)
    return inp[:64]

def demangle(fs):
    import subprocess
    fs = sorted(f for f in fs if 'DecSpec' not in f and not f.startswith('_GLOBAL__'))
    try: out = subprocess.run(['c++filt'], input='\n'.join(fs), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    except OSError: out = fs
    return sorted(set(o.split('(')[0][:120] for o in out if o))
