"""Generic check of a property of index.js: symbolic execution (jsym), sampled-path validation and counterexample replay under node, evidence."""
import os, sys, json, subprocess, tempfile, time, hashlib
import build
from build import VERIF
REPO = getattr(build, 'REPO', '/repo')
TARGET = os.path.join(REPO, 'index.js')
JS = os.path.join(VERIF, 'harness', 'js'); JSYM = os.path.join(VERIF, 'jsym')
PY = 'python3-vt'

class JsGroup:
    def __init__(self, files, tasks, name=None, reach=(), traces=1, weight=1.0):
        self.files, self.tasks, self.reach, self.traces, self.weight = files, tasks, reach, traces, weight
        self.name = name or files[-1]

def harness_text(files): return ''.join(open(os.path.join(JS, f + '.js')).read() for f in files)

def node_run(harness, cases, timeout=60):
    """One result per case: {fails, obs, skip}; None where node died or did not return."""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f: json.dump(cases, f)
    try:
        try: p = subprocess.run(['node', os.path.join(JSYM, 'run.js'), TARGET, harness, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout); out = p.stdout; err = p.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as e: out = e.stdout or b''; err = 'timeout'
    finally: os.unlink(f.name)
    r = []
    for l in out.decode(errors='replace').split('\n'):
        if l.strip():
            try: r.append(json.loads(l))
            except ValueError: break
    return r + [None] * (len(cases) - len(r)), err

def run(rep, groups, budget, assumptions, bounds, max_validate=250):
    tot = dict(); reach = {}; uns = {}; lines = set(); errors = []; validated = 0; mism = []; ntasks = inc = unst = okpaths = 0; left = budget; wsum = sum(g.weight for g in groups); wall = 0.0; skips = 0
    for gi, g in enumerate(groups):
        with tempfile.TemporaryDirectory(prefix='jsym') as d:
            h = os.path.join(d, 'harness.js'); open(h, 'w').write(harness_text(g.files))
            tf = os.path.join(d, 'tasks.json'); json.dump(g.tasks, open(tf, 'w'))
            slot = left if gi == len(groups) - 1 else max(10, left * g.weight / wsum * 1.5); slot = max(10, min(slot, left)); t0 = time.time()
            p = subprocess.Popen([PY, os.path.join(JSYM, 'jsym.py'), '--target', TARGET, '--harness', h, '--tasks', tf, '--time', str(slot), '--seed', str(rep.seed), '--traces', str(g.traces), '--maxviol', '3', '--jobs', '8'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            try: out, err = p.communicate(timeout=slot + 90)
            except subprocess.TimeoutExpired: os.killpg(p.pid, 9); out, err = p.communicate(); errors.append('interpreter timeout')
            if p.returncode: errors.append('interpreter exit %s: %s' % (p.returncode, err.decode(errors='replace')[-300:]))
            left -= time.time() - t0; wsum -= g.weight; wall += time.time() - t0
            viol = []; traces = []
            for l in out.decode(errors='replace').split('\n'):
                if not l.strip(): continue
                try: j = json.loads(l)
                except ValueError: errors.append('bad output: ' + l[:100]); continue
                if j['type'] == 'violation': viol.append(j)
                elif j['type'] == 'trace': traces.append(j)
                elif j['type'] == 'error': errors.append(j['msg'])
                else:
                    ntasks += j['tasks']; inc += j['incomplete']; unst += j['unsupported_tasks']; lines.update(j['lines'])
                    for k, v in j['unsupported'].items(): uns[k] = uns.get(k, 0) + v
                    for k, v in j['reach'].items(): reach[g.name + ':' + k] = reach.get(g.name + ':' + k, 0) + v
                    for k in ('ztime', 'queries', 'sat', 'unsat', 'forks', 'paths', 'asserts', 'steps', 'infeasible'): tot[k] = tot.get(k, 0) + j.get(k, 0)
            seen = {}
            for v in viol:
                sig = v['msg'][:50]
                if seen.get(sig, 0) >= 4 or len(seen) > 6: continue
                if v.get('inputs') is None: seen[sig] = seen.get(sig, 0) + 1; rep.unconfirmed.append(dict(msg=v['msg'], params=v['params'])); continue
                (r,), e = node_run(h, [dict(params=v['params'], inputs=v['inputs'])], 15)
                if r is None: conf = 'reproduced: does not return or dies (%s)' % e[:200]
                elif r['fails'] and not r['fails'][0].startswith('uncaught exception RangeError'): conf = 'reproduced: ' + '; '.join(r['fails'][:2])
                elif r['fails']: conf = 'too large to be replayed (%s)' % r['fails'][0]
                else: conf = None
                if conf is None or (v.get('diverges') and r is not None):
                    rep.unconfirmed.append(dict(msg=v['msg'], params=v['params'], inputs=v['inputs'])); rep.notes.append('counterexample did not reproduce under node (not reported): ' + v['msg'][:200]); seen[sig] = seen.get(sig, 0) + 1; continue
                seen[sig] = seen.get(sig, 0) + 2
                key = hashlib.sha256(json.dumps([g.files, v['msg'], v['params']], sort_keys=True).encode()).hexdigest()[:16]
                rep.violation(key, v['msg'], dict(kind='assert', harness=g.files, params=v['params'], inputs=v['inputs'], replayed=conf))
            if len(traces) > max_validate: st = len(traces) / max_validate; traces = [traces[int(i * st)] for i in range(max_validate)]
            if traces:
                rs, e = node_run(h, [dict(params=t['params'], inputs=t['inputs']) for t in traces], 120)
                for t, r in zip(traces, rs):
                    if r is None: mism.append(dict(params=t['params'], native=e[:100])); continue
                    if r.get('skip'): skips += 1; continue
                    if r['fails'] and 'RangeError' in r['fails'][0]: skips += 1; continue
                    if r['obs'] == t['obs'] and not r['fails']:
                        validated += 1
                        if len(rep.samples) < 6 and (not rep.samples or rep.samples[-1].get('params') != t['params']): rep.samples.append(dict(harness=g.name, params=t['params'], inputs=t['inputs'][:30], observed=json.loads(json.dumps(t['obs'])) if len(json.dumps(t['obs'])) < 600 else json.dumps(t['obs'])[:600]))
                    else: mism.append(dict(params=t['params'], inputs=t['inputs'][:12], interpreter=json.dumps(t['obs'])[:150], node=json.dumps(r['obs'])[:150], fails=r['fails'][:2]))
        for w in g.reach:
            if not reach.get(g.name + ':' + w): rep.notes.append('vacuity: no path of %s reached "%s"' % (g.name, w))
    nuns = sum(uns.values()); done = tot.get('paths', 0) - nuns - tot.get('infeasible', 0)
    if done <= 0 and not rep.viol: rep.no_answer = True
    if mism: rep.notes.append('%d sampled path(s) differ between the interpreter and node: %s' % (len(mism), json.dumps(mism[0])[:500]))
    if inc: rep.notes.append('%d task(s) not finished within the time budget (not claimed)' % inc)
    if nuns: rep.notes.append('%d path(s) in %d task(s) end at an operation the interpreter does not model (not claimed): %s' % (nuns, unst, json.dumps(sorted(uns.items(), key=lambda x: -x[1])[:4])[:600]))
    if errors: rep.notes.append('interpreter: %d message(s), first: %s' % (len(errors), errors[0][:300]))
    rep.assumptions = rep.assumptions + [a for a in assumptions if a not in rep.assumptions]
    try: nl = len([l for l in open(TARGET)])
    except OSError: nl = 0
    js = dict(states=tot.get('forks', 0) + ntasks, transitions=tot.get('steps', 0), traces_validated_against_impl=validated)
    for k, v in js.items(): rep.cov[k] = rep.cov.get(k, 0) + v
    rep.cov.update(javascript=dict(file='index.js', tasks=ntasks, tasks_completed=ntasks - inc, paths=tot.get('paths', 0), infeasible_paths=tot.get('infeasible', 0), unmodelled_paths=nuns, assertions=tot.get('asserts', 0),
            solver=dict(queries=tot.get('queries', 0), sat=tot.get('sat', 0), unsat=tot.get('unsat', 0), solver_seconds=round(tot.get('ztime', 0), 2)), reachability=reach, lines_executed='%d of %d' % (len(lines), nl), executed=ranges(lines), traces_not_replayable=skips, seconds=round(wall, 1)),
        method=rep.cov.get('method', '') + ('; ' if rep.cov.get('method') else '') + 'JavaScript: states = path decisions taken, transitions = statements executed symbolically')
    rep.cov['bounds'] = dict(rep.cov.get('bounds', {}), **bounds) if isinstance(rep.cov.get('bounds', {}), dict) else bounds
    rep.cov['exhaustive'] = bool(rep.cov.get('exhaustive', True) and not inc and not nuns and not errors)

def ranges(ls):
    out = []; ls = sorted(ls)
    for l in ls:
        if out and l == out[-1][1] + 1: out[-1][1] = l
        else: out.append([l, l])
    return ','.join('%d' % a if a == b else '%d-%d' % (a, b) for a, b in out)
