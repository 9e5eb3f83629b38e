#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import report, native_check, build
import props_decode, props_encode, props_crc, props_bind, props_js, js_check, arch

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = report.Report(prop, tier, seed); quick = tier == 'quick'
    budget = float(os.environ.get('VERIF_BUDGET', '300' if quick else '3000'))
    try:
        for mod in (props_decode, props_encode, props_crc, props_bind):
            if hasattr(mod, prop):
                groups = getattr(mod, prop)(quick) + arch.groups(prop, quick)
                native_check.run(rep, groups, budget, mod.COMMON, mod.BOUNDS[prop] if prop in mod.BOUNDS else mod.BOUNDS)
                break
        else:
            native = getattr(props_js, prop + '_native', None); t0 = time.time()
            if native: native_check.run(rep, native(quick), budget * 0.5, props_bind.COMMON, {})
            js_check.run(rep, getattr(props_js, prop)(quick), budget - (time.time() - t0), props_js.COMMON, props_js.BOUNDS[prop])
    except build.BuildError as e:
        rep.notes.append('no answer: the current tree does not build for this check: ' + str(e)[-500:]); rep.no_answer = not rep.viol
    except Exception:
        rep.notes.append('no answer: ' + traceback.format_exc()[-800:]); rep.no_answer = not rep.viol
    if 'states' not in rep.cov: rep.cov.update(states=0, transitions=0, traces_validated_against_impl=0)
    rep.finish()
main()
