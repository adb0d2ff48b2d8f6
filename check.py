#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property for /repo's current tree.
Exit 0: held on everything explored; 1: violated (VIOLATION line)."""
import argparse
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and not sys.prefix.startswith('/opt/venv') and not os.environ.get('VF_NO_REEXEC'):
    os.environ['VF_NO_REEXEC'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('NUMEXPR_MAX_THREADS', '8')
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ.setdefault('TZ', 'UTC')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-monitors', action='store_true')
    ap.add_argument('--no-proofs', action='store_true')
    a = ap.parse_args()
    import numpy as np
    from vf import report
    rep = report.Report(a.property, a.tier, a.seed)
    level, technique = 'proof', ''
    if not a.no_proofs:
        try:
            from vf import proofs
            level, technique = proofs.run(rep)
        except Exception:
            rep.notes.append('proof engine failed: ' + traceback.format_exc()[-1500:])
            traceback.print_exc()
        try:
            from vf import replay
            replay.process(rep, rep.recs)
        except Exception:
            rep.notes.append('replays failed: ' + traceback.format_exc()[-1500:])
    if not a.no_monitors:
        monitors(rep, np, a)
    if rep.refuted and not rep.violations:      # the verifier refutes it, no input shows it
        name, what = rep.refuted[0]
        rep.violation('%s.%s' % (rep.prop, name), what, no_input=True, extra={
            'verifier output': rep.refuted, 'failed obligations': [o for o in rep.obl if o['status'] != 'proved']})
    return rep.finish(level, technique)


def monitors(rep, np, a):
    from vf import common
    # on a computer that is not in UTC
    zone = os.environ.get('VF_TZ', 'America/St_Johns')
    os.environ['TZ'] = zone
    time.tzset()
    rep.preamble = '# on a computer in another time zone\nimport os, time\nos.environ["TZ"] = %r\ntime.tzset()\n' % zone
    try:
        from vf import mon_core, mon_api
        f = getattr(mon_core, 'm_' + rep.prop, None) or getattr(mon_api, 'm_' + rep.prop)
        f(rep, np.random.default_rng(a.seed), 6 if rep.thorough else 1)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [x for x in tb if x.filename.startswith(common.SRC)]
        text = ''.join(traceback.format_exception(e))
        rep.notes.append('run-time checks ended early: ' + text[-1500:])
        print(text[-3000:], file=sys.stderr)
        if own and not isinstance(e, (ImportError, MemoryError)):
            rep.violation('%s.raises' % rep.prop, 'the code raises on valid input: %s: %s (%s:%d)' % (
                type(e).__name__, e, own[-1].filename, own[-1].lineno), '# traceback\n' + text[-3000:])
        elif isinstance(e, (IndexError, KeyError, TypeError, ValueError)):
            # the results have not the structure (dimensions, sizes, types) that the contract states
            rep.violation('%s.structure' % rep.prop, 'a result is not of the documented structure: %s: %s (%s:%d)' % (
                type(e).__name__, e, tb[-1].filename, tb[-1].lineno), '# traceback\n' + text[-3000:])


if __name__ == '__main__':
    rc = 0
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) and e.code in (0, 1) else 0
    except BaseException:
        traceback.print_exc()
        rc = 0
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
