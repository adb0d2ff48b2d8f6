"""Collects obligations, bounded run-time contract checks and violations of one
property; writes the evidence and the replay files; decides the exit code."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUTDIR = os.environ.get('VF_OUT', ROOT)
REPLAYS = os.path.join(OUTDIR, 'out')


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obl = []
        self.bounded = {}
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.functions = []
        self.notes = []
        self.preamble = ''
        self.budget = 780. if tier == 'quick' else 1500.
        self.known = known_findings(prop)
        self.known_hit = []
        self.failed = []
        self.recs = []          # failed obligations, to be replayed on the real code
        self.refuted = []       # obligations that definitely fail, for which no input was run

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ------------------------------------------------------------ obligations
    def obligation(self, name, status, backend, secs=0., detail=''):
        """status: proved | refuted | undecided"""
        self.obl.append({'name': name, 'status': status, 'backend': backend, 'secs': round(secs, 3),
                         'detail': str(detail)[:600]})
        return status == 'proved'

    def prove(self, name, backend, f, *a, **kw):
        """f() -> True/False/(status, detail); any engine failure leaves it undecided"""
        t = time.time()
        try:
            r = f(*a, **kw)
        except Exception as e:                      # the verifier failed: no verdict
            r = ('undecided', '%s: %s' % (type(e).__name__, e))
        if isinstance(r, tuple):
            st, det = r
        else:
            st, det = ('proved', '') if r is True else ('undecided', 'not proved')
        self.obligation(name, st, backend, time.time() - t, det)
        return st

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def function(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)

    # --------------------------------------------------------- bounded checks
    def count(self, name, n, sample=None):
        self.bounded[name] = self.bounded.get(name, 0) + int(n)
        if sample is not None and len(self.samples) < 12:
            self.samples.append({'check': name, 'case': str(sample)[:300]})

    # -------------------------------------------------------------- violations
    def violation(self, name, what, program=None, extra=None, no_input=False):
        for k in self.known:
            if k.get('match') and all(m in (name + ' ' + what) for m in k['match']):
                if k['id'] not in self.known_hit:
                    self.known_hit.append(k['id'])
                return
        if any(v['obligation'] == name for v in self.violations) or len(self.violations) >= 5:
            return
        os.makedirs(REPLAYS, exist_ok=True)
        if program and self.preamble and not program.startswith('# traceback'):
            program = self.preamble + program
        path = os.path.join(REPLAYS, '%s-%d.json' % (self.prop, len(self.violations)))
        v = {'property': self.prop, 'obligation': name, 'what': what, 'program': program, 'extra': extra,
             'no_failing_input': no_input, 'failed_obligations': self.failed}
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        self.violations.append(v)
        print('  failed obligation: %s\n    %s' % (name, what))
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, ' no-failing-input-found' if no_input else ''),
              flush=True)

    # ------------------------------------------------------------------ finish
    def finish(self, level, technique):
        proved = [o for o in self.obl if o['status'] == 'proved']
        by = {}
        for o in self.obl:
            b = by.setdefault(o['backend'], {'obligations': 0, 'discharged': 0, 'seconds': 0.})
            b['obligations'] += 1
            b['discharged'] += o['status'] == 'proved'
            b['seconds'] = round(b['seconds'] + o['secs'], 3)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        n_b = sum(self.bounded.values())
        cov = {
            'obligations': len(self.obl), 'discharged': len(proved),
            'checker_cmd': 'python3 check.py %s --tier %s' % (self.prop, self.tier),
            'trusted_base': TRUSTED,
            'by_back_end': by,
            'functions_under_contract': self.functions,
            'undischarged': [o for o in self.obl if o['status'] != 'proved'],
            'obligation_names': [o['name'] for o in proved],
            'bounded_runtime_contract_checks': self.bounded,
            'evaluations': n_b, 'distinct_nontrivial': n_b,
            'rule': 'bounded (never counted as proved): the contract evaluated on real calls of the code, on inputs '
                    'generated from the seed, on fixed corner cases and on inputs derived from the branch conditions '
                    'of the extracted terms; every case calls the code of /repo and compares its results',
            'samples': self.samples or [{'obligation': o['name']} for o in self.obl[:3]],
            'explanation': technique, 'notes': self.notes,
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        d = os.path.join(OUTDIR, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        und = len(self.obl) - len(proved)
        print('%s: %d/%d obligations discharged%s, %d bounded run-time contract checks, %d violation(s), %.1f s' % (
            self.prop, len(proved), len(self.obl), ' (%d undecided)' % und if und else '', n_b,
            len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


TRUSTED = [
    'pyded: the symbolic interpreter of this framework (CPython runs the real source over symbolic arrays), its '
    'normal-form prover and interval prover; cross-checked on every run against CPython on concrete inputs',
    'Z3 (path feasibility, shapes, validation, quantified contracts)',
    'library models: contracts assumed for numpy, numexpr, pandas and xarray operations (pyded/sym.py, loader.py, '
    'frames.py); a mismatch with the real libraries is looked for by the cross-check',
    'machine arithmetic: the values of sunpos (C01-C07) are proved to be those of real arithmetic to within stated bounds '
    '(pyded/rounding.py), and so is what the API layer derives from them (C12-C17, C20; vf/machine_api.py), with IEEE '
    'doubles and elementary functions accurate to 4 ulp; float32 conversions are kept as explicit roundings; instants of '
    'C12, C13 and C17 are shown to stay within 64 bits of nanoseconds (1700-2250), elsewhere they are read as integers',
]


def known_findings(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]
