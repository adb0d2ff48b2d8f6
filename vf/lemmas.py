"""the lemmas that tie the obligations to the statements: theorems of lemmas/Lemmas.lean, checked by Lean on every run"""
import os
import re
import shutil
import subprocess
import time

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', 'Lemmas.lean')
FOR = {'C03': ('separation', 'same_hour', 'rotation', 'displacements'),
       'C05': ('same_declination', 'same_hour', 'rotation', 'displacements'),
       'C16': ('incidence', 'same_declination', 'same_hour', 'rotation', 'displacements'),
       'C17': ('round_trip', 'shift_bound')}
SAYS = {'separation': 'dD^2 + sin^2 dH <= (0.9999 tau)^2 and cos dH >= 0 bound the angle between two directions by tau',
        'same_declination': 'with equal declinations, |sin dH| <= sin tau and cos dH >= 0 bound the angle by tau',
        'same_hour': 'a change of declination (or zenith) alone moves the direction by that much',
        'rotation': 'declination and hour angle to zenith and azimuth is a rotation of the sky',
        'incidence': 'the cosines of incidence of two directions differ by at most the angle between them',
        'displacements': 'angles between directions obey the triangle inequality',
        'round_trip': 'utc(tst(T)) - T = eot(T) - eot(tst(T))',
        'shift_bound': 'true solar time is within 12.4 h of UTC'}
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def start(prop):
    """Lean runs alongside the other provers"""
    if prop not in FOR:
        return None
    exe = shutil.which('lean') or '/app/lean4-4.33.0/build/release/stage1/bin/lean'
    try:
        return time.time(), subprocess.Popen([exe, FILE], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                             cwd=os.path.dirname(FILE))
    except OSError as e:
        return time.time(), e


def finish(rep, job):
    if job is None:
        return
    t0, p = job
    out, rc = '', None
    if isinstance(p, OSError):
        out = str(p)
    else:
        try:
            out = p.communicate(timeout=200)[0]
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out = 'time-out'
    ax = {m.group(1): {a.strip() for a in m.group(2).split(',')}
          for m in re.finditer(r"'Sun\.(\w+)' depends on axioms: \[([^\]]*)\]", out)}
    for n in FOR[rep.prop]:
        ok = rc == 0 and n in ax and ax[n] <= AXIOMS and 'error' not in out
        rep.obligation('lemma %s: %s' % (n, SAYS[n]), 'proved' if ok else 'undecided', 'lean', time.time() - t0,
                       '' if ok else out[-300:])
