"""T01: the timer."""
from .common import *


def corrupt_timer(h):
    for e in reversed(h['ev']):
        if e['c'] in (1, 2) and e['o']['d']:
            e['o']['d'][1] += 1
            if e['c'] == 1:
                e['o']['d'][0] += 40
            return h
        if e['c'] in (0, 3):
            e['o']['b'] = 1 - e['o']['b']
            return h
    return None


def check_t01(c):
    c.model(tlc('MCTimer'), 'MCTimer')
    out = c.path('timer')
    p = run([build('eng'), 'timer', '--depth', '6' if c.deep else '5', '--n', str(20000 if c.deep else 1500),
             '--seed', str(SEED), '--out', out], ok=None, timeout=600)
    hs = load(out) + load(out + '.hang')
    if p.returncode != 0:
        c.fail('timer-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
    validate(c, 'TraceTimer', hs, corrupt=corrupt_timer, sig=lambda h, i, w: 'timer')
    c.sample({'history': hs[len(hs) // 2]})
    c.assume += ['the clocks of the operating system never go back (the wall clock excepted)']
