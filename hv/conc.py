"""X01-X04: several clients on one engine."""
import concurrent.futures
import json

from .common import *
from .seq import CMD

LOOSE = ('append', 'set', 'count', 'length', 'keys', 'rename', 'all')


def explore(c, profile, triples, longer, cap, parts=8, timeout=800):
    """Runs programs under the scheduler; returns the distinct histories."""
    binary = build('eng')

    def one(i):
        out = c.path('sched-%s-%d' % (profile, i))
        p = run(['taskset', '-c', str(i % (os.cpu_count() or 1)), binary, 'sched', '--profile', profile,
                 '--triples', str(triples), '--longer', str(longer), '--cap', str(cap), '--seed', str(SEED),
                 '--part', str(i), '--parts', str(parts), '--out', out], ok=None, timeout=timeout)
        hs = load(out) + load(out + '.hang')
        if p.returncode != 0:
            return p, hs, None
        try:
            return p, hs, json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return p, hs, {}

    tot = {}
    all_hs = []
    with concurrent.futures.ThreadPoolExecutor(parts) as ex:
        for p, hs, st in ex.map(one, range(parts)):
            if st is None:
                if p.returncode == 2:
                    raise ToolError('sched: ' + p.stderr[-1000:])
                c.fail('scheduled-run-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
                st = {}
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
            all_hs += hs
    c.cov.setdefault('schedules', {})[profile] = tot
    return all_hs


def dedupe(hs):
    """Histories that differ only in which program they came from are one."""
    seen = {}
    for h in hs:
        k = json.dumps([h['init'], h['fin'], h['dead'], h['n'],
                        sorted(json.dumps([e, ], sort_keys=True) for e in h['ev']) if 0 else h['ev']])
        seen.setdefault(k, h)
    return list(seen.values())


def swap(h):
    """Changes an answer into one that nothing explains."""
    for e in h['ev']:
        o = e['o']
        if o['k'] == 0 and 'v' in o and o['v']['t'] in (0, 3, 4):
            o['v']['v'] = o['v']['v'][:-1] + [77, 66]
            return h
        if o['k'] == 0 and 'v' in o and o['v']['t'] == 1:
            o['v']['t'] = 0
            return h
        if o['k'] == 1:
            o['e'] = (o['e'] + 6) % 8
            return h
        if o['k'] == 0 and 'n' in o and e['c'] in (210, 211, 212):
            o['n'] = 5
            return h
    return None


def describe(h):
    out = []
    for e in h['ev']:
        out.append('%s:%s%s%s=>%s after %s' % (
            e['t'], CMD.get(e['c'], e['c']), '' if e.get('k', -1) == -1 else ':%s' % e['k'],
            e.get('a'), json.dumps(e['o']), e['p']))
    return '; '.join(out)


def linear(c, hs, mode='none', loose=True, what='concurrent history'):
    """Has TLC look for an explanation of each history."""
    hs = dedupe(hs)
    res = {}
    validate(c, 'Lin', hs, env={'LOOSE': mode}, corrupt=swap, outcome=res, what=what)
    left = [h for n, h in enumerate(hs) if not res.get(n, (False,))[0]]
    c.add('distinct_histories', len(hs))
    why = {}
    pending = [h for h in left]
    if mode == 'none' and loose and pending:
        for mode in LOOSE:
            if not pending:
                break
            cand = pending
            # At most so many of a kind need an explanation.
            r2 = {}
            validate(c, 'Lin', cand, env={'LOOSE': mode}, outcome=r2, what=what)
            rest = []
            for n, h in enumerate(cand):
                if r2.get(n, (False,))[0]:
                    why.setdefault(mode, []).append(h)
                else:
                    rest.append(h)
            pending = rest
    for mode, xs in why.items():
        for h in xs:
            c.fail('two-moments:%s' % mode, 'not one-at-a-time: %s' % describe(h), h)
    for h in pending:
        bad = [e for e in h['ev'] if e['o']['k'] not in (0, 1)]
        if h['dead'] or any(e['o']['k'] == 3 for e in h['ev']):
            c.fail('never-ends', 'an operation never ends: %s' % describe(h), h)
        elif bad:
            c.fail('no-answer:%s' % CMD.get(bad[0]['c'], bad[0]['c']), describe(h), h)
        else:
            c.fail('not-linear', 'no order explains: %s with final contents %s from %s' %
                   (describe(h), h['fin'], h['init']), h)
    if hs:
        c.sample({'history': describe(hs[len(hs) // 2])})
    return hs


def check_x01(c):
    moments(c, ['count', 'append', 'rename'])
    hs = explore(c, 'X01', 20000 if c.deep else 1500, 3000 if c.deep else 150, 2000 if c.deep else 300)
    hs += native(c, 'X01', 3000 if c.deep else 500, 10)
    linear(c, hs)


def check_x02(c):
    moments(c, ['count', 'append'])
    hs = explore(c, 'X02', 4000 if c.deep else 600, 3000 if c.deep else 150, 2000 if c.deep else 300)
    hs += native(c, 'X02', 3000 if c.deep else 300, 10)
    linear(c, hs, mode='all')
    stress(c, 4000 if c.deep else 500)


def check_x03(c):
    moments(c, ['rename'])
    hs = explore(c, 'X03', 4000 if c.deep else 800, 4000 if c.deep else 200, 2000 if c.deep else 300)
    hs += native(c, 'X03', 3000 if c.deep else 300, 10)
    linear(c, hs, mode='all')


def check_x04(c):
    hs = explore(c, 'X04', 8000 if c.deep else 800, 4000 if c.deep else 200, 2000 if c.deep else 300)
    hs += native(c, 'X04', 3000 if c.deep else 400, 10)
    n = 0
    for h in hs:
        if h['dead'] or any(e['o']['k'] == 3 for e in h['ev']):
            c.fail('never-ends', describe(h), h)
        else:
            n += 1
    c.traces += n
    lock_model(c)


def native(c, profile, n, times):
    """Programs run by threads that are left to themselves."""
    binary = build('eng')
    out = c.path('native')
    p = run([binary, 'native', '--profile', profile, '--n', str(n), '--times', str(times), '--seed', str(SEED),
             '--out', out], ok=None, timeout=800)
    hs = load(out) + load(out + '.hang')
    if p.returncode != 0:
        if p.returncode == 2:
            raise ToolError(p.stderr[-1000:])
        c.fail('native-run-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
    c.add('native_histories', len(hs))
    return hs


def told(h):
    """The order that the answers tell."""
    def key(e):
        v = e['o'].get('v')
        if not v:
            return (0, e['i'])
        if v['t'] == 3:
            x = int.from_bytes(bytes(v['v']), 'big', signed=True)
            return (x, e['i'])
        if v['t'] == 2:
            import struct
            return (struct.unpack('>d', bytes(v['v']))[0], e['i'])
        return (len(v['v']), e['i'])
    h['ev'].sort(key=key)
    return h


def corrupt_order(h):
    """Two requests in the wrong order, or one lost."""
    ev = h['ev']
    if len(ev) < 2:
        return None
    del ev[len(ev) // 2]
    return h


def stress(c, n):
    binary = build('eng')
    out = c.path('stress')
    p = run([binary, 'stress', '--n', str(n), '--seed', str(SEED), '--out', out], ok=None, timeout=800)
    hs = load(out)
    for h in load(out + '.hang'):
        c.fail('never-ends', 'requests on one key never end', h)
    if p.returncode != 0:
        if p.returncode == 2:
            raise ToolError(p.stderr[-1000:])
        c.fail('stress-run-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
    hs = [told(h) for h in hs]
    validate(c, 'TraceOrder', hs, corrupt=corrupt_order, what='stress history', sig=lambda h, i, w: 'lost-or-doubled')
    c.add('stress_requests', sum(len(h['ev']) for h in hs))


def sections(programs):
    """What can be part of a deadlock: from a first lock to none, with one inside."""
    out = {}
    for p in programs:
        cur, held = [], {}
        for kind, lock, cls in p['steps']:
            cur.append([kind, lock, cls])
            if kind == 2:
                held[lock] = held.get(lock, 0) - 1
            else:
                held[lock] = held.get(lock, 0) + 1
            if not any(v > 0 for v in held.values()):
                if sum(1 for s in cur if s[0] != 2) > 1:
                    ids = {}
                    norm = [[k, ids.setdefault(l, len(ids) + 1), cl] for k, l, cl in cur]
                    out.setdefault(json.dumps(norm), (norm, p['op']))
                cur, held = [], {}
        if cur and any(v > 0 for v in held.values()):
            out.setdefault('open' + json.dumps(cur), (cur, p['op']))
    return out


def shorten(norm):
    """Locks taken and given back inside without another inside them occur once."""
    seen = set()
    out = []
    i = 0
    while i < len(norm):
        s = norm[i]
        if s[0] != 2 and i + 1 < len(norm) and norm[i + 1][0] == 2 and norm[i + 1][1] == s[1] and i > 0:
            held = {}
            for k, l, cl in out:
                held[(l, cl)] = held.get((l, cl), 0) + (-1 if k == 2 else 1)
            key = (s[0], s[2], json.dumps(sorted([list(x) for x, v in held.items() if v > 0])))
            if held.get((s[1], s[2]), 0) <= 0 and key in seen:
                i += 2
                continue
            seen.add(key)
        out.append(s)
        i += 1
    ids = {}
    return [[k, ids.setdefault(l, len(ids) + 1), cl] for k, l, cl in out]


def lock_model(c):
    binary = build('eng')
    out = c.path('locks')
    p = run([binary, 'locks', '--out', out], ok=None, timeout=300)
    for h in load(out + '.hang'):
        c.fail('waits-for-itself', 'an operation never ends on its own: %s' % h)
        return
    if p.returncode != 0:
        c.fail('recording-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
        return
    info = json.loads(p.stdout.strip().splitlines()[-1])
    rows = load(out)
    for r in rows:
        if r['self']:
            c.fail('waits-for-itself', 'an operation waits for a lock that it holds: %s after %s' % (r['op'], r['first']), r)
    inner = [i for i, n in enumerate(info['classes'])
             if 'SharedValue<alloc::vec::Vec<u8>>' in n or 'alloc::vec::Vec<u8>, dashmap::util::SharedValue<()>' in n]
    secs = {}
    for norm, op in sections([r for r in rows if not r['self']]).values():
        s = shorten(norm)
        if max([x[1] for x in s]) > 6:
            raise ToolError('a section of more than six locks: %s' % op)
        secs.setdefault(json.dumps(s), (s, op))
    hs = [{'op': op, 'st': [[k, l, cl, 0 if cl in inner else 1] for k, l, cl in s]} for s, op in secs.values()]
    c.cov['lock_recordings'] = info['runs']
    c.cov['nested_sections'] = len(hs)
    c.sample({'section recorded from the engine': json.dumps(hs[:1])})
    c.traces += info['runs']
    f = c.path('sections')
    threads = '3' if c.deep else '2'
    # Sections that do wait for each other have to be noticed.
    bad = [{'op': 'made up', 'st': [[1, 1, 90, 1], [1, 2, 91, 1], [2, 2, 91, 1], [2, 1, 90, 1]]},
           {'op': 'made up', 'st': [[1, 1, 91, 1], [0, 2, 90, 1], [2, 2, 90, 1], [2, 1, 91, 1]]}]
    dump(f, hs + bad)
    r = tlc('Locks', env={'HIST': f, 'THREADS': '2'})
    if r.violated != 'NobodyWaitsForever' and not any(h['op'] for h in hs if 0):
        raise ToolError('Locks.tla missed a deadlock: %s' % (r.error or r.violated))
    if not hs:
        return
    dump(f, hs)
    r = tlc('Locks', env={'HIST': f, 'THREADS': threads}, timeout=700)
    if r.error:
        log(r.error)
        raise ToolError('TLC failed on Locks')
    c.states += r.states
    c.transitions += r.transitions
    if r.violated:
        c.fail('can-deadlock', '%s: operations of the engine can wait for each other for ever: %s\n%s' %
               (r.violated, json.dumps(hs), r.trace[:3000]), {'sections': hs, 'trace': r.trace})


def moments(c, families):
    """The model of the moments of effect has the properties for every program of its pool."""
    for f in families:
        r = tlc('MCConc', env={'FAMILY': f, 'LONG': 0})
        c.model(r, 'MCConc ' + f)
    if c.deep:
        for f in families:
            if f != 'rename':
                r = tlc('MCConc', cfg='MCConcLong', env={'FAMILY': f, 'LONG': 1}, timeout=800, heap='12g')
                c.model(r, 'MCConc long ' + f)


def check_n01(c):
    hs = explore(c, 'N01', 1000, 6000 if c.deep else 300, 1500 if c.deep else 150)
    hs += native(c, 'N01', 4000 if c.deep else 400, 10)
    hs += walks(c, 'N01', 3000 if c.deep else 400, 60)
    many(c, 'N01', 1500 if c.deep else 60)
    linear(c, hs, loose=False)


def walks(c, profile, n, length):
    out = c.path('walks')
    p = run([build('eng'), 'walks', '--profile', profile, '--n', str(n), '--len', str(length), '--seed', str(SEED),
             '--out', out], ok=None, timeout=600)
    hs = load(out) + load(out + '.hang')
    if p.returncode != 0:
        c.fail('walks-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
    c.add('sequential_histories', len(hs))
    return hs


def corrupt_many(h):
    """One answer among many changed."""
    for e in reversed(h['ev']):
        o = e['o']
        if not o or e['c'] == 315:
            continue
        if e['c'] in (311, 312, 318):
            o[len(o) // 2] = 1 - o[len(o) // 2]
            return h
        if e['c'] == 317:
            o[-1] = o[0]
            if len(o) > 1:
                return h
        if e['c'] in (316, 319):
            o[0] += 1
            return h
    return None


MANY = {310: 'subscribe', 311: 'unsubscribe', 312: 'lookup', 313: 'removal', 314: 'channel', 315: 'request',
        316: 'stats', 317: 'add', 318: 'take', 319: 'counters'}


def many(c, profile, n):
    """Hundreds of sessions, subscriptions, requests."""
    out = c.path('many')
    p = run([build('eng'), 'many', '--profile', profile, '--n', str(n), '--seed', str(SEED), '--out', out], ok=None,
            timeout=600)
    hs = load(out)
    for h in load(out + '.hang'):
        c.fail('many:never-ends', 'a call never ends: %s' % json.dumps(h)[:1000], h)
    if p.returncode != 0:
        if p.returncode == 2:
            raise ToolError(p.stderr[-1000:])
        c.fail('many-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
    validate(c, 'TraceMany', hs, corrupt=corrupt_many, what='history of many',
             sig=lambda h, i, w: 'many:' + MANY.get(h['ev'][i - 1]['c'] if 0 < i <= len(h['ev']) else 0, '?'))
    c.add('large_histories', len(hs))
    c.add('large_steps', sum(max(1, len(e['o'])) for h in hs for e in h['ev']))


def check_p01(c):
    hs = explore(c, 'P01', 4000 if c.deep else 400, 4000 if c.deep else 200, 2000 if c.deep else 200)
    hs += native(c, 'P01', 4000 if c.deep else 400, 10)
    hs += walks(c, 'P01', 3000 if c.deep else 500, 60)
    many(c, 'P01', 1200 if c.deep else 60)
    linear(c, hs, loose=False)


def miscount(h):
    for e in reversed(h['ev']):
        if e['c'] == 101 and e['o']['k'] == 0:
            for p in e['o']['v']['v']:
                p[1][7] = (p[1][7] + 1) % 256
            return h if e['o']['v']['v'] else None
    return None


def check_m01(c):
    many(c, 'M01', 1000 if c.deep else 60)
    c.model(tlc('MCStatsPlans'), 'MCStats')
    hs = explore(c, 'M01', 165, 3000 if c.deep else 150, 1500 if c.deep else 150)
    hs += native(c, 'M01', 4000 if c.deep else 400, 10)
    out = c.path('mixed')
    p = run([build('eng'), 'mixed', '--n', str(6000 if c.deep else 800), '--seed', str(SEED), '--out', out], ok=None,
            timeout=800)
    hs += load(out) + load(out + '.hang')
    if p.returncode != 0:
        c.fail('mixed-ended', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
    hs = dedupe(hs)
    validate(c, 'TraceStats', hs, corrupt=miscount, sig=lambda h, i, w: 'miscounted')
    c.sample({'history': describe(hs[len(hs) // 2])})


def miscounted_metric(h):
    for e in reversed(h['ev']):
        if e['c'] in (222, 223) and e['o']['k'] == 0:
            e['o']['n'] += 1
            return h
        if e['c'] == 226 and e['o']['k'] == 0:
            e['o']['cs'] = e['o']['cs'] + [[9, 9]]
            return h
    return None


def check_m02(c):
    hs = explore(c, 'M02', 455, 3000 if c.deep else 100, 1500 if c.deep else 150)
    hs += native(c, 'M02', 4000 if c.deep else 400, 10)
    hs += walks(c, 'M02', 3000 if c.deep else 500, 60)
    hs = dedupe(hs)
    validate(c, 'LinMet', hs, corrupt=miscounted_metric, sig=lambda h, i, w: 'metric-history')
    c.sample({'history': describe(hs[len(hs) // 2])})
