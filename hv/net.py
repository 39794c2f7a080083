"""S01-S04, L01: the server, the client and the command line."""
import json
import re
from concurrent.futures import ThreadPoolExecutor

from .common import *
from .conc import linear


def record(c, cmd, n, tag, timeout=600, extra=()):
    """Runs a driver against the real thing; returns the histories it recorded."""
    out = c.path(tag)
    p = run([build('net'), cmd, '--server', build('server'), '--n', str(n), '--seed', str(SEED), '--out', out, *extra],
            ok=None, timeout=timeout)
    if 'NOSTART' in p.stdout:
        c.fail('no-start', 'the server does not start')
        return []
    hs = load(out)
    for h in load(out + '.hang'):
        c.fail('hang:' + cmd, 'a call never returned: %s' % json.dumps(h)[:1500], h)
    if p.returncode != 0:
        if p.returncode == 2:
            raise ToolError('%s: %s' % (cmd, p.stderr[-1000:]))
        c.fail('ended:' + cmd, 'the driver ended: exit %d %s' % (p.returncode, p.stderr[-800:]))
    if 'NOLIMIT' in p.stdout:
        c.add('no_limit_reached')
    return hs


def later(c, cmd, n, tag):
    """Has a driver run aside, with waits of over a minute in it (five)."""
    build('net'), build('server')
    ms = 305000 if c.deep else 64000
    c.cov['seconds_of_silence'] = ms // 1000
    return ThreadPoolExecutor(1).submit(record, c, cmd, n, tag, 800, ['--slow', str(ms)])


def corrupt_answer(h):
    """Changes the last byte of some answer."""
    for e in reversed(h['ev']):
        o = e['o']
        if e['op'] in (0, 1) and len(o) > 5:
            at, last = 0, 0
            while at + 4 < len(o):
                last = at
                at += 4 + int.from_bytes(bytes(o[at:at + 4]), 'big')
            # An integer, or an error: another one. Else the length of the frame.
            if h['nd'] or o[last + 4] not in (3, 9):
                e['o'] = o[:-1]
            elif o[last + 4] == 9:
                o[-1] = 99
            else:
                o[-1] = (o[-1] + 3) % 256
            return h
    return None


def sig(h, i, want):
    if not h['up']:
        return 'server-gone'
    if not i:
        return 'unexplained'
    e = h['ev'][i - 1]
    return {1: 'ended', 2: 'silence'}.get(e['f'], 'answer') if e['op'] == 0 else 'answer'


def exchanges(c, cmd, n, hs=None):
    hs = record(c, cmd, n, cmd) if hs is None else hs
    if hs:
        validate(c, 'TraceServer', hs, corrupt=corrupt_answer, sig=sig, what='exchange with a server')
        d = c.cov.setdefault(cmd, {})
        d['histories'] = len(hs)
        d['segments'] = sum(1 for h in hs for e in h['ev'] if e['b'])
        d['bytes_sent'] = sum(len(e['b']) for h in hs for e in h['ev'])
        d['bytes_received'] = sum(len(e['o']) for h in hs for e in h['ev'])
        c.sample({'history': json.dumps(hs[len(hs) // 2])[:1200]})
    return hs


def machine(c, cfg, name):
    """The machine of connections, tasks and the accept loop, for itself."""
    c.model(tlc('MCServer', cfg=cfg, env={'DEEP': '0'}, timeout=800, heap='12g'), name)


def corrupt_run(h):
    for e in reversed(h['ev']):
        o = e['o']
        if o['k'] in (0, 1) and o['r'] and o['r'][0]:
            o['r'][0][-1][1] += 1
            return h
        if o['k'] == 2:
            o['n'] += 1
            return h
    return None


def sig_run(h, i, want):
    return 'server-gone' if not h['up'] else 'large'


def large(c, cmd, n, what, hs=None):
    hs = record(c, cmd, n, cmd) if hs is None else hs
    if hs:
        hs = [h for h in hs if h['ev']]
        validate(c, 'TraceRuns', hs, corrupt=corrupt_run, sig=sig_run, what=what)
        c.add(cmd + '_megabytes', sum(e['n'] for h in hs for e in h['ev']) // 1000000)


def segments(c):
    """All the ways to cut up, interleave and end what two connections send."""
    f = c.path('segment-plans')
    plans = []
    for scene in (1, 2, 3, 4):
        r = tlc('ServerPlans', env={'SCENE': scene, 'CUTS1': 1, 'CUTS2': 1}, keep=f, timeout=300)
        c.model(r, 'ServerPlans scene %d' % scene)
        of = [l for l in open(f)]
        if len(of) < 5000:
            raise ToolError('ServerPlans gave %d plans of scene %d' % (len(of), scene))
        c.add('segment_plans_enumerated', len(of))
        of.sort()
        every = 1 if c.deep else 20
        plans += of[SEED % every::every]
    with open(f, 'w') as fh:
        fh.writelines(plans)
    hs = record(c, 'segments', len(plans), 'segments', timeout=800, extra=['--plans', f])
    if hs:
        validate(c, 'TraceServer', hs, corrupt=corrupt_answer, sig=sig, what='segments sent to a server')
        c.add('segment_plans_run', len(hs))
        c.sample({'segments': json.dumps(hs[len(hs) // 2])[:800]})


def check_s01(c):
    slow = later(c, 'runs', 6, 'slow')
    machine(c, 'MCServer2', 'Server')
    segments(c)
    exchanges(c, 'serve', 4000 if c.deep else 420)
    large(c, 'runs', 1500 if c.deep else 120, 'exchange of large values')
    hs = record(c, 'parallel', 4000 if c.deep else 300, 'parallel')
    if hs:
        linear(c, hs, mode='all', loose=False, what='concurrent exchange with a server')
    large(c, 'slow', 0, 'exchange with one who reads late', slow.result())


def check_s02(c):
    slow = later(c, 'idle', 8, 'idle')
    machine(c, 'MCServer', 'Server with less room than connections')
    exchanges(c, 'trouble', 4000 if c.deep else 420)
    hs = exchanges(c, 'exhaust', 24 if c.deep else 4)
    exchanges(c, 'herd', 200 if c.deep else 18)
    exchanges(c, 'idle', 0, slow.result())
    d = c.cov.get('exhaust', {})
    d['connections_that_waited'] = sum(1 for h in hs for e in h['ev'] if e['op'] == 6)


def corrupt_call(h):
    """Changes what some call gave."""
    for e in reversed(h['ev']):
        o = e['o']
        if e['m'] == -1 or o['k'] in (3, 4, 5):
            continue
        if o['k'] in (1, 2):
            o['e'] = o['e'] + 30
            return h
        if 'n' in o:
            o['n'][0][7] = (o['n'][0][7] + 1) % 256
            return h
        if o['v']['t'] in (0, 1, 2, 3, 4):
            o['v']['v'] = o['v']['v'] + [1]
        else:
            o['v']['t'] = {5: 0, 6: 5, 7: 5}[o['v']['t']]
        return h
    return None


METHODS = {0: 'increment', 1: 'decrement', 2: 'increment-by', 3: 'decrement-by', 10: 'set', 11: 'get', 12: 'delete',
           13: 'exists', 14: 'is', 15: 'rename', 16: 'type', 20: 'append', 21: 'length', 22: 'keys', 100: 'echo',
           101: 'stats'}


def sig_call(h, i, want):
    e = h['ev'][i - 1] if i else h['ev'][-1]
    what = {4: 'panic', 5: 'hang', 3: 'failure'}.get(e['o']['k'], 'outcome')
    s = '%s:%s:%s' % (what, METHODS.get(e['m'], '?'), 'server' if h['srv'] else 'memory')
    if e['a'] and e['a'][0][:8] == list(b'__hop__:'):
        s += ':reserved-key'
    elif e['m'] == 10 and e['v']['t'] == 6 and any(len(x[0]) > 255 for x in e['v']['v']):
        s += ':map-key-over-255-bytes'
    elif e['m'] == 10 and e['v']['t'] == 7 and any(len(x) > 65535 for x in e['v']['v']):
        s += ':set-member-over-65535-bytes'
    return s


def edges(c):
    """Calls at the edges of what keys can be called and answers can carry."""
    hs = record(c, 'edges', 0, 'edges')
    if hs:
        validate(c, 'TraceClient', hs, corrupt=corrupt_call, sig=sig_call, what='program of calls at the edges')
        c.add('edge_programs', len(hs))
    p = run([build('net'), 'grow', '--server', build('server')], ok=None, timeout=600)
    rows = re.findall(r'^GREW (.*)$', p.stdout, re.M)
    if len(rows) != 2:
        c.fail('grow:ended', 'growing a list ended the driver: exit %d %s' % (p.returncode, p.stderr[-500:]))
    for row in rows:
        j = json.loads(row)
        if j['o']['k'] == 0 and 'len' not in j['o']:
            continue
        what = {4: 'panic', 5: 'hang', 3: 'failure'}.get(j['o']['k'], 'outcome')
        s = '%s:append:%s' % (what, j['srv'])
        if j['to'] > 65535 >= j['len']:
            s += ':list-over-65535'
        c.fail(s, 'append to a list of %d elements: %s' % (j['len'], row), j)


def check_s03(c):
    c.model(tlc('MCClient', timeout=600), 'MCClient')
    hs = record(c, 'programs', 2500 if c.deep else 240, 'programs', extra=['--len', '60' if c.deep else '40'])
    if hs:
        validate(c, 'TraceClient', hs, corrupt=corrupt_call, sig=sig_call, what='program of calls')
        d = c.cov.setdefault('programs', {})
        d['calls'] = sum(len(h['ev']) for h in hs)
        for h in hs:
            for e in h['ev']:
                k = 'outcome_%d' % e['o']['k']
                d[k] = d.get(k, 0) + 1
        c.sample({'program': json.dumps(hs[3])[:1500]})
    edges(c)
    large(c, 'bulk', 1500 if c.deep else 150, 'program of calls with large values')
    hs = record(c, 'faults', 4000 if c.deep else 350, 'faults')
    if hs:
        validate(c, 'TraceFault', hs, corrupt=corrupt_call, sig=sig_call, what='call to a failing server')
        d = c.cov.setdefault('failing_servers', {})
        d['calls'] = sum(len(h['ev']) for h in hs)
        for h in hs:
            for e in h['ev']:
                k = 'outcome_%d' % e['o']['k']
                d[k] = d.get(k, 0) + 1


def corrupt_end(h):
    """Gives some call's value to it changed, or as another's."""
    for e in reversed(h['ev']):
        if e['op'] == 4 and e['o']['k'] in (0, 1):
            o = e['o']
            if o['k'] == 1:
                o['e'] = 99
            elif o['v']['t'] in (5, 6, 7):
                o['v']['t'] = {5: 0, 6: 5, 7: 5}[o['v']['t']]
            else:
                o['v']['v'] = o['v']['v'] + [1]
            return h
    return None


def sig_order(h, i, want):
    e = h['ev'][i - 1] if i else h['ev'][-1]
    if e['op'] == 4:
        return {4: 'panic', 5: 'hang', 3: 'failed'}.get(e['o']['k'], 'wrong-response')
    return {5: 'garbled', 2: 'sent-again'}.get(e['op'], 'order')


def check_s04(c):
    slow = later(c, 'crowd', 8, 'slow')
    c.model(tlc('MCCalls', env={'MARK': '1'}, timeout=600), 'MCCalls')
    r = tlc('MCCalls', env={'MARK': '0'}, timeout=600)
    if r.violated is None:
        raise ToolError('MCCalls finds nothing wrong without the mark')
    depth = 8 if c.deep else 6
    r = tlc('CallsPlans', env={'DEPTH': depth}, timeout=600)
    c.model(r, 'CallsPlans')
    plans = re.findall(r'^<<"PLAN", <<([0-9, ]+)>>>>', r.out, re.M)
    if len(plans) < 1000:
        raise ToolError('CallsPlans gave %d plans' % len(plans))
    f = c.path('plan-list')
    with open(f, 'w') as fh:
        fh.write('\n'.join(p.replace(',', '') for p in plans) + '\n')
    d = c.cov.setdefault('calls', {})
    d['orders_enumerated'] = len(plans)
    d['order_depth'] = depth
    for cmd, n, extra in (('plans', len(plans), ['--plans', f]), ('calls', 60000 if c.deep else 5000, []),
                          ('crowd', 20000 if c.deep else 2000, []), ('slow', 8, [])):
        hs = slow.result() if cmd == 'slow' else record(c, cmd, n, cmd, timeout=800, extra=extra)
        if not hs:
            continue
        if cmd == 'plans' and len(hs) != n:
            raise ToolError('%d of %d plans were run' % (len(hs), n))
        d[cmd] = len(hs)
        for h in hs:
            for e in h['ev']:
                k = '%s_event_%d' % (cmd, e['op'])
                d[k] = d.get(k, 0) + 1
                if e['op'] == 4:
                    k = '%s_ended_%d' % (cmd, e['o']['k'])
                    d[k] = d.get(k, 0) + 1
        validate(c, 'TraceCalls', hs, env={'MAXID': max(h['n'] for h in hs)}, corrupt=corrupt_end, sig=sig_order, what='overlapping calls (%s)' % cmd)
        c.sample({'calls': json.dumps(hs[len(hs) // 2])[:1300]})


def corrupt_line(h):
    """Changes what a line came to."""
    for e in reversed(h['ev']):
        if e['op'] == 2:
            continue
        o = e['o']
        if e['op'] in (3, 4):
            o['c'] = 99
            return h
        if o['k'] == 1:
            o['e'] = 99
        elif o['k'] == 0 and e['op'] == 0:
            if o['a']:
                o['a'][-1] = o['a'][-1] + [1]
            else:
                o['c'] = 100 if o['c'] != 100 else 11
        elif o['k'] == 0:
            o['b'] = o['b'] + [33]
            o['s'] = ''
            o['f'] = []
        else:
            continue
        return h
    return None


def line_of(e):
    return bytes(e.get('l', [])).decode('utf-8', 'replace')


def sig_line(h, i, want):
    e = h['ev'][i - 1] if i else h['ev'][-1]
    if e['op'] == 2:
        return 'call:%s' % METHODS.get(e['m'], '?')
    if e['op'] == 9:
        return 'no-client'
    if e['op'] in (3, 4):
        return 'name'
    name = line_of(e).split(' ')[0]
    for n in sorted(NAMES, key=len, reverse=True):
        if name == n or name.startswith(n + ':'):
            name = n
            break
    else:
        name = 'other'
    k = e['o']['k']
    what = {4: 'panic', 5: 'hang', 6: 'ended'}.get(k, 'parsed' if e['op'] == 0 else 'printed')
    return '%s:%s' % (what, name)


NAMES = ('append', 'decrement:by', 'decrement', 'delete', 'echo', 'exists', 'get', 'increment:by', 'increment', 'is',
         'keys', 'length', 'rename', 'set', 'stats', 'type')


def check_l01(c):
    cli = os.path.join(os.path.dirname(build('server')), 'hop-cli')
    f = c.path('pool-of-lines')
    r = tlc('MCCli', env={'DEEP': '1' if c.deep else '0'}, keep=f, timeout=600)
    c.model(r, 'MCCli')
    c.cov['lines_enumerated'] = sum(1 for _ in open(f))
    if c.cov['lines_enumerated'] < 20000:
        raise ToolError('MCCli gave %d lines' % c.cov['lines_enumerated'])
    hs = record(c, 'spelled', 0, 'spelled', extra=['--in', f])
    if hs:
        validate(c, 'TraceCli', hs, corrupt=corrupt_line, sig=sig_line, what='enumerated lines parsed')
    hs = record(c, 'names', 0, 'names')
    if hs:
        validate(c, 'TraceCli', hs, corrupt=corrupt_line, sig=sig_line, what='names of commands')
    for cmd, n, what in (('lines', 12000 if c.deep else 2500, 'lines parsed'),
                         ('sessions', 8000 if c.deep else 1200, 'lines run'),
                         ('typed', 8000 if c.deep else 700, 'lines typed into the tool')):
        hs = record(c, cmd, n, cmd, extra=['--cli', cli])
        if not hs:
            continue
        validate(c, 'TraceCli', hs, corrupt=corrupt_line, sig=sig_line, what=what)
        d = c.cov.setdefault(cmd, {})
        d['histories'] = len(hs)
        for h in hs:
            for e in h['ev']:
                if e['op'] == 2:
                    d['calls'] = d.get('calls', 0) + 1
                else:
                    k = 'outcome_%d' % e['o']['k']
                    d[k] = d.get(k, 0) + 1
        c.sample({cmd: [line_of(e) for e in hs[len(hs) // 3]['ev'] if e['op'] != 2]})


def corrupt_place(h):
    """Somewhere else than it was."""
    for e in reversed(h['ev']):
        if e['at']:
            e['at'][0][0][-1] = (e['at'][0][0][-1] + 1) % 256
            return h
    return None


def sig_place(h, i, want):
    e = h['ev'][i - 1] if i else h['ev'][-1]
    if not e['up']:
        return 'gave-up'
    if e['n'] not in ([], [1, 2]):
        return 'deaf'
    return 'elsewhere'


def check_s05(c):
    c.model(tlc('MCListen', timeout=400), 'MCListen')
    hs = record(c, 'listen', 3000 if c.deep else 150, 'listen')
    if not hs:
        return
    validate(c, 'TraceListen', hs, corrupt=corrupt_place, sig=sig_place, what='servers started')
    d = c.cov.setdefault('servers', {})
    for h in hs:
        for e in h['ev']:
            k = 'listening' if e['up'] else 'port_taken' if e['b'] else 'gave_up'
            d[k] = d.get(k, 0) + 1
            if e['n']:
                d['asked'] = d.get('asked', 0) + 1
    e = hs[len(hs) // 2]['ev'][0]
    c.sample({'server': {'HOST': [bytes(x).decode('utf-8', 'replace') for x in e['h']],
                         'PORT': [bytes(x).decode('utf-8', 'replace') for x in e['p']],
                         'listens': e['at']}})
    c.assume += ['addresses of 127.0.0.0/8 can be listened on']
