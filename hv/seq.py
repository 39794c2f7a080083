"""K01-K05: one request at a time."""
import json
import os
import re

from .common import *

RESERVED = list(b'__hop__:')
CMD = {0: 'increment', 1: 'decrement', 2: 'increment-by', 3: 'decrement-by', 10: 'set', 11: 'get',
       12: 'delete', 13: 'exists', 14: 'is', 15: 'rename', 16: 'type', 20: 'append', 21: 'length',
       22: 'keys', 100: 'echo', 101: 'stats'}


def corrupt(h):
    """Changes what one request of a history was answered."""
    for e in reversed(h['ev']):
        o = e['o']
        if o['k'] == 1:
            o['e'] = (o['e'] + 1) % 8
            return h
        if o['k'] == 0 and o['v']['t'] in (0, 2, 3, 4, 5):
            o['v']['v'] = o['v']['v'] + [o['v']['v'][0] if o['v']['t'] == 5 and o['v']['v'] else 1]
            if o['v']['t'] == 5:
                o['v']['v'] = o['v']['v'][:-1] + [[1, 2, 3, 4, 5, 6, 7]]
            return h
    return None


def corrupt_refusal(h):
    """Makes a refused request change the store."""
    for e in reversed(h['ev']):
        if e['o']['k'] == 1:
            e['s'] = e['s'] + [{'n': [1, 2, 3, 4, 5], 'x': {'t': 0, 'v': [1]}}]
            return h
    return None


def corrupt_answer(h):
    h['ev'][-1]['o'] = {'k': 2, 'm': 'made up'}
    return h


def signature(h, i, want):
    """Names a violation by its command and kind, for the known findings."""
    if not 0 < i <= len(h['ev']):
        return 'rejected'
    e = h['ev'][i - 1]
    k = e['o']['k']
    cmd = CMD.get(e['c'], str(e['c']))
    if k == 2:
        key = e['a'][0] if e['a'] else None
        if key is not None and key[:8] == RESERVED:
            return 'panic:%s:reserved-key' % cmd
        if key == []:
            return 'panic:%s:empty-key' % cmd
        return 'panic:%s' % cmd
    if k == 3:
        return 'hang:%s' % cmd
    if k == 4:
        maps = [len(p[0]) for x in e['s'] if x['x']['t'] == 6 for p in x['x']['v']]
        sets = [len(m) for x in e['s'] if x['x']['t'] == 7 for m in x['x']['v']]
        if cmd in ('set', 'get') and any(n > 255 for n in maps):
            return 'response:%s:map-key-over-255-bytes' % cmd
        if cmd in ('set', 'get') and any(n > 65535 for n in sets):
            return 'response:%s:set-member-over-65535-bytes' % cmd
        return 'response:%s' % cmd
    return 'outcome:%s' % cmd


def hangs(c, path):
    hs = load(path + '.hang')
    return hs


def replay_steps(c, deep):
    """Every request of a pool on every store of a pool, out of TLC, in the real engine."""
    steps = c.path('steps')
    r = tlc('MCStep', env={'DEEP': int(deep), 'EMIT': 1}, keep=steps, timeout=900)
    c.model(r, 'MCStep')
    replay(c, steps, 100000)


def replay_sums(c):
    """Every sum and difference of pools of integers and floats, likewise."""
    sums = c.path('sums')
    r = tlc('MCArith', keep=sums, timeout=600)
    c.model(r, 'MCArith')
    replay(c, sums, 15000)


def replay(c, steps, least, cmd='replay'):
    n = sum(1 for _ in open(steps))
    if n < least:
        raise ToolError('only %d steps' % n)
    binary = build('eng')
    # A crash of the engine ends the replay; that is a result too.
    p = run([binary, cmd, '--in', steps], ok=None, timeout=900)
    m = re.search(r'REPLAYED (\d+) (\d+)', p.stdout)
    bad = re.findall(r'^MISMATCH (.*)$', p.stdout, re.M)
    for b in bad:
        j = json.loads(b)
        c.fail('step:%s' % CMD.get(j.get('c'), j.get('c')),
               'a step of the specification comes out differently in the engine: %s' % b[:1500], j)
    if not m:
        if bad or p.returncode < 0 or p.returncode == 101:
            c.fail('replay-ended', 'the engine ended the replay: %s' % p.stderr[-500:])
        else:
            raise ToolError('replay: ' + p.stderr[-2000:])
    else:
        c.add('steps_replayed', int(m.group(1)))
        c.traces += int(m.group(1)) - int(m.group(2))
    with open(steps) as f:
        f.seek(max(0, os.path.getsize(steps) // 2))
        f.readline()
        c.sample({'step from TLC, replayed': f.readline().strip()[:600]})


def histories(c, profile, n, length, mode, corr):
    binary = build('eng')
    out = c.path('ops')
    run([binary, 'ops', '--profile', profile, '--n', str(n), '--len', str(length), '--seed', str(SEED),
         '--out', out], timeout=900)
    hs = load(out) + hangs(c, out)
    done = len(hs)
    if not done:
        raise ToolError('no histories')
    validate(c, 'TraceHop', hs, env={'MODE': mode}, corrupt=corr, sig=signature)
    cmds = {}
    kinds = {}
    for h in hs:
        for e in h['ev']:
            cmds[CMD[e['c']]] = cmds.get(CMD[e['c']], 0) + 1
            o = e['o']
            key = {0: 'ok', 1: 'error %s' % o.get('e')}.get(o['k'], 'other')
            kinds[key] = kinds.get(key, 0) + 1
    c.cov.setdefault('requests_by_command', {}).update(cmds)
    c.cov.setdefault('outcomes', {}).update(kinds)
    c.add('events', sum(len(h['ev']) for h in hs))
    c.sample({'history': json.dumps(hs[0]['ev'][:3])[:1200]})
    return hs


def check(c):
    deep = c.deep
    profile = c.prop
    mode = {'K04': 'refusal', 'K05': 'answer'}.get(c.prop, 'full')
    corr = {'K04': corrupt_refusal, 'K05': corrupt_answer}.get(c.prop, corrupt)
    n = 12000 if deep else 2200
    histories(c, profile, n, 40 if deep else 30, mode, corr)
    # The steps of the specification that this property speaks of.
    replay_steps(c, deep)
    if c.prop == 'K02':
        replay_sums(c)
    if c.prop == 'K05':
        sizes(c)
    if c.prop in ('K01', 'K03'):
        bulk(c, 'store', 6000 if deep else 500)
    c.assume += ['stores are observed through State::key_ref between requests',
                 'NaN payloads are not distinguished']


def corrupt_embed(h):
    for e in reversed(h['ev']):
        if e['c'] < 200:
            o = e['o']
            if o['k'] == 1:
                o['e'] = (o['e'] + 1) % 8
                return h
        elif e['m'] and e['m'][-1]:
            e['m'][-1][-1] += 1
            return h
        elif e['p']:
            e['p'] = []
            return h
    return None


DIRECT = {200: 'insert', 201: 'remove', 202: 'contains', 203: 'type', 204: 'view', 205: 'edit', 206: 'assign',
          207: 'or-insert', 208: 'kind', 209: 'settings', 210: 'settings:sessions-over-maximum',
          211: 'settings:pubsub-not-disabled'}


def sig_embed(h, i, want):
    e = h['ev'][i - 1] if 0 < i <= len(h['ev']) else {'c': -1}
    if e['c'] == 210 and e['m'][0][0] != 5:
        return 'direct:settings:sessions-refused'
    if e['c'] == 211 and e['n'][0] != 0:
        return 'direct:settings:pubsub-disabled'
    return 'direct:' + DIRECT[e['c']] if e['c'] in DIRECT else 'outcome:' + CMD.get(e['c'], '?')


def check_k06(c):
    steps = c.path('uses')
    r = tlc('MCEmbed', env={'DEEP': int(c.deep)}, keep=steps, timeout=600)
    c.model(r, 'MCEmbed')
    replay(c, steps, 17000, cmd='embedreplay')
    out = c.path('embed')
    run([build('eng'), 'embed', '--n', str(40000 if c.deep else 4000), '--seed', str(SEED), '--out', out], timeout=600)
    hs = load(out) + hangs(c, out)
    if not hs:
        raise ToolError('no histories')
    validate(c, 'TraceEmbed', [h for h in hs if h['ev']], corrupt=corrupt_embed, sig=sig_embed,
             what='history of an embedded engine')
    for h in hs:
        for e in h['ev']:
            c.cov.setdefault('direct_uses', {}).setdefault(DIRECT.get(e['c'], 'request'), 0)
            c.cov['direct_uses'][DIRECT.get(e['c'], 'request')] += 1
    c.sample({'history': json.dumps(hs[0]['ev'][:4])[:1200]})
    out = c.path('settings')
    run([build('eng'), 'settings', '--out', out], timeout=300)
    hs = load(out)
    if len(hs) != 162:
        raise ToolError('%d settings' % len(hs))
    validate(c, 'TraceEmbed', hs, corrupt=corrupt_embed, sig=sig_embed, what='engine built with settings')


def sizes(c):
    binary = build('eng')
    out = c.path('sizes')
    run([binary, 'sizes', '--out', out, '--deep', '1' if c.deep else '0'], timeout=900)
    hs = load(out) + hangs(c, out)
    validate(c, 'TraceHop', hs, env={'MODE': 'answer'}, corrupt=corrupt_answer, sig=signature, what='size case')
    c.add('size_cases', len(hs))
    p = run([binary, 'huge'], ok=None, timeout=300)
    try:
        j = json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        c.fail('huge:ended', 'growing a list past 65535 elements ended the process: %s' % p.stderr[-300:])
        return
    if j['o']['k'] in (2, 4) and j['len'] > 65535 - 254:
        c.fail('response:append:list-over-65535', 'append to a list of %d elements: %s' % (j['len'], j['o']), j)
    elif j['o']['k'] != 0:
        c.fail('huge', 'append to a list of %d elements: %s' % (j['len'], j['o']), j)
