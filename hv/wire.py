"""W01-W06: the bytes of requests and responses, and the builder."""
from .common import *


def record(c, mode, n, name):
    """Histories of one mode; the process ending is a violation."""
    out = c.path(name)
    p = run([build('eng'), 'wire', '--mode', mode, '--n', str(n), '--seed', str(SEED), '--out', out],
            ok=None, timeout=600)
    hs = load(out) + load(out + '.hang')
    if p.returncode != 0:
        c.fail('ended:' + mode, 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
    if not hs:
        raise ToolError('no histories of ' + mode)
    c.add('feeds', sum(len(h['ev']) for h in hs))
    return hs


def corrupt_request(h):
    if h['shape']:
        for e in h['ev']:
            if e['o']['k'] == 2:
                e['o']['n'] += 1
                return h
        return None
    for e in reversed(h['ev']):
        o = e['o']
        if o['k'] == 2:
            if o['a']:
                o['a'][-1] = o['a'][-1] + [0]
            else:
                o['n'] += 1
            return h
    return None


def corrupt_refusal(h):
    for e in reversed(h['ev']):
        if e['o']['k'] == 1:
            e['o'] = {'k': 0}
            return h
    return corrupt_request(h)


def corrupt_response(h):
    if h['shape']:
        return None
    for e in reversed(h['ev']):
        o = e['o']
        if o['k'] == 1 and o['v']['t'] in (0, 1, 3, 4):
            o['v']['v'] = o['v']['v'] + [1]
            return h
        if o['k'] in (2, 3):
            o['e'] += 1
            return h
    return None


def corrupt_asked(h):
    if h['shape']:
        return None
    for e in reversed(h['ev']):
        o = e['o']
        if o['k'] == 0:
            o['n'] = 0
            return h
        if o['k'] == 4:
            e['o'] = {'k': 0, 'n': 0}
            return h
    return None


def replay(c):
    """What the specification parses every short byte string as, in the real parser."""
    f = c.path('wiresteps')
    r = tlc('WireSteps', env={'DEEP': int(c.deep)}, keep=f, timeout=800)
    c.model(r, 'WireSteps')
    n = sum(1 for _ in open(f))
    if n < 100000:
        raise ToolError('only %d byte strings' % n)
    p = run([build('eng'), 'wiresteps', '--in', f], ok=None, timeout=600)
    bad = re.findall(r'^MISMATCH (.*)$', p.stdout, re.M)
    for b in bad:
        c.fail('bytes', 'bytes parse differently from the specification: %s' % b[:1200], b[:3000])
    m = re.search(r'REPLAYED (\d+) (\d+)', p.stdout)
    if not m:
        c.fail('ended:replay', 'the process ended: exit %d %s' % (p.returncode, p.stderr[-500:]))
        return
    c.add('byte_strings_replayed', int(m.group(1)))
    c.traces += int(m.group(1)) - int(m.group(2))


def requests(c, mode, n, corr):
    hs = record(c, mode, n, mode)
    validate(c, 'TraceWire', hs, corrupt=corr, sig=lambda h, i, w: 'request', what='parse of requests')
    kinds = {}
    for h in hs:
        for e in h['ev']:
            k = e['o']['k']
            name = {0: 'more', 1: 'refused', 2: 'request'}.get(k, 'other')
            kinds[name] = kinds.get(name, 0) + 1
    c.cov.setdefault('parser_outcomes', {}).update(kinds)
    c.sample({'history': hs[len(hs) // 3]})


def responses(c, mode, n, corr):
    hs = record(c, mode, n, mode)
    validate(c, 'TraceResp', hs, corrupt=corr, sig=lambda h, i, w: 'response', what='decoding of responses')
    kinds = {}
    for h in hs:
        for e in h['ev']:
            name = {0: 'more', 1: 'value', 2: 'dispatch error', 3: 'parse error', 4: 'refused'}.get(e['o']['k'], 'other')
            kinds[name] = kinds.get(name, 0) + 1
    c.cov.setdefault('decoder_outcomes', {}).update(kinds)
    c.sample({'history': hs[len(hs) // 3]})


def model(c, name):
    c.model(tlc(name, env={'DEEP': int(c.deep)}, timeout=800), name)


def check_w01(c):
    model(c, 'MCWire')
    requests(c, 'req', 30000 if c.deep else 3000, corrupt_request)
    bulk(c, 'request', 5000 if c.deep else 400)


def check_w02(c):
    model(c, 'MCWire')
    requests(c, 'pipe', 30000 if c.deep else 2500, corrupt_request)
    bulk(c, 'request', 5000 if c.deep else 400, 'pipes')


def check_w03(c):
    replay(c)
    requests(c, 'bad', 60000 if c.deep else 6000, corrupt_refusal)


def check_w04(c):
    model(c, 'MCResp')
    responses(c, 'resp', 30000 if c.deep else 2500, corrupt_response)
    responses(c, 'wide', 0, None)
    bulk(c, 'response', 5000 if c.deep else 500)


def check_w05(c):
    model(c, 'MCResp')
    responses(c, 'badresp', 80000 if c.deep else 8000, corrupt_asked)


def corrupt_builder(h):
    for e in reversed(h['ev']):
        if e['op'] in (1, 2):
            if e['o']['r']:
                e['o']['r'] = 0
            else:
                e['o']['cnt'] += 1
            return h
    return None


def check_w06(c):
    model(c, 'MCBuilder')
    hs = record(c, 'build', 12000 if c.deep else 1500, 'build')
    validate(c, 'TraceBuilder', hs, corrupt=corrupt_builder, sig=lambda h, i, w: 'builder', what='use of a builder')
    seen = {}
    for h in hs:
        for e in h['ev']:
            if e['op'] in (1, 2):
                k = {0: 'added', 1: 'argument empty', 2: 'too many', 3: 'value empty'}.get(e['o']['r'], 'other')
                seen[k] = seen.get(k, 0) + 1
    c.cov['additions'] = seen
    bulk(c, 'built', 5000 if c.deep else 400)
    c.sample({'history': json.dumps(hs[1])[:1200]})
