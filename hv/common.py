"""Building, running TLC, reporting: what every check shares."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
TLA = '/opt/veriftools/tla'

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class ToolError(Exception):
    """Something of ours failed: neither a pass nor a violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def env_for_build(hooks=True):
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], capture_output=True, env=e)
    if out.returncode == 0:
        for kv in out.stdout.split(b'\0'):
            if b'=' in kv:
                k, v = kv.decode(errors='replace').split('=', 1)
                e[k] = v
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_PROFILE_DEV_DEBUG', None)
    e['RUSTFLAGS'] = ('--cfg hop_verif ' if hooks else '') + '-Awarnings'
    return e


def tree_hash():
    """A hash of the sources of /repo that the builds use."""
    h = hashlib.sha256()
    for d in ('Cargo.toml', 'Cargo.lock', 'engine', 'client', 'server', 'cli', 'lib'):
        p = os.path.join(REPO, d)
        files = [p] if os.path.isfile(p) else []
        for root, dirs, names in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in ('target', '.git'))
            files += [os.path.join(root, n) for n in sorted(names)]
        for f in sorted(files):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h.hexdigest()


def build(kind):
    """Builds a harness ('eng', 'net') or the server ('server') and returns its binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + kind), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        target = os.path.join(BUILD, kind)
        stamp = os.path.join(BUILD, 'tree-' + kind)
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ''
        if old != now:
            # Cargo goes by modification times, which a checkout can set back.
            fp = os.path.join(target, 'debug', '.fingerprint')
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('hop'):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        e = env_for_build(hooks=kind != 'server')
        e['CARGO_TARGET_DIR'] = target
        cmd = ['cargo', 'build', '--locked', '--offline']
        binary = os.path.join(target, 'debug', {'eng': 'heng', 'net': 'hnet', 'server': 'hop-server'}[kind])
        cwd = os.path.join(VERIF, 'harness', kind)
        t = time.time()
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            log(r.stderr[-6000:])
            raise ToolError('build of %s failed' % kind)
        with open(stamp, 'w') as f:
            f.write(now)
        log('built %s in %.1fs' % (kind, time.time() - t))
        return binary


# ------------------------------------------------------------------- running

def run(cmd, timeout=600, env=None, ok=(0,), **kw):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e,
                           errors='replace', **kw)
    except subprocess.TimeoutExpired:
        raise ToolError('timed out: %s' % ' '.join(map(str, cmd)))
    if ok is not None and r.returncode not in ok:
        log(r.stdout[-3000:], r.stderr[-3000:])
        raise ToolError('exit %d: %s' % (r.returncode, ' '.join(map(str, cmd))))
    return r


class Tlc:
    def __init__(self):
        self.states = 0        # distinct states
        self.transitions = 0   # states generated
        self.acc = {}
        self.rej = {}
        self.want = {}
        self.violated = None
        self.error = None
        self.out = ''
        self.marks = {}
        self.trace = ''


def tlc(module, cfg=None, env=None, workers='8', timeout=800, heap='6g', keep=None, simulate=None,
        extra=()):
    """Runs TLC. keep: file to put the lines starting with '\"[' in (emitted steps)."""
    work = tempfile.mkdtemp(prefix='hv-tlc-')
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC',
           '-cp', '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA),
           'tlc2.TLC', '-metadir', work, '-workers', str(workers), '-noGenerateSpecTE',
           '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
    r = Tlc()
    outp = os.path.join(work, 'out')
    try:
        with open(outp, 'wb') as fh:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        text = []
        kf = open(keep, 'w') if keep else None
        with open(outp, errors='replace') as fh:
            for line in fh:
                if line.startswith('"['):
                    if kf:
                        kf.write(line)
                else:
                    text.append(line)
        if kf:
            kf.close()
        out = r.out = ''.join(text)
        for m in re.finditer(r'^<<\s*"ACC",\s*(-?\d+),\s*(\d+)\s*>>', out, re.M):
            r.acc[int(m.group(1))] = int(m.group(2))
        for m in re.finditer(r'<<\s*"REJ",\s*(-?\d+),\s*(\d+)\s*>>', out):
            i = int(m.group(1))
            if i not in r.rej or int(m.group(2)) < r.rej[i]:
                r.rej[i] = int(m.group(2))
        for m in re.finditer(r'<<\s*"WANT",\s*(-?\d+),(.*?)>>\n(?=<<|[A-Z]|$)', out, re.S):
            r.want.setdefault(int(m.group(1)), ' '.join(m.group(2).split()))
        for m in re.finditer(r'<<\s*"MARK",\s*"([^"]*)",\s*(-?\d+)\s*>>', out):
            r.marks[m.group(1)] = r.marks.get(m.group(1), 0) + 1
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
        m = re.search(r'Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated'
                      r'|Error: (Temporal properties were violated|Deadlock reached)', out)
        if m:
            r.violated = m.group(1) or m.group(2) or m.group(3)
            r.trace = out[m.start():m.start() + 20000]
        elif p.returncode != 0 or 'Model checking completed. No error' not in out and not simulate:
            r.error = out[-3000:]
        return r
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ----------------------------------------------------------------- reporting

def known():
    """property -> {signature: text} of the listed findings."""
    d = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line)
            if m:
                d.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return d


class Check:
    """Collects what one run of one check did."""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.assume = []
        self.violations = []    # (signature, description, payload)
        self.hits = {}
        self.known = known().get(prop, {})
        self.tmp = tempfile.mkdtemp(prefix='hv-%s-' % prop)
        self.deep = tier == 'thorough'

    def path(self, name):
        return os.path.join(self.tmp, name)

    def elapsed(self):
        return time.time() - self.t0

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500])

    def model(self, r, what):
        """Takes account of a TLC run that checks the model itself."""
        if r.violated or r.error:
            log(r.trace or r.error)
            raise ToolError('model check of %s failed: %s' % (what, r.violated or 'error'))
        self.states += r.states
        self.transitions += r.transitions

    def fail(self, sig, what, payload=None):
        """Records a violation, unless its signature is listed."""
        if sig in self.known:
            self.hits[sig] = self.hits.get(sig, 0) + 1
            return
        self.violations.append((sig, what, payload))

    def finish(self):
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        cov = dict(self.cov)
        cov['samples'] = self.samples or ['none recorded']
        if self.level == 'model_checking':
            cov['states'] = self.states
            cov['transitions'] = self.transitions
            cov['traces_validated_against_impl'] = self.traces
        if self.hits:
            cov['known_findings_seen'] = self.hits
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': self.level,
              'coverage': cov, 'assumptions': self.assume, 'wall_s': round(self.elapsed(), 2),
              'violations': len(self.violations)}
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for sig, text in sorted(self.known.items()):
            if sig in self.hits:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        if not self.violations:
            print('OK property=%s tier=%s states=%d traces=%d wall=%.1fs' %
                  (self.prop, self.tier, self.states, self.traces, self.elapsed()))
            return 0
        seen = {}
        for sig, what, payload in self.violations:
            seen.setdefault(sig, []).append((what, payload))
        for n, (sig, items) in enumerate(sorted(seen.items())[:40]):
            p = os.path.join(EVIDENCE, 'replay', '%s-%d.json' % (self.prop, n))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'signature': sig, 'count': len(items),
                           'what': items[0][0], 'case': items[0][1], 'seed': SEED,
                           'tier': self.tier}, f, indent=1, default=str)
            log('%s: %s' % (sig, str(items[0][0])[:2000]))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1


def load(path):
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


BULK = {'store': 'ckanyosgx', 'served': 'ckanyo', 'request': 'ckanyqw', 'built': 'ckanyb', 'response': 'ckanyozpd'}


def corrupt_bulk(mode):
    def change(h):
        for e in reversed(h['ev']):
            if e['c'] == 200:
                continue
            if mode in ('store', 'served'):
                if e['o']['k'] == 1:
                    e['o']['e'] = 99
                elif e['o']['v']['t'] == 5:
                    e['o']['v']['v'] = e['o']['v']['v'] + [[[99, 99]]] if e['c'] == 22 else [[[[99, 99]], 99]]
                elif e['o']['v']['t'] in (0, 4):
                    e['o']['v']['v'] = [[7, 99]]
                else:
                    continue
            elif mode == 'request':
                e['w'][-1][1] += 1
            elif mode == 'built':
                e['b']['n'] = [[99, 99]]
            elif e['o']['k'] == 0:
                e['z'] += 1
            else:
                continue
            return h
        return None
    return change


def bulk_part(hs, mode):
    """What a mode of TraceBulk looks at."""
    out = []
    for h in hs:
        ev = [{k: e[k] for k in BULK[mode] if k in e} for e in h['ev'] if e['c'] != 200 or mode == 'store']
        if ev:
            out.append({'id': h['id'], 'ev': ev})
    return out


def bulk(c, mode, n, cmd='bulk'):
    """Requests, contents and responses of sizes that are written down as runs."""
    out = c.path(cmd)
    run([build('eng'), cmd, '--n', str(n), '--seed', str(SEED), '--out', out], timeout=900)
    hs = load(out) + load(out + '.hang')
    if not hs:
        raise ToolError('no histories')
    largest = 0
    for h in hs:
        for e in h['ev']:
            for a in e.get('a', []):
                if a[0] and isinstance(a[0][0], list):
                    largest = max(largest, sum(r[1] for r in a[0]))
    c.cov['largest_argument'] = largest
    hs = bulk_part(hs, mode)
    c.add('bulk_events', sum(len(h['ev']) for h in hs))
    validate(c, 'TraceBulk', hs, env={'MODE': mode}, corrupt=corrupt_bulk(mode),
             sig=lambda h, i, w: 'bulk:%s' % (h['ev'][i - 1]['c'] if 0 < i <= len(h['ev']) else '?'),
             what='history of large requests')
    c.sample({'large': json.dumps(hs[0]['ev'][:2])[:800]})


def dump(path, hs):
    with open(path, 'w') as f:
        for h in hs:
            f.write(json.dumps(h, separators=(',', ':')) + '\n')


CHUNK = 10 * 1000 * 1000


def validate(c, module, hs, env=None, what='history', corrupt=None, sig=None, timeout=800, cfg=None,
             chunk=CHUNK, outcome=None):
    """Has TLC check histories against a trace specification.

    Every history is accepted or rejected by the specification. Some histories
    are also given with one observation changed by `corrupt`, and all of those
    have to be rejected, or the specification isn't bound to what was seen.
    `outcome`, if given, collects id -> accepted instead of reporting."""
    if not hs:
        return None
    for n, h in enumerate(hs):
        h['id'] = n
    bad = {}
    if corrupt:
        base = len(hs)
        step = max(1, len(hs) // 12)
        for n in range(0, len(hs), step):
            m = corrupt(json.loads(json.dumps(hs[n])))
            if m is not None:
                m['id'] = base + len(bad)
                bad[m['id']] = (n, m)
    lines = [json.dumps(h, separators=(',', ':')) for h in hs + [m for _, m in bad.values()]]
    parts = [[]]
    size = 0
    for x in lines:
        if size > chunk:
            parts.append([])
            size = 0
        parts[-1].append(x)
        size += len(x)
    tag = '%s-%d' % (module, int(time.time() * 1e6))

    def one(n):
        f = c.path('%s-%d.ndjson' % (tag, n))
        with open(f, 'w') as fh:
            fh.write('\n'.join(parts[n]) + '\n')
        e = {'HIST': f}
        e.update(env or {})
        r = tlc(module, cfg=cfg, env=e, timeout=timeout, workers='8' if len(parts) == 1 else '3', heap='7g')
        os.unlink(f)
        return r

    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(one, range(len(parts))))
    acc, rej, want = {}, {}, {}
    for r in rs:
        acc.update(r.acc)
        rej.update(r.rej)
        want.update(r.want)
        c.states += r.states
        c.transitions += r.transitions
        for m, k in r.marks.items():
            d = c.cov.setdefault('reached', {})
            d[m] = d.get(m, 0) + k
    for r in rs:
        if r.violated or r.error:
            text = r.trace or r.error
            if re.search('OutOfMemory|GC overhead|heap space', text):
                raise ToolError('TLC ran out of memory on %s' % module)
            if 'Attempted to' in text or 'evaluating' in text:
                c.fail('outside-domain', 'a recorded %s is outside the domain of %s: %s' % (what, module, text[-1500:]))
                return rs
            log(text)
            raise ToolError('TLC failed on %s' % module)
    for n, h in enumerate(hs):
        good = n in acc and n not in rej
        if outcome is not None:
            outcome[n] = (good, rej.get(n, 0), want.get(n, '?'))
            if good:
                c.traces += 1
        elif good:
            c.traces += 1
        else:
            i = rej.get(n, 0)
            s = sig(h, i, want.get(n, '')) if sig else 'rejected'
            ev = h.get('ev')
            c.fail(s, '%s rejected by %s at event %d; specified: %s; seen: %s' %
                   (what, module, i, want.get(n, '?'),
                    json.dumps(ev[i - 1])[:1500] if ev and 0 < i <= len(ev) else json.dumps(h)[:1500]), h)
    for i, (n, m) in bad.items():
        if n in acc and n not in rej:
            if i in acc and i not in rej:
                log(json.dumps(m)[:3000])
                raise ToolError('%s accepted a corrupted %s' % (module, what))
            c.add('corrupted_traces_rejected')
    return rs
