"""Weave /repo's functions into contract skeletons, run Verus, read its verdict."""
import json, os, re, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build') if REPO == '/repo' else os.path.join(VERIF, '.build', 'alt', REPO.strip('/').replace('/', '_'))
SKEL = os.path.join(VERIF, 'skel')
VX = os.path.join(VERIF, '.build', 'vx', 'release', 'vx')

def env(extra=None):
    e = dict(os.environ)
    e.update({'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never'})
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e.update(extra or {})
    return e

def run(cmd, timeout=600, cwd=None, extra=None, mem_gb=None, stdin=None):
    """returns (rc or 'timeout', stdout, stderr, seconds)"""
    t = time.time()
    pre = None
    if mem_gb:
        import resource
        lim = int(mem_gb * (1 << 30))
        pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env(extra), text=True,
                         start_new_session=True, preexec_fn=pre, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, errors='replace')
    try:
        o, e = p.communicate(input=stdin, timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return 'timeout', o, e, time.time() - t

class Broken(Exception):
    """the machinery itself could not run"""

def build_vx():
    src = os.path.join(VERIF, 'tools', 'vx')
    r = run(['cargo', 'build', '--offline', '--release', '--locked', '--target-dir', os.path.join(VERIF, '.build', 'vx')], cwd=src, timeout=300)
    if r[0] != 0:
        raise Broken('vx does not build: ' + r[2][-2000:])

def part(name):
    return open(os.path.join(SKEL, name + '.vs')).read()

class Unit:
    """one Verus run. skeleton: text; targets: regex on selectors whose failures count;
    clause: optional regex: only failing contract lines that match it count"""
    def __init__(self, name, skeleton, targets='.*', what='', sources=None, ignore=None, clause=None, rlimit=None, seeds=1):
        self.name, self.skeleton, self.targets, self.what = name, skeleton, targets, what
        self.ignore = ignore; self.clause = clause; self.rlimit = rlimit
        self.root = REPO; self.canaried = True

class Result:
    def __init__(self, unit):
        self.unit = unit; self.status = 'lost'; self.reason = ''
        self.failures = []      # (selector, src, line, message, detail)
        self.other_failures = []
        self.functions = []     # (name, mode, ms, rlimit, ok)
        self.woven = []         # (selector, src, line)
        self.lost_fns = []
        self.trusted = []
        self.ms = 0; self.smt_ms = 0; self.verified = 0; self.errors = 0
        self.canary = None
        self.cmd = ''
        self.output = ''

TRUST = [
    (re.compile(r'axiom fn (\w+)'), 'axiom'),
    (re.compile(r'assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]*(?:\[[^\]]*\])?[^\]]*)\]'), 'assumed specification'),
    (re.compile(r'#\[verifier::external_body\]\s*(?:(?:pub|open|broadcast|proof|exec)\s+)*(?:fn|struct)\s+(\w+)'), 'external_body'),
    (re.compile(r'\badmit\(\)|\bassume\(([^;]*)\)'), 'assume'),
]
def scan_trust(text):
    out = []
    for rx, kind in TRUST:
        for m in rx.finditer(text):
            out.append('%s %s' % (kind, (m.group(1) or '').strip()))
    return sorted(set(out))

def weave(unit, wd, canary=False, lost=()):
    """lost: selectors of functions whose contract is kept and whose body is left out"""
    os.makedirs(wd, exist_ok=True)
    n = re.sub(r'\W', '_', unit.name)
    sk = os.path.join(wd, n + '.vs'); out = os.path.join(wd, n + ('_canary' if canary else '') + '.rs')
    text = unit.skeleton
    if lost:
        text = '\n'.join(l + ' lost' if l.lstrip().startswith('//@@fn ') and any('sel="%s"' % x in l for x in lost) else l for l in text.split('\n'))
    open(sk, 'w').write(text)
    r = run([VX, 'weave', sk, unit.root, out, out + '.map'], timeout=60, extra={'VX_CANARY': '1'} if canary else None)
    if r[0] != 0:
        m = re.search(r'LOST-ANCHOR: (.*)', r[2])
        return None, (m.group(1) if m else 'vx: ' + r[2][-600:])
    mp = []
    for l in open(out + '.map'):
        a = l.rstrip('\n').split('\t')
        mp.append((int(a[0]), int(a[1]), a[2], int(a[3]), a[4]))
    return out, mp

FAILMSG = re.compile(r'(condition|invariant|ensures|decreases|requires|assertion|assert|overflow|underflow|division|reachable|recommend|termination|shift|bounds|not satisfied|failed)', re.I)
SYNTAXY = re.compile(r'(not supported|unsupported|cannot find|mismatched|expected|The verifier does not|does not yet support|not yet|must have a decreases|must be)', re.I)

def verus(path, extra_args=(), timeout=420, rlimit=None):
    cmd = ['verus', path, '--crate-type', 'bin', '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '8', '--no-report-long-running']
    if rlimit: cmd += ['--rlimit', str(rlimit)]
    cmd += list(extra_args)
    r = run(cmd, timeout=timeout, cwd=os.path.dirname(path))
    try: js = json.loads(r[1])
    except Exception: js = None
    diags = []
    for l in r[2].splitlines():
        try: diags.append(json.loads(l))
        except Exception: pass
    return r, js, diags, ' '.join(cmd)

def verify(unit, wd, canary=False, tries=6, lost=None):
    res = Result(unit)
    res.trusted = scan_trust(unit.skeleton)
    lost = dict(lost or {})       # selector -> why
    sels = re.findall(r'//@@fn .*?sel="([^"]*)"', unit.skeleton)
    for attempt in range(tries):
        o = weave(unit, wd, canary, lost)
        if o[0] is None:
            res.reason = 'lost anchor: ' + o[1]
            k = max((x for x in sels if o[1].startswith(x + ':') and x not in lost), key=len, default=None)
            if k is None: return res
            lost[k] = 'lost anchor: ' + o[1][len(k) + 1:].strip()
            continue
        path, mp = o
        res.woven = [(m[4], m[2], m[3]) for m in mp if m[4] not in lost]
        r, js, diags, cmd = verus(path, rlimit=unit.rlimit)
        res.cmd = cmd; res.ms += int(r[3] * 1000)
        errs = [d for d in diags if d.get('level') == 'error' and not d['message'].startswith('aborting') and d.get('spans')]
        vr = (js or {}).get('verification-results') or {}
        front = r[0] == 'timeout' or js is None or 'verified' not in vr or vr.get('encountered-vir-error') or not (vr.get('verified') or vr.get('errors'))
        if not front and not any(d.get('code') for d in errs): break
        # not accepted by the front end: take out the functions the errors are in and retry
        bad = {}
        for d in errs:
            if not front and not d.get('code'): continue
            for s in d['spans']:
                for m in mp:
                    if m[0] <= s['line_start'] <= m[1]:
                        bad.setdefault(m[4], 'front end: ' + d['message'])
        bad = {k: v for k, v in bad.items() if k not in lost}
        res.reason = 'front end: ' + '; '.join(d['message'] for d in errs)[:800] if errs else ('timeout' if r[0] == 'timeout' else 'verus: ' + r[2][-600:])
        if not bad:
            return res
        lost.update(bad)
    else:
        return res
    res.lost = lost
    res.lost_fns = list(lost.items())
    text = open(path).read().split('\n')
    res.verified = vr.get('verified', 0); res.errors = vr.get('errors', 0)
    for mod in (js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times') or []):
        for f in mod.get('function-breakdown') or []:
            res.functions.append((f['function'].split('::', 1)[-1], f.get('mode:', f.get('mode', '')), f.get('time', 0), f.get('rlimit', 0), f.get('success')))
    res.smt_ms = js.get('times-ms', {}).get('smt', {}).get('smt-run', 0)
    undecided = []
    for d in errs:
        msg = d['message']
        where = None
        for s in d['spans']:
            for m in mp:
                if m[0] <= s['line_start'] <= m[1]:
                    where = where or m
        lns = [(s['line_start'], s['is_primary']) for s in d['spans']]
        src = ' | '.join(text[a - 1].strip()[:300] for a, p in lns if a - 1 < len(text))
        prim = [text[a - 1] for a, p in lns if a - 1 < len(text)]
        if 'esource limit' in msg or 'rlimit' in msg.lower() or 'timed out' in msg:
            undecided.append((where[4] if where else '?', msg)); continue
        if d.get('code') and where:      # rustc's own errors are not obligations
            res.lost_fns.append((where[4], msg)); continue
        sel = where[4] if where else '(contract or lemma)'
        f = (sel, where[2] if where else '', where[3] if where else 0, msg, src)
        counts = where is not None and re.search(unit.targets, sel)
        if counts and unit.clause:
            counts = unit.clause(msg, prim)
        (res.failures if counts else res.other_failures).append(f)
    res.output = '\n'.join(d.get('rendered') or d['message'] for d in errs)[:20000]
    if not res.verified and not res.errors:
        res.other_failures += res.failures; res.failures = []
    if res.failures:
        res.status = 'failed'
    elif not res.verified:
        res.status = 'lost'; res.reason = 'nothing verified: ' + '; '.join(d['message'] for d in errs)[:600]
    elif undecided:
        res.status = 'lost'; res.reason = 'solver gave up: ' + ', '.join(u[0] for u in undecided)
        res.lost_fns += undecided
    elif res.lost_fns:
        res.status = 'partial'; res.reason = '; '.join('%s: %s' % x for x in res.lost_fns)
    else:
        res.status = 'proved'
    return res

def canary(unit, wd, res):
    """every woven function gets `assert(false)` at its start: none may be accepted"""
    c = verify(unit, wd, canary=True, tries=1, lost=getattr(res, 'lost', None))
    names = set()
    for f in c.failures + c.other_failures:
        names.add(f[0])
    res.canary = (len(names), c.errors)
    return c
