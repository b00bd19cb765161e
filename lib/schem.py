"""The grammars whose generated parsers are put under contract: every operator of the grammar language,
alone and inside every other one, its value used and unused, over arbitrary rules."""
from gram import *
from gram import ty as gty
import random, re

HOLES = [('a', 'A', 'any'), ('b', 'B', 'any'), ('c', 'A', 'any'), ('d', None, 'any'), ('k', 'A', 'consuming'), ('m', 'B', 'consuming'), ('p', 'A', 'any', ('v', 'usize', 'val'))]
# bodies for the bounded runs (the proofs leave them arbitrary)
BODY = {
    'a': lambda: seq(('x', slc(seq((None, lit('a')), (None, opt(lit('b')))))), act='t1("a", x)'),
    'b': lambda: seq(('x', slc(opt(lit('b')))), act='t1("b", x)'),
    'c': lambda: seq(('x', choice(slc(lit('c')), slc(seq((None, lit('a')), (None, notp(lit('c'))))))), act='t1("c", x)'),
    'd': lambda: seq((None, opt(lit('c'))), (None, look(pat('[_]')))),
    'k': lambda: seq(('x', pat("['a' | 'b']", "{c} == 'a' || {c} == 'b'")), act='t1("k", x)'),
    'p': lambda: seq(('x', pat('[_]')), act='qp(x, v)', cond=True),
    'm': lambda: seq(('x', slc(choice(lit('bc'), lit('b'), lit('c')))), act='t1("m", x)'),
}

class B:
    """collects rules and the action functions they use"""
    def __init__(self, name, concrete=False, args=()):
        self.name, self.rules, self.acts, self.n = name, [], {}, 0
        self.concrete = concrete
        for h, t, kind, *ps in HOLES:
            self.rules.append(Rule(h, BODY[h]() if concrete else custom('h'), t, hole=None if concrete else kind, params=ps))
            if h == 'p' and concrete: self.acts['qp'] = (['char', 'usize'], 'A', True)
        self.by = {r.name: r for r in self.rules}
        self.g = Grammar(name, self.rules, args, acts=self.acts, custs={'h': 'A', 'cu': 'C'})
        self.sp = Spec(self.g)
        self.claims = {}
    def act(self, ts, ret='C', cond=False):
        ts = [t.replace("'input", "'i") for t in ts]
        key = (tuple(ts), ret, cond)
        for n, v in self.acts.items():
            if (tuple(v[0]), v[1], v[2]) == key: return n
        n = '%s%d' % ('q' if cond else 'f', len(self.acts))
        self.acts[n] = (ts, ret, cond)
        return n
    def T(self, e): return self.sp.ty(None, e)
    def lab(self, *es, cond=False, ret='C', skip=()):
        """x1:e1 x2:e2 .. { f(x1, x2, ..) }"""
        # a label on a bare literal binds nothing (the generated code does not compile), rule d has no value
        ls = ['x%d' % j if j not in skip and not (e.kind == 'lit' or e.kind == 'call' and e.name == 'd') else None for j, e in enumerate(es)]
        self.d = getattr(self, 'd', 0) + 1
        ls = [l and l + 'abcdefgh'[self.d % 8] for l in ls]
        n = self.act([self.T(e) for l, e in zip(ls, es) if l], ret, cond)
        return seq(*zip(ls, es), act='%s(%s)' % (n, ', '.join(l for l in ls if l)), cond=cond)
    def add(self, e, ret, **kw):
        self.n += 1
        r = Rule('r%d' % self.n, e, ret, pub=self.concrete, **kw)
        self.g.rules.append(r); self.g.by[r.name] = r
        return r

def kinds(e):
    s = {e.kind}
    if e.kind == 'seq' and e.cond: s.add('cond')
    for x in e.kids:
        if not isinstance(x, str): s |= kinds(x)
    return s

def valueless(e):
    """an expression whose value cannot be used"""
    if e.kind == 'call': return e.name == 'd'
    if e.kind in ('seq', 'slice', 'not', 'lit'): return False
    return any(valueless(x) for x in (e.kids[:1] if e.kind == 'rep' else e.kids))

# operators: name -> (number of slots, builder(b, kids))
def cons(b, e): return b.lab(e, call('k')) if nullable(e) else e
OPS = {
    'seq2': (2, lambda b, x, y: seq((None, x), (None, y))),
    'lab2': (2, lambda b, x, y: b.lab(x, y)),
    'lab3': (2, lambda b, x, y: b.lab(x, call('b'), y, skip=(1,))),
    'cond': (1, lambda b, x: b.lab(x, cond=True)),
    'condseq': (2, lambda b, x, y: b.lab(call('k'), b.lab(x, cond=True), y, skip=(2,))),
    'choice2': (2, lambda b, x, y: choice(b.lab(x), b.lab(y))),
    'choice3': (2, lambda b, x, y: choice(b.lab(x), b.lab(call('k'), y), b.lab(call('m')))),
    'chexp': (1, lambda b, x: choice(x, exp('other'))),
    'expch': (1, lambda b, x: choice(exp('first'), x)),
    'opt': (1, lambda b, x: opt(x)),
    'star': (1, lambda b, x: star(cons(b, x))),
    'plus': (1, lambda b, x: plus(cons(b, x))),
    'exact2': (1, lambda b, x: rep(x, 2, 2, form='exact')),
    'exact0': (1, lambda b, x: rep(x, 0, 0, form='exact')),
    'min2': (1, lambda b, x: rep(cons(b, x), 2, None)),
    'max2': (1, lambda b, x: rep(x, None, 2)),
    'r13': (1, lambda b, x: rep(x, 1, 3)),
    'r02': (1, lambda b, x: rep(x, 0, 2)),
    'sstar': (2, lambda b, x, y: star(cons(b, x), y)),
    'splus': (2, lambda b, x, y: plus(cons(b, x), y)),
    'ssep': (2, lambda b, x, y: star(x, cons(b, y))),
    's13': (2, lambda b, x, y: rep(x, 1, 3, y)),
    'sexact2': (2, lambda b, x, y: rep(x, 2, 2, y, form='exact')),
    'smin2': (2, lambda b, x, y: rep(cons(b, x), 2, None, y)),
    'smax2': (2, lambda b, x, y: rep(x, None, 2, y)),
    'and': (1, lambda b, x: look(x)),
    'not': (1, lambda b, x: notp(x)),
    'quiet': (1, lambda b, x: quiet(x)),
    'slice': (1, lambda b, x: slc(x)),
}
LEAVES = {
    'lit': lambda b: lit('b'), 'lit2': lambda b: lit('ab'), 'any': lambda b: pat(), 'set': lambda b: pat("['a' | 'c']", "{c} == 'a' || {c} == 'c'"),
    'neg': lambda b: pat("[^ 'a']", "{c} != 'a'"), 'pos': lambda b: position(), 'hole': lambda b: call('a'), 'hunit': lambda b: call('d'), 'cust': lambda b: custom('cu'),
}
DEF = ['a', 'k', 'm']

def forms(b, e, out, only=None):
    """value used by an action / not used / returned as it is"""
    k = kinds(e)
    if (only is None or 'U' in only) and not valueless(e): out.append(b.add(b.lab(e), 'C'))
    if only is None or 'N' in only: out.append(b.add(seq((None, e), (None, call('b'))), None))
    if (only is None or 'D' in only) and not valueless(e):
        T = b.T(e)
        out.append(b.add(e, None if T == '()' else T))

def build(op, b, kids):
    n, f = OPS[op]
    ks = [kids[j] if j < len(kids) and kids[j] is not None else call(['a', 'm'][j]) for j in range(n)]
    return f(b, *ks)

def slotable(op, e):
    return True

def singles(b):
    out = []
    for l in LEAVES: forms(b, LEAVES[l](b), out, None if l not in ('cust',) else 'UN')
    for op in OPS: forms(b, build(op, b, []), out)
    return out

def pairs(b, pick, form='UN'):
    """every operator in every slot of every other; pick(parent, slot, child) selects"""
    out = []
    for op, (n, f) in OPS.items():
        for s in range(n):
            for ch in list(LEAVES) + list(OPS):
                if not pick(op, s, ch): continue
                c = LEAVES[ch](b) if ch in LEAVES else build(ch, b, [])
                kids = [None] * n; kids[s] = c
                forms(b, build(op, b, kids), out, form)
    return out

def claims(r):
    """which of C01-C03 a rule's match and value speak about"""
    k = kinds(r.expr)
    s = set()
    if k & {'rep'}: s.add('C02')
    if k & {'and', 'not', 'slice', 'pos', 'quiet'}: s.add('C03')
    if not s: s.add('C01')
    return s

# ---- shapes that a translator might treat specially ----
def idioms(b):
    L = lit
    def P(cs): return pat("[%s]" % ' | '.join("'%s'" % c for c in cs), ' || '.join("{c} == '%s'" % c for c in cs))
    a, bb, k, m = (lambda n: lambda: call(n))('a'), (lambda n: lambda: call(n))('b'), (lambda n: lambda: call(n))('k'), (lambda n: lambda: call(n))('m')
    pc = lambda v: call('p', '%dusize' % v)
    def S(*es):
        # one element alone would be that element: keep it a sequence, which has no value
        if len(es) == 1 and es[0].kind != 'lit': es = es + (seq(),)
        return seq(*[(None, e) for e in es])
    es = [
        # choices an optimiser would reorder, merge or drop
        choice(L('a'), L('ab')), choice(L('ab'), L('a')), choice(L('a'), L('b'), L('c')), choice(L('b'), L('a'), L('abc'), L('ab')), choice(L('a'), L('a')),
        choice(P('ab'), P('bc')), choice(P('a'), pat()), choice(pat(), P('a')), choice(P('a'), P('b'), P('c')),
        choice(L('a'), S(pat())), choice(S(pat()), L('ab')), choice(L(''), L('a')),
        choice(a(), a()), choice(pc(1), pc(2)), choice(pc(2), pc(2)), choice(pc(0), a(), pc(1)), choice(a(), call('c'), k()),
        choice(S(L('a'), L('b')), S(L('a'), L('c'))), choice(S(a(), k()), S(a(), m())), choice(S(a(), bb()), S(a())), choice(S(a()), S(a(), bb())),
        choice(S(L('a'), a()), S(L('ab'))), choice(S(k(), L('a')), S(k(), L('b')), S(k())),
        choice(S(opt(a())), L('b')), choice(S(star(k())), L('c')), choice(S(look(a())), S(bb())), choice(look(a()), k()), choice(notp(a()), S(a())), choice(choice(a(), k()), choice(call('c'), k())),
        choice(S(choice(L('a'), L('ab'))), S(L('c'))), choice(*[L(x) for x in ('aa', 'ab', 'ac', 'ba', 'bb', 'bc', 'ca', 'cb', 'a', 'b')]),
        choice(b.lab(k()), b.lab(k(), a()), b.lab(m())), choice(b.lab(a(), k()), b.lab(a(), m()), b.lab(a())),
        choice(b.lab(k(), cond=True), b.lab(k())), choice(b.lab(k(), cond=True), b.lab(k(), cond=True)),
        # sequences
        S(L('a'), L('b')), S(L('a'), L('b'), L('c')), S(L('a'), P('bc'), L('c')), S(P('a'), P('b')), S(pat(), pat()), S(S(L('a'), L('b')), S(L('c'))), S(),
        S(look(L('a')), pat()), S(notp(L('a')), pat()), S(notp(P('a')), P('ab')), S(look(P('ab')), L('b')), S(notp(pat())), S(L('a'), notp(pat())), S(opt(L('a')), L('a')), S(opt(L('a')), opt(L('b')), L('c')),
        S(choice(L('a'), L('ab')), L('c')), S(choice(L('ab'), L('a')), choice(L('b'), L('bc'))), S(look(L('ab')), L('a'), look(L('b'))), S(star(L('a')), L('a')), S(star(P('ab')), L('b')),
        S(a(), a()), S(a(), a(), a(), a(), a(), a(), a(), a()), S(pc(1), pc(2)), S(*[L(x) for x in 'abcabcab']),
        seq(('x', k()), ('x', m()), act=b.act(['B']) + '(x)'), seq(('x', k()), ('y', seq(('z', m()), act=b.act(['A', 'B'], 'A') + '(x, z)')), act=b.act(['A', 'A']) + '(x, y)'),
        seq(('x', k()), ('y', choice(seq(('z', m()), act=b.act(['A', 'B'], 'A') + '(x, z)'), seq((None, a()), act=b.act(['A'], 'A') + '(x)'))), act=b.act(['A', 'A']) + '(x, y)'),
        b.lab(a(), bb(), k(), m(), pc(3)), b.lab(L('a'), L('b')), b.lab(L('a')), b.lab(L('a'), k(), L('b')), b.lab(position(), k(), position()), b.lab(position(), L('a'), position()),
        b.lab(k(), b.lab(m(), k()), m()), b.lab(k(), m(), cond=True), b.lab(L('a'), k(), L('b'), cond=True), b.lab(k(), b.lab(m(), cond=True), k(), cond=True), b.lab(a(), a(), a(), cond=True),
        # optional
        opt(L('a')), opt(P('ab')), opt(opt(a())), opt(star(k())), opt(S(L('a'), L('b'))), opt(choice(L('a'), L('ab'))), opt(look(a())), opt(position()), opt(S(a(), opt(S(bb(), opt(k()))))), opt(b.lab(k(), cond=True)),
        # repetitions
        star(L('a')), star(P('ab')), star(pat()), plus(pat()), plus(L('ab')), star(choice(L('a'), L('b'))), star(choice(L('a'), L('ab'), L('c'))), star(S(L('a'), L('b'))), star(S(notp(L('c')), pat())), star(choice(S(L('a'), pat()), S(notp(L('c')), pat()))),
        star(S(k(), opt(m()))), star(b.lab(k(), m())), star(seq(('x', position()), ('y', k()), act=b.act(['usize', 'A']) + '(x, y)')), star(star(k()), L('b')), star(plus(k()), L('c')), star(plus(k(), L('b')), L('c')),
        star(k(), L('b')), plus(P('ab'), L('c')), star(k(), opt(L('c'))), star(k(), S(L('b'), opt(L('c')))), star(k(), look(L('a'))), star(k(), notp(L('b'))), star(k(), position()), plus(L('a'), L('a')), star(L('a'), S(star(L('b')), L('c'))),
        star(a(), L('c')), plus(a(), L('b')), rep(a(), 2, None, L('c')), rep(opt(k()), 0, 3), rep(L('a'), 2, 2, form='exact'), rep(L('a'), 1, 2), rep(pat(), None, 1), rep(pat(), 2, None), rep(P('ab'), 2, 3, L('c')), rep(L('a'), 0, 1), rep(L('a'), 1, 1, form='exact'), rep(k(), 1, 1, L('b'), form='exact'),
        rep(k(), 2, 1), rep(k(), 0, None), rep(k(), 1, None), rep(k(), 0, None, L('b')), rep(k(), 1, None, L('b')), rep(k(), None, 1, L('b')), rep(k(), None, 0, L('b')), rep(k(), 0, 0),
        seq(('cn', position()), ('x', rep(k(), '{cn}', '{cn}', form='exact')), act=b.act(['Vec<A>']) + '(x)'), seq((None, L('a')), ('cn', position()), ('x', rep(k(), None, '{cn}', L('b'))), act=b.act(['Vec<A>']) + '(x)'),
        seq((None, L('a')), ('cn', position()), ('x', rep(k(), '{cn}', None)), act=b.act(['Vec<A>']) + '(x)'), seq((None, L('a')), ('cn', position()), (None, rep(k(), '{cn}', '{cn}', L('c'), form='exact'))),
        star(choice(k(), exp('item'))), plus(choice(quiet(k()), exp('item')), L('b')), star(quiet(k()), quiet(L('b'))), star(b.lab(k(), cond=True)), star(b.lab(k(), cond=True), L('b')), plus(b.lab(k(), m(), cond=True)),
        star(slc(plus(P('ab'))), L('c')), plus(slc(S(L('a'), star(L('b'))))), star(S(k(), notp(m()))), star(S(look(k()), k())), star(choice(S(k(), look(m())), S(m()))),
        # lookahead, quiet, slices
        look(L('a')), notp(L('a')), look(P('ab')), notp(P('ab')), look(look(a())), look(notp(a())), notp(look(a())), notp(notp(a())), look(S(L('a'), L('b'))), notp(S(L('a'), opt(L('b')))), look(star(k())), notp(star(k())),
        look(S(look(a()), k())), look(S(notp(a()), k())), notp(S(look(a()), k())), notp(S(notp(a()), k())), quiet(S(look(a()), k())), quiet(S(notp(a()), k())), look(S(quiet(a()), k())), look(S(look(S(look(k()), k())), k())), quiet(quiet(S(look(k()), k(), m()))),
        quiet(quiet(S(choice(S(notp(L('a')), pat()), L('x'))))), choice(S(quiet(choice(S(quiet(S(choice(S(notp(L('a')), pat()), L('x'))))), L('y')))), S(L('z'))), choice(S(look(S(look(choice(S(notp(L('a')), L('q')), S(L('ab')))), L('ac'))), L('abc')), L('m')),
        look(b.lab(k(), cond=True)), notp(b.lab(k(), cond=True)), quiet(b.lab(k(), cond=True)), quiet(choice(a(), exp('x'))), choice(quiet(a()), exp('x')), choice(quiet(k()), quiet(m_(b)), exp('x')), quiet(L('a')), quiet(P('ab')), quiet(star(k())), quiet(opt(k())),
        S(quiet(L('a')), L('b')), S(opt(quiet(L('a'))), L('b')), S(star(quiet(P('ab'))), P('c')), S(quiet(star(P('ab'))), L('c')), S(notp(L('ab')), L('a'), L('c')), S(look(S(L('a'), pat())), L('ab')),
        slc(L('a')), slc(pat()), slc(P('ab')), slc(star(pat())), slc(star(P('ab'))), slc(plus(L('ab'))), slc(S(L('a'), star(P('ab')))), slc(opt(L('a'))), slc(S(opt(L('a')), P('bc'))), slc(choice(L('a'), L('ab'))), slc(slc(a())), slc(S(k(), slc(m()))),
        slc(S(look(a()), k())), slc(look(k())), slc(notp(k())), slc(rep(pat(), 1, 2)), slc(rep(pat(), 2, 2, form='exact')), slc(star(k(), L('b'))), slc(star(S(notp(L('c')), pat()))), slc(position()), slc(S()), slc(quiet(k())), slc(b.lab(k(), cond=True)), slc(S(k(), k(), k())), slc(pc(1)),
        S(slc(star(P('ab'))), L('c')), b.lab(slc(k()), slc(m())), b.lab(slc(star(P('a'))), position(), slc(opt(P('b')))),
        # expected!
        choice(a(), exp('x'), k()), 
        # large numbers
        rep(L('a'), 256, 300), rep(L('a'), 257, 257, form='exact'), rep(L('a'), None, 300), rep(L('a'), 256, None), rep(P('ab'), 3, 258), rep(L('a'), 256, 300, L('b')), rep(k(), 3, 70000), rep(k(), None, 300, L('b')),
    ]
    out = []
    for e in es:
        if not b.concrete and '""' in text(e): continue        # the contract of the abstract input is for literals that consume
        if b.concrete and 'y:(' in text(e): continue      # uses a value twice: V is not Copy
        n = len(out)
        k_ = kinds(e)
        T = b.T(e)
        vl = valueless(e)
        if not vl: out.append(b.add(b.lab(e), 'C'))
        out.append(b.add(S(e, call('b')), None))
        if not vl: out.append(b.add(e, None if T == '()' else T))
        if 'rep' in k_ and any(x in text(e) for x in ('256', '257', '258', '300', '70000')):
            for r in out[n:]: r.strings = ['a' * j for j in (0, 2, 3, 250, 254, 255, 256, 257, 258, 299, 300, 301, 302, 520)] + ['ab' * j for j in (1, 130, 255, 256, 257, 300, 301)] + ['ab' * 256 + 'a', 'ab' * 299 + 'a', 'ab' * 300 + 'a']
    return out
def m_(b): return call('c')

# ---- random grammars for the bounded runs ----
def pick_hole(rng):
    h = rng.choice('abckmp')
    return call('p', '%dusize' % rng.randrange(3)) if h == 'p' else call(h)

def rnd_expr(b, rng, depth, rules):
    if depth == 0 or rng.random() < 0.15:
        c = rng.random()
        if c < 0.6 or not rules:
            l = rng.choice(['lit', 'lit2', 'any', 'set', 'neg', 'pos', 'hole', 'hole', 'hole', 'cust'])
            return pick_hole(rng) if l == 'hole' else LEAVES[l](b)
        return b.lab(lit(rng.choice('abc')), call(rng.choice(rules)))
    op = rng.choice(list(OPS))
    n = OPS[op][0]
    return build(op, b, [rnd_expr(b, rng, depth - 1, rules) for _ in range(n)])

def randoms(b, rng, n, depth=4, calls=True, most=60):
    out, names = [], []
    while len(out) < n:
        nm = 'r%d' % (b.n + 1)
        ret = rng.random() < 0.7
        if ret and calls: b.g.by[nm] = Rule(nm, None, 'C')      # it may call itself, after a literal
        e = rnd_expr(b, rng, depth, names + ([nm] if ret and calls else []))
        b.g.by.pop(nm, None)
        if size(e) > most or valueless(e): continue
        r = b.add(b.lab(e), 'C') if ret else b.add(seq((None, e), (None, call('b'))), None)
        if ret and calls: names.append(r.name)
        out.append(r)
    return out
def size(e): return 1 + sum(size(x) for x in e.kids if not isinstance(x, str))

# ---- rules with parameters, grammars with arguments ----
def params(b, cfg=False):
    """rules taking values and rules, and their uses; every rule of the grammar takes the grammar's arguments too"""
    helpers, out = [], []
    def R(name, e, ret, ps, gen='', *_):
        r = Rule(name, e, ret, params=[(n, t[1:] if t[0] == '*' else t, 'rule' if t[0] == '*' else 'val') for n, t in ps], gen=gen)
        b.g.rules.append(r); b.g.by[name] = r; helpers.append(r)
    def act(ts, ret='C', cond=False): return b.act(ts, ret, cond)
    x, y, kx, s = arg('x', 'A'), arg('y', 'B'), arg('kx', 'T'), arg('s', '()')
    xt, yt = arg('x', 'T'), arg('y', 'T')
    g2 = act(['A', 'A']); 
    R('list', star(kx, s), 'Vec<T>', [('kx', '*T'), ('s', '*()')], '<T>')
    R('list1', plus(kx, s), 'Vec<T>', [('s', '*()'), ('kx', '*T')], '<T>')
    R('par', seq((None, lit('a')), ('va', xt), (None, lit('b')), act='va'), 'T', [('x', '*T')], '<T>', 40)
    R('twice', seq(('va', x), ('wa', x), act=g2 + '(va, wa)'), 'C', [('x', '*A')], '', 40)
    R('two', seq(('pa', y), ('qa', x), ('ra', y), act=act(['B', 'A', 'B']) + '(pa, qa, ra)'), 'C', [('x', '*A'), ('y', '*B')], '', 40)
    R('lookp', seq((None, look(x)), ('va', call('b')), act=act(['B']) + '(va)'), 'C', [('x', '*A')])
    R('notx', seq((None, notp(xt)), ('va', call('a')), act='va'), 'A', [('x', '*T')], '<T>')
    R('quietx', choice(quiet(xt), exp('thing')), 'T', [('x', '*T')], '<T>')
    R('slx', slc(seq((None, x), (None, x))), "&'input str" if b.concrete else "Sl<'input>", [('x', '*A')])
    R('optx', opt(xt), 'Option<T>', [('x', '*T')], '<T>')
    R('chx', choice(xt, yt), 'T', [('x', '*T'), ('y', '*T')], '<T>')
    R('cnt', rep(arg('kx', 'A'), '{na}', '{na}', form='exact'), 'Vec<A>', [('na', 'usize'), ('kx', '*A')])
    R('cntmax', rep(arg('kx', 'A'), None, '{na}', lit('c')), 'Vec<A>', [('kx', '*A'), ('na', 'usize')])
    R('bet', rep(arg('kx', 'A'), '{lo}', '{hi}'), 'Vec<A>', [('lo', 'usize'), ('hi', 'usize'), ('kx', '*A')])
    R('val', seq(('va', call('p', 'na')), ('wa', call('p', 'm')), act=g2 + '(va, wa)'), 'C', [('na', 'usize'), ('m', 'usize')], '', 40)
    R('valsw', call('val', 'm', 'na'), 'C', [('na', 'usize'), ('m', 'usize')])
    R('val3', seq(('va', call('p', 'z')), ('wa', call('val', 'na', 'z')), (None, opt(call('valsw', 'na', 'm'))), act=act(['A', 'C']) + '(va, wa)'), 'C', [('na', 'usize'), ('m', 'usize'), ('z', 'usize')], '', 80)
    R('mixed', seq(('va', call('p', 'm')), ('wa', x), ('ua', call('p', 'na')), act=act(['A', 'A', 'A']) + '(va, wa, ua)'), 'C', [('na', 'usize'), ('x', '*A'), ('m', 'usize')])
    R('fwd', call('par', xt, tys={'T': 'T'}), 'T', [('x', '*T')], '<T>')
    R('fwdsw', call('two', seq(('z', x), act='z'), y), 'C', [('x', '*A'), ('y', '*B')], '', 60)
    R('fwdy', call('chx', yt, xt, tys={}), 'T', [('x', '*T'), ('y', '*T')], '<T>', 80)
    R('deep', call('par', call('par', xt, tys={}), tys={}), 'T', [('x', '*T')], '<T>', 80)
    R('guard', seq(('va', xt), ('na', position()), (None, seq(act=act(['usize', 'usize'], 'usize', True) + '(lim, na)', cond=True)), act='va'), 'T', [('x', '*T'), ('lim', 'usize')], '<T>')
    R('un2', seq((None, s), (None, lit('a')), (None, opt(s))), None, [('s', '*()')])
    R('lst2', call('list', kx, seq((None, lit('a')), (None, s)), tys={}), 'Vec<T>', [('kx', '*T'), ('s', '*()')], '<T>', 80)
    R('optlist', seq((None, opt(s)), ('va', star(kx, s)), (None, opt(s)), act='va'), 'Vec<T>', [('kx', '*T'), ('s', '*()')], '<T>')
    def use(e, ret, **kw):
        r = b.add(e, ret, **kw); out.append(r); return r
    a, bb, c, d, k, m = (call(z) for z in 'abcdkm')
    A = lambda: call('a')
    cl = '.clone()' if b.concrete else ''
    K = lambda: call('k')
    T = lambda t: {'T': t}
    use(call('list', K(), lit('c'), tys=T('A')), 'Vec<A>')
    use(call('list', call('m'), seq((None, call('d')), (None, seq())), tys=T('B')), 'Vec<B>')
    use(call('list', seq(('va', K()), ('wa', A()), act=g2 + '(va, wa)'), seq((None, lit('c')), (None, opt(lit('b')))), tys=T('C')), 'Vec<C>')
    use(call('list1', lit('c'), K(), tys=T('A')), 'Vec<A>')
    use(call('list1', notp(lit('c')), call('m'), tys=T('B')), 'Vec<B>')
    use(seq(('va', call('list', seq((None, lit('c')), ('xa', call('list1', lit('b'), K(), tys=T('A'))), act='xa'), lit('c'), tys=T('Vec<A>'))), ('wa', call('b')), act=act(['Vec<Vec<A>>', 'B']) + '(va, wa)'), 'C')
    use(call('par', A(), tys=T('A')), 'A')
    use(call('par', call('par', K(), tys=T('A')), tys=T('A')), 'A')
    use(call('par', call('list', K(), lit('c'), tys=T('A')), tys=T('Vec<A>')), 'Vec<A>')
    use(call('twice', A()), 'C')
    use(call('twice', K()), 'C')
    use(seq(('l', K()), ('va', call('twice', seq(('z', A()), act=act(['A', 'A'], 'A') + '(l%s, z)' % cl))), act=act(['C']) + '(va)'), 'C')
    use(seq(('va', K()), ('wa', call('twice', seq(('wa', A()), act=act(['A', 'A'], 'A') + '(va%s, wa)' % cl))), act=act(['A', 'C']) + '(va, wa)'), 'C')
    use(seq(('x', K()), ('y', call('two', seq(('y', A()), act=act(['A', 'A'], 'A') + '(x%s, y)' % cl), seq(('x', call('b')), act='x'))), act=act(['A', 'C']) + '(x, y)'), 'C')
    use(call('two', A(), call('b')), 'C')
    use(call('fwdsw', A(), call('b')), 'C')
    use(call('fwdsw', K(), call('m')), 'C')
    use(call('fwd', A(), tys=T('A')), 'A')
    use(call('fwd', call('b'), tys=T('B')), 'B')
    use(call('fwdy', A(), K(), tys=T('A')), 'A')
    use(call('fwdy', call('b'), call('m'), tys=T('B')), 'B')
    use(call('deep', A(), tys=T('A')), 'A')
    use(call('deep', call('twice', K()), tys=T('C')), 'C')
    use(call('chx', A(), K(), tys=T('A')), 'A')
    use(call('chx', seq(('va', K()), ('wa', K()), act=g2 + '(va, wa)'), seq(('va', A()), act=act(['A']) + '(va)'), tys=T('C')), 'C')
    use(call('lookp', A()), 'C')
    use(call('notx', call('m'), tys=T('B')), 'A')
    use(call('notx', call('list', K(), lit('c'), tys=T('A')), tys=T('Vec<A>')), 'A')
    use(call('quietx', K(), tys=T('A')), 'A')
    use(call('quietx', call('par', K(), tys=T('A')), tys=T('A')), 'A')
    use(call('slx', A()), "&'input str" if b.concrete else "Sl<'input>")
    use(call('optx', K(), tys=T('A')), 'Option<A>')
    use(seq(('va', call('optx', call('optx', call('b'), tys=T('B')), tys=T('Option<B>'))), act=act(['Option<Option<B>>']) + '(va)'), 'C')
    for n in (0, 1, 2, 3): use(call('cnt', '%dusize' % n, K()), 'Vec<A>')
    use(call('cntmax', K(), '2usize'), 'Vec<A>')
    use(call('bet', '1usize', '2usize', K()), 'Vec<A>')
    use(seq(('na', position()), ('va', call('cnt', 'na', K())), act=act(['Vec<A>', 'usize']) + '(va, na)'), 'C')
    use(seq((None, A()), ('na', position()), ('va', call('bet', '1usize', 'na', K())), act=act(['Vec<A>', 'usize']) + '(va, na)'), 'C')
    use(call('val', '1usize', '2usize'), 'C')
    use(call('val', '0usize', '1usize'), 'C')
    use(call('valsw', '1usize', '2usize'), 'C')
    use(call('val3', '0usize', '1usize', '2usize'), 'C')
    use(call('val3', '2usize', '0usize', '1usize'), 'C')
    use(seq(('m', position()), ('z', A()), ('na', position()), ('va', call('val', 'na', 'm')), act=act(['A', 'C']) + '(z, va)'), 'C')
    use(call('mixed', '1usize', A(), '2usize'), 'C')
    use(call('mixed', '2usize', K(), '0usize'), 'C')
    use(seq(('na', position()), ('m', K()), ('va', call('mixed', 'na', seq(('na', A()), act=act(['A', 'A'], 'A') + '(m%s, na)' % cl), '1usize')), act=act(['C']) + '(va)'), 'C')
    use(call('guard', A(), '1usize', tys=T('A')), 'A')
    use(call('guard', call('list', K(), lit('c'), tys=T('A')), '2usize', tys=T('Vec<A>')), 'Vec<A>')
    use(seq((None, call('un2', lit('b'))), (None, call('b'))), None)
    use(seq((None, call('un2', seq((None, K()), (None, opt(lit('c')))))), (None, call('b'))), None)
    use(call('lst2', K(), lit('c'), tys=T('A')), 'Vec<A>')
    use(call('optlist', K(), lit('c'), tys=T('A')), 'Vec<A>')
    use(call('optlist', call('par', A(), tys=T('A')), seq((None, call('un2', lit('c'))), (None, seq())), tys=T('A')), 'Vec<A>')
    use(choice(call('par', K(), tys=T('A')), call('chx', A(), K(), tys=T('A'))), 'A')
    use(star(call('par', A(), tys=T('A'))), 'Vec<A>')
    use(seq((None, look(call('par', A(), tys=T('A')))), ('va', A()), act='va'), 'A')
    use(seq((None, call('par', A(), tys=T('A'))), (None, call('par', call('b'), tys=T('B')))), None)
    # every operator inside an argument
    for op in OPS:
        e = build(op, b, [])
        if valueless(e): continue
        use(call('par', e, tys=T(b.T(e))), b.T(e) if b.T(e) != '()' else None)
    for l in LEAVES:
        e = LEAVES[l](b)
        if l in ('hunit', 'cust'): continue
        use(call('par', e, tys=T(b.T(e))), b.T(e) if b.T(e) != '()' else None)
    if cfg:
        ac = b.act(['A', 'usize'])
        use(call('p', 'cfg'), 'A')
        use(call('val', 'cfg', 'alt'), 'C')
        use(call('valsw', 'cfg', '1usize'), 'C')
        use(call('cnt', 'cfg', K()), 'Vec<A>')
        use(rep(K(), '{alt}', None), 'Vec<A>')
        use(rep(K(), '{cfg}', '{cfg}', lit('c'), form='exact'), 'Vec<A>')
        use(call('twice', call('p', 'alt')), 'C')
        use(call('twice', seq(('z', A()), act=b.act(['A', 'usize'], 'A') + '(z, alt)')), 'C')
        use(call('mixed', 'cfg', call('p', 'alt'), 'cfg'), 'C')
        use(seq(('va', A()), act=ac + '(va, cfg)'), 'C')
        use(seq(('va', K()), act=b.act(['A', 'usize'], 'C', True) + '(va, alt)', cond=True), 'C')
        use(choice(seq(('va', K()), act=ac + '(va, cfg)'), seq(('cfg', call('c')), act=b.act(['A', 'usize']) + '(cfg, alt)')), 'C')
    return helpers, out

# ---- precedence blocks ----
def alphabet(r):
    t = text(r.expr)
    cs = []
    def walk(e):
        if e.kind == 'lit': cs.extend(e.s)
        if e.kind == 'pat': cs.extend(re.findall("'(.)'", e.text))
        if e.kind == 'call': cs.extend({'k': 'a', 'a': 'a', 'm': 'bc', 'b': 'b', 'c': 'c', 'd': '', 'p': 'ab'}[e.name])
        for x in subs(e): walk(x)
    walk(r.expr)
    cs = sorted(set(cs))[:7]
    return cs, {1: 7, 2: 7, 3: 6, 4: 5, 5: 5, 6: 4}.get(len(cs), 4)

def prec_shapes(b, rng=None, n=0):
    """every kind of operator, alone and with every other kind, at the same and at different levels"""
    out = []
    L = lit
    K, M, A, C = lambda: call('k'), lambda: call('m'), lambda: call('a'), lambda: call('c')
    D = lambda: call('d')
    P = lambda cs: pat("[%s]" % ' | '.join("'%s'" % c for c in cs), ' || '.join("{c} == '%s'" % c for c in cs))
    f = lambda *ts: b.act(list(ts), 'A')
    w = b.act(['usize', 'A', 'usize'], 'A')
    def act(els):
        """an action over everything labelled"""
        ts, ls = [], []
        for l, x in els:
            if not l: continue
            ls.append(l); ts.append('A' if isinstance(x, str) else b.T(x))
        return (els, '%s(%s)' % (f(*ts), ', '.join(ls)))
    left = lambda *op, a='xl', c='yr': act([(a, '(@)')] + mid(op) + [(c, '@')])
    right = lambda *op, a='xl', c='yr': act([(a, '@')] + mid(op) + [(c, '(@)')])
    post = lambda *op, m='@': act([('xl', m)] + mid(op))
    pre = lambda *op, m='@': act(mid(op) + [('yr', m)])
    pres = lambda *op: pre(*op, m='(@)')
    atom = lambda *op: act(mid(op))
    def mid(op): return [z if isinstance(z, tuple) else (None, z) for z in op]
    k1 = lambda: atom(('ka', K()))
    def use(levels, ret='A', **kw):
        r = b.add(prec(levels, **kw), ret); out.append(r)
        r.inputs = alphabet(r)
        return r
    if rng:
        while len(out) < n:
            rec = ['r%d' % (b.n + 1)]
            sym = lambda: rng.choice('+-*!')
            def extra(l):
                x = rng.random()
                if x < .65: return []
                e = rng.choice([K, M, A, D, lambda: opt(K()), lambda: star(M()), lambda: plus(K(), L(',')), lambda: L('('), lambda: notp(L('!')), lambda: look(K()), lambda: slc(star(P('ab')))])()
                return [(l, e) if rng.random() < .5 and not valueless(e) and e.kind not in ('not', 'lit') else e]
            def level():
                o = []
                for _ in range(rng.choice([1, 1, 1, 2])):
                    kd = rng.choice(['l', 'l', 'r', 'po', 'pr', 'ps', 'at'])
                    es = extra('ea') + [L(sym())] + extra('eb')
                    if kd == 'at': o.append(atom(*(extra('ea') + [('ka', rng.choice([K, M])())] + extra('eb')))); continue
                    if kd in ('pr', 'ps'): es = es[-2:] if es[0] not in es[-2:] else es
                    o.append({'l': left, 'r': right, 'po': post, 'pr': pre, 'ps': pres}[kd](*es))
                return o
            ls = [level() for _ in range(rng.choice([1, 2, 2, 3]))]
            ls[rng.randrange(len(ls))].append(k1())
            use(ls, **(dict(wrap=('sl', 'nv', 'sr', w + '(sl, nv, sr)')) if rng.random() < .3 else {}))
        return out
    # one operator with an atom
    for inf in (left, right): use([[inf(L('+'))], [k1()]])
    use([[post(L('!'))], [k1()]]); use([[post(L('!'), m='(@)')], [k1()]]); use([[pre(L('-'))], [k1()]]); use([[pres(L('-'))], [k1()]])
    use([[k1()]]); use([[left(L('+')), k1()]]); use([[left(L('+'))], [atom(('ka', A()))]])
    # several at one level, in both orders, sharing a prefix
    for o1, o2 in (('+', '-'), ('+', '+='), ('+=', '+')):
        use([[left(L(o1)), left(L(o2))], [k1()]]); use([[left(L(o1)), right(L(o2))], [k1()]]); use([[left(L(o1)), post(L(o2))], [k1()]]); use([[post(L(o1)), left(L(o2))], [k1()]])
        use([[left(L(o1))], [left(L(o2))], [k1()]]); use([[right(L(o1))], [left(L(o2))], [k1()]]); use([[left(L(o1))], [right(L(o2))], [k1()]]); use([[right(L(o1)), right(L(o2))], [k1()]])
        use([[left(L(o1))], [post(L(o2))], [k1()]]); use([[post(L(o1))], [left(L(o2))], [k1()]]); use([[pre(L(o1))], [pre(L(o2))], [k1()]]); use([[pres(L(o1)), pres(L(o2))], [k1()]])
        use([[left(L(o1))], [pre(L(o2))], [k1()]]); use([[pres(L(o1))], [left(L(o2))], [k1()]]); use([[left(L(o1)), pre(L(o2))], [k1()]]); use([[left(L(o1)), pres(L(o2))], [k1()]])
        use([[pre(L(o1))], [right(L(o2))], [k1()]]); use([[right(L(o1))], [pres(L(o2))], [k1()]]); use([[pre(L(o1))], [post(L(o2))], [k1()]]); use([[post(L(o1))], [pres(L(o2))], [k1()]]); use([[pres(L(o1)), post(L(o2))], [k1()]])
    # the same symbol in several roles
    use([[left(L('-'))], [pre(L('-'))], [k1()]]); use([[left(L('-'))], [pres(L('-'))], [post(L('-'))], [k1()]]); use([[pres(L('-')), post(L('-'))], [k1()]])
    use([[left(L('+')), pre(L('+')), post(L('!')), k1()]]); use([[pre(L('-')), left(L('-')), k1(), post(L('!'))]])
    # three and four levels
    use([[left(L('+')), left(L('-'))], [left(L('*'))], [right(L('^'))], [k1()]])
    use([[right(L('='))], [left(L('+'))], [pres(L('-'))], [post(L('!'))], [k1(), atom(L('('), ('ea', A()), L(')'))]])
    use([[post(L('!'))], [pre(L('-'))], [left(L('+'))], [k1()]])
    use([[left(L('+'))], [k1()], [right(L('^'))], [atom(('ma', M()))]])
    use([[k1()], [left(L('+'))], [pre(L('-'))]])
    use([[right(L('='))], [left(L('+'))], [right(L('*'))], [k1()]])
    # operators of several elements, with values, with rules of their own
    use([[left(A(), L('+'), D())], [k1()]]); use([[left(('oa', K()))], [left(('ob', M()), ('oc', opt(M())))], [k1()]])
    use([[act([('xl', '@'), (None, L('?')), ('em', A()), (None, L(':')), ('yr', '(@)')])], [left(L('+'))], [k1()]])
    use([[post(L('['), ('ei', A()), L(']')), post(L('('), ('es', star(K(), L(','))), L(')')), post(L('.'), ('em', M()))], [k1()]])
    use([[pre(L('['), ('et', A()), L(']'))], [pres(L('-'), ('eu', star(K())))], [k1()]])
    use([[left(('os', slc(plus(P('+-')))))], [right(('ot', P('*/')))], [k1()]])
    use([[left(L('+'), notp(L('+')))], [pre(L('-'), look(K()))], [k1()]])
    use([[left(notp(L('!')), K())], [k1()]])
    use([[left(choice(L('+'), L('-')))], [post(choice(L('!'), L('++')))], [pre(choice(L('-'), L('!')))], [k1()]])
    use([[left(L('+'))], [pre(L('+'), L('+'))], [atom(('ka', K()), ('kb', opt(K())))]])
    use([[left(star(K()), L('+'))], [post(rep(K(), 1, 2, L(',')))], [atom(('ka', plus(M())))]])
    use([[left(quiet(L('+')))], [post(choice(quiet(L('!')), exp('postfix')), )], [k1(), atom(('ka', choice(quiet(M()), exp('atom'))))]])
    use([[left(call('p', '1usize'), L('+'))], [pre(call('p', '2usize'), L('-'))], [atom(('ka', call('p', '0usize')))]])
    use([[left(('po', position()), L('+'), ('qo', position()))], [atom(('po', position()), ('ka', K()))]])
    use([[left(L('+'), L('='))], [left(L('+'))], [post(L('+'), L('+'))], [k1()]])
    # atoms in order
    use([[left(L('+'))], [atom(L('('), ('ea', K()), L(')')), atom(('ka', K())), atom(('ma', M())), atom(('ca', C()))]])
    use([[pre(L('-')), atom(('ka', K())), pres(L('!')), atom(('ca', C()))]])
    use([[atom(('ka', K()), ('ma', M())), atom(('ka', K()))], [left(L('+'))], [atom(('ma', M()))]])
    use([[left(L('+'))], [atom(('va', A()), (None, notp(L('!')))), atom(('ca', C()))]])
    use([[left(L('+'))], [(mid([('ka', K())]), 'ka')]]); use([[([('xl', '(@)'), (None, L('+')), (None, '@')], f('A') + '(xl)')], [([(None, '@'), (None, L('!'))], f() + '()')], [([(None, L('-')), (None, '@')], f() + '()')], [k1()]])
    use([[([('xl', '(@)'), (None, L('+')), ('yr', '@')], 'xl')], [([('xl', '@'), (None, L('^')), ('yr', '(@)')], 'yr')], [([('xl', '@'), (None, L('!'))], 'xl')], [([(None, L('-')), ('yr', '@')], 'yr')], [k1()]])
    # operands next to each other
    use([[left(seq())], [k1()]], juxt=True); use([[left(D())], [left(L('+'))], [post(L('!'))], [k1()]], juxt=True); use([[right(L('^'))], [left(A())], [pre(L('-'))], [k1()]], juxt=True)
    use([[left(star(M()))], [right(opt(L('*')))], [k1()]], juxt=True)
    # the operators' spans
    ws = lambda *ls, **kw: use(*ls, wrap=('sl', 'nv', 'sr', w + '(sl, nv, sr)'), **kw)
    for inf in (left, right): ws([[inf(L('+'))], [k1()]])
    ws([[post(L('!'))], [k1()]]); ws([[pre(L('-'))], [k1()]]); ws([[pres(L('-'))], [k1()]]); ws([[k1()]])
    ws([[left(L('+')), left(L('-'))], [right(L('^')), post(L('!'))], [pre(L('-')), k1(), atom(L('('), ('ea', A()), L(')'))]])
    ws([[left(D(), L('+'), D())], [pres(L('-'), D())], [post(D(), L('!'))], [atom(D(), ('ka', K()))]])
    ws([[left(D())], [k1()]], juxt=True)
    return out

def prec_nested(b):
    """blocks inside other expressions, blocks that call themselves through their atoms, several blocks in a rule (bounded runs only)"""
    L = lit
    K, M, A = lambda: call('k'), lambda: call('m'), lambda: call('a')
    f2 = b.act(['A', 'A'], 'A'); f1 = b.act(['A'], 'A'); w = b.act(['usize', 'A', 'usize'], 'A')
    left = lambda *op: ([('xl', '(@)')] + [(None, o) for o in op] + [('yr', '@')], f2 + '(xl, yr)')
    right = lambda *op: ([('xl', '@')] + [(None, o) for o in op] + [('yr', '(@)')], f2 + '(xl, yr)')
    post = lambda *op: ([('xl', '@')] + [(None, o) for o in op], f1 + '(xl)')
    pre = lambda *op: ([(None, o) for o in op] + [('yr', '@')], f1 + '(yr)')
    k1 = lambda: ([('ka', K())], 'ka')
    wrap = ('sl', 'nv', 'sr', w + '(sl, nv, sr)')
    def R(name, e, inputs, ret='A'):
        r = Rule(name, e, ret, pub=True); r.inputs = inputs
        b.g.rules.append(r); b.g.by[name] = r
    b.g.by['n1'] = Rule('n1', None, 'A'); b.g.by['n2'] = Rule('n2', None, 'A'); b.g.by['n3'] = Rule('n3', None, 'A')
    par = lambda n: ([(None, L('(')), ('ea', call(n)), (None, L(')'))], 'ea')
    R('n1', prec([[left(L('+'))], [right(L('^'))], [pre(L('-')), k1(), par('n1')]]), (list('a+^-()'), 5))
    R('n2', prec([[left(L('+')), left(L('-'))], [left(L('*'))], [post(L('!'))], [k1(), par('n2')]], wrap), (list('a+*!()'), 5))
    R('n3', prec([[([('xl', '@'), (None, L('[')), ('ea', call('n3')), (None, L(']'))], f2 + '(xl, ea)')], [left(L(','))], [k1()]]), (list('a,[]'), 6))
    R('n4', seq((None, L('(')), ('ea', prec([[left(L('+'))], [k1()]])), (None, L(')')), act='ea'), (list('a+()'), 6))
    R('n5', star(prec([[left(L('+')), post(L('!'))], [k1()]]), L(',')), (list('a+!,'), 6), 'Vec<A>')
    R('n6', choice(prec([[left(L('+'))], [k1()]]), prec([[left(L('*'))], [([('ma', M())], b.act(['B'], 'A') + '(ma)')]])), (list('ab+*'), 5))
    R('n7', seq(('ea', prec([[left(prec([[left(L('+'))], [([(None, L('-'))], b.act([], 'A') + '()')]]))], [k1()]])), act='ea'), (list('a+-'), 7))
    R('n8', seq((None, look(prec([[left(L('+'))], [k1()]]))), ('sa', slc(prec([[right(L('+'), L('+')), post(L('+'))], [k1()]]))), act=b.act(["&'input str"], 'A') + '(sa)'), (list('a+'), 8))
    R('n9', seq((None, quiet(prec([[left(L('+'))], [k1()]]))), ('ea', opt(prec([[left(L('*'))], [k1()]]))), act=b.act(['Option<A>'], 'A') + '(ea)'), (list('a+*'), 6))
    for nm, cfg in (('nc', 'cache'), ('nd', 'cache')):
        r = Rule(nm, prec([[left(L('+'))], [right(L('^'))], [k1(), par('n1')]], wrap if nm == 'nd' else None), 'A', pub=True, cache=cfg); r.inputs = (list('a+^'), 6)
        b.g.rules.append(r); b.g.by[nm] = r
    r = Rule('np', prec([[left(L('+'))], [([('xp', arg('x', 'A'))], 'xp'), ([(None, L('-')), ('yr', '@')], f1 + '(yr)')]]), 'A', params=[('x', 'A', 'rule')])
    b.g.rules.append(r); b.g.by['np'] = r
    R('n10', call('np', K()), (list('ab+-'), 6)); R('n11', call('np', call('np', K())), (list('ab+-'), 6)); R('n12', call('np', seq((None, L('(')), ('za', K()), (None, L(')')), act='za')), (list('a+()'), 6))
