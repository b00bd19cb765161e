"""C16: grammars with mistakes at every kind of place, and how many there are."""
import random
import meta

# expressions as in meta, and ('lab', e) for a labelled element of a sequence, ('rule', name, args, 'T') for a call with generics
def text(e, ctx='choice'):
    return meta.text(e, ctx)

class Rule:
    def __init__(s, name, e, ret=False, params=(), gen=False, cache=None, pub=False, no_eof=False):
        s.name, s.e, s.ret, s.params, s.gen, s.cache, s.pub, s.no_eof = name, e, ret, params, gen, cache, pub, no_eof
    def text(s):
        return '%s%s%srule %s%s(%s)%s = %s' % ('#[%s] ' % s.cache if s.cache else '', '#[no_eof] ' if s.no_eof else '', 'pub ' if s.pub else '', s.name, '<T>' if s.gen else '',
            ', '.join('%s: %s' % (n, 'rule<i32>' if k == 'rule' else 'i32') for n, k in s.params), ' -> i32' if s.ret else '', text(s.e))

# rules for the calls: v has a value, n none; p takes a Rust argument, c a closure, pc both, g is generic
EXTRA = [Rule('v', ('seq', [('lit',)], True), ret=True), Rule('n', ('lit',)), Rule('p', ('seq', [('lit',)], True), ret=True, params=[('k', 'rust')]),
         Rule('c', ('seq', [('lit',)], True), ret=True, params=[('q', 'rule')]), Rule('pc', ('lit',), params=[('k', 'rust'), ('q', 'rule')]), Rule('g', ('seq', [('lit',)], True), ret=True, gen=True)]

class Grammar:
    def __init__(s, rules): s.rules = list(rules)
    def text(s): return 'grammar g() for str {\nuse a::b;\n' + '\n'.join(r.text() for r in s.rules) + '\n}'

def label(e): return e[1] if e[0] == 'lab' else e
def wrong(e, used, rules, own):
    """how many mistakes are to be reported in e"""
    k = e[0]
    W = lambda x, u: wrong(x, u, rules, own)
    els = lambda v: sum(W(label(x), x[0] == 'lab') for x in v)
    if k == 'rule':
        args, gen = (e[2] if len(e) > 2 else []), len(e) > 3
        if e[1] in own: return 1 if args or gen else 0
        r = rules.get(e[1])
        if r is None or (used and not r.ret) or len(r.params) != len(args): return 1
        return sum(W(a[1], True) for a in args if a[0] == 'peg')
    if k == 'mark': return 1
    if k in ('opt', 'and', 'quiet'): return W(e[1], used)
    if k in ('not', 'str'): return W(e[1], False)
    if k == 'rep': return W(e[1], used) + (W(e[3], False) if e[3] is not None else 0)
    if k == 'choice': return sum(W(x, used) for x in e[1])
    if k == 'seq':
        # one unlabelled element without an action is that element
        if len(e[1]) == 1 and not e[2] and e[1][0][0] != 'lab': return W(e[1][0], used)
        return els(e[1])
    if k == 'prec':
        ops = [op for lv in e[1] for op in lv]
        kind = lambda x: label(x)[0] if label(x)[0] in ('mark', 'position') else '-'
        for op in ops:
            s = [kind(x) for x in op]
            if not op: return 1
            if len(op) == 3 and s[0] == s[2] == 'position' and s[1] != 'mark': return 1
            if len(op) >= 3 and s[0] == s[-1] == 'mark' and label(op[0])[1] == label(op[-1])[1]: return 1
        n = 0
        for op in ops:
            s = [kind(x) for x in op]
            if len(op) == 3 and s[0] == s[2] == 'position': continue
            if len(op) >= 3 and s[0] == s[-1] == 'mark': n += els(op[1:-1])
            elif len(op) >= 2 and s[0] == 'mark': n += els(op[1:])
            elif len(op) >= 2 and s[-1] == 'mark': n += els(op[:-1])
            else: n += els(op)
        return n
    return 0

def total(g):
    rules = {}
    for r in g.rules: rules.setdefault(r.name, r)
    seen, n = set(), 0
    for r in g.rules:
        if r.name in seen: n += 1; continue
        seen.add(r.name)
        if r.cache and (r.params or r.gen): n += 1; continue
        if r.pub: n += sum(1 for _, k in r.params if k == 'rule')
        elif r.no_eof: n += 1
        n += wrong(r.e, r.ret, rules, {p for p, _ in r.params})
    return n

def one(*a): return [('rust', x) for x in a]
Q = ('peg', ('lit',))
# what to put at a place: right and wrong calls
ATOMS = [('rule', 'v'), ('rule', 'n'), ('rule', 'zz'), ('rule', 'zz', one('1')), ('rule', 'v', one('1')), ('rule', 'p'), ('rule', 'p', one('1')), ('rule', 'p', one('1', '2')), ('rule', 'c', [Q]),
         ('rule', 'c'), ('rule', 'pc', one('1') + [Q]), ('rule', 'pc', [Q]), ('rule', 'q'), ('rule', 'q', one('1')), ('mark', False), ('mark', True), ('lit',), ('pat',), ('position',), ('fail',)]
def labelled(e): return e[0] not in ('lit',)
def wraps(e, f):
    for w in meta.wrap(e, f):
        if w[0] == 'rule': w = ('rule', 'c', [('peg', e)]) if w[1] == 'w' else ('rule', 'pc', [('rust', '1'), ('peg', e)])
        yield w
    if labelled(e):
        L = ('lab', e)
        yield ('seq', [L, f], True); yield ('seq', [f, L], False); yield ('seq', [L], True)
        M, MM = ('mark', False), ('mark', True)
        yield ('prec', [[[M, L, MM]], [[f, L]]]); yield ('prec', [[[L, f, M]], [[M, f, L]]])
    yield ('rule', 'c', [('peg', ('seq', [('opt', e)], False))])
    yield ('rule', 'zz', [('peg', e)])

def rand_expr(rng, d):
    if d == 0: return rng.choice(ATOMS)
    return rng.choice(list(wraps(rand_expr(rng, d - 1), rand_expr(rng, rng.randrange(d)))))

def ok_elem(e):
    """written as it is meant: markers are elements of a sequence only"""
    return True

def grammars(tier, seed):
    rng = random.Random(seed)
    out = []
    def put(e, ret=None, **kw):
        for r in ([False, True] if ret is None else [ret]):
            out.append(Grammar([Rule('a', e, ret=r, params=[('q', 'rule')], **kw)] + EXTRA))
    # every right and wrong call alone, under every operator, under two
    for x in ATOMS:
        put(x)
        for y in (('lit',), ('rule', 'v'), ('rule', 'zz')):
            for w in wraps(x, y):
                put(w)
                if y == ('lit',):
                    v = list(wraps(w, y))
                    for u in v if tier == 'thorough' else rng.sample(v, 5): put(u)
    # generics
    for n in ('g', 'q', 'zz', 'v'):
        for w in ('opt', 'and', 'quiet', None):
            x = ('rule', n, [], 'T')
            if w: continue
            put(('seq', [('lab', x)], True)); put(('seq', [('lit',), ('lab', x)], False)); put(('choice', [('seq', [('lab', x)], True), ('rule', 'v')]))
    # operators of every shape of up to 4 elements, alone and beside a good one
    P = [('lit',), ('mark', False), ('mark', True), ('position',), ('rule', 'n')]
    shapes = [[]]
    for k in range(1, 4 if tier != 'thorough' else 5):
        shapes += [[*s, p] for s in shapes if len(s) == k - 1 for p in P]
    for s in shapes:
        put(('prec', [[s]]), ret=True)
        put(('prec', [[[('mark', False), ('lit',), ('mark', True)]], [[('rule', 'v')], s]]), ret=False)
        if len(s) in (2, 3):
            put(('prec', [[[('lab', x) if labelled(x) else x for x in s]], [[('rule', 'zz')]]]), ret=True)
    # rules
    names = ['a', 'b', 'v', 'w']
    for i in range(20000 if tier == 'thorough' else 4000):
        rs = []
        for k in range(rng.randrange(1, 4)):
            prm = rng.choice([(), (), [('k', 'rust')], [('q', 'rule')], [('q', 'rule'), ('q2', 'rule')], [('k', 'rust'), ('q', 'rule')]])
            rs.append(Rule(rng.choice(names), rand_expr(rng, rng.choice([0, 0, 1, 2, 3])), ret=rng.random() < .5, params=prm, gen=rng.random() < .2, cache=rng.choice([None, None, 'cache', 'cache_left_rec']),
                           pub=rng.random() < .4, no_eof=rng.random() < .3))
        g = rs + EXTRA if rng.random() < .7 else EXTRA + rs
        out.append(Grammar(g))
    return out
