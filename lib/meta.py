"""Grammars as data for the checks of the macro itself: text, declarative oracles, enumeration."""
import random, itertools

# expressions: ('lit',) ('pat',) ('rule',name[,args]) ('method',) ('custom',) ('fail',) ('position',) ('mark',bool)
#   ('opt',e) ('and',e) ('not',e) ('str',e) ('quiet',e) ('rep',e,bound,sep|None) ('seq',[e..],action) ('choice',[e..])
#   ('prec',[[[e..],..],..])      args: ('peg',e) ('rust',text)
BOUNDS = {'*': ('*', 0, 0), '+': ('+', 1, 0), '2': ('*<2>', 1, 1), '1,': ('*<1,>', 1, 0), ',2': ('*<,2>', 0, 1), '0,3': ('*<0,3>', 1, 1), ',': ('*<,>', 0, 0), 'b': ('*<{n}>', 1, 1)}

def text(e, ctx='choice'):
    """ctx: what the place takes: choice, seq element, primary"""
    k = e[0]
    if k == 'lit': return '"x"'
    if k == 'pat': return "['a'..='z']"
    if k == 'lab': return 'l:' + text(e[1], 'pre2')
    if k == 'rule': return '%s%s(%s)' % (e[1], '::<%s>' % e[3] if len(e) > 3 else '', ', '.join('<%s>' % text(a[1]) if a[0] == 'peg' else a[1] for a in (e[2] if len(e) > 2 else ())))
    if k == 'method': return '##m()'
    if k == 'custom': return '#{|i, p| c(i, p)}'
    if k == 'fail': return 'expected!("f")'
    if k == 'position': return 'position!()'
    if k == 'mark': return '(@)' if e[1] else '@'
    if k == 'quiet': return 'quiet!{%s}' % text(e[1])
    if k == 'prec': return 'precedence!{ %s }' % ' -- '.join(' '.join(' '.join(text(x, 'elem') for x in op) + ' { 0 }' for op in lv) for lv in e[1])
    par = lambda s: '(' + s + ')'
    if k in ('and', 'not', 'str'):
        s = {'and': '&', 'not': '!', 'str': '$'}[k] + text(e[1], 'primary')
        return s if ctx in ('choice', 'seq', 'elem', 'pre') else par(s)
    if k == 'opt':
        s = text(e[1], 'pre') + '?'
        return s if ctx in ('choice', 'seq', 'elem') else par(s)
    if k == 'rep':
        b = BOUNDS[e[2]][0]
        if e[3] is not None:
            b = '++' if b == '+' else '*' + b
            s = '%s %s %s' % (text(e[1], 'pre'), b, text(e[3], 'primary'))
        else: s = '%s%s' % (text(e[1], 'pre'), b)
        return s if ctx in ('choice', 'seq', 'elem') else par(s)
    if k == 'seq':
        s = ' '.join(text(x, 'elem') for x in e[1]) + (' { 0 }' if e[2] else '')
        return s if ctx in ('choice', 'seq') else par(s)
    if k == 'choice':
        s = ' / '.join(text(x, 'seq') for x in e[1])
        return s if ctx == 'choice' else par(s)
    raise ValueError(k)

def kids(e):
    k = e[0]
    if k in ('opt', 'and', 'not', 'str', 'quiet'): return [e[1]]
    if k == 'rep': return [e[1]] + ([e[3]] if e[3] is not None else [])
    if k == 'seq' or k == 'choice': return list(e[1])
    if k == 'prec': return [x for lv in e[1] for op in lv for x in op]
    if k == 'rule': return [a[1] for a in (e[2] if len(e) > 2 else ()) if a[0] == 'peg']
    return []
def walk(e):
    yield e
    for x in kids(e): yield from walk(x)

class G:
    """rules: list of (name, expr, cache) with cache in None, 'cache', 'cache_left_rec'; extra: text of further rules"""
    def __init__(self, rules, extra=''):
        self.rules, self.extra = rules, extra
    def text(self):
        return 'grammar g() for str {\n' + '\n'.join('%srule %s() = %s' % ('#[%s] ' % c if c else '', n, text(e)) for n, e, c in self.rules) + '\n' + self.extra + '}'
    def body(self, n):
        return next((e for m, e, c in self.rules if m == n), None)

def nullset(g):
    """least fixed point"""
    N = set()
    while True:
        new = {n for n, e, c in g.rules if null(e, N)}
        if new == N: return N
        N = new
def null(e, N):
    k = e[0]
    if k == 'rule': return e[1] in N
    if k in ('opt', 'and', 'not', 'position'): return True
    if k == 'rep': return not BOUNDS[e[2]][1] or null(e[1], N)
    if k == 'seq': return all(null(x, N) for x in e[1])
    if k == 'choice': return any(null(x, N) for x in e[1])
    if k in ('str', 'quiet'): return null(e[1], N)
    if k == 'prec': return any(all(null(x, N) for x in op) for lv in e[1] for op in lv)
    return False
def calls(e, N):
    """rules called before anything need have been consumed"""
    k = e[0]
    if k == 'rule': return {e[1]}
    if k in ('opt', 'and', 'not', 'str', 'quiet'): return calls(e[1], N)
    if k == 'rep':
        r = calls(e[1], N)
        return r | (calls(e[3], N) if e[3] is not None and null(e[1], N) else set())
    def seq(v):
        r = set()
        for x in v:
            r |= calls(x, N)
            if not null(x, N): break
        return r
    if k == 'seq': return seq(e[1])
    if k == 'choice': return set().union(*[calls(x, N) for x in e[1]]) if e[1] else set()
    if k == 'prec': return set().union(*[seq(op) for lv in e[1] for op in lv])
    return set()
def edges(g):
    N = nullset(g)
    names = {n for n, _, _ in g.rules}
    return {n: calls(e, N) & names for n, e, c in g.rules}
def reach(E, x, ok):
    seen, todo = set(), [x]
    while todo:
        for z in E[todo.pop()]:
            if z not in seen and ok(z): seen.add(z); todo.append(z)
    return seen
def circles(g):
    """(rules on a circle, rules on a circle without #[cache_left_rec])"""
    E = edges(g)
    lr = {n for n, _, c in g.rules if c == 'cache_left_rec'}
    allc = {n for n in E if n in reach(E, n, lambda z: True) and n not in lr}
    pl = {n for n in E if n not in lr and n in reach(E, n, lambda z: z not in lr)}
    return allc, pl, E
def loops(g):
    N = nullset(g)
    return sum(1 for n, e, c in g.rules for x in walk(e)
               if x[0] == 'rep' and not BOUNDS[x[2]][2] and null(x[1], N) and (x[3] is None or null(x[3], N)))

# ---- enumeration ----
def atoms(names):
    return [('lit',), ('pat',), ('method',), ('custom',), ('fail',), ('position',), ('seq', [], False)] + [('rule', n) for n in names]
def wrap(e, f):
    """every operator around e; f: what stands beside it"""
    yield ('opt', e); yield ('and', e); yield ('not', e); yield ('str', e); yield ('quiet', e)
    for b in BOUNDS: yield ('rep', e, b, None)
    for b in ('*', '+', ',2', '1,'): yield ('rep', e, b, f)
    for b in ('*', '+', ',2', '1,'): yield ('rep', f, b, e)
    yield ('seq', [e, f], False); yield ('seq', [f, e], True); yield ('seq', [f, f, e], False)
    yield ('choice', [e, f]); yield ('choice', [f, e])
    yield ('rule', 'w', [('peg', e)]); yield ('rule', 'w2', [('rust', '1, 2'[:1]), ('peg', e)])
    M = ('mark', False); MM = ('mark', True)
    yield ('prec', [[[('lit',)]], [[e]]]); yield ('prec', [[[M, e, MM]], [[f, e]]])
    yield ('prec', [[[e, M]], [[('lit',), e], [f]]]); yield ('prec', [[[M, f, e]], [[('pat',)]]])

EXTRA = 'rule w(p: rule<()>) = "w" p()\nrule w2(n: i32, p: rule<()>) = "w" p()\n'
def rand_expr(rng, names, d):
    if d == 0: return rng.choice(atoms(names))
    e = rand_expr(rng, names, d - 1)
    f = rand_expr(rng, names, rng.randrange(d))
    return rng.choice(list(wrap(e, f)))
def fix(e):
    """a sequence of one element without action is that element"""
    return e
def closed(g):
    """w and w2 called as rules with arguments: their own bodies consume first"""
    return g

def analysis_grammars(tier, seed):
    rng = random.Random(seed)
    names = ['a', 'b', 'c']
    out = []
    # one operator around every atom, beside every atom
    for x in atoms(['a', 'b']):
        for y in atoms(['a', 'b']):
            for w in wrap(x, y): out.append(G([('a', w, None), ('b', ('choice', [('lit',), ('opt', ('lit',))]), None)], EXTRA))
    # two operators around one atom
    for x in [('rule', 'a'), ('rule', 'b'), ('lit',), ('position',)]:
        for y in [('lit',), ('rule', 'b')]:
            ws = list(wrap(x, y))
            for w in ws:
                v = list(wrap(w, y))
                for u in (v if tier == 'thorough' else rng.sample(v, 8)):
                    out.append(G([('a', u, None), ('b', rng.choice([('opt', ('lit',)), ('lit',), ('rep', ('rule', 'c'), '*', None)]), None), ('c', ('lit',), None)], EXTRA))
    for i in range(60000 if tier == 'thorough' else 8000):
        n = rng.randrange(1, 5)
        ns = ['a', 'b', 'c', 'd'][:n]
        lr = rng.random() < 0.3
        out.append(G([(m, rand_expr(rng, ns + ['zz'] * (rng.random() < 0.1), rng.randrange(0, 4)), rng.choice([None, 'cache', 'cache_left_rec']) if lr else rng.choice([None, None, None, 'cache'])) for m in ns], EXTRA))
    return out
