"""Grammars with #[cache] and #[cache_left_rec] (C05, C06): for the proofs, and concrete for the bounded runs."""
import genrun, schem, cached
from gram import *
from schem import OPS, LEAVES, build, valueless

def grammar(name, concrete):
    b = schem.B(name, concrete)
    b.once = []
    return b
def rule(b, n, e, ret, cache=None, pub=None, **kw):
    r = b.g.by.get(n) or Rule(n, None, ret)
    r.expr, r.ret, r.cache, r.pub = e, ret, cache, b.concrete if pub is None else pub
    for x, v in kw.items(): setattr(r, x, v)
    b.g.rules.append(r); b.g.by[n] = r
    return r
def once(b, n):
    """a rule that is only ever called where n has no cached result yet"""
    h = 'o_' + n
    r = Rule(h, custom(h if b.concrete else 'h'), 'A', hole=None if b.concrete else 'any')
    r.once = n
    if b.concrete: b.g.custs[h] = 'A'
    b.g.rules.append(r); b.g.by[h] = r
    b.once.append(h)
    return r
def ticks(bs):
    return '\n'.join('pub fn %s(_: &str, p: usize) -> peg::RuleResult<V> { tick("%s", p); peg::RuleResult::Matched(p, V::U) }' % (h, h) for h in sorted({h for b in bs for h in b.once}))

a, k, m, bb = (lambda: call('a')), (lambda: call('k')), (lambda: call('m')), (lambda: call('b'))

def simple(b):
    """#[cache]: groups of rules, each a unit of its own"""
    g1, g2 = b.act(['A'], 'C'), b.act(['A', 'A'], 'A')
    out = []
    n = 0
    shapes = [(LEAVES[l](b), l) for l in LEAVES if l not in ('cust',)] + [(build(op, b, []), op) for op in OPS]
    for e, name in shapes:
        for form in ('U', 'D', 'N'):
            if form != 'N' and valueless(e): continue
            n += 1
            r = 'e%d' % n
            if form == 'U':
                once(b, r)
                x = b.lab(e); x.kids.insert(0, call('o_' + r)); x.labels.insert(0, None); ret = 'C'
            elif form == 'N': once(b, r); x = seq((None, call('o_' + r)), (None, e)); ret = None
            else: x = e; ret = None if b.T(e) == '()' else b.T(e)
            if not b.concrete and ret: ret = ret.replace("&'input str", "Sl<'input>")
            grp = [b.g.by['o_' + r]] if form != 'D' else []
            grp.append(rule(b, r, x, ret, 'cache'))
            # used again at the same place: after a lookahead, after an abandoned alternative, and further right
            c = lambda: call(r)
            V = lambda *es, skip=(): b.lab(*es, skip=skip)
            if ret: grp.append(rule(b, r + 'u', choice(b.lab(c(), k(), skip=(0,)), b.lab(c(), bb())), 'C'))
            else: grp.append(rule(b, r + 'u', choice(seq((None, c()), (None, k())), seq((None, c()), (None, bb()))), None))
            grp.append(rule(b, r + 'v', seq((None, look(c())), (None, c()), (None, opt(lit('b'))), (None, c())), None))
            out.append(grp)
    # several cached rules together, one calling the other, at the same place and further right
    c1, c2, c3 = (lambda: call('c1')), (lambda: call('c2')), (lambda: call('c3'))
    once(b, 'c1'); once(b, 'c2')
    grp = [b.g.by['o_c1'], b.g.by['o_c2'],
        rule(b, 'c1', seq((None, call('o_c1')), ('x', a()), ('y', k()), act=g2 + '(x, y)'), 'A', 'cache'),
        rule(b, 'c2', seq((None, call('o_c2')), ('x', choice(seq(('z', c1()), (None, lit('b')), act='z'), c1(), k())), act='x'), 'A', 'cache'),
        rule(b, 'c3', seq(('x', a()), (None, opt(c2())), ('y', c1()), act=g2 + '(x, y)'), 'A', 'cache'),
        rule(b, 'w1', choice(seq(('x', c1()), (None, lit('c')), act='x'), seq(('x', c2()), (None, lit('c')), act='x'), seq(('x', c3()), ('y', c1()), act=g2 + '(x, y)'), c2()), 'A'),
        rule(b, 'w2', seq((None, notp(c1())), ('x', choice(c2(), c3())), act='x'), 'A'),
        rule(b, 'w3', star(c2(), c1()) if False else star(seq(('x', c1()), (None, quiet(c2())), ('y', k()), act=g2 + '(x, y)')), 'Vec<A>'),
        rule(b, 'w4', seq(('x', c1()), ('y', c1()), act=g2 + '(x, y)'), 'A'),
        rule(b, 'w5', seq(('x', c2()), ('y', c1()), act=g2 + '(x, y)'), 'A', pub=True),
        rule(b, 'w6', choice(seq(('x', quiet(c1())), (None, lit('b')), act='x'), c1()), 'A', pub=True, no_eof=True)]
    out.append(grp)
    if not b.concrete: return out
    # recursion through a cached rule, consuming
    grp = [rule(b, 'n1', choice(seq((None, lit('a')), ('x', call('n2')), (None, lit('b')), act='x'), seq((None, lit('a')), ('x', call('n1')), act='x'), k()), 'A', 'cache'),
           rule(b, 'n2', choice(seq(('x', call('n1')), ('y', m()), act=b.act(['A', 'B'], 'A') + '(x, y)'), call('n1')), 'A'),
           rule(b, 'w7', choice(seq(('x', call('n2')), (None, lit('c')), act='x'), call('n1')), 'A', pub=True)]
    out.append(grp)
    return out

LEFT = [
    # (name, alternatives over r): binary operators, postfix, several, with actions, conditions, hidden behind optional parts
    ('plus', lambda r, b, g2: [seq(('x', r()), (None, lit('+')), ('y', a()), act=g2 + '(x, y)'), k()]),
    ('two', lambda r, b, g2: [seq(('x', r()), (None, lit('+')), ('y', k()), act=g2 + '(x, y)'), seq(('x', r()), (None, lit('-')), ('y', a()), act=g2 + '(y, x)'), a()]),
    ('atomfirst', lambda r, b, g2: [seq(('x', k()), (None, lit('!')), act='x'), seq(('x', r()), ('y', k()), act=g2 + '(x, y)'), a()]),
    ('postfix', lambda r, b, g2: [seq(('x', r()), (None, lit('!')), act='x'), k()]),
    ('empty', lambda r, b, g2: [seq(('x', r()), ('y', a()), act=g2 + '(x, y)'), a()]),
    ('empty2', lambda r, b, g2: [seq(('x', r()), (None, lit('+')), ('y', k()), act=g2 + '(x, y)'), seq(('y', opt(k())), act=b.act(['Option<A>'], 'A') + '(y)')]),
    ('empty3', lambda r, b, g2: [seq(('x', r()), ('y', k()), act=g2 + '(x, y)'), seq(('y', position()), act=b.act(['usize'], 'A') + '(y)')]),
    ('both', lambda r, b, g2: [seq(('x', r()), (None, lit('+')), ('y', r()), act=g2 + '(x, y)'), k()]),
    ('self', lambda r, b, g2: [r(), k()]),
    ('selfonly', lambda r, b, g2: [seq(('x', r()), (None, lit('+')), act='x')]),
    ('hidden', lambda r, b, g2: [seq((None, opt(call('d'))), ('x', r()), (None, lit('+')), ('y', k()), act=g2 + '(x, y)'), k()]),
    ('hidden2', lambda r, b, g2: [seq(('z', a()), ('x', r()), (None, lit('+')), act=g2 + '(z, x)'), k()]),
    ('look', lambda r, b, g2: [seq((None, look(r())), ('x', r()), (None, lit('+')), ('y', a()), act=g2 + '(x, y)'), k()]),
    ('not', lambda r, b, g2: [seq((None, notp(r())), ('x', k()), act='x'), seq(('x', r()), ('y', k()), act=g2 + '(x, y)')]),
    ('quiet', lambda r, b, g2: [seq(('x', quiet(r())), (None, lit('+')), ('y', quiet(k())), act=g2 + '(x, y)'), k()]),
    ('cond', lambda r, b, g2: [seq(('x', r()), ('y', a()), act=b.act(['A', 'A'], 'A', True) + '(x, y)', cond=True), k()]),
    ('reps', lambda r, b, g2: [seq(('x', r()), ('y', plus(k(), lit('+'))), act=b.act(['A', 'Vec<A>'], 'A') + '(x, y)'), k()]),
    ('inopt', lambda r, b, g2: [seq(('x', opt(r())), ('y', k()), act=b.act(['Option<A>', 'A'], 'A') + '(x, y)')]),
    ('inrep', lambda r, b, g2: [seq((None, k()), ('x', rep(r(), None, 2)), act=b.act(['Vec<A>'], 'A') + '(x)')]),
    ('inrep0', lambda r, b, g2: [seq(('x', rep(r(), 1, 1)), (None, lit('+')), act=b.act(['Vec<A>'], 'A') + '(x)'), k()]),
    ('slice', lambda r, b, g2: [seq(('x', slc(seq((None, r()), (None, lit('+'))))), ('y', k()), act=b.act(["Sl<'input>", 'A'], 'A') + '(x, y)'), k()]),
    ('pos', lambda r, b, g2: [seq(('z', position()), ('x', r()), (None, lit('+')), ('w', position()), act=b.act(['usize', 'A', 'usize'], 'A') + '(z, x, w)'), k()]),
    ('longest', lambda r, b, g2: [seq(('x', r()), (None, lit('a')), (None, lit('b')), act='x'), seq(('x', r()), (None, lit('b')), act='x'), k()]),
    ('shrink', lambda r, b, g2: [seq(('x', k()), (None, lit('a')), (None, notp(r())), act='x'), seq(('x', r()), (None, lit('a')), act='x'), k()]),
    ('choicein', lambda r, b, g2: [seq(('x', choice(seq((None, lit('b')), ('z', r()), act='z'), r())), ('y', choice(lit('+'), lit('-'))), act='x'), k()]),
]
def left(b):
    g2 = b.act(['A', 'A'], 'A')
    out = []
    def use(n, grp):
        grp.append(rule(b, 'y' + n, choice(seq((None, look(call(n))), ('x', call(n)), (None, lit('c')), act='x'), seq(('x', call(n)), ('y', a()), act=g2 + '(x, y)')), 'A'))
        grp.append(rule(b, 'z' + n, seq(('x', k()), ('y', call(n)), act=g2 + '(x, y)'), 'A', pub=True))
        out.append(grp)
    for name, f in LEFT:
        if name == 'shrink' and not b.concrete: continue
        n = 'l_' + name
        b.g.by[n] = Rule(n, None, 'A', cache='cache_left_rec')
        es = f(lambda: call(n), b, g2)
        use(n, [rule(b, n, choice(*es) if len(es) > 1 else es[0], 'A', 'cache_left_rec')])
        if name in ('plus', 'both', 'longest') and b.concrete: b.g.by['l_' + name].strings = ['a' + '+b' * 120, 'b' + 'ab' * 90, 'b' + '+a' * 40 + 'c']
    # no value
    b.g.by['l_unit'] = Rule('l_unit', None, None, cache='cache_left_rec')
    grp = [rule(b, 'l_unit', choice(seq((None, call('l_unit')), (None, lit('+')), (None, a())), seq((None, k()), (None, opt(bb())))), None, 'cache_left_rec'),
           rule(b, 'y_unit', seq((None, look(call('l_unit'))), (None, call('l_unit')), (None, lit('c'))), None, pub=True)]
    out.append(grp)
    # layers: sums of products, both left-recursive, with brackets around the whole
    b.g.by['l_term'] = Rule('l_term', None, 'A', cache='cache_left_rec')
    b.g.by['l_sum'] = Rule('l_sum', None, 'A', cache='cache_left_rec')
    grp = [rule(b, 'l_term', choice(seq(('x', call('l_term')), (None, lit('*')), ('y', k()), act=g2 + '(x, y)'), k()), 'A', 'cache_left_rec'),
           rule(b, 'l_sum', choice(seq(('x', call('l_sum')), (None, lit('+')), ('y', call('l_term')), act=g2 + '(x, y)'), call('l_term')), 'A', 'cache_left_rec')]
    use('l_sum', grp)
    b.g.by['l_br'] = Rule('l_br', None, 'A', cache='cache_left_rec')
    grp = [rule(b, 'l_br', choice(seq(('x', call('l_br')), (None, lit('+')), ('y', call('q_br')), act=g2 + '(x, y)'), call('q_br')), 'A', 'cache_left_rec'),
           rule(b, 'q_br', choice(seq((None, lit('(')), ('x', call('l_br')), (None, lit(')')), act='x'), k()), 'A', of='l_br', pub=False)]
    use('l_br', grp)
    # a cached rule next to a left-recursive one, not part of its recursion
    b.g.by['l_mix'] = Rule('l_mix', None, 'A', cache='cache_left_rec')
    grp = [rule(b, 'cmix', seq(('x', a()), ('y', k()), act=g2 + '(x, y)'), 'A', 'cache'),
           rule(b, 'l_mix', choice(seq(('x', call('l_mix')), (None, lit('+')), ('y', call('cmix')), act=g2 + '(x, y)'), call('cmix'), k()), 'A', 'cache_left_rec'),
           rule(b, 'wmix', choice(seq(('x', call('cmix')), (None, lit('c')), act='x'), seq(('x', call('l_mix')), ('y', call('cmix')), act=g2 + '(x, y)'), call('l_mix')), 'A', pub=True)]
    out.append(grp)
    return out

def mutual(b):
    """two left-recursive rules through each other (known finding: the inner one's first result is kept)"""
    f2 = b.act(['A', 'A'], 'A')
    b.g.by['lm'] = Rule('lm', None, 'A', cache='cache_left_rec')
    rule(b, 'qm', seq(('x', call('lm')), (None, lit('+')), ('y', call('a')), act=f2 + '(x, y)'), 'A', 'cache_left_rec', pub=False)
    rule(b, 'lm', choice(call('qm'), call('k')), 'A', 'cache_left_rec')

def units(b, groups, wd, exe, prefix, per=4):
    us, lost = [], []
    for j in range(0, len(groups), per):
        rs = [r for g in groups[j:j + per] for r in g]
        u, l = genrun.contract_units(b, [r for r in rs if not r.hole], wd, exe, '%s_%d' % (prefix, j // per), lambda m, l: not genrun.is_panic(m, l), 1000, targets=r'__parse_(?![abcdkmp]$|o_)\w+|mod g::fn |ParseState', spec=cached.CSpec, extra=cached.CLONE)
        us += u; lost += l
    return us, lost
