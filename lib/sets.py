"""Which generated parsers speak about which property."""
import random
import re
import gram, schem, genrun, rtunits, cachesets
from gram import *

GEN_TRUST = ['the rules called and the actions are arbitrary but deterministic: uninterpreted functions of input, position and labels; positions they return are valid and not before their start',
             'the input is any type whose Parse* implementations satisfy the contracts of the runtime traits (discharged for str and slices under C10-C12)',
             'mkvec_view: a Vec is determined by its elements', 'printing the macro output (rust-peg binary) loses hygiene, so names in the grammars under contract are chosen not to collide']
GEN_EXPL = ('Each unit is the output of the real translator (built from this tree) for grammars in which one operator, or one operator inside another, is applied to arbitrary rules. '
            'Verus checks the generated functions against the denotation (s*: match, end, value; t*: reported failures in order), for all inputs, positions, actions and callee behaviours, loops by invariant. '
            'Finite: the list of expression shapes.')
SUP = {'and', 'not', 'quiet'}

def want(prop, r):
    k = schem.kinds(r.expr)
    c = schem.claims(r)
    if prop in ('C01', 'C02', 'C03'): return prop in c
    if prop == 'C08': return bool(k & (SUP | {'exp', 'cond'}))
    if prop == 'C07': return True
    return False

def publics(b):
    f1 = b.act(['A', 'A'])
    out = []
    def pub(e, ret, **kw):
        r = b.add(e, ret); r.pub = True
        for k, v in kw.items(): setattr(r, k, v)
        out.append(r)
    a, k = call('a'), call('k')
    pub(seq(('x', call('a')), ('y', call('k')), act=f1 + '(x, y)'), 'C')
    pub(seq((None, call('a')), (None, call('b'))), None)
    pub(seq(('x', call('a')), ('y', call('k')), act=f1 + '(x, y)'), 'C', no_eof=True)
    pub(seq((None, call('a')), (None, lit('ab'))), None, no_eof=True)
    pub(star(call('k')), 'Vec<A>')
    pub(star(call('k'), call('b')), 'Vec<A>', no_eof=True)
    pub(choice(call('a'), call('c')), 'A')
    pub(opt(call('a')), 'Option<A>')
    pub(lit('ab'), None)
    pub(pat(), 'char')
    pub(notp(call('a')), None)
    pub(quiet(call('a')), 'A', no_eof=True)
    pub(position(), 'usize')
    # the check for the end of the input may look at what the rule ends with
    tails = lambda: [notp(call('a')), notp(pat()), notp(lit('a')), look(call('a')), look(pat()), star(call('k')), star(pat()), star(call('k'), lit('a')), plus(call('k')), opt(call('a')), opt(lit('a')), quiet(call('a')), quiet(notp(call('a'))),
        position(), slc(call('a')), slc(star(pat())), choice(call('a'), call('c')), choice(notp(pat()), seq((None, lit('a')), (None, lit('b')))), choice(seq((None, lit('a')), (None, call('k'))), seq()), lit('a'), lit(''), pat(), choice(call('a'), exp('e')), call('d'), rep(call('k'), 2, 2, form='exact'), seq((None, lit('a')), (None, notp(call('a'))))]
    for i, e in enumerate(tails()):
        pub(seq((None, call('k')), (None, e)), None, no_eof=i % 5 == 4)
    for i, e in enumerate(tails()):
        pub(seq(('x', call('k')), (None, e), act=b.act(['A']) + '(x)'), 'C', no_eof=i % 7 == 6)
    for e in tails()[:-1]:
        if e.kind not in ('pos', 'exp'): pub(seq((None, e), (None, seq())), None)
    for e in tails():
        if e.kind in ('not', 'lit') or e.kind == 'call' and e.name == 'd': pub(e, None)
    for e in (star(pat()), plus(call('k')), rep(call('k'), None, 2)):
        pub(e, b.T(e))
    for e in (look(call('a')), slc(star(pat())), opt(pat()), choice(call('a'), quiet(call('a')))): pub(e, b.T(e))
    return out

def core_plan(p, prop, tier, seed, wd):
    p['trusted'] += GEN_TRUST
    p['explanation'] = GEN_EXPL
    p['rule'] = 'bounded runs: every rule of the grammar sets on every input up to the stated length; non-trivial: a non-empty input that matches, or at least two reported failures'
    rng = random.Random(seed)
    thorough = tier == 'thorough'
    exe, err = genrun.translator()
    p['lost'] = []
    if err: p['lost'].append(('translator', err))
    else:
        b = schem.B('g')
        rules, pairs, rnd = [], [], []
        if prop != 'C09':
            rules = [r for r in schem.singles(b) + schem.idioms(b) if want(prop, r)]
            pairs = [r for r in schem.pairs(b, lambda *a: True) if want(prop, r)]
            rnd = [r for r in schem.randoms(b, rng, 100 if not thorough else 1500, 3, calls=False, most=30) if want(prop, r)]
        if not thorough: pairs = rng.sample(pairs, min(len(pairs), 150)); rnd = rnd[:40]
        pub = publics(b) if prop in ('C09', 'C07') else []
        clause = {'C07': genrun.side_E, 'C08': genrun.side_E, 'C09': lambda m, l: not genrun.is_E(m, l)}.get(prop, genrun.side_S)
        for tag, rs, size, rl in (('expr', rules + pairs, 24, None), ('random', rnd, 10, 40), ('public', pub, 20, None)):
            if not rs: continue
            us, lost = genrun.contract_units(b, rs, wd, exe, prop.lower() + '_' + tag, clause, size)
            for u in us: u.rlimit = rl
            p['units'] += us; p['lost'] += lost
            if us and tag != 'random': us[0].canaried = True
        if prop == 'C07':
            b = schem.B('g')
            rs = schem.prec_shapes(b)
            us, lost = genrun.contract_units(b, rs if thorough else rng.sample(rs, 36), wd, exe, 'c07_prec', genrun.side_E, 12)
            for u in us: u.rlimit = 30
            p['units'] += us; p['lost'] += lost
    if prop in ('C07', 'C08'): 
        p['units'] += rtunits.errstate()
        import plans
        p['bounded'].append(plans.rt_bounded(prop, tier, 'all sequences of up to 4 (6) ErrorState operations'))
    p['jobs'] = 8
    # bounded: the same shapes with concrete rules, and deeper random ones, against the interpreter
    gs = []
    b = schem.B('gs', True); keep(b, schem.singles(b), lambda r: prop in ('C07', 'C09') or want(prop, r)); b.g.inputs = (['a', 'b', 'c', 'é'], 4); gs.append(b.g)
    b = schem.B('gi', True); keep(b, schem.idioms(b), lambda r: prop in ('C07', 'C09') or want(prop, r)); gs.append(b.g)
    b = schem.B('gp', True); al = schem.pairs(b, lambda *a: True); ps = [r for r in al if prop == 'C09' or want(prop, r)]
    keep(b, al, None, set(x.name for x in (ps if thorough else rng.sample(ps, min(len(ps), 300))))); gs.append(b.g)
    b = schem.B('gr', True); rs = schem.randoms(b, rng, 60 if not thorough else 300, 4); gs.append(b.g)
    b = schem.B('gz', True); publics(b); gs.append(b.g)
    if prop == 'C07': b = schem.B('gprec', True); schem.prec_shapes(b); gs.append(b.g)
    p['bounded'].append(genrun.bounded('core', gs, 'operators alone, in pairs, and random expressions of depth 4 over 3 characters, all inputs of up to 5 (7) characters', tier, 2 if thorough else 0))

def trace_plan(p, tier, seed, wd):
    import tracing
    p['trusted'] += GEN_TRUST + ['println! is modelled as appending its text and positions to a ghost log kept in the parse state (vx, option log); formatting and the standard output themselves are trusted']
    p['explanation'] = ('The translator built with the trace feature. Its output is proved against the same contracts as the output without (results, failures, end of input, no panic), and a second time against '
        'contracts on a log of what is printed: one attempt line, the lines of what the rule evaluates, one line with the outcome, also inside lookaheads and quiet blocks.')
    p['rule'] = 'bounded runs: every rule on every input up to the stated length, result and printed lines; non-trivial: a non-empty input that matches, or at least two reported failures'
    rng = random.Random(seed)
    thorough = tier == 'thorough'
    exe, err = genrun.translator(True)
    p['lost'] = []; p['jobs'] = 8
    def add(us, lost, rl=None):
        for u in us: u.rlimit = rl
        p['units'] += us; p['lost'] += lost
        return us
    some = lambda l, n: l if thorough else rng.sample(l, min(n, len(l)))
    if err: p['lost'].append(('translator', err))
    else:
        b = schem.B('g')
        one, idi, two = schem.singles(b), schem.idioms(b), schem.pairs(b, lambda *a: True)
        pub = publics(b)
        add(*genrun.contract_units(b, one + some(two, 60), wd, exe, 'c20_expr', genrun.side_all, 24))[0].canaried = True
        add(*genrun.contract_units(b, pub, wd, exe, 'c20_public', genrun.side_all, 20))
        us = add(*genrun.contract_units(b, one + some(idi, 150) + some(two, 100), wd, exe, 'c20_log', genrun.side_all, 24, logged=True, spec=lambda g: tracing.LogSpec(g, 'g')), rl=30)
        if us: us[0].canaried = True
        b = schem.B('g')
        add(*genrun.contract_units(b, some(schem.prec_shapes(b), 24), wd, exe, 'c20_prec', genrun.side_all, 12), rl=30)
        b = schem.B('g')
        hs, us = schem.params(b, False)
        add(*genrun.contract_units(b, us + pubs(b, False), wd, exe, 'c20_par', lambda m, l: True, 24, helpers=hs, targets=PAR_TARGETS))
        for which, per in ((cachesets.simple, 4), (cachesets.left, 2)):
            b = cachesets.grammar('g', False)
            us, lost = cachesets.units(b, which(b), wd, exe, 'c20' + which.__name__[0], per)
            add(us if thorough else us[::4], lost)
    gs = []
    b = schem.B('gs', True); schem.singles(b); b.g.inputs = (['a', 'b', 'c', '\n'], 4); gs.append(b.g)
    b = schem.B('gp', True); al = schem.pairs(b, lambda *a: True); keep(b, al, None, set(x.name for x in rng.sample(al, 120 if not thorough else 600))); b.g.inputs = (['a', 'b', 'c'], 4); gs.append(b.g)
    b = schem.B('gr', True); schem.randoms(b, rng, 40 if not thorough else 200, 4); b.g.inputs = (['a', 'b', 'c'], 4); gs.append(b.g)
    b = schem.B('gz', True); publics(b); gs.append(b.g)
    b = schem.B('gpar', True); schem.params(b); pubs(b, False); b.g.inputs = (['a', 'b', 'c'], 4); gs.append(b.g)
    b = schem.B('gprec', True); ps = schem.prec_shapes(b); gs.append(b.g)
    for r in ps: r.inputs = (r.inputs[0], 4)
    b = schem.B('gpnest', True); schem.prec_nested(b); gs.append(b.g)
    for r in b.g.rules: 
        if getattr(r, 'inputs', None): r.inputs = (r.inputs[0], 4)
    bs = []
    for n, which in (('gc', cachesets.simple), ('gl', cachesets.left)):
        b = cachesets.grammar(n, True); which(b); b.g.inputs = (['a', 'b', '+', '!'] if n == 'gl' else ['a', 'b', 'c'], 4); gs.append(b.g); bs.append(b)
    p['bounded'].append(genrun.bounded('trace', gs, 'the grammars of the other checks with the trace feature, all inputs of up to 4 (thorough 5) characters, results and printed lines', tier, 1 if thorough else 0, extra=cachesets.ticks(bs), features='trace'))

def prec_plan(p, tier, seed, wd):
    p['trusted'] += GEN_TRUST + ['defunctionalisation of the precedence loop (vx, prec.rs): its two closures, called only where they are passed, become functions over their free variables; DESIGN.md says what is checked of that']
    p['explanation'] = ('Precedence blocks translated by the real translator: the climbing loop, the operator code of every level and the two closures that tie the recursion are proved against '
        'pp (atom or prefix operator), lv (the first operator that applies at or above a level), gr (operators until none applies) and ip, for all inputs, operands and actions, termination included. '
        'The operand types, levels and spans are those of the declaration. Finite: the list of blocks.')
    p['rule'] = 'bounded runs: every block on every input up to the stated length over its own characters; non-trivial: a non-empty input that matches, or at least two reported failures'
    rng = random.Random(seed)
    thorough = tier == 'thorough'
    exe, err = genrun.translator()
    p['lost'] = []; p['jobs'] = 8
    if err: p['lost'].append(('translator', err))
    else:
        b = schem.B('g')
        rs = schem.prec_shapes(b)
        us, lost = genrun.contract_units(b, rs, wd, exe, 'c04_prec', genrun.side_S, 12)
        us[0].canaried = True
        b = schem.B('g')
        rs = schem.prec_shapes(b, rng, 20 if not thorough else 200)
        u2, l2 = genrun.contract_units(b, rs, wd, exe, 'c04_random', genrun.side_S, 10)
        for u in us + u2: u.rlimit = 30
        p['units'] += us + u2; p['lost'] += lost + l2
    gs = []
    b = schem.B('gprec', True); schem.prec_shapes(b); gs.append(b.g)
    b = schem.B('gprnd', True); schem.prec_shapes(b, rng, 60 if not thorough else 300); gs.append(b.g)
    b = schem.B('gpnest', True); schem.prec_nested(b); gs.append(b.g)
    p['bounded'].append(genrun.bounded('prec', gs, 'precedence blocks, chosen and random, over their own characters, all inputs of up to 4 to 7 (thorough one more) characters', tier, 1 if thorough else 0))

PAR_TARGETS = r'__parse_(?![abcdkmp]$)\w+|mod g::fn [rv]\w+'
CFG = [('cfg', 'usize'), ('alt', 'usize')]
def pubs(b, cfg):
    """exported rules with parameters"""
    out = []
    def pub(name, e, ret, ps, vals):
        r = Rule(name, e, ret, pub=True, params=[(n, 'usize', 'val') for n in ps]); r.vals = vals
        b.g.rules.append(r); b.g.by[name] = r; out.append(r)
    vs = [['0usize', '1usize'], ['1usize', '0usize'], ['2usize', '1usize'], ['3usize', '3usize']]
    pub('v1', call('val', 'na', 'mb'), 'C', ['na', 'mb'], vs)
    pub('v2', call('valsw', 'na', 'mb'), 'C', ['na', 'mb'], vs)
    pub('v3', call('mixed', 'mb', call('p', 'na'), 'na'), 'C', ['na', 'mb'], vs)
    pub('v4', rep(call('k'), '{na}', '{mb}', lit('c')), 'Vec<A>', ['na', 'mb'], vs)
    pub('v5', call('cnt', 'na', call('k')), 'Vec<A>', ['na'], [['0usize'], ['2usize']])
    if cfg:
        pub('v6', call('val3', 'cfg', 'na', 'alt'), 'C', ['na'], [['0usize'], ['2usize']])
        pub('v7', call('valsw', 'cfg', 'na'), 'C', ['na'], [['0usize'], ['2usize']])
    return out

def params_plan(p, tier, seed, wd):
    p['trusted'] += GEN_TRUST + ['an expression passed to a rule is handed over as a specification closure next to the code closure (ghost argument); the callee is proved for every such closure']
    p['explanation'] = ('Rules with value, rule and generic parameters, and their uses, translated by the real translator: each rule is proved for arbitrary argument values and arbitrary '
        'closures satisfying their specification closure; at each call the closure written there is proved to satisfy the denotation of the expression in the argument.')
    p['rule'] = 'bounded runs: every rule and argument list on every input up to the stated length; non-trivial: a non-empty input that matches, or at least two reported failures'
    exe, err = genrun.translator()
    p['lost'] = []; p['jobs'] = 8
    if err: p['lost'].append(('translator', err))
    else:
        for cfg in (False, True):
            b = schem.B('g', False, CFG if cfg else [])
            hs, us = schem.params(b, cfg)
            us += pubs(b, cfg)
            units, lost = genrun.contract_units(b, us, wd, exe, 'c19_' + ('cfg' if cfg else 'par'), lambda m, l: not genrun.is_panic(m, l), 24, helpers=hs, targets=PAR_TARGETS)
            p['units'] += units; p['lost'] += lost
            units[0].canaried = True
    gs = []
    for cfg in (False, True):
        b = schem.B('gcfg' if cfg else 'gpar', True, CFG if cfg else [])
        schem.params(b, cfg); pubs(b, cfg)
        if cfg: b.g.vals = [['1usize', '2usize'], ['2usize', '0usize']]
        b.g.inputs = (['a', 'b', 'c'], 4 if cfg else 5)
        gs.append(b.g)
    p['bounded'].append(genrun.bounded('params', gs, 'rules with parameters and grammars with arguments, over 3 characters, all inputs of up to 5, with grammar arguments 4 (thorough 6) characters', tier, 1 if tier == 'thorough' else 0))

def cache_plan(p, prop, tier, seed, wd):
    p['trusted'] += GEN_TRUST + ['std HashMap as specified by vstd (keys usize); Clone of RuleResult and of the values returns an equal value',
        'rules called from the rules under contract may use any cache, provided they keep entries and add only right ones, at or after their start']
    p['explanation'] = ('Every generated rule is proved to keep, and extend only by right results, the caches of the parse (grown), given that what it can find there is right (fin). '
        'A cached rule leaves an entry equal to its result, changes nothing when there is one, and evaluates its body only when there is none. A left-recursive rule is proved to return the limit of '
        'the growth sequence grow_r defined from its body over its own last result, and to terminate, the rules in its recursion included.')
    p['rule'] = 'bounded runs: every rule of the grammar sets on every input up to the stated length; non-trivial: a non-empty input that matches, or at least two reported failures'
    exe, err = genrun.translator()
    p['lost'] = []; p['jobs'] = 8
    thorough = tier == 'thorough'
    which = cachesets.simple if prop == 'C05' else cachesets.left
    if err: p['lost'].append(('translator', err))
    else:
        b = cachesets.grammar('g', False)
        us, lost = cachesets.units(b, which(b), wd, exe, prop.lower(), 4 if prop == 'C05' else 2)
        p['units'] += us; p['lost'] += lost
        for u in us[:2]: u.canaried = True
    b = cachesets.grammar('gc' if prop == 'C05' else 'gl', True); which(b)
    b.g.inputs = (['a', 'b', 'c'], 5) if prop == 'C05' else (['a', 'b', '+', '!'], 5)
    gs = [b.g]; bs = [b]
    if prop == 'C06':
        for n, al, ln in (('gm', ['a', 'b', '+', '-', 'c'], 4), ('gq', ['a', '+', '*', '(', ')'], 5)):
            b2 = cachesets.grammar(n, True); which(b2); b2.g.inputs = (al, ln); gs.append(b2.g); bs.append(b2)
        for b2, names in zip(bs[1:], (r'.', r'_(br|sum|term|mix)$|^.l_(br|sum)|mix')):
            for r in b2.g.rules: r.pub = r.pub and bool(re.search(names, r.name))
        b2 = cachesets.grammar('gmutual', True); cachesets.mutual(b2); b2.g.inputs = ([], 0); b2.g.by['lm'].strings = ['a+a']; gs.append(b2.g)
    else:
        b3 = cachesets.grammar('gargs', True); b3.g.args = [('cfg', 'usize')]; b3.g.vals = [['0usize'], ['1usize']]; argcache(b3); gs.append(b3.g)
    p['bounded'].append(genrun.bounded('cache' if prop == 'C05' else 'leftrec', gs, 'cached and left-recursive rules, and their callers, over 3 to 5 characters, all inputs of up to 4 or 5 (thorough 6 or 7) characters, counting evaluations',
        tier, (2 if prop == 'C05' else 1) if thorough else 0, extra=cachesets.ticks(bs)))

def argcache(b):
    f1 = b.act(['A', 'usize'], 'A'); f2 = b.act(['A', 'A'], 'A')
    cachesets.rule(b, 'ca', seq(('x', rep(call('k'), '{cfg}', None)), act=b.act(['Vec<A>', 'usize'], 'A') + '(x, cfg)'), 'A', 'cache')
    cachesets.rule(b, 'cb', choice(seq(('x', call('ca')), (None, lit('c')), act=f1 + '(x, cfg)'), seq(('x', call('ca')), ('y', call('k')), act=f2 + '(x, y)'), call('ca')), 'A')

def keep(b, rules, f, names=None):
    drop = [r for r in rules if not (f(r) if f else r.name in names)]
    for r in drop: b.g.rules.remove(r); b.g.by.pop(r.name)
