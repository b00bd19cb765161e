"""Contracts for grammars with #[cache] and #[cache_left_rec]: what a cache may hold, what a call may do to it,
and the growing of a left-recursive match."""
from gram import *

CLONE = """/// derived: copies the position and clones the value (trusted: clones of results are equal to them)
impl<T: Clone> Clone for peg::RuleResult<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
"""

class CSpec(Spec):
    """Spec without the order of failure reports (a cache hit reports nothing again)

    fin(i, st, p)        every entry at p or later is what its rule does there
    fin_r(i, st, p)      every entry right of p is final, and so are those at p of the caches r reaches which it is not itself growing
    grown(i, a, b, p)    b has all entries of a, unchanged, and new ones at p or later which are what their rules do there
    seed(i, st, p, gs)   the rule being grown at p has the entry gs(p), and gs is the rule itself further right
    """
    weak = True
    def cached(self): return [r for r in self.g.rules if r.cache]
    def lefts(self): return [r for r in self.g.rules if r.cache == 'cache_left_rec']

    # ---- denotation ----
    def fn(self, kind, id, env, ret, body, extra='', dec=''):
        if kind not in ('t', 'tr'): super().fn(kind, id, env, ret, body, extra, dec)
    def env0(self, r):
        o = super().env0(r)
        l = getattr(r, 'of', None) or (r.name if r.cache == 'cache_left_rec' else None)
        if l: o.append(('gs_' + l, 'spec_fn(int) -> Pr<%s>' % (self.g.by[l].ret or '()')))
        return o
    def define(self, r, e, env, want=None):
        if e.kind == 'call':
            l = getattr(r, 'of', None) or (r.name if r.cache == 'cache_left_rec' else None)
            c = self.g.by[e.name]
            if l and (e.name == l or getattr(c, 'of', None) == l):
                e.env, e.T = list(env), self.ty(r, e)
                self.n += 1
                e.sname, e.tname, e.id = 's%d' % self.n, 't%d' % self.n, str(self.n)
                e.ghost = '' if e.name == l else 'Ghost(p0_), Ghost(gs_%s)' % l
                self.fn('s', e.id, env, 'Pr<%s>' % e.T, 'gs_%s(p)' % l if e.name == l else 's_%s(i, p, gs_%s)' % (e.name, l))
                return
        super().define(r, e, env, want)

    # ---- how often failures may be suppressed: one bound for all rules of a recursive group ----
    def group(self, n):
        g = self.g
        def calls(e): return ([e.name] if e.kind == 'call' else []) + [z for x in e.kids if not isinstance(x, str) for z in calls(x)]
        if not hasattr(self, 'reach'):
            self.reach = {}
            out = {x.name: set(calls(x.expr)) if x.expr is not None and not x.hole else set() for x in g.by.values()}
            for x in out:
                seen, todo = set(), list(out[x])
                while todo:
                    y = todo.pop()
                    if y in seen: continue
                    seen.add(y); todo += list(out.get(y, ()))
                self.reach[x] = seen
        return {m for m in self.reach[n] if n in self.reach[m]} if n in self.reach[n] else set()
    def need(self, e):
        if e.kind == 'call' and not any(not isinstance(x, str) for x in e.kids) and e.name in self.cur: return 0, []
        return super().need(e)
    cur = frozenset()
    def base(self, r):
        if r.hole: return 0
        if not hasattr(self, 'bases'): self.bases = {}
        if r.name not in self.bases:
            was = self.cur
            self.cur = self.group(r.name) | {r.name}
            self.bases[r.name] = sum(Spec.need(self, self.g.by[x].expr)[0] if self.g.by[x].expr.kind != 'call' else self.need(self.g.by[x].expr)[0] for x in self.cur) + 1
            self.cur = was
        return self.bases[r.name]

    # ---- the state ----
    def state(self):
        o = []
        def fin(rs, grown=()): return ''.join('\n    && (forall|x: usize| #[trigger] st.%(n)s_cache@.contains_key(x) && x %(op)s p ==> is_%(n)s(i, x, st.%(n)s_cache@[x]))' % dict(n=r.name, op='>' if r.name in grown else '>=') for r in rs)
        gr = lambda skip: ''.join("""
    && (forall|x: usize| #[trigger] a.%(n)s_cache@.contains_key(x) ==> b.%(n)s_cache@.contains_key(x) && b.%(n)s_cache@[x] == a.%(n)s_cache@[x])
    && (forall|x: usize| #[trigger] b.%(n)s_cache@.contains_key(x) && !a.%(n)s_cache@.contains_key(x)%(s)s ==> x >= p && is_%(n)s(i, x, b.%(n)s_cache@[x]))""" % dict(n=r.name, s=' && x != p' if r.name == skip else '') for r in self.cached())
        for r in self.cached():
            o.append("""pub open spec fn is_%(n)s<'input>(i: &'input Inp, x: usize, r: peg::RuleResult<%(T)s>) -> bool {
    i_valid(i, x as int) && rr(r) == s_%(n)s(i, x as int) && match r { peg::RuleResult::Matched(q, _) => q >= x && i_valid(i, q as int), _ => true } }""" % dict(n=r.name, T=r.ret or '()'))
        o.append("pub open spec fn fin<'input>(i: &'input Inp, st: ParseState<'input>, p: int) -> bool { true%s }" % fin(self.cached()))
        for r in self.g.rules:
            if r.hole: continue
            self.group(r.name)
            own = getattr(r, 'of', None) or r.name
            o.append("pub open spec fn fin_%s<'input>(i: &'input Inp, st: ParseState<'input>, p: int) -> bool { true%s }" % (r.name, fin(self.cached(),
                {c.name for c in self.cached() if not (c.name in self.reach[r.name] or c is r)} | ({own} if self.g.by[own].cache == 'cache_left_rec' else set()))))
        o.append("pub open spec fn grown<'input>(i: &'input Inp, a: ParseState<'input>, b: ParseState<'input>, p: int) -> bool { true%s }" % gr(None))
        for r in self.lefts():
            o.append("pub open spec fn grown_%s<'input>(i: &'input Inp, a: ParseState<'input>, b: ParseState<'input>, p: int) -> bool { true%s }" % (r.name, gr(r.name)))
            o.append("""pub open spec fn seed_%(n)s<'input>(i: &'input Inp, st: ParseState<'input>, p: int, gs: spec_fn(int) -> Pr<%(T)s>) -> bool {
    &&& 0 <= p <= usize::MAX && st.%(n)s_cache@.contains_key(p as usize) && rr(st.%(n)s_cache@[p as usize]) == gs(p)
    &&& match st.%(n)s_cache@[p as usize] { peg::RuleResult::Matched(q, _) => q >= p && i_valid(i, q as int), _ => true }
    &&& (forall|x: int| p < x <= i_end(i) ==> #[trigger] gs(x) == s_%(n)s(i, x)) }""" % dict(n=r.name, T=r.ret or '()'))
        return '\n'.join(o) + '\n'
    def new_contract(self): return '    ensures %s\n' % ' '.join('r.%s_cache@ == Map::<usize, peg::RuleResult<%s>>::empty(),' % (c.name, c.ret or '()') for c in self.cached()) if self.cached() else ''

    # ---- contracts ----
    def contract(self, r, req=None, ens=''):
        l = getattr(r, 'of', None)
        left = r.cache == 'cache_left_rec'
        n = r.name
        o = ['    requires i_valid(__input, __pos as int), i_valid(__input, old(__err_state).max_err_pos as int),']
        if not r.hole: o.append('        %sold(__err_state).suppress_fail <= usize::MAX - %s,' % ('!old(__state).%s_cache@.contains_key(__pos) ==> ' % n if left else '', self.lvl(r)))
        if l: o.append('        p0_ <= __pos, fin_%s(__input, *old(__state), p0_), seed_%s(__input, *old(__state), p0_, gs_%s),' % (n, l, l))
        elif r.hole: o.append('        fin(__input, *old(__state), __pos + 1),')
        else: o.append('        fin_%s(__input, *old(__state), __pos as int),' % n)
        if getattr(r, 'once', None): o.append('        /*once*/ !old(__state).%s_cache@.contains_key(__pos),' % r.once)
        o.append('    ensures')
        a = self.args(super().env0(r)) + (', gs_' + l if l else '')
        c = 's_%s(__input, __pos as int%s)' % (n, a)
        U = (lambda x: x) if r.ret else (lambda x: 'un(%s)' % x)
        if left:
            o.append('        /*S*/ old(__state).%s_cache@.contains_key(__pos) ==> r == old(__state).%s_cache@[__pos],' % (n, n))
            o.append('        /*S*/ !old(__state).%s_cache@.contains_key(__pos) ==> %s == %s,' % (n, U('rr(r)'), U(c)))
        else:
            o.append('        /*S*/ %s == %s,' % (U('rr(r)'), U(c)))
        if r.cache:
            o.append('        /*S*/ final(__state).%s_cache@.contains_key(__pos) && final(__state).%s_cache@[__pos] == r,' % (n, n))
            o.append('        /*S*/ old(__state).%s_cache@.contains_key(__pos) ==> *final(__state) == *old(__state) && *final(__err_state) == *old(__err_state),' % n)
        o.append('        /*S*/ grown(__input, *old(__state), *final(__state), __pos as int),')
        o.append('        /*E*/ final(__err_state).suppress_fail == old(__err_state).suppress_fail && final(__err_state).reparsing_on_error == old(__err_state).reparsing_on_error,')
        v = 'match r { peg::RuleResult::Matched(q, _) => q >= __pos && i_valid(__input, q as int), _ => true }'
        if left: v = '(match old(__state).%(n)s_cache@[__pos] { peg::RuleResult::Matched(q, _) => q >= __pos && i_valid(__input, q as int), _ => true } || !old(__state).%(n)s_cache@.contains_key(__pos)) ==> %(v)s' % dict(n=n, v=v)
        o.append('        /*V*/ %s,' % v)
        o.append('        /*V*/ i_valid(__input, final(__err_state).max_err_pos as int),')
        if self.group(n):
            l = l or (n if left else None)
            rank = 1 + [x.name for x in self.g.rules].index(n)
            if left: rank = 0
            o.append('    decreases i_end(__input) - __pos, %s,' % ('(if old(__state).%s_cache@.contains_key(__pos) { %dint } else { %dint })' % (l, rank, len(self.g.rules) + 1 + rank) if l else '%dint' % rank))
        return '\n'.join(o) + '\n'

    def rule(self, r, src):
        g, n, T = self.g, r.name, r.ret or '()'
        env = self.env0(r)
        self.gen = self.generics(r)
        self.out = []
        self.cur = self.group(n) | {n}
        self.define(r, r.expr, env)
        left = r.cache == 'cache_left_rec'
        o = list(self.out)
        root = self.s(r.expr, 'p', env)
        if not r.ret and r.expr.T != '()': root = 'un(%s)' % root
        if left:
            o.append("""pub open spec fn b_%(n)s<'input>(i: &'input Inp, p: int%(P)s) -> Pr<%(T)s> { %(root)s }
/// the rule while it is grown at p0: the last result there, itself further right
pub open spec fn later_%(n)s<'input>(i: &'input Inp, p0: int, sd: Pr<%(T)s>) -> spec_fn(int) -> Pr<%(T)s>
    decreases i_end(i) - p0, 0int, 0int
{ |x: int| if x == p0 { sd } else if p0 < x <= i_end(i) { s_%(n)s(i, x) } else { Pr::F } }
/// the body again and again, as long as the match gets longer
pub open spec fn grow_%(n)s<'input>(i: &'input Inp, p: int, sd: Pr<%(T)s>) -> Pr<%(T)s>
    decreases i_end(i) - p, (match sd { Pr::F => 2int, _ => 1int }), (match sd { Pr::M(q, _) => i_end(i) - q, Pr::F => 0int })
{ let c = b_%(n)s(i, p, later_%(n)s(i, p, sd));
  match c { Pr::F => sd, Pr::M(q, _) => match sd { Pr::F => grow_%(n)s(i, p, c), Pr::M(q0, _) => if q0 < q <= i_end(i) { grow_%(n)s(i, p, c) } else { sd } } } }
pub open spec fn s_%(n)s<'input>(i: &'input Inp, p: int) -> Pr<%(T)s>
    decreases i_end(i) - p, 3int, 0int
{ grow_%(n)s(i, p, Pr::F) }""" % dict(n=n, T=T, P=self.params(env), root=root))
        else:
            o.append("pub open spec fn s_%s<'input%s>(i: &'input Inp, p: int%s) -> Pr<%s> { %s }" % (n, self.gen, self.params(env), T, root))
        o.append('#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]')
        o.append('//@@fn src=%s sel="mod %s::fn __parse_%s"' % (src, self.mod, n))
        o.append(self.contract(r).rstrip())
        off = 0
        if left:
            off = 1
            o += ['//@@pre', 'let ghost p0_ = __pos as int;']
            o += ['//@@loopghost 0', 'let ghost ee_ = ev(*__err_state);',
                  '//@@loopbody 0', 'let ghost gs_%s = later_%s(__input, p0_, rr($VAL)); proof { assert(forall|x: int| #[trigger] gs_%s(x) == if x == p0_ { rr($VAL) } else if p0_ < x <= i_end(__input) { s_%s(__input, x) } else { Pr::F }); }' % (n, n, n, n)]
            o += ['//@@loop 0', '    invariant',
                  '        /*S*/ __state.%s_cache@.contains_key(p0_ as usize) && __state.%s_cache@[p0_ as usize] == $VAL,' % (n, n),
                  '        /*S*/ fin_%s(__input, *__state, p0_), grown_%s(__input, *old(__state), *__state, p0_),' % (n, n),
                  '        /*S*/ grow_%s(__input, p0_, rr($VAL)) == s_%s(__input, p0_),' % (n, n),
                  '        /*V*/ match $VAL { peg::RuleResult::Matched(q, _) => q >= p0_ && i_valid(__input, q as int), _ => true },',
                  '        /*V*/ i_valid(__input, __err_state.max_err_pos as int),',
                  '        /*E*/ __err_state.suppress_fail == ee_.sup && __err_state.reparsing_on_error == ee_.rep && __err_state.suppress_fail <= usize::MAX - %s,' % self.lvl(r),
                  '    ensures',
                  '        /*S*/ rr($VAL) == s_%s(__input, p0_),' % n,
                  '    decreases (match $VAL { peg::RuleResult::Matched(q, _) => i_end(__input) - q, _ => i_end(__input) + 1 })']
        for k, (e, used) in enumerate(self.loops(r.expr, r.ret is not None)): o += self.loop(k + off, e, used)
        for k, (e, isarg) in enumerate(self.closures(r.expr)):
            o.append('//@@closure %d' % k)
            o.append('-> (r: peg::RuleResult<%s>) ensures rr(r) == sc_%s(i, p as int)' % (g.custs[e.f], e.f))
        l = getattr(r, 'of', None)
        if l: o += ['//@@ghost', 'Ghost(p0_): Ghost<int>,', 'Ghost(gs_%s): Ghost<spec_fn(int) -> Pr<%s>>,' % (l, g.by[l].ret or '()')]
        for c, gh in self.ghosts(r.expr): o += ['//@@call __parse_%s %s' % (c, gh)]
        o.append('//@@end')
        return '\n'.join(o) + '\n'

    def public(self, r, src):
        d = dict(n=r.name, eof='true' if r.no_eof else 'q == i_end(i)', src=src, mod=self.mod)
        o = """pub open spec fn ok_%(n)s<'input>(i: &'input Inp) -> bool { match s_%(n)s(i, 0) { Pr::M(q, _) => %(eof)s, Pr::F => false } }
//@@fn src=%(src)s sel="mod %(mod)s::fn %(n)s" vis
    ensures
        /*S*/ (r is Ok) == ok_%(n)s(__input),
""" % d
        if r.ret: o += "        /*S*/ match r { Ok(v) => match s_%(n)s(__input, 0) { Pr::M(_, w) => w == v, Pr::F => false }, Err(_) => true },\n" % d
        return o + '//@@end\n'

    def loop(self, k, e, used):
        id, env = e.id, e.env
        A = self.args(env)
        vec = used or e.mn is not None or e.mx is not None or e.has_sep
        cnt = ', $VAL@.len() as int' if e.counted else ''
        z = ', 0' if e.counted else ''
        R0 = 'rp%s(__input, l_%d%s%s)' % (id, k, z, A)
        R1 = 'rp%s(__input, $POS as int%s%s)' % (id, cnt, A)
        inv = ['/*V*/ i_valid(__input, $POS as int) && $POS >= l_%d' % k, '/*V*/ i_valid(__input, __err_state.max_err_pos as int)',
               '/*S*/ grown(__input, st_%d, *__state, l_%d)' % (k, k),
               '/*E*/ __err_state.suppress_fail == e_%d.sup && __err_state.reparsing_on_error == e_%d.rep && __err_state.suppress_fail <= usize::MAX - (%s)' % (k, k, self.lvl_e(e)),
               '/*S*/ %s.0 == %s.0' % (R0, R1)]
        if vec: inv.append('/*S*/ %s.1 =~= $VAL@ + %s.1' % (R0, R1) if used else '/*S*/ %s.1.len() == $VAL@.len() + %s.1.len()' % (R0, R1))
        if vec and not nullable(e.kids[0]): inv.append('/*V*/ $VAL@.len() > 0 ==> $POS > l_%d' % k)
        dec = 'i_end(__input) - $POS' + (', (if $VAL@.len() == 0 { 1int } else { 0int })' if e.has_sep else '') if e.mx is None else '%s - $VAL@.len()' % self.num(e.mx)
        return ['//@@loopghost %d' % k, 'let ghost l_%d = $INIT as int; let ghost e_%d = ev(*__err_state); let ghost st_%d = *__state;' % (k, k, k), '//@@loop %d' % k,
                '    invariant'] + ['        %s,' % x for x in inv] + ['    ensures', '        /*S*/ %s.0 == $POS && %s.1.len() == 0,' % (R1, R1), '    decreases %s' % dec]
