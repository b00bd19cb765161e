"""Grammars as data: their text, their denotation as Verus specification, contracts for the code generated from them.

The denotation below is written from the documentation of the grammar language, not from the translator:
s<k>(i, p, labels..)  what expression k does at p (end and value, or failure)
t<k>(i, p, labels..)  the failures it reports there, in order, outside quiet blocks and lookaheads
"""
import json, re
def js(s): return json.dumps(s, ensure_ascii=False)

class N:
    def __init__(self, kind, *kids, **at):
        self.kind, self.kids, self.at = kind, list(kids), at
    def __getattr__(self, n):
        try: return self.__dict__['at'][n]
        except KeyError: raise AttributeError(n)

# ---- constructors ----
def call(name, *args, tys=None): return N('call', *args, name=name, tys=tys)
def arg(name, ty): return N('arg', name=name, ty=ty)           # a rule-closure parameter
def lit(s): return N('lit', s=s)
def pat(text='[_]', test=None): return N('pat', text=text, test=test)
def seq(*items, act=None, cond=False): return N('seq', *[e for _, e in items], labels=[l for l, _ in items], act=act, cond=cond)
def choice(*es): return N('choice', *es)
def opt(e): return N('opt', e)
def rep(e, mn=None, mx=None, sep=None, form=None): return N('rep', e, *([sep] if sep else []), mn=mn, mx=mx, has_sep=sep is not None, form=form)
def star(e, sep=None): return rep(e, sep=sep)
def plus(e, sep=None): return rep(e, 1, None, sep, 'plus')
def look(e): return N('and', e)
def notp(e): return N('not', e)
def quiet(e): return N('quiet', e)
def exp(s): return N('exp', s=s)
def slc(e): return N('slice', e)
def position(): return N('pos')
def custom(f): return N('cust', f=f)
def method(m): return N('meth', m=m)
def prec(levels, wrap=None, juxt=False): return N('prec', levels=levels, wrap=wrap, juxt=juxt)   # juxt: infix operators may match nothing, atoms not

class Rule:
    def __init__(self, name, expr, ret=None, pub=False, no_eof=False, cache=None, params=(), gen='', claims=('C01',), hole=None):
        self.name, self.expr, self.ret, self.pub, self.no_eof, self.cache = name, expr, ret, pub, no_eof, cache
        self.params = list(params)      # (name, type, 'val'|'rule')
        self.gen, self.claims = gen, claims
        self.hole = hole                # None | 'any' | 'consuming': contract only, body arbitrary

class Grammar:
    def __init__(self, name, rules, args=(), acts=None, custs=None):
        self.name, self.rules, self.args = name, rules, list(args)
        self.acts = acts if acts is not None else {}          # name -> ([types], ret, cond)
        self.custs = custs if custs is not None else {}        # name -> type
        self.by = {r.name: r for r in rules}

# ---- precedence blocks ----
def prec_ops(e):
    """operators in order: (level, kind, left label, items, right (label, level), action)"""
    out = []
    for lv, ops in enumerate(e.levels, 1 if e.wrap else 0):
        for els, act in ops:
            els = list(els)
            L = els.pop(0) if isinstance(els[0][1], str) else None
            R = els.pop() if isinstance(els[-1][1], str) else None
            kind = 'infix' if L and R else 'postfix' if L else 'prefix' if R else 'atom'
            out.append((lv, kind, L and (L[0] or '_'), els, R and (R[0] or '_', lv if R[1] == '(@)' else lv + 1), act))
    return out
def subs(e):
    """all direct sub-expressions"""
    if e.kind == 'prec': return [x for o in prec_ops(e) for _, x in o[3]]
    return [x for x in e.kids if not isinstance(x, str)]

# ---- text ----
def text(e):
    k = e.kind
    if k == 'call': return '%s(%s)' % (e.name, ', '.join(a if isinstance(a, str) else '<%s>' % text(a) for a in e.kids))
    if k == 'arg': return '%s()' % e.name
    if k == 'lit': return js(e.s)
    if k == 'pat': return e.text
    if k == 'seq':
        b = ' '.join(('%s:' % l if l else '') + text(x) for l, x in zip(e.labels, e.kids))
        return '(%s%s)' % (b, '' if e.act is None else ' {%s %s }' % ('?' if e.cond else '', e.act))
    if k == 'choice': return '(%s)' % ' / '.join(text(x) for x in e.kids)
    if k == 'opt': return '(%s)?' % text(e.kids[0])
    if k == 'rep':
        s = ('(%s)' % text(e.kids[1])) if e.has_sep else ''
        if e.form == 'plus': op = '++' if s else '+'; b = ''
        else:
            op = '**' if s else '*'
            if e.mn is None and e.mx is None: b = ''
            elif e.form == 'exact': b = '<%s>' % e.mn
            else: b = '<%s,%s>' % (e.mn if e.mn is not None else '', e.mx if e.mx is not None else '')
        return '(%s) %s%s %s' % (text(e.kids[0]), op, b, s) if s else '(%s)%s%s' % (text(e.kids[0]), op, b)
    if k == 'and': return '&(%s)' % text(e.kids[0])
    if k == 'not': return '!(%s)' % text(e.kids[0])
    if k == 'quiet': return 'quiet!{%s}' % text(e.kids[0])
    if k == 'exp': return 'expected!(%s)' % js(e.s)
    if k == 'slice': return '$(%s)' % text(e.kids[0])
    if k == 'pos': return 'position!()'
    if k == 'cust': return '#{|i, p| %s(i, p)}' % e.f
    if k == 'meth': return '##%s()' % e.m
    if k == 'prec':
        ls = []
        if e.wrap: ls.append('    %s:position!() %s:@ %s:position!() { %s }' % e.wrap)
        for lv in e.levels:
            ls.append('\n'.join('    ' + op_text(o) for o in lv))
        return 'precedence!{\n%s\n}' % '\n    --\n'.join(ls)
    raise Exception(k)

def op_text(o):
    # o = (elements, action); element: '@' | '(@)' with label, or expression with label
    els, act = o
    return ' '.join('%s%s' % ('%s:' % l if l else '', x if isinstance(x, str) else text(x)) for l, x in els) + ' { %s }' % act

def rule_text(r, vis=''):
    t = ''
    if r.cache: t += '#[%s] ' % r.cache
    if r.no_eof: t += '#[no_eof] '
    ps = ', '.join('%s: %s' % (n, 'rule<%s>' % ty if kd == 'rule' else ty) for n, ty, kd in r.params)
    return '%s%srule %s%s(%s)%s = %s' % (t, 'pub ' if r.pub else '', r.name, r.gen, ps, ' -> ' + r.ret if r.ret else '', text(r.expr))

def grammar_text(g, inp='Inp', uses='use super::*;'):
    return 'grammar %s(%s) for %s {\n%s\n%s\n}\n' % (g.name, ', '.join('%s: %s' % a for a in g.args), inp, uses, '\n'.join(rule_text(r) for r in g.rules))

# ---- types ----
def ty(g, r, e):
    k = e.kind
    if k == 'call': return subst(g.by[e.name].ret or '()', e.tys)
    if k == 'arg': return e.ty
    if k in ('lit', 'not', 'exp'): return '()'
    if k == 'pat': return 'char'
    if k == 'seq':
        if single(e): return ty(g, r, e.kids[0])
        if e.act is None: return '()'
        return g.acts[act_fn(e.act)][1] if '(' in e.act else ty(g, r, e.kids[e.labels.index(e.act)])
    if k == 'choice': 
        for x in e.kids:
            if x.kind != 'exp': return ty(g, r, x)
        return '()'
    if k == 'opt': return 'Option<%s>' % ty(g, r, e.kids[0])
    if k == 'rep': return 'Vec<%s>' % ty(g, r, e.kids[0])
    if k in ('and', 'quiet'): return ty(g, r, e.kids[0])
    if k == 'slice': return "Sl<'static>"
    if k == 'pos': return 'usize'
    if k == 'cust': return g.custs[e.f]
    if k == 'prec': return r.ret or '()'
    raise Exception(k)
def act_fn(a): return a.split('(')[0].strip()
def subst(t, tys):
    for a, b in (tys or {}).items(): t = re.sub(r'\b%s\b' % a, b, t)
    return t
def single(e): return e.act is None and len(e.kids) == 1 and not e.labels[0]

# ---- denotation as Verus specification ----
class Spec:
    """specification functions and contracts for the rules of one grammar"""
    log = False
    def __init__(self, g, mod='g', cust_pos=True):
        self.g, self.mod, self.out, self.n = g, mod, [], 0
        self.gen = ''

    def env0(self, r):
        """what the denotation of a rule depends on: grammar and rule arguments"""
        o = list(self.g.args)
        for n, t, kd in r.params:
            o += [(n, t)] if kd == 'val' else [('gs_' + n, 'spec_fn(int) -> Pr<%s>' % t), ('gt_' + n, 'spec_fn(int) -> Tr')]
        return o
    def generics(self, r):
        g = r.gen.strip('<>')
        return ', ' + g if g else ''

    def args(self, env): return ''.join(', ' + n for n, _ in env)
    def params(self, env): return ''.join(', %s: %s' % x for x in env)

    def fn(self, kind, id, env, ret, body, extra='', dec=''):
        self.out.append("pub open spec fn %s%s<'input%s>(i: &'input Inp, p: int%s%s) -> %s %s\n{ %s }" % (kind, id, self.gen, extra, self.params(env), ret, dec, body))

    def s(self, e, p, env): return '%s(i, %s%s)' % (e.sname, p, self.args(env))
    def t(self, e, p, env): return '%s(i, %s%s)' % (e.tname, p, self.args(env))

    def define(self, r, e, env, want=None):
        """emit s<k>, t<k> for e; env: labels in scope"""
        g = self.g
        k = e.kind
        e.env = list(env)
        T = want if (k == 'exp' and want) else self.ty(r, e)
        if k == 'choice' and T == '()' and want: T = want
        e.T = T
        if k == 'seq' and single(e):
            self.define(r, e.kids[0], env, want)
            e.sname, e.tname, e.T = e.kids[0].sname, e.kids[0].tname, e.kids[0].T
            return
        self.n += 1
        id = str(self.n)
        e.sname, e.tname, e.id = 's' + id, 't' + id, id
        P = 'Pr<%s>' % T
        S = lambda b, **kw: self.fn('s', id, env, P, b, **kw)
        Tf = lambda b, **kw: self.fn('t', id, env, 'Tr', b, **kw)
        if k == 'call':
            c = g.by[e.name]
            a, e.ghost = self.args(g.args), ''
            for v in e.kids:
                if isinstance(v, str): a += ', ' + v; continue
                self.define(r, v, env)
                self.n += 1; v.cid = self.n
                for z, rt in (('s', 'Pr<%s>' % v.T), ('t', 'Tr')):
                    self.out.append("pub open spec fn c%s%s<'input%s>(i: &'input Inp%s) -> spec_fn(int) -> %s { |q: int| %s(i, q%s) }" % (
                        z, v.cid, self.gen, self.params(env), rt, v.sname if z == 's' else v.tname, self.args(env)))
                    a += ', c%s%s(i%s)' % (z, v.cid, self.args(env))
                    e.ghost += '%sGhost(c%s%s(__input%s))' % (', ' if e.ghost else '', z, v.cid, self.args(env))
                e.ghost += ', Ghost(%s as int)' % self.lvl_e(v).replace(' +', 'int +', 1) if '+' in self.lvl_e(v) else ', Ghost(%sint)' % self.lvl_e(v)
            S('s_%s(i, p%s)' % (e.name, a)); Tf('t_%s(i, p%s)' % (e.name, a))
        elif k == 'arg':
            S('gs_%s(p)' % e.name); Tf('gt_%s(p)' % e.name)
        elif k == 'lit':
            q = js(e.s)
            S('match i_lit(i, p, %s) { Some(q) => Pr::M(q, ()), None => Pr::F }' % q)
            Tf('nil()' if self.log else 'if i_lit(i, p, %s) is Some { nil() } else { mk(p, %s) }' % (q, js(q)))
        elif k == 'pat':
            test = e.test.replace('{c}', 'c') if e.test else 'true'
            S('match i_elem(i, p) { Some((q, c)) => if %s { Pr::M(q, c) } else { Pr::F }, None => Pr::F }' % test)
            Tf('nil()' if self.log else 'match i_elem(i, p) { Some((q, c)) => if %s { nil() } else { mk(p, %s) }, None => mk(p, %s) }' % (test, self.desc(e), self.desc(e)))
        elif k == 'seq':
            en = list(env); pos = 'p'; ss, ts, close = '', '', ''
            for j, (l, x) in enumerate(zip(e.labels, e.kids)):
                self.define(r, x, en)
                q = 'p%d' % (j + 1)
                cs, ct = self.s(x, pos, en), self.t(x, pos, en)
                ss += 'match %s { Pr::F => Pr::F, Pr::M(%s, %s) => ' % (cs, q, l or '_')
                ts += '%s + match %s { Pr::F => nil(), Pr::M(%s, %s) => ' % (ct, cs, q, l or '_')
                close += ' }'
                if l: en = [z for z in en if z[0] != l] + [(l, x.T)]
                pos = q
            if e.act is None: a, b = 'Pr::M(%s, ())' % pos, 'nil()'
            elif e.cond:
                a = 'match sp_%s { Ok(v) => Pr::M(%s, v), Err(_) => Pr::F }' % (e.act, pos)
                b = 'match sp_%s { Ok(_) => nil(), Err(w) => %s }' % (e.act, 'nil()' if self.log else 'mk(%s, w)' % pos)
            else: a, b = 'Pr::M(%s, %s)' % (pos, 'sp_' + e.act if '(' in e.act else e.act), 'nil()'
            S(ss + a + close); Tf(ts + b + close)
        elif k == 'choice':
            for x in e.kids: self.define(r, x, env, T)
            ss, ts, close = '', '', ''
            for x in e.kids[:-1]:
                ss += 'match %s { Pr::M(q, v) => Pr::M(q, v), Pr::F => ' % self.s(x, 'p', env)
                ts += '%s + match %s { Pr::M(_, _) => nil(), Pr::F => ' % (self.t(x, 'p', env), self.s(x, 'p', env))
                close += ' }'
            x = e.kids[-1]
            S(ss + self.s(x, 'p', env) + close); Tf(ts + self.t(x, 'p', env) + close)
        elif k == 'opt':
            x = e.kids[0]; self.define(r, x, env)
            S('match %s { Pr::M(q, v) => Pr::M(q, Some(v)), Pr::F => Pr::M(p, None) }' % self.s(x, 'p', env)); Tf(self.t(x, 'p', env))
        elif k == 'rep':
            x = e.kids[0]; self.define(r, x, env)
            sep = e.kids[1] if e.has_sep else None
            if sep: self.define(r, sep, env)
            e.counted = bool(sep or e.mx is not None)
            IT = x.T
            mx = self.num(e.mx)
            n = ', n: int' if e.counted else ''
            rec = lambda f, q: '%s%s(i, %s%s%s)' % (f, id, q, ', n + 1' if e.counted else '', self.args(env))
            # the first round has no separator: it may match nothing when the separator cannot
            dec = 'decreases ' + ('%s - n' % mx if e.mx is not None else 'i_end(i) - p' + (', (if n == 0 { 1int } else { 0int })' if sep else ''))
            guard = '' if e.mx is not None else ('(p < p1 || n == 0 && p == p1) && p1 <= i_end(i)' if sep else 'p < p1 <= i_end(i)')
            def inner(q):
                a = '{ let r = %s; (r.0, seq![v] + r.1) }' % rec('rp', 'p1')
                b = rec('tr', 'p1')
                if guard: a = 'if %s %s else { (p1, seq![v]) }' % (guard, a); b = 'if %s { %s } else { nil() }' % (guard, b)
                return ('match %s { Pr::F => (p, Seq::empty()), Pr::M(p1, v) => %s }' % (self.s(x, q, env), a),
                        '%s + match %s { Pr::F => nil(), Pr::M(p1, v) => %s }' % (self.t(x, q, env), self.s(x, q, env), b))
            rs, rt = inner('q' if sep else 'p')
            if e.mx is not None:
                rs = 'if n >= %s { (p, Seq::empty()) } else { %s }' % (mx, rs)
                rt = 'if n >= %s { nil() } else { %s }' % (mx, rt)
            if sep:
                head = 'if n == 0 { Pr::M(p, ()) } else { un(%s) }' % self.s(sep, 'p', env)
                rs = 'match (%s) { Pr::F => (p, Seq::empty()), Pr::M(q, _) => %s }' % (head, rs)
                rt = '(if n == 0 { nil() } else { %s }) + match (%s) { Pr::F => nil(), Pr::M(q, _) => %s }' % (self.t(sep, 'p', env), head, rt)
            self.fn('rp', id, env, '(int, Seq<%s>)' % IT, rs, extra=n, dec=dec)
            self.fn('tr', id, env, 'Tr', rt, extra=n, dec=dec)
            z = ', 0' if e.counted else ''
            call = '%s(i, p%s%s)' % ('rp' + id, z, self.args(env))
            if e.mn is not None: S('let r = %s; if r.1.len() >= %s { Pr::M(r.0, mkvec(r.1)) } else { Pr::F }' % (call, self.num(e.mn)))
            else: S('let r = %s; Pr::M(r.0, mkvec(r.1))' % call)
            Tf('tr%s(i, p%s%s)' % (id, z, self.args(env)))
        elif k == 'and':
            x = e.kids[0]; self.define(r, x, env)
            S('match %s { Pr::M(_, v) => Pr::M(p, v), Pr::F => Pr::F }' % self.s(x, 'p', env)); Tf(self.t(x, 'p', env) if self.log else 'nil()')
        elif k == 'not':
            x = e.kids[0]; self.define(r, x, env)
            S('match %s { Pr::M(_, _) => Pr::F, Pr::F => Pr::M(p, ()) }' % self.s(x, 'p', env)); Tf(self.t(x, 'p', env) if self.log else 'nil()')
        elif k == 'quiet':
            x = e.kids[0]; self.define(r, x, env, want)
            S(self.s(x, 'p', env)); Tf(self.t(x, 'p', env) if self.log else 'nil()')
        elif k == 'exp':
            S('Pr::F'); Tf('nil()' if self.log else 'mk(p, %s)' % js(e.s))
        elif k == 'slice':
            x = e.kids[0]; self.define(r, x, env)
            S('match %s { Pr::M(q, _) => Pr::M(q, i_slice(i, p, q)), Pr::F => Pr::F }' % self.s(x, 'p', env)); Tf(self.t(x, 'p', env))
        elif k == 'pos':
            S('Pr::M(p, p as usize)'); Tf('nil()')
        elif k == 'cust':
            S('sc_%s(i, p)' % e.f); Tf('nil()')
        elif k == 'prec':
            self.define_prec(r, e, env, id)
        else:
            raise Exception('no denotation for ' + k)

    def define_prec(self, r, e, env, id):
        T, A = e.T, self.args(env)
        P = 'Pr<%s>' % T
        def wr(l, act, q):
            v = 'sp_' + act if '(' in act else act
            return 'sp_' + e.wrap[3].split('(')[0] + '(%s as usize, %s, %s as usize)' % (l, v, q) if e.wrap else v
        def items(els, pos, tail_s, tail_t, fail):
            en = list(env); ss = ts = close = ''
            for j, (l, x) in enumerate(els):
                self.define(r, x, en)
                q = 'q%d_' % (j + 1)
                ss += 'match %s { Pr::F => %s, Pr::M(%s, %s) => ' % (self.s(x, pos, en), fail, q, l or '_')
                ts += '%s + match %s { Pr::F => nil(), Pr::M(%s, %s) => ' % (self.t(x, pos, en), self.s(x, pos, en), q, l or '_')
                close += ' }'
                if l: en = [z for z in en if z[0] != l] + [(l, x.T)]
                pos = q
            return ss + tail_s(pos) + close, ts + tail_t(pos) + close
        ops = prec_ops(e)
        lt = '<=' if e.juxt else '<'; rk = (5, 6) if e.juxt else (1, 2)
        ip = lambda m, q: 'ip%s(i, %s, %s%s)' % (id, q, m, A)
        tip = lambda m, q: 'tip%s(i, %s, %s%s)' % (id, q, m, A)
        # atoms and prefix operators, in order
        ss = ts = close = ''
        for lv, kind, L, els, R, act in ops:
            if kind not in ('atom', 'prefix'): continue
            if kind == 'atom': x = items(els, 'p', lambda q: 'Pr::M(%s, %s)' % (q, wr('p', act, q)), lambda q: 'nil()', 'Pr::F')
            else: x = items(els, 'p', lambda q: 'if p < %s <= i_end(i) { match %s { Pr::M(z_, %s) => Pr::M(z_, %s), Pr::F => Pr::F } } else { Pr::F }' % (q, ip(R[1], q), R[0], wr('p', act, 'z_')),
                            lambda q: 'if p < %s <= i_end(i) { %s } else { nil() }' % (q, tip(R[1], q)), 'Pr::F')
            ss += 'match (%s) { Pr::M(q, v) => Pr::M(q, v), Pr::F => ' % x[0]
            ts += '(%s) + match (%s) { Pr::M(_, _) => nil(), Pr::F => ' % (x[1], x[0])
            close += ' }'
        self.fn('pp', id, env, P, ss + 'Pr::F' + close, dec='decreases i_end(i) - p, 1int')
        self.fn('tpp', id, env, 'Tr', ts + 'nil()' + close, dec='decreases i_end(i) - p, 1int')
        # one more operator, for a block whose operators are at least of level min_, after a match from l_ to p with value v_
        ss = ts = close = ''
        for lv, kind, L, els, R, act in ops:
            if kind not in ('infix', 'postfix'): continue
            if kind == 'postfix': x = items(els, 'p', lambda q: '{ let %s = v_; Some((%s, %s)) }' % (L, q, wr('l_', act, q)), lambda q: 'nil()', 'None')
            else: x = items(els, 'p', lambda q: 'if p ' + lt + ' %s <= i_end(i) { match %s { Pr::M(z_, %s) => { let %s = v_; Some((z_, %s)) }, Pr::F => None } } else { None }' % (q, ip(R[1], q), R[0], L, wr('l_', act, 'z_')),
                            lambda q: 'if p ' + lt + ' %s <= i_end(i) { %s } else { nil() }' % (q, tip(R[1], q)), 'None')
            O = 'None::<(int, %s)>' % T
            ss += 'match (if min_ <= %d { %s } else { %s }) { Some(x_) => Some(x_), None => ' % (lv, x[0], O)
            ts += '(if min_ <= %d { %s } else { nil() }) + match (if min_ <= %d { %s } else { %s }) { Some(_) => nil(), None => ' % (lv, x[1], lv, x[0], O)
            close += ' }'
        ex = ', min_: int, l_: int, v_: %s' % T
        self.fn('lv', id, env, 'Option<(int, %s)>' % T, ss + 'None' + close, extra=ex, dec='decreases i_end(i) - p, %dint' % rk[0])
        self.fn('tlv', id, env, 'Tr', ts + 'nil()' + close, extra=ex, dec='decreases i_end(i) - p, %dint' % rk[0])
        # as many operators as apply
        lv_ = 'lv%s(i, p, min_, l_, v_%s)' % (id, A)
        self.fn('gr', id, env, '(int, %s)' % T, 'match %s { None => (p, v_), Some((q, w_)) => if p < q <= i_end(i) { gr%s(i, q, min_, l_, w_%s) } else { (q, w_) } }' % (lv_, id, A), extra=ex, dec='decreases i_end(i) - p, %dint' % rk[1])
        self.fn('tgr', id, env, 'Tr', 'tlv%s(i, p, min_, l_, v_%s) + match %s { None => nil(), Some((q, w_)) => if p < q <= i_end(i) { tgr%s(i, q, min_, l_, w_%s) } else { nil() } }' % (id, A, lv_, id, A), extra=ex, dec='decreases i_end(i) - p, %dint' % rk[1])
        pp = 'pp%s(i, p%s)' % (id, A)
        self.fn('ip', id, env, P, 'match %s { Pr::F => Pr::F, Pr::M(q, v) => if p %s q <= i_end(i) { let x_ = gr%s(i, q, min_, p, v%s); Pr::M(x_.0, x_.1) } else { Pr::F } }' % (pp, '<' if e.juxt else '<=', id, A), extra=', min_: int', dec='decreases i_end(i) - p, 3int')
        self.fn('tip', id, env, 'Tr', 'tpp%s(i, p%s) + match %s { Pr::F => nil(), Pr::M(q, v) => if p %s q <= i_end(i) { tgr%s(i, q, min_, p, v%s) } else { nil() } }' % (id, A, pp, '<' if e.juxt else '<=', id, A), extra=', min_: int', dec='decreases i_end(i) - p, 3int')
        self.fn('s', id, env, P, ip('0', 'p'))
        self.fn('t', id, env, 'Tr', tip('0', 'p'))

    LIFT_REQ = "    requires i_valid(__input, %(pos)s as int), i_valid(__input, old(%(es)s).max_err_pos as int), old(%(es)s).suppress_fail <= usize::MAX - %(lvl)s,\n"
    def lifted(self, r, src):
        """contracts of the functions a precedence block is made of (see DESIGN.md, defunctionalisation)"""
        e = r.expr
        id, A, T = e.id, self.args(e.env), e.T
        lvl = self.lvl(r)
        head = '//@@fn src=%s sel="mod %s::fn __parse_%s" lift=%%s T="%s" S="ParseState<\'input>"' % (src, self.mod, r.name, T)
        o = []
        def part(name, pos, es, ens, dec, body=(), strict=None):
            o.append('#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]')
            o.append(head % name)
            o.append(self.LIFT_REQ % dict(pos=pos, es=es, lvl=lvl) + '    ensures')
            for x in ens: o.append('        %s,' % x)
            o.append('        /*V*/ i_valid(__input, final(%s).max_err_pos as int),' % es)
            o.append('    decreases i_end(__input) - %s, %dint' % (pos, dec))
            o.extend(body); o.append('//@@end')
        def run_(es, t): return '/*E*/ ev(*final(%s)) == run(ev(*old(%s)), %s)' % (es, es, t)
        def m(pos): return '/*V*/ match r { peg::RuleResult::Matched(q, _) => q ' + ('>' if e.juxt else '>=') + ' %s && i_valid(__input, q as int), _ => true }' % pos
        # infix(state, err_state, min_prec, lpos)
        inf = ['/*S*/ rr(r) == ip%s(__input, $A3 as int, $A2 as int%s)' % (id, A), run_('$A1', 'tip%s(__input, $A3 as int, $A2 as int%s)' % (id, A)), m('$A3')]
        G = lambda f, p, v: '%s%s(__input, %s as int, $A2 as int, $A3 as int, %s%s)' % (f, id, p, v, A)
        part('infix', '$A3', '$A1', inf, 3, [
            '//@@loopghost 0', 'let ghost e_0 = ev(*$A1); let ghost v_0 = $VAL; let ghost l_0 = $INIT;', '//@@loop 0',
            '    invariant', '        /*V*/ i_valid(__input, $POS as int) && $POS >= l_0, i_valid(__input, $A1.max_err_pos as int),',
            '        /*E*/ $A1.suppress_fail == e_0.sup,',
            '        /*S*/ %s == %s,' % (G('gr', 'l_0', 'v_0'), G('gr', '$POS', '$VAL')),
            '        /*E*/ run(e_0, %s) == run(ev(*$A1), %s),' % (G('tgr', 'l_0', 'v_0'), G('tgr', '$POS', '$VAL')),
            '    ensures', '        /*S*/ %s == ($POS as int, $VAL),' % G('gr', '$POS', '$VAL'),
            '        /*E*/ run(ev(*$A1), %s) == ev(*$A1),' % G('tgr', '$POS', '$VAL'),
            '    decreases i_end(__input) - $POS'])
        for rec in ('atomrec', 'levelrec'):
            # (pos, min_prec, state, err_state)
            part(rec, '$A0', '$A3', ['/*S*/ rr(r) == ip%s(__input, $A0 as int, $A1 as int%s)' % (id, A), run_('$A3', 'tip%s(__input, $A0 as int, $A1 as int%s)' % (id, A)), m('$A0')], 4)
        def sections(kinds):
            b, k, c = [], 0, 0
            for lv, kind, L, els, R, act in prec_ops(e):
                if kind not in kinds: continue
                for l, x in els:
                    for z, used in self.loops(x, bool(l)): b += self.loop(k, z, used); k += 1
                    for z, isarg in self.closures(x):
                        if isarg: raise Exception('closure in a precedence block')
                        b += ['//@@closure %d' % c, '-> (r: peg::RuleResult<%s>) ensures rr(r) == sc_%s(i, p as int)' % (self.g.custs[z.f], z.f)]; c += 1
            return b
        part('atom', '$A0', '$A2', ['/*S*/ rr(r) == pp%s(__input, $A0 as int%s)' % (id, A), run_('$A2', 'tpp%s(__input, $A0 as int%s)' % (id, A)), m('$A0')], 2, sections(('atom', 'prefix')))
        # level(pos, lpos, min_prec, value, state, err_state)
        lv = '%s' + id + '(__input, $A0 as int, $A2 as int, $A1 as int, $A3' + A + ')'
        part('level', '$A0', '$A5', ['/*S*/ match r.1 { peg::RuleResult::Matched(q, _) => %s == Some((q as int, r.0)), peg::RuleResult::Failed => %s == None::<(int, %s)> && r.0 == $A3 }' % (lv % 'lv', lv % 'lv', T),
            run_('$A5', lv % 'tlv'), '/*V*/ match r.1 { peg::RuleResult::Matched(q, _) => q > $A0 && i_valid(__input, q as int), _ => true }'], 5 if e.juxt else 2, sections(('infix', 'postfix')))
        return '\n'.join(o) + '\n'

    def ty(self, r, e):
        if e.kind == 'slice': return "Sl<'input>"
        if e.kind == 'opt': return 'Option<%s>' % self.ty(r, e.kids[0])
        if e.kind == 'rep': return 'Vec<%s>' % self.ty(r, e.kids[0])
        if e.kind == 'choice':
            for x in e.kids:
                if x.kind != 'exp': return self.ty(r, x)
        if e.kind in ('and', 'quiet'): return self.ty(r, e.kids[0])
        if e.kind == 'seq' and single(e): return self.ty(r, e.kids[0])
        return ty(self.g, r, e)
    def desc(self, e): return js(e.at.get('desc') or e.text)
    def num(self, m): return None if m is None else (str(m) if isinstance(m, int) else '(%s as int)' % m.strip('{} '))
    def cast(self, v, t): return v

    # ---- contracts for the generated code ----
    def loops(self, e, used):
        """repetitions in the order their loops appear in the generated code, with: is the value used"""
        k = e.kind
        if k == 'rep':
            o = [(e, used)]
            if e.has_sep: o += self.loops(e.kids[1], False)
            return o + self.loops(e.kids[0], used)
        if k == 'seq':
            if single(e): return self.loops(e.kids[0], used)
            return [z for l, x in zip(e.labels, e.kids) for z in self.loops(x, bool(l))]
        if k in ('not', 'slice'): return self.loops(e.kids[0], False)
        if k == 'call':
            return [z for a in e.kids if not isinstance(a, str) for z in self.loops(a, True)]
        return [z for x in e.kids for z in self.loops(x, used)]

    def closures(self, e):
        """closures in the order they appear: custom code, and expressions passed to rules"""
        if e.kind == 'cust': return [(e, False)]
        if e.kind == 'call': return [z for x, ps in zip(e.kids, self.g.by[e.name].params) if not isinstance(x, str) for z in [(x, ps[0])] + self.closures(x)]
        kids = [e.kids[1], e.kids[0]] if e.kind == 'rep' and e.has_sep else e.kids
        return [z for x in kids for z in self.closures(x)]

    def ghosts(self, e):
        """calls with expressions as arguments, in order"""
        if e.kind == 'call':
            o = [(e.name, e.ghost)] if e.ghost else []
            return o + [z for x in e.kids if not isinstance(x, str) for z in self.ghosts(x)]
        kids = [e.kids[1], e.kids[0]] if e.kind == 'rep' and e.has_sep else e.kids
        return [z for x in kids for z in self.ghosts(x)]

    RULEARG = """        0 <= gl_%(n)s,
        forall|st: &mut ParseState<'input>, es: &mut peg::error::ErrorState, p: usize| i_valid(__input, p as int) && i_valid(__input, es.max_err_pos as int) && es.suppress_fail <= usize::MAX - gl_%(n)s
            ==> #[trigger] %(n)s.requires((__input, st, es, p)),
        forall|st: &mut ParseState<'input>, es: &mut peg::error::ErrorState, p: usize, r: peg::RuleResult<%(t)s>| #[trigger] %(n)s.ensures((__input, st, es, p), r)
            ==> rr(r) == gs_%(n)s(p as int) && ev(*final(es)) == run(ev(*es), gt_%(n)s(p as int)) && i_valid(__input, final(es).max_err_pos as int)
                && match r { peg::RuleResult::Matched(q, _) => p %(op)s q && i_valid(__input, q as int), _ => true },
"""
    def rulearg(self, n, t): return self.RULEARG % dict(n=n, t=t, op='<' if n.startswith('k') else '<=')

    CONTRACT = """    requires i_valid(__input, __pos as int), i_valid(__input, old(__err_state).max_err_pos as int),%(req)s
    ensures
        /*S*/ %(res)s,
        /*E*/ ev(*final(__err_state)) == run(ev(*old(__err_state)), t_%(name)s(__input, __pos as int%(args)s)),
        /*V*/ match r { peg::RuleResult::Matched(q, _) => q >= __pos && i_valid(__input, q as int), _ => true },
        /*V*/ i_valid(__input, final(__err_state).max_err_pos as int),%(ens)s
"""
    def need(self, e):
        """how often an expression, and the expressions passed to rules in it, may suppress failures: number and level parameters"""
        if e.kind == 'arg': return 0, ['gl_' + e.name]
        c, g = (1 if e.kind in ('and', 'not', 'quiet') else 0), []
        for x in subs(e):
            a, b = self.need(x)
            c += a + (1 if e.kind == 'call' else 0); g += [z for z in b if z not in g]
        if e.kind == 'call': c += self.base(self.g.by[e.name])
        return c, g
    def base(self, r): return 0 if r.hole else self.need(r.expr)[0] + 1
    def lvl(self, r): return '%d' % self.base(r) + ''.join(' - gl_%s' % n for n, _, kd in r.params if kd == 'rule')
    def lvl_e(self, e):
        c, g = self.need(e)
        return '%d' % (c + 1) + ''.join(' + ' + x for x in g)
    def contract(self, r, req=None, ens=''):
        if req is None: req = ' old(__err_state).suppress_fail <= usize::MAX - %s,' % self.lvl(r)
        a = self.args(self.env0(r))
        ra = ''.join(self.rulearg(n, t) for n, t, kd in r.params if kd == 'rule')
        if ra: req += '\n' + ra.rstrip()
        c = 's_%s(__input, __pos as int%s)' % (r.name, a)
        res = 'rr(r) == %s' % c if r.ret else 'un(rr(r)) == un(%s)' % c
        return self.CONTRACT % dict(res=res, name=r.name, args=a, req=req, ens=ens)

    def sig(self, r):
        return ("fn __parse_%s<'input>(__input: &'input Inp, __state: &mut ParseState<'input>, __err_state: &mut peg::error::ErrorState, __pos: usize%s) -> (r: peg::RuleResult<%s>)\n"
                % (r.name, self.params(self.g.args) + ''.join(', %s: %s' % (n, t) for n, t, kd in r.params), r.ret or '()'))

    def hole(self, r):
        P = self.params(self.g.args) + ''.join(', %s: %s' % (n, t) for n, t, kd in r.params)
        A = self.args(self.g.args) + ''.join(', ' + n for n, t, kd in r.params)
        T = r.ret or '()'
        return """pub uninterp spec fn s_%(n)s<'input>(i: &'input Inp, p: int%(P)s) -> Pr<%(T)s>;
pub uninterp spec fn t_%(n)s<'input>(i: &'input Inp, p: int%(P)s) -> Tr;
pub broadcast axiom fn pos_%(n)s<'input>(i: &'input Inp, p: int%(P)s) ensures i_valid(i, p) ==> match #[trigger] s_%(n)s(i, p%(A)s) { Pr::M(q, _) => p %(op)s q && i_valid(i, q), Pr::F => true };
""" % dict(n=r.name, P=P, A=A, T=T, op='<' if r.hole == 'consuming' else '<=')
    def hole_fn(self, r):
        return '#[verifier::external_body]\n' + self.sig(r) + self.contract(r, req='') + '{ unimplemented!() }\n'

    def state(self): return ''
    def new_contract(self): return ''

    def trule(self, r, s, t): return t
    def rule(self, r, src):
        """skeleton text for one rule of the generated code"""
        g = self.g
        env = self.env0(r)
        self.gen = self.generics(r)
        self.out = []
        self.define(r, r.expr, env)
        T = r.expr.T
        A = self.args(env)
        o = self.out + ["pub open spec fn s_%s<'input%s>(i: &'input Inp, p: int%s) -> Pr<%s> { %s }" % (r.name, self.gen, self.params(env), T, self.s(r.expr, 'p', env)),
                        "pub open spec fn t_%s<'input%s>(i: &'input Inp, p: int%s) -> Tr { %s }" % (r.name, self.gen, self.params(env), self.trule(r, self.s(r.expr, 'p', env), self.t(r.expr, 'p', env)))]
        o.append('#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]')
        if r.expr.kind == 'prec':
            o.append('//@@fn src=%s sel="mod %s::fn __parse_%s" lift=main T="%s" S="ParseState<\'input>"' % (src, self.mod, r.name, T))
            return '\n'.join(o + [self.contract(r).rstrip(), '//@@end']) + '\n' + self.lifted(r, src)
        o.append('//@@fn src=%s sel="mod %s::fn __parse_%s"' % (src, self.mod, r.name))
        o.append(self.contract(r).rstrip())
        for k, (e, used) in enumerate(self.loops(r.expr, r.ret is not None)):
            o += self.loop(k, e, used)
        for k, (e, isarg) in enumerate(self.closures(r.expr)):
            o.append('//@@closure %d' % k)
            if not isarg: o.append('-> (r: peg::RuleResult<%s>) ensures rr(r) == sc_%s(i, p as int)' % (g.custs[e.f], e.f))
            else:
                # an expression passed to a rule behaves like the expression itself
                ar = self.args(e.env)
                facts = ''.join(',\n' + self.rulearg(n, t).strip().rstrip(',') for n, t, kd in r.params if kd == 'rule')
                o.append("""-> (r: peg::RuleResult<%s>)
    requires i_valid(__input, __pos as int), i_valid(__input, __err_state.max_err_pos as int), __err_state.suppress_fail <= usize::MAX - (%s)%s
    ensures /*S*/ rr(r) == %s(__input, __pos as int%s),
        /*E*/ ev(*final(__err_state)) == run(ev(*old(__err_state)), %s(__input, __pos as int%s)),
        /*V*/ match r { peg::RuleResult::Matched(q, _) => q %s __pos && i_valid(__input, q as int), _ => true },
        /*V*/ i_valid(__input, final(__err_state).max_err_pos as int)""" % (e.T, self.lvl_e(e), facts, e.sname, ar, e.tname, ar, '>' if isarg.startswith('k') else '>='))
        gp = [x for n, t, kd in r.params if kd == 'rule' for x in ('Ghost(gs_%s): Ghost<spec_fn(int) -> Pr<%s>>,' % (n, t), 'Ghost(gt_%s): Ghost<spec_fn(int) -> Tr>,' % n, 'Ghost(gl_%s): Ghost<int>,' % n)]
        if gp: o += ['//@@ghost'] + gp
        for n, gh in self.ghosts(r.expr): o += ['//@@call __parse_%s %s' % (n, gh)]
        o.append('//@@end')
        return '\n'.join(o) + '\n'

    def public(self, r, src):
        """the exported function: two passes, end of input, error"""
        a = self.args(self.g.args) + ''.join(', ' + n for n, _, kd in r.params if kd == 'val')
        P = self.params(self.g.args) + ''.join(', %s: %s' % (n, t) for n, t, kd in r.params if kd == 'val')
        d = dict(n=r.name, a=a, P=P, eof='true' if r.no_eof else 'q == i_end(i)', src=src, mod=self.mod)
        o = """pub open spec fn ok_%(n)s<'input>(i: &'input Inp%(P)s) -> bool { match s_%(n)s(i, 0%(a)s) { Pr::M(q, _) => %(eof)s, Pr::F => false } }
pub open spec fn full_%(n)s<'input>(i: &'input Inp%(P)s) -> Tr {
    match s_%(n)s(i, 0%(a)s) { Pr::M(q, _) => if %(eof)s { t_%(n)s(i, 0%(a)s) } else { t_%(n)s(i, 0%(a)s) + mk(q, "EOF") }, Pr::F => t_%(n)s(i, 0%(a)s) }
}
//@@fn src=%(src)s sel="mod %(mod)s::fn %(n)s" vis
    ensures
        /*S*/ (r is Ok) == ok_%(n)s(__input%(a)s),
""" % d
        if r.ret: o += "        /*S*/ match r { Ok(v) => match s_%(n)s(__input, 0%(a)s) { Pr::M(_, w) => w == v, Pr::F => false }, Err(_) => true },\n" % d
        o += """        /*E*/ match r { Err(e) => e.location == i_repr(__input, fmax(full_%(n)s(__input%(a)s))), Ok(_) => true },
        /*E*/ match r { Err(e) => e.expected.expected@ == fexp_at(full_%(n)s(__input%(a)s), fmax(full_%(n)s(__input%(a)s))), Ok(_) => true },
//@@pre
    proof {
        let ghost full = full_%(n)s(__input%(a)s);
        pass1(EV { max: 0, sup: 0, rep: false, exp: Set::empty() }, full);
        pass1(EV { max: 0, sup: 0, rep: false, exp: Set::empty() }, t_%(n)s(__input, 0%(a)s));
        pass2(EV { max: fmax(full), sup: 0, rep: true, exp: Set::empty() }, full);
    }
//@@end
""" % d
        return o

    def loop(self, k, e, used):
        id, env = e.id, e.env
        A = self.args(env)
        vec = used or e.mn is not None or e.mx is not None or e.has_sep
        cnt = ', $VAL@.len() as int' if e.counted else ''
        z = ', 0' if e.counted else ''
        R0 = 'rp%s(__input, l_%d%s%s)' % (id, k, z, A)
        R1 = 'rp%s(__input, $POS as int%s%s)' % (id, cnt, A)
        T0 = 'tr%s(__input, l_%d%s%s)' % (id, k, z, A)
        T1 = 'tr%s(__input, $POS as int%s%s)' % (id, cnt, A)
        inv = ['/*V*/ i_valid(__input, $POS as int) && $POS >= l_%d' % k, '/*V*/ i_valid(__input, __err_state.max_err_pos as int)',
               '/*E*/ __err_state.suppress_fail == e_%d.sup && __err_state.suppress_fail <= usize::MAX - (%s)' % (k, self.lvl_e(e)),
               '/*S*/ %s.0 == %s.0' % (R0, R1)]
        if vec: inv.append('/*S*/ %s.1 =~= $VAL@ + %s.1' % (R0, R1) if used else '/*S*/ %s.1.len() == $VAL@.len() + %s.1.len()' % (R0, R1))
        if vec and not nullable(e.kids[0]): inv.append('/*V*/ $VAL@.len() > 0 ==> $POS > l_%d' % k)
        dec = 'i_end(__input) - $POS' + (', (if $VAL@.len() == 0 { 1int } else { 0int })' if e.has_sep else '') if e.mx is None else '%s - $VAL@.len()' % self.num(e.mx)
        o = ['//@@loopghost %d' % k, 'let ghost l_%d = $INIT as int; let ghost e_%d = ev(*__err_state);' % (k, k), '//@@loop %d' % k]
        o += ['    invariant_except_break', '        /*E*/ run(e_%d, %s) == run(ev(*__err_state), %s),' % (k, T0, T1)]
        o += ['    invariant'] + ['        %s,' % x for x in inv]
        o += ['    ensures', '        /*E*/ ev(*__err_state) == run(e_%d, %s),' % (k, T0), '        /*S*/ %s.0 == $POS && %s.1.len() == 0,' % (R1, R1)]
        o += ['    decreases %s' % dec]
        return o

def nullable(e):
    k = e.kind
    if k == 'call': return not e.at.get('consuming', e.name in ('k', 'm', 'pk'))
    if k == 'cust': return not e.at.get('consuming', False)
    if k == 'lit': return e.s == ''
    if k in ('pat', 'exp'): return False
    if k == 'seq': return all(nullable(x) for x in e.kids)
    if k == 'choice': return any(nullable(x) for x in e.kids)
    if k == 'rep': return e.mn in (None, 0) or nullable(e.kids[0])
    if k in ('quiet', 'slice'): return nullable(e.kids[0])
    return True

PRELUDE = """pub mod %(mod)s {
use vstd::prelude::*; use vstd::string::*;
use super::*; use super::hx::*;
broadcast use {group_run, group_inp, mkvec_view%(holes)s};
"""

def values(types):
    return ''.join('#[verifier::external_body]\n#[derive(Clone, Copy)]\npub struct %s { _p: u8 }\n' % t for t in types)

def act_decl(name, ts, ret, cond):
    ps = ['x%d: %s' % (j, t) for j, t in enumerate(ts)]
    r = "Result<%s, &'static str>" % ret if cond else ret
    lt = "<'i>" if any("'i" in t for t in ts) or "'i" in ret else ''
    c = 'sp_%s(%s)' % (name, ', '.join('x%d' % j for j in range(len(ts))))
    return ("pub uninterp spec fn sp_%s%s(%s) -> %s;\n#[verifier::external_body]\npub fn %s%s(%s) -> (r: %s) ensures r == %s\n{ unimplemented!() }\n"
            % (name, lt, ', '.join(ps), r, name, lt, ', '.join(ps), r, c))
def cust_decl(name, T):
    return """pub uninterp spec fn sc_%(n)s<'input>(i: &'input Inp, p: int) -> Pr<%(T)s>;
pub broadcast axiom fn cpos_%(n)s<'input>(i: &'input Inp, p: int) ensures i_valid(i, p) ==> match #[trigger] sc_%(n)s(i, p) { Pr::M(q, _) => p <= q && i_valid(i, q), Pr::F => true };
#[verifier::external_body]
pub fn %(n)s<'input>(i: &'input Inp, p: usize) -> (r: peg::RuleResult<%(T)s>) ensures rr(r) == sc_%(n)s(i, p as int)
{ unimplemented!() }
""" % dict(n=name, T=T)

def unit_text(g, src, part, only=None, extra='', mod=None, spec=None):
    """a whole skeleton: runtime contracts, abstract input, grammar g's denotation, the generated code"""
    mod = mod or g.name
    sp = spec or Spec(g, mod)
    holes = [r for r in g.rules if r.hole]
    rules = [r for r in g.rules if not r.hole and (only is None or r.name in only)]
    o = [part('core'), part('error').replace('//#TOKENS', '').replace('//#DISPLAY', '')
         .replace('marked(*old(self), *final(self), pos, expected),', 'marked(*old(self), *final(self), pos, expected),\n                crate::ev(*final(self)) == crate::mark1(crate::ev(*old(self)), (pos as int, expected)),'), '}\n', part('stdx'),
         part('gen_err'), part('gen_inp'), extra]
    o.append('pub mod hx {\nuse vstd::prelude::*; use super::*;\n')
    for a, (ts, ret, cond) in g.acts.items(): o.append(act_decl(a, ts, ret, cond))
    for c, T in g.custs.items(): o.append(cust_decl(c, T))
    for r in holes: o.append(sp.hole(r))
    o.append('}')
    o.append(PRELUDE % dict(mod=mod, holes=''.join(', pos_' + r.name for r in holes) + ''.join(', cpos_' + c for c in g.custs) + (', vstd::std_specs::hash::group_hash_axioms' if any(r.cache for r in g.rules) else '')))
    o.append('//@@item src=%s sel="mod %s::type Input" pub\n//@@item src=%s sel="mod %s::type PositionRepr" pub\n//@@item src=%s sel="mod %s::struct ParseState" pub\n' % (src, mod, src, mod, src, mod))
    o.append("impl<'input> ParseState<'input> {\n//@@fn src=%s sel=\"mod %s::ParseState<'input>::new\" vis\n%s//@@end\n}\n" % (src, mod, sp.new_contract()))
    o.append(sp.state())
    for r in holes: o.append(sp.hole_fn(r))
    for r in rules:
        o.append(sp.rule(r, src))
        if r.pub: o.append(sp.public(r, src))
    o.append('}\n}\nfn main() {}\n')
    return '\n'.join(o)

# ---- the same grammar for the bounded runs: interpreter tree and compiled parser ----
import re
def env_refs(a, names):
    """action text over labels -> over an environment"""
    return re.sub(r'\b([A-Za-z_]\w*)\b(?!\s*[\(:])', lambda m: 'get(e, "%s")' % m.group(1) if m.group(1) in names else m.group(1), a)
def opt_label(l): return 'Some("%s")' % l if l else 'None'
def bound(b):
    if b is None: return 'Bound::No'
    if isinstance(b, int): return 'Bound::N(%d)' % b
    return 'Bound::Var("%s")' % b.strip('{} ')
def tree(e, names=()):
    k = e.kind
    bx = lambda x: 'Box::new(%s)' % tree(x, names)
    if k == 'call': return 'E::Call("%s", vec![%s])' % (e.name, ', '.join('Arg::Val(|e| { let _ = e; (%s).v() })' % env_refs(a, names) if isinstance(a, str) else 'Arg::Rule(%s)' % tree(a, names) for a in e.kids))
    if k == 'arg': return 'E::Param("%s")' % e.name
    if k == 'lit': return 'E::Lit(%s)' % js(e.s)
    if k == 'pat': return 'E::Pat(%s, |c| %s)' % (js(e.text), (e.test or 'true').replace('{c}', 'c').replace("true", "{ let _ = c; true }"))
    if k == 'seq':
        if single(e): return tree(e.kids[0], names)
        ns = list(names); it = []
        for l, x in zip(e.labels, e.kids):
            it.append('(%s, %s)' % (opt_label(l), tree(x, ns)))
            if l: ns.append(l)
        if e.act is None: a = 'Act::None'
        elif e.cond: a = 'Act::Cond(|e| { let _ = e; %s })' % env_refs(e.act, ns)
        else: a = 'Act::Val(|e| { let _ = e; (%s).v() })' % env_refs(e.act, ns)
        return 'E::Seq(vec![%s], %s)' % (', '.join(it), a)
    if k == 'choice': return 'E::Choice(vec![%s])' % ', '.join(tree(x, names) for x in e.kids)
    if k == 'opt': return 'E::Opt(%s)' % bx(e.kids[0])
    if k == 'rep': return 'E::Rep(%s, %s, %s, %s)' % (bx(e.kids[0]), bound(e.mn), bound(e.mx), 'Some(%s)' % bx(e.kids[1]) if e.has_sep else 'None')
    if k in ('and', 'not', 'quiet', 'slice'): return 'E::%s(%s)' % (k.capitalize(), bx(e.kids[0]))
    if k == 'exp': return 'E::Exp(%s)' % js(e.s)
    if k == 'pos': return 'E::Pos'
    if k == 'cust': return 'E::Cust(|s, p| match %s(s, p) { peg::RuleResult::Matched(q, v) => Some((q, v.v())), peg::RuleResult::Failed => None })' % e.f
    if k == 'prec':
        lv = []
        for ops in e.levels:
            o = []
            for els, act in ops:
                els = list(els); pre = post = 'None'
                if isinstance(els[0][1], str): pre = 'Some((%s, %s))' % (opt_label(els[0][0]), 'true' if els[0][1] == '(@)' else 'false'); first = els[0]; els = els[1:]
                else: first = None
                last = None
                if els and isinstance(els[-1][1], str): post = 'Some((%s, %s))' % (opt_label(els[-1][0]), 'true' if els[-1][1] == '(@)' else 'false'); last = els[-1]; els = els[:-1]
                ns = list(names); it = []
                for l, x in els:
                    it.append('(%s, %s)' % (opt_label(l), tree(x, ns)))
                    if l: ns.append(l)
                for z in (first, last):
                    if z and z[0]: ns.append(z[0])
                o.append('Op { pre: %s, mid: vec![%s], post: %s, act: |e| { let _ = e; (%s).v() } }' % (pre, ', '.join(it), post, env_refs(act, ns)))
            lv.append('vec![%s]' % ', '.join(o))
        return 'E::Prec(vec![%s], %s)' % (', '.join(lv), 'Some(|l, v, r| (%s).v())' % re.sub(r'\(.*', '(l, v, r)', e.wrap[3]) if e.wrap else 'None')
    raise Exception(k)

def prog(g):
    o, fs = [], []
    for j, r in enumerate(g.rules):
        names = [n for n, _ in g.args] + [n for n, _, kd in r.params if kd == 'val']
        fs.append('fn p_%s_%d() -> Rule { Rule { params: vec![%s], e: %s, cache: Cache::%s, ret: %s } }' % (g.name, j,
            ', '.join('"%s"' % n for n, _, _ in r.params), tree(r.expr, names), 'Left' if r.cache == 'cache_left_rec' else 'No', 'true' if r.ret else 'false'))
        o.append('("%s", p_%s_%d as fn() -> Rule)' % (r.name, g.name, j))
    fs.append('fn prog_%s() -> Prog { let mut p = Prog::default(); for (n, f) in [%s] { p.rules.insert(n, f()); } p }' % (g.name, ', '.join(o)))
    return '\n'.join(fs)

def driver(g, inp='str', uses='use super::*;', grammar=None):
    """macro invocation, interpreter program and one run per public rule"""
    o = ['peg::parser!{\n%s}\n' % grammar_text(g, inp, uses), prog(g)]
    ds = []
    for r in g.rules:
        if not r.pub: continue
        alpha, ln = getattr(r, 'inputs', None) or getattr(g, 'inputs', None) or (['a', 'b', 'c'], 5)
        vals = getattr(r, 'vals', None) or [[]]       # values for the parameters: rust expressions
        gvals = getattr(g, 'vals', None) or [[]]
        for gv in gvals:
            for va in vals:
                args = ''.join(', %s' % v for v in list(gv) + list(va))
                env = lambda ns, vs: 'vec![%s]' % ', '.join('("%s", (%s).v())' % (n, v) for n, v in zip(ns, vs))
                n = 'd_%s_%d' % (g.name, len(ds)); ds.append(n)
                o.append('fn %s(p: &Prog, st: &mut Stat, deep: usize) { drive(p, &Case { grammar: "%s", text: %s, rule: "%s", strings: &[%s], alphabet: &[%s], len: %d + deep, errors: %s, no_eof: %s, args: %s, vals: %s }, st, &|s| out(%s::%s(s%s))); }' % (
                    n, g.name, js(rule_text(r)), r.name, ', '.join(js(a) for a in getattr(r, 'strings', [])), ', '.join(js(a) for a in alpha), ln, 'false' if getattr(g, 'no_errors', False) or any(x.cache for x in g.rules) else 'true',
                    'true' if r.no_eof else 'false', env([n for n, _ in g.args], gv), env([n for n, _, _ in r.params], va), g.name, r.name, args))
    o.append('pub fn run_%s(st: &mut Stat, deep: usize) { let p = prog_%s(); for f in [%s] { f(&p, st, deep) } }' % (g.name, g.name, ', '.join('%s as fn(&Prog, &mut Stat, usize)' % d for d in ds)))
    return '\n'.join(o)

FNS = """
fn t1(n: &'static str, a: impl IntoV) -> V { V::T(n, vec![a.v()]) }
"""
def act_fns(acts):
    o = []
    for n, (ts, ret, cond) in acts.items():
        gs = ', '.join('T%d: IntoV' % j for j in range(len(ts))); ps = ', '.join('x%d: T%d' % (j, j) for j in range(len(ts)))
        v = 'V::T("%s", vec![%s])' % (n, ', '.join('x%d.v()' % j for j in range(len(ts))))
        if cond: o.append('pub fn %s<%s>(%s) -> Result<V, &\'static str> { let v = %s; if odd(&v) { Err("%s!") } else { Ok(v) } }' % (n, gs, ps, v, n))
        else: o.append('pub fn %s<%s>(%s) -> V { %s }' % (n, gs, ps, v))
    return '\n'.join(o)
