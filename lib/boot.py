"""C18: the grammar of grammars as published (grammar.rustpeg), read here without the parser it describes.

read(text)    the published grammar as the expressions of gram.py; actions keep their text
BSpec         its denotation: mutually recursive specification functions, total by the order in which rules call each other
skeleton()    contracts for every function of the committed grammar.rs
reference()   the same grammar as a plain recursive program, for the bounded run
"""
import re
import gram
from gram import *
from cached import CSpec
from vxlib import part

TOK = re.compile(r'''\s+|//[^\n]*|(?P<str>"(?:[^"\\]|\\.)*")|(?P<chr>'(?:[^'\\]|\\.)')|(?P<life>'[A-Za-z_]\w*)|(?P<id>[A-Za-z_]\w*)|(?P<num>\d\w*)|(?P<p>::|->|\*\*|\+\+|--|\#\#|.)''', re.S)

class Unread(Exception): pass

class Reader:
    def __init__(self, text):
        self.src, self.t, k = text, [], 0
        while k < len(text):
            m = TOK.match(text, k)
            if m.lastgroup: self.t.append((m.lastgroup, m.group(), m.start(), m.end()))
            k = m.end()
        self.k = 0
    def at(self, *ws, n=0): return self.k + n < len(self.t) and self.t[self.k + n][1] in ws and self.t[self.k + n][0] in ('p', 'id')
    def kind(self, n=0): return self.t[self.k + n][0] if self.k + n < len(self.t) else None
    def eat(self, w=None):
        if self.k >= len(self.t) or w is not None and not self.at(w):
            raise Unread('%s expected at: %s' % (w, self.src[self.t[self.k][2]:][:60] if self.k < len(self.t) else 'end'))
        self.k += 1
        return self.t[self.k - 1][1]
    def skip(self, w):
        if self.at(w): self.k += 1; return True
        return False
    def group(self):
        """the text inside a group of any delimiter"""
        a = self.t[self.k]; d = 0
        while True:
            w = self.t[self.k]
            if w[0] == 'p' and w[1] in '([{': d += 1
            if w[0] == 'p' and w[1] in ')]}': d -= 1
            self.k += 1
            if d == 0: return self.src[a[3]:w[2]].strip()

    def grammar(self):
        self.skip('pub'); self.eat('grammar'); name = self.eat(); self.eat('('); self.eat(')'); self.eat('for'); inp = self.eat()
        self.eat('{')
        rules, uses = [], []
        while not self.at('}'):
            if self.at('use'):
                a = self.t[self.k][2]
                while not self.at(';'): self.k += 1
                self.k += 1; uses.append(self.src[a:self.t[self.k - 1][3]])
            else: rules.append(self.rule())
        self.eat('}')
        if self.k != len(self.t): raise Unread('text after the grammar')
        return name, inp, uses, rules

    def rule(self):
        cache, no_eof = None, False
        while self.skip('#'):
            a = self.group()
            if a in ('cache', 'cache_left_rec'): cache = a
            elif a == 'no_eof': no_eof = True
            else: raise Unread('attribute ' + a)
        pub = self.skip('pub')
        self.eat('rule'); name = self.eat(); self.eat('('); self.eat(')')
        ret = None
        if self.skip('->'):
            a = self.t[self.k][2]
            while not self.at('='): self.k += 1
            ret = self.src[a:self.t[self.k][2]].strip()
        self.eat('=')
        e = self.choice(); self.skip(';')
        return Rule(name, e, ret, pub=pub, no_eof=no_eof, cache=cache)

    def choice(self):
        es = [self.seq()]
        while self.skip('/'): es.append(self.seq())
        return es[0] if len(es) == 1 else choice(*es)
    def more(self):
        if self.k >= len(self.t): return False
        if self.at('pub', 'rule', 'use', 'type', 'where'): return False
        if self.at('#'): return self.at('{', n=1)
        return self.kind() in ('str', 'id', 'chr') or self.at('[', '(', '$', '&', '!', '##', '@')
    def seq(self):
        items = []
        while self.more():
            l = None
            if self.kind() == 'id' and self.at(':', n=1): l = self.eat(); self.eat(':')
            items.append((l, self.suffix()))
        if self.at('{'):
            a = self.group()
            if a.startswith('?'): raise Unread('conditional action')
            return seq(*items, act=a)
        if len(items) == 1 and not items[0][0]: return items[0][1]
        return seq(*items)
    def count(self):
        if not self.at('<'): return None, None
        raise Unread('repetition count')
    def suffix(self):
        e = self.prefix()
        if self.skip('?'): return opt(e)
        if self.skip('**'): self.count(); return star(e, self.primary())
        if self.skip('++'): return plus(e, self.primary())
        if self.skip('*'): self.count(); return star(e)
        if self.skip('+'): return plus(e)
        return e
    def prefix(self):
        if self.skip('$'): return slc(self.primary())
        if self.skip('&'): return look(self.primary())
        if self.skip('!'): return notp(self.primary())
        return self.primary()
    def primary(self):
        if self.kind() == 'str':
            s = self.eat()
            if '\\' in s: raise Unread('escape')
            return lit(s[1:-1])
        if self.skip('('):
            e = self.choice(); self.eat(')')
            return e
        if self.skip('#'):
            c = self.group()
            m = re.fullmatch(r'\|\s*(\w+)\s*,\s*(\w+)\s*\|\s*(\w+)\.(\w+)\((.*)\)', c)
            if not m or m[3] != m[1]: raise Unread('custom code ' + c)
            a = [x.strip() for x in m[5].split(', ')] if "', '" not in m[5] else None
            if a is None or a[0] != m[2]: raise Unread('custom code ' + c)
            return custom_prim(m[4], a[1:], c)
        if self.kind() == 'id' and self.at('(', n=1):
            n = self.eat(); self.eat('('); self.eat(')')
            return call(n)
        raise Unread('expression expected at: ' + self.src[self.t[self.k][2]:][:60])

PRIMS = {'next_span': ('Span', False), 'ident': ('Ident', True), 'literal': ('Literal', True), 'group': ('Group', True), 'eat_until': ('()', True)}
PRIM_ARGS = {'group': 'Delimiter', 'eat_until': 'char'}
def custom_prim(m, args, code):
    if m not in PRIMS or len(args) != (1 if m in PRIM_ARGS else 0): raise Unread('unknown primitive ' + m)
    return N('cust', f=m, args=args, code=code, consuming=PRIMS[m][1])

def read(text):
    name, inp, uses, rules = Reader(text).grammar()
    g = Grammar(name, rules)
    for r in rules: walk(r.expr, lambda e: check(g, e))
    # which rules must consume: least fixed point of "can match nothing"
    null = set()
    while True:
        n = {r.name for r in rules if can_be_empty(r.expr, null)}
        if n == null: break
        null = n
    for r in rules:
        r.consuming = r.name not in null
        walk(r.expr, lambda e: e.at.update(consuming=e.name not in null) if e.kind == 'call' else None)
    g.uses = uses; g.inp = inp; g.null = null
    types(g)
    order(g)
    return g
def walk(e, f):
    f(e)
    for x in e.kids: walk(x, f)
def check(g, e):
    if e.kind == 'call' and e.name not in g.by: raise Unread('no rule ' + e.name)
def can_be_empty(e, null):
    k = e.kind
    if k == 'call': return e.name in null
    if k == 'cust': return not e.consuming
    if k == 'lit': return False
    if k == 'seq': return all(can_be_empty(x, null) for x in e.kids)
    if k == 'choice': return any(can_be_empty(x, null) for x in e.kids)
    if k == 'rep': return e.mn in (None, 0) or can_be_empty(e.kids[0], null)
    if k == 'slice': return can_be_empty(e.kids[0], null)
    if k in ('opt', 'and', 'not'): return True
    raise Exception(k)

# ---- types of actions ----
def types(g):
    """every action that is not just a label becomes an opaque function of the labels before it"""
    g.actions = {}              # rule -> [(function, labels, published text)]
    for r in g.rules:
        n = [0]
        acts = g.actions[r.name] = []
        def ty(e, want=None):
            k = e.kind
            if k == 'call': return g.by[e.name].ret or '()'
            if k in ('lit', 'not'): return '()'
            if k == 'cust': return PRIMS[e.f][0]
            if k == 'slice': ty(e.kids[0]); return 'TokenStream'
            if k == 'opt': return 'Option<%s>' % ty(e.kids[0])
            if k == 'and': return ty(e.kids[0])
            if k == 'rep': return 'Vec<%s>' % [ty(x) for x in e.kids][0]
            if k == 'choice':
                ts = [ty(x, want) for x in e.kids]
                known = [t for t in ts if t]
                if not known: raise Unread('type of a choice in ' + r.name)
                ts = [ty2(x, known[0]) if t is None else t for x, t in zip(e.kids, ts)]
                return ts[0] if all(t == ts[0] for t in ts) else '()'
            if k == 'seq':
                ls = [(l, ty(x)) for l, x in zip(e.labels, e.kids)]
                ls = [(l, t) for l, t in ls if l]
                if e.act is None: return '()'
                a = e.act.strip()
                if a in dict(ls): return dict(ls)[a]
                T = want
                m = re.fullmatch(r'\(([\w, ]+)\)', a)
                if m and all(x.strip() in dict(ls) for x in m[1].split(',')): T = '(%s)' % ', '.join(dict(ls)[x.strip()] for x in m[1].split(','))
                elif not T:
                    m = re.match(r'([A-Z]\w*)\s*\{', a)
                    T = m and m[1]
                e.text = a
                e.lbl = ls
                if not T: return None
                return name(e, T)
        def name(e, T):
            n[0] += 1
            f = 'a_%s_%d' % (r.name, n[0])
            g.acts[f] = ([t for _, t in e.lbl], T, False)
            e.at['published'] = e.text
            e.at['act'] = '%s(%s)' % (f, ', '.join(l + '_' for l, _ in e.lbl))
            acts.append(('%s(%s)' % (f, ', '.join(l for l, _ in e.lbl)), e.at['published']))
            return T
        def ty2(e, T): return name(e, T)
        top = ty(r.expr, r.ret)
        # an action sees the labels of its own sequence only
        def scope(e, outer):
            if e.kind == 'seq':
                if e.act is not None and any(re.search(r'\b%s\b' % l, e.at.get('published') or e.act) for l in outer - set(e.labels)): raise Unread('an action in %s uses an outer label' % r.name)
                outer = outer | {l for l in e.labels if l}
            for x in e.kids: scope(x, outer)
        scope(r.expr, set())
        # in the specification labels are marked, so that they cannot be taken for its own names
        def mark(e):
            if e.kind == 'seq':
                if e.act is not None and e.act in e.labels: e.at['act'] += '_'
                e.at['labels'] = [l and l + '_' for l in e.labels]
        walk(r.expr, mark)
        if r.ret and top != r.ret: raise Unread('the type of %s is %s, not %s' % (r.name, top, r.ret))

# ---- order: a rule comes after the rules it may call where it starts ----
def order(g):
    def left(e):
        """rules that may be called before anything is consumed; and: may something follow without consuming"""
        k = e.kind
        if k == 'call': return {e.name}, e.name in g.null
        if k == 'seq':
            out, go = set(), True
            for x in e.kids:
                if not go: break
                o, go = left(x); out |= o
            return out, go
        if k == 'choice':
            ls = [left(x) for x in e.kids]
            return set().union(*[o for o, _ in ls]), any(b for _, b in ls)
        if k == 'rep':
            out, em = left(e.kids[0])
            if e.has_sep and em: out = out | left(e.kids[1])[0]
            return out, can_be_empty(e, g.null)
        if e.kids: return left(e.kids[0])[0], can_be_empty(e, g.null)
        return set(), can_be_empty(e, g.null)
    deps = {r.name: left(r.expr)[0] for r in g.rules}
    out = []
    def put(n, path):
        if n in path: raise Unread('left recursion: ' + ' '.join(path))
        if n in out: return
        for m in sorted(deps[n]): put(m, path + (n,))
        out.append(n)
    for r in g.rules: put(r.name, ())
    g.rules = [g.by[n] for n in out]

class BSpec(CSpec):
    """CSpec where rules call each other recursively: guards make the recursion well-founded; that they hold is part of every contract"""
    K = 100000
    def __init__(self, g, mod):
        super().__init__(g, mod)
        self.rank = {r.name: 1 + k for k, r in enumerate(g.rules)}
    def fn(self, kind, id, env, ret, body, extra='', dec=''):
        if kind in ('t', 'tr'): return
        k = self.K - 2 * int(id) + (1 if kind == 's' else 0)
        dec = 'decreases i_end(i) - p, %dint, %dint, %s' % (1000 if self.late else self.rank[self.now], k, '(if n == 0 { 1int } else { 0int })' if 'n: int' in extra else '0int')
        self.names.append(kind + id)
        Spec.fn(self, kind, id, env, ret, body, extra, dec)
        self.out[-1] = '#[verifier::opaque]\n' + self.out[-1]
    late = False                # is the expression at hand always evaluated right of where its rule starts
    def params(self, env): return ''.join(', %s: %s' % x for x in env)
    def ty(self, r, e):
        k = e.kind
        if k == 'slice': return 'TokenStream'
        if k == 'cust': return PRIMS[e.f][0]
        if k == 'seq' and e.act is not None and '(' not in e.act: return self.ty(r, e.kids[e.labels.index(e.act)])
        if k == 'choice':
            ts = [self.ty(r, x) for x in e.kids]
            return ts[0] if all(t == ts[0] for t in ts) else '()'
        return super().ty(r, e)
    def define(self, r, e, env, want=None, late=False):
        was, self.late, k = self.late, self.late or late, len(self.names)
        e.late = self.late
        self.define1(r, e, env)
        self.late, e.names = was, self.names[k:]
    def define1(self, r, e, env, want=None):
        self.now = r.name
        k = e.kind
        if k == 'call':
            e.env, e.T, e.sname, e.tname, e.ghost = [], self.ty(r, e), 's_' + e.name, 't_' + e.name, ''
            self.n += 1; e.id = str(self.n)
            return
        e.env = list(env)
        if k == 'seq' and single(e) or k not in ('seq', 'choice', 'rep', 'cust'):
            return super().define(r, e, env, None)
        T = e.T = self.ty(r, e)
        self.n += 1
        id = str(self.n)
        e.sname, e.tname, e.id = 's' + id, 't' + id, id
        S = lambda b: self.fn('s', id, env, 'Pr<%s>' % T, b)
        if k == 'cust':
            S('sc_%s(i, p%s)' % (e.f, ''.join(', ' + a for a in e.args)))
        elif k == 'choice':
            for x in e.kids: self.define(r, x, env)
            w = lambda x: self.s(x, 'p', env) if x.T == T else 'un(%s)' % self.s(x, 'p', env)
            S(''.join('match %s { Pr::M(q, v) => Pr::M(q, v), Pr::F => ' % w(x) for x in e.kids[:-1]) + w(e.kids[-1]) + ' }' * (len(e.kids) - 1))
        elif k == 'seq':
            en, pos, ss, close, em = list(env), 'p', '', '', True
            for j, (l, x) in enumerate(zip(e.labels, e.kids)):
                self.define(r, x, [], None, not em)   # an action sees the labels of its own sequence only
                q = 'p%d' % (j + 1)
                em = em and can_be_empty(x, self.g.null)
                ss += 'match %s { Pr::F => Pr::F, Pr::M(%s, %s) => if p %s %s <= i_end(i) { ' % (self.s(x, pos, en), q, l or '_', '<=' if em else '<', q)
                close += ' } else { Pr::F } }'
                pos = q
            a = 'Pr::M(%s, ())' % pos if e.act is None else 'Pr::M(%s, %s)' % (pos, 'sp_' + e.act if '(' in e.act else e.act)
            S(ss + a + close)
        elif k == 'rep':
            x = e.kids[0]; self.define(r, x, env)
            sep = e.kids[1] if e.has_sep else None
            if sep: self.define(r, sep, env)
            e.counted = bool(sep)
            n = ', n: int' if sep else ''
            rec = 'rp%s(i, p1%s%s)' % (id, ', n + 1' if sep else '', self.args(env))
            rs = 'match %s { Pr::F => (p, Seq::empty()), Pr::M(p1, v) => if %s p1 <= i_end(i) { let r = %s; (r.0, seq![v] + r.1) } else { (p1, seq![v]) } }' % (self.s(x, 'q' if sep else 'p', env), '(p < p1 || n == 0 && p == p1) &&' if sep else 'p < p1 &&', rec)
            if sep:
                rs = 'match (if n == 0 { Pr::M(p, ()) } else { un(%s) }) { Pr::F => (p, Seq::empty()), Pr::M(q, _) => if p <= q <= i_end(i) { %s } else { (p, Seq::empty()) } }' % (self.s(sep, 'p', env), rs)
            self.fn('rp', id, env, '(int, Seq<%s>)' % x.T, rs, extra=n)
            c = 'rp%s(i, p%s%s)' % (id, ', 0' if sep else '', self.args(env))
            if e.mn is not None: S('let r = %s; if r.1.len() >= %s { Pr::M(r.0, mkvec(r.1)) } else { Pr::F }' % (c, e.mn))
            else: S('let r = %s; Pr::M(r.0, mkvec(r.1))' % c)
    # ---- large rules are proved in parts ----
    SMALL, WHOLE = 4, 8
    def bound(self, e, used, sup=0):
        """the parts whose result the generated code binds, in its order: name of the binding, expression, is the value used, parts inside"""
        if e.kind == 'seq' and single(e): return self.bound(e.kids[0], used, sup)
        one = lambda n, x, u: (n, x, u, self.bound(x, u, sup), sup)
        if e.kind == 'choice': return [one('__choice_res', x, used) for x in e.kids[:-1]] + self.bound(e.kids[-1], used, sup)
        if e.kind == 'seq':
            o = []
            for l, x in zip(e.labels, e.kids): o += [one('__seq_res', x, bool(l))] if x.kind != 'lit' else []
            return o
        if e.kind == 'rep': return ([one('__sep_res', e.kids[1], False)] if e.has_sep else []) + [one('__step_res', e.kids[0], used)]
        return [z for x in e.kids for z in self.bound(x, used and e.kind not in ('not', 'slice'), sup + (e.kind in ('not', 'and')))]
    def outlined(self, r):
        """sections that make parts functions of their own, with contracts; sets what the rest of the rule reveals"""
        if len(self.names) < self.WHOLE: self.left = self.names; return ''
        count, out, gone = {}, [], set()
        def go(b, depth):
            n, x, used, inner, sup = b
            k = count.get(n, 0); count[n] = k + 1
            at = len(out); out.append(None)
            for z in inner: go(z, depth + 1)
            own = [m for m in x.names if m not in gone]
            if len(own) < self.SMALL: return
            gone.update(own)
            f = 'part_%s_%d' % (r.name, at)
            T = x.T if used else '()'
            U = 'un(%s)' if T == '()' else '%s'
            spec = re.sub(r'\bi\b', '__input', self.s(x, '__pos as int', []))
            st = [('sound(__input, *old(__state))', 'sound(__input, *final(__state))')] if self.touches(r) else [('', '*final(__state) == *old(__state)')]
            out[at] = """//@@outline %(n)s %(k)d
%(f)s(__input, __state, __err_state, __pos)
#[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
fn %(f)s<'input>(__input: &'input Input, __state: &mut ParseState<'input>, __err_state: &mut crate::peg::error::ErrorState, __pos: usize) -> (r: crate::peg::RuleResult<%(T)s>)
    requires i_valid(__input, __pos as int), i_valid(__input, old(__err_state).max_err_pos as int),
        old(__err_state).suppress_fail <= usize::MAX - (%(lvl)s),
        %(pre)s
    ensures
        /*S*/ %(rr)s == %(s)s,
        /*S*/ %(post)s,
        /*E*/ final(__err_state).suppress_fail == old(__err_state).suppress_fail && final(__err_state).reparsing_on_error == old(__err_state).reparsing_on_error,
        /*V*/ match r { peg::RuleResult::Matched(q, _) => q %(gt)s __pos && i_valid(__input, q as int), _ => true },
        /*V*/ i_valid(__input, final(__err_state).max_err_pos as int),
    decreases i_end(__input) - __pos, %(rank)dint, %(d)dint,
{
%(rev)s
""" % dict(n=n, k=k, f=f, T=T, lvl=self.base(r) - sup, pre=st[0][0] + ',' if st[0][0] else '', post=st[0][1], rr=U % 'rr(r)', s=U % spec, gt='>=' if can_be_empty(x, self.g.null) else '>',
                   rank=1000 if x.late else self.rank[r.name], d=99 - depth, rev=self.reveals(own))
        top = self.bound(r.expr, r.ret is not None)
        if r.cache: top = [('__rule_result', r.expr, r.ret is not None, top, 0)]
        for b in top: go(b, 0)
        self.left = [m for m in self.names if m not in gone]
        return ''.join(x for x in out if x)
    def reveals(self, names, more=''):
        return 'proof { ' + ' '.join('reveal(s%s);' % n if n[0] == '_' else ('reveal_with_fuel(%s, 2);' if n[:2] == 'rp' else 'reveal(%s);') % n for n in names) + more + ' }'
    def strict(self, t, r):
        """the contract of a rule that must consume says so"""
        return t.replace('q >= __pos && i_valid', 'q > __pos && i_valid') if r.consuming else t
    def touches(self, r):
        """may evaluating the rule use the cache"""
        self.group(r.name)
        return bool(r.cache) or any(self.g.by[m].cache for m in self.reach[r.name])
    def contract(self, r, req=None, ens=''):
        t = self.strict(super().contract(r, req, ens), r)
        t = re.sub(r'(decreases .*,)\n', r'\1 100int,\n', t)
        f, g = 'fin_%s(__input, *old(__state), __pos as int)' % r.name, 'grown(__input, *old(__state), *final(__state), __pos as int)'
        assert f in t and g in t
        if not self.touches(r): return t.replace('        %s,\n' % f, '').replace(g, '*final(__state) == *old(__state)')
        return t.replace(f, 'sound(__input, *old(__state))').replace(g, 'sound(__input, *final(__state))')
    def loop(self, k, e, used):
        t = super().loop(k, e, used)
        return [x.replace('grown(__input, st_%d, *__state, l_%d)' % (k, k), 'sound(__input, *__state)' if self.touches(self.g.by[self.now]) else '*__state == st_%d' % k) for x in t]
    def state(self):
        t = super().state()
        for r in self.cached():
            if r.consuming:
                a, b = t.split('pub open spec fn is_%s<' % r.name)
                t = a + 'pub open spec fn is_%s<' % r.name + b.replace('q >= x', 'q > x', 1)
        t = re.sub(r"pub open spec fn (fin|grown)\w*<.*?\}\n(?=pub|\Z)", '', t, flags=re.S)
        return t + "/// every entry is what its rule does there\n#[verifier::opaque] pub open spec fn sound<'input>(i: &'input Inp, st: ParseState<'input>) -> bool { true%s }\n" % ''.join(
            '\n    && (forall|x: usize| #[trigger] st.%(n)s_cache@.contains_key(x) ==> is_%(n)s(i, x, st.%(n)s_cache@[x]))' % dict(n=r.name) for r in self.cached())
    def rule(self, r, src):
        self.now, self.names = r.name, ['_' + r.name]
        t = super().rule(r, src)
        t = t.replace('//@@pre\n', '') 
        t = t.replace('//@@end', self.outlined(r) + '//@@pre\n' + self.reveals(self.left, ' reveal(sound);' if r.cache else '') + '\n//@@end')
        root = self.s(r.expr, 'p', [])
        T = r.ret or '()'
        t = re.sub(r"pub open spec fn s_%s<'input>\(i: &'input Inp, p: int\) -> Pr<[^{]*> \{.*\}\n" % r.name,
                   lambda m: "#[verifier::opaque]\npub open spec fn s_%s<'input>(i: &'input Inp, p: int) -> Pr<%s> decreases i_end(i) - p, %dint, %dint, 0int\n{ %s }\n" % (
                       r.name, T, self.rank[r.name], self.K + 1, root if r.ret or r.expr.T == '()' else 'un(%s)' % root), t, count=1)
        acts = self.g.actions[r.name]
        if acts:
            sec = '//@@acts\n' + ''.join('%s <= %s\n' % (a, ' '.join(p.split())) for a, p in acts)
            t = t[:t.rindex('//@@end')] + sec + '//@@end\n'
        for k, (e, _) in enumerate(self.closures(r.expr)):
            t = t.replace('//@@closure %d\n-> (r: peg::RuleResult<%s>) ensures rr(r) == sc_%s(i, p as int)' % (k, self.g.custs.get(e.f), e.f),
                          '//@@closure %d\n-> (r: peg::RuleResult<%s>) ensures rr(r) == sc_%s(input, pos as int%s)' % (k, PRIMS[e.f][0], e.f, ''.join(', ' + a for a in e.args)))
        return t

def inp(text):
    return re.sub(r"Sl<'\w+>", 'TokenStream', text.replace("pub struct Sl<'i> { _p: &'i () }", 'pub struct TokenStream { _p: u8 }'))

def skeleton(g, src='peg-macros/grammar.rs'):
    g.custs = {f: t for f, (t, _) in PRIMS.items()}
    mod = 'peg'
    sp = BSpec(g, mod)
    from cached import CLONE
    opaque = ['Grammar', 'Rule', 'Item', 'SpannedExpr', 'TaggedExpr', 'BoundedRepeat', 'PrecedenceLevel', 'PrecedenceOperator', 'RuleArg', 'RuleParam', 'RuleParamTy', 'Cache', 'Ident', 'Group', 'Literal', 'Span']
    o = [part('core'), part('error').replace('//#TOKENS', '').replace('//#DISPLAY', '')
         .replace('marked(*old(self), *final(self), pos, expected),', 'marked(*old(self), *final(self), pos, expected),\n                crate::ev(*final(self)) == crate::mark1(crate::ev(*old(self)), (pos as int, expected)),'), '}\n', part('stdx'),
         part('gen_err'), inp(part('gen_inp')), values(opaque), CLONE, part('boot')]
    o.append('pub mod hx {\nuse vstd::prelude::*; use super::*;\n')
    for a, (ts, ret, cond) in g.acts.items(): o.append(act_decl(a, ts, ret, cond))
    o.append('}')
    o.append("pub mod bp {\nuse vstd::prelude::*; use vstd::string::*;\nuse super::*; use super::hx::*;\nbroadcast use {group_run, group_inp, mkvec_view, group_prim, vstd::std_specs::hash::group_hash_axioms};\n")
    o.append('//@@item src=%s sel="mod %s::type Input" pub\n//@@item src=%s sel="mod %s::type PositionRepr" pub\n//@@item src=%s sel="mod %s::struct ParseState" pub\n' % (src, mod, src, mod, src, mod))
    o.append("impl<'input> ParseState<'input> {\n//@@fn src=%s sel=\"mod %s::ParseState<'input>::new\" vis\n%s//@@end\n}\n" % (src, mod, sp.new_contract()))
    o.append(sp.state())
    for r in g.rules:
        o.append(sp.rule(r, src).replace('#[verifier::loop_isolation(false)]', '#[verifier::spinoff_prover] #[verifier::loop_isolation(false)]'))
        if r.pub: o.append(sp.public(r, src).replace('//@@end', '//@@pre\nproof { reveal(sound); }\n//@@end'))
    o.append('}\n}\nfn main() {}\n')
    return '\n'.join(o)

# ---- the published grammar as a plain program ----
def reference(g):
    sp = BSpec(g, 'peg')
    pre, n = [], [0]
    def gen(r, e, p):
        """an expression of type Option<(usize, T)>"""
        k = e.kind
        if k == 'lit': return 'lit(xi, %s, "%s")' % (p, e.s)
        if k == 'cust': return 'conv((%s)(xi, %s))' % (re.sub(r'\|\s*(\w+)\s*,\s*(\w+)\s*\|', r'|\1: &FlatTokenStream, \2: usize|', e.code, 1), p)
        if k == 'call': return 'r_%s(xi, %s, xm)' % (e.name, p)
        if k == 'slice': return '{ let xa = %s; match %s { Some((b, _)) => Some((b, xi.parse_slice(xa, b))), None => None } }' % (p, gen(r, e.kids[0], 'xa'))
        if k == 'opt': return '{ let xa = %s; match %s { Some((b, v)) => Some((b, Some(v))), None => Some((xa, None)) } }' % (p, gen(r, e.kids[0], 'xa'))
        if k == 'and': return '{ let xa = %s; match %s { Some((_, v)) => Some((xa, v)), None => None } }' % (p, gen(r, e.kids[0], 'xa'))
        if k == 'not': return '{ let xa = %s; match %s { Some(_) => None, None => Some((xa, ())) } }' % (p, gen(r, e.kids[0], 'xa'))
        if k == 'rep':
            sep = ''
            if e.has_sep: sep = 'let xa = if xout.is_empty() { xa } else { match %s { Some((b, _)) => b, None => break } };' % gen(r, e.kids[1], 'xa')
            return '{ let mut xat = %s; let mut xout = vec![]; loop { let xa = xat; %s match %s { Some((b, v)) => { xat = b; xout.push(v) } None => break } } if xout.len() >= %s { Some((xat, xout)) } else { None } }' % (p, sep, gen(r, e.kids[0], 'xa'), e.mn or 0)
        if k == 'choice':
            T = sp.ty(r, e)
            o = ''
            for x in e.kids:
                c = gen(r, x, 'xa')
                if sp.ty(r, x) != T: c = '(%s).map(|(b, _)| (b, ()))' % c
                o += 'let xt: Option<(usize, %s)> = %s; if xt.is_some() { break xt } ' % (T, c)
            return '{ let xa = %s; loop { %s break None } }' % (p, o)
        if k == 'seq':
            o, c, ls = '{ let xp = %s; ' % p, ' }', e.at['labels']
            for l, x in zip(ls, e.kids):
                o += 'match %s { None => None, Some((xp, %s)) => ' % (gen(r, x, 'xp'), l[:-1] if l else '_')
                c = ' }' + c
            act = '()' if e.act is None else '{ %s }' % (e.at.get('published') or e.act[:-1])
            return o + 'Some((xp, %s))' % act + c
        raise Unread(k)
    for r in g.rules:
        T = r.ret or '()'
        b = gen(r, r.expr, 'xp')
        if not r.ret: b = '(%s).map(|(q, _)| (q, ()))' % b
        if r.cache:
            pre.append('fn r_%s(xi: &FlatTokenStream, xp: usize, xm: &mut Memo) -> Option<(usize, %s)> { if let Some(v) = xm.%s.get(&xp) { return v.clone() } let v = b_%s(xi, xp, xm); xm.%s.insert(xp, v.clone()); v }' % (r.name, T, r.name, r.name, r.name))
        pre.append('fn %s_%s(xi: &FlatTokenStream, xp: usize, xm: &mut Memo) -> Option<(usize, %s)> { %s }' % ('b' if r.cache else 'r', r.name, T, b))
    top = [r for r in g.rules if r.pub]
    if len(top) != 1 or top[0].no_eof: raise Unread('public rules')
    return """// generated from grammar.rustpeg: every rule a recursive function, the actions as published
%s
use peg::{Parse, ParseLiteral, ParseSlice, RuleResult};
#[derive(Default)]
struct Memo { %s }
fn conv<T>(r: RuleResult<T>) -> Option<(usize, T)> { match r { RuleResult::Matched(p, v) => Some((p, v)), RuleResult::Failed => None } }
fn lit(i: &FlatTokenStream, p: usize, s: &str) -> Option<(usize, ())> { conv(i.parse_string_literal(p, s)) }
pub fn parse(i: &FlatTokenStream) -> Option<%s> { let mut m = Memo::default(); match r_%s(i, 0, &mut m) { Some((p, v)) if i.is_eof(p) => Some(v), _ => None } }
%s
""" % ('\n'.join(u if u.endswith(';') else u + ';' for u in g.uses), ' '.join('%s: std::collections::HashMap<usize, Option<(usize, %s)>>,' % (r.name, r.ret or '()') for r in g.rules if r.cache), top[0].ret, top[0].name, '\n'.join(pre))

if __name__ == '__main__':
    import sys
    g = read(open(sys.argv[1]).read())
    print(reference(g) if len(sys.argv) > 2 else skeleton(g))
