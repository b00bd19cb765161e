"""Plans for the checks of the macro itself: C14 to C18"""
import os, re, shutil, subprocess, concurrent.futures as cf
import meta
from vxlib import VERIF, BUILD, REPO, run, part, Unit

TAIL = "}\nfn main() {}\n"
PM_TRUST = ['proc_macro2 values are opaque; Ident::to_string gives what the identifier is spelled like, Ident::span a fixed span',
            'std HashMap with String keys is a map from names (new, get, entry().or_insert())', 'Grammar::iter_rules yields the rules among the items, in order (filter_map; exercised by the bounded run)',
            'std slice iter().position(), to_vec, join, format! do what std documents (wrappers in skel/pm.vs)']

def is_null(msg, lines): return not any(re.search(r'errs|found\(|shown|all_good', l) for l in lines)

def analysis_units(prop):
    tx = part('pm') + part('analysis') + part('analysis_thm') + TAIL
    # that each report is an error of the macro
    e = Unit('expansion', part('pm') + part('analysis') + part('translate') + TAIL, r'fn compile_grammar', 'peg-macros/translate.rs: compile_grammar')
    word, vec = ('reported_left', '__vx_v2') if prop == 'C14' else ('reported_loops', '__vx_v3')
    e.clause = lambda msg, lines: any(word in l or vec in l for l in lines)
    if prop == 'C14':
        return [e, Unit('analysis', tx, r'LeftRecursion|fn check|has_lower_bound', 'peg-macros/analysis.rs')]
    u = Unit('analysis', tx, r'LoopNullability|fn check|BoundedRepeat|LeftRecursionVisitor', 'peg-macros/analysis.rs')
    u.clause = lambda msg, lines: is_null(msg, lines)
    return [e, u]

def gm(name='gm'):
    """gm: the macro of the tree under test as a program that says which errors it reports"""
    import plans
    src = plans.harness_src(name)
    if REPO != '/repo':
        m = os.path.join(src, 'src', 'main.rs')
        t = open(m).read().replace('"/repo', '"' + REPO)
        open(m, 'w').write(t)
    r = run(['cargo', 'build', '-q', '--offline', '--target-dir', os.path.join(BUILD, name)], cwd=src, timeout=300)
    if r[0] != 0: return None, 'not available: the harness does not build against this tree: ' + '\n'.join(l for l in r[2].splitlines() if 'error' in l)[:400]
    return os.path.join(BUILD, name, 'debug', name), None

def ask(exe, texts, jobs=6, timeout=300):
    """one answer per text; None where the program ended early"""
    n = max(1, (len(texts) + jobs * 4 - 1) // (jobs * 4))
    parts = [texts[i:i + n] for i in range(0, len(texts), n)]
    def go(ts):
        out, k = [], 0
        while k < len(ts):
            r = run([exe], timeout=timeout, mem_gb=4, stdin='\n%%\n'.join(ts[k:]))
            got = r[1].splitlines()[:len(ts) - k]
            out += got; k += len(got)
            if k < len(ts): out.append('X\tended with %s' % r[0]); k += 1
            if len([o for o in out if o.startswith('X\tended')]) > 5: out += ['-'] * (len(ts) - k); break
        return out
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        return [l for p in ex.map(go, parts) for l in p]

def one_line(t): return re.sub(r'\s+', ' ', t)

def bounded_analysis(prop, tier, seed):
    def go():
        b = {'name': 'grammar enumeration', 'fails': [], 'cases': 0, 'nontrivial': 0, 'label': 'bounded',
             'bound': 'every operator around and beside every atom; two operators (sampled in quick); seeded random grammars of up to 4 rules and depth 3: the errors the macro reports against least fixed points computed independently'}
        exe, err = gm()
        if err: b['note'] = err; return b
        gs = meta.analysis_grammars(tier, seed)
        b['cmd'] = exe + ' < grammar'
        for g, l in zip(gs, ask(exe, [g.text() for g in gs])):
            if l == '-': continue
            b['cases'] += 1
            t = one_line(g.text())
            if l[0] != 'E':
                if l[0] == 'X': b['fails'].append('the macro crashes on %s: %s' % (t, l))
                else: b['note'] = 'a grammar of the enumeration is not read: %s: %s' % (l, t)
                continue
            msgs = l.split('\t')[1:]
            if prop == 'C14':
                lr = [re.search(r'"(.*)"', m).group(1) for m in msgs if 'left recurs' in m]
                allc, pl, E = meta.circles(g)
                if allc: b['nontrivial'] += 1
                if pl and not lr: b['fails'].append('%s: %s can call itself before consuming, not reported' % (t, sorted(pl)))
                elif lr and not allc: b['fails'].append('%s: reported as left recursive, but nothing is: %s' % (t, lr[0]))
                else:
                    lrr = {n for n, _, c in g.rules if c == 'cache_left_rec'}
                    for m in lr:
                        p = re.findall(r'\w+', m.rsplit(': ', 1)[-1])
                        if len(p) < 2 or p[0] != p[-1] or p[0] in lrr or any(y not in E.get(x, ()) for x, y in zip(p, p[1:])):
                            b['fails'].append('%s: the chain reported is not one: %s' % (t, m))
            else:
                lp = [m for m in msgs if 'infinite' in m and 'left recurs' not in m]
                want = meta.loops(g)
                if want: b['nontrivial'] += 1
                if bool(lp) != bool(want): b['fails'].append('%s: %d loops that need not consume, %d reported' % (t, want, len(lp)))
            if b['cases'] in (5, 500, 5000): b.setdefault('samples', []).append(t + ' -> ' + l[:200])
        return b
    return go

def analysis_plan(p, prop, tier, seed):
    p['units'] = analysis_units(prop)
    p['trusted'] += PM_TRUST
    p['bounded'] = [bounded_analysis(prop, tier, seed)]
    p['explanation'] = ('analysis.rs and ast.rs as they are (every function except iter_rules) against recursive definitions of "can match without consuming" and of the reports, '
                        'and lemmas that these are the least fixed point, the circles of left calls, and the loops, for all grammars.')

def core_head():
    """the runtime's RuleResult and the traits of an input, without the inputs the runtime itself has"""
    return part('core') + '}\n'

def tokens_plan(p, tier, seed):
    p['units'] = [Unit('tokens', core_head() + part('tokens') + TAIL, r'FlatTokenStream|Token::span|delimiter_', 'peg-macros/tokens.rs')]
    p['trusted'] += ['proc_macro2: a group is its delimiter and its trees (finitely nested); stream, delimiter, to_string, as_char, spacing, span, clone, into, extend, TokenStream iteration do what it documents; punctuation is ASCII',
                     'the tokens of a FlatTokenStream are private to tokens.rs, whose functions are all under contract except Display for Sp']
    def go():
        b = {'name': 'token tree enumeration', 'fails': [], 'cases': 0, 'nontrivial': 0, 'label': 'bounded',
             'bound': 'every token stream of up to 3 nodes over 7 leaves and 4 delimiters, 4 nodes over 4 leaves and 2 delimiters, seeded random streams of depth 5, one of depth 200; every position; 22 literals'}
        exe, err = gm('tk')
        if err: b['note'] = err; return b
        a = [str(seed), '60000' if tier == 'thorough' else '6000', '1' if tier == 'thorough' else '0']
        b['cmd'] = ' '.join([exe] + a)
        r = run([exe] + a, timeout=600, mem_gb=4)
        b['fails'] = [l[5:] for l in r[1].splitlines() if l.startswith('FAIL ')]
        d = [l.split() for l in r[1].splitlines() if l.startswith('DONE ')]
        if d: b['cases'], b['nontrivial'] = int(d[0][1]), int(d[0][2])
        elif not b['fails']: b['fails'].append('tokens.rs ends the process (rc %s)' % r[0])
        return b
    p['bounded'] = [go]
    p['explanation'] = 'tokens.rs as it is, every function but Display for Sp, against a recursive definition of flattening; lemmas: the entries tell the trees, what a slice takes is what was there, a text is spelled by one run only.'


def boot_plan(p, tier, seed):
    """grammar.rs against grammar.rustpeg"""
    import boot
    fns, err = [], None
    try:
        g = boot.read(open(os.path.join(REPO, 'peg-macros/grammar.rustpeg')).read())
        sk = boot.skeleton(g)
        fns = [r.name for r in g.rules]
        p['units'] = [Unit('grammar', sk, r'__parse_|fn peg_grammar|ParseState', 'peg-macros/grammar.rs against grammar.rustpeg (%d rules)' % len(fns), rlimit=60)]
    except (boot.Unread, OSError, KeyError, AssertionError, IndexError, ValueError) as e: g, err = None, '%s: %s' % (type(e).__name__, e)
    if err:
        p['assumptions'].append('grammar.rustpeg is not read by the check, nothing proved: ' + err)
        p['units'] = [Unit('grammar', "//@@fn src=peg-macros/grammar.rs sel=\"mod peg::fn (grammar.rustpeg is not readable: %s)\"\n//@@end\n" % re.sub(r'\W+', ' ', err), r'', 'grammar.rustpeg')]
    p['trusted'] += ['actions are deterministic functions of their labels; that the text of each in grammar.rs is the published one is checked token by token on extraction',
                     'the token primitives (next_span, ident, literal, group, eat_until) are functions of stream and position and advance where they match: proved for tokens.rs by C17',
                     'RuleResult<SpannedExpr>::clone returns an equal value; std HashMap get/insert as specified by vstd']
    p['bounded'] = [boot_bounded(g, err, tier, seed)]
    p['explanation'] = ('grammar.rustpeg is read by a reader of this check and turned into mutually recursive specification functions (well-founded because no rule can call itself before consuming: proved); every function of the '
                        'committed grammar.rs is proved to return exactly what its rule denotes, for every token stream and position, loops, recursion and the cache of `primary` included. Alternatives of large rules are moved to functions of their own mechanically.')

def boot_bounded(g, err, tier, seed):
    def go():
        b = {'name': 'texts of grammars', 'fails': [], 'cases': 0, 'nontrivial': 0, 'label': 'bounded',
             'bound': 'the committed parser against the published grammar run as a recursive program: every sequence of up to 2 to 5 (thorough 3 to 7, by the number of pieces) pieces in 17 places of a grammar, seeded longer ones, one to three changes of grammars; against the trees random texts of grammars were written from'}
        import boot, plans
        src = os.path.join(BUILD, 'bsrc')
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, 'harness', 'bs'), src)
        ref = boot.reference(g) if g else 'pub fn parse(_: &crate::tokens::FlatTokenStream) -> Option<crate::ast::Grammar> { None }'
        open(os.path.join(src, 'reference.rs'), 'w').write(ref)
        for f in ('Cargo.toml', 'src/main.rs'):
            f = os.path.join(src, f)
            t = open(f).read().replace('"/repo', '"' + REPO).replace('/BUILD/', src + '/')
            if not g: t = t.replace('let want = reference::parse(&flat);', 'return;')
            open(f, 'w').write(t)
        r = run(['cargo', 'build', '-q', '--offline', '--target-dir', os.path.join(BUILD, 'bs')], cwd=src, timeout=300)
        if r[0] != 0:
            b['note'] = 'not available: the harness does not build against this tree: ' + '\n'.join(l for l in r[2].splitlines() if 'error' in l)[:400]
            return b
        a = [str(seed), '3000000' if tier == 'thorough' else '400000', '1000000' if tier == 'thorough' else '40000']
        exe = os.path.join(BUILD, 'bs', 'debug', 'bs')
        b['cmd'] = ' '.join([exe] + a)
        r = run([exe] + a, timeout=700, mem_gb=8)
        b['fails'] = [l[5:] for l in r[1].splitlines() if l.startswith('FAIL ')]
        d = [l.split() for l in r[1].splitlines() if l.startswith('DONE ')]
        if d: b['cases'], b['nontrivial'] = int(d[0][1]), int(d[0][2])
        elif not b['fails']: b['fails'].append('the parser of grammars ends the process (rc %s)' % r[0])
        return b
    return go


def translate_plan(p, tier, seed):
    """translate.rs: how many errors there are in the expansion"""
    tx = part('pm') + part('analysis') + part('translate') + TAIL
    p['units'] = [Unit('translate', tx, r'report_error|compile_|group_check_prefix|extra_args|ty_params|name_or_ignore|make_parse_state|rule_params_list|ordered_choice|labeled_seq|fn msg|mis_|translate', 'peg-macros/translate.rs')]
    p['trusted'] += PM_TRUST + ['quote!: the errors in what it makes are those in what is interpolated plus those written in the template; format_ident! makes some identifier',
                                'std HashSet<String> is a set of names; iterator adaptors on slices and Option::map/unwrap_or_else/as_ref/cloned do what std documents (rewritten to loops and matches on extraction)',
                                'Context\'s derived Clone copies its fields']
    p['bounded'] = [translate_bounded(tier, seed)]
    p['explanation'] = ('translate.rs as it is, all of its functions: the number of compile_error! in the expansion equals the number of mistakes in the grammar by a recursive definition over ast.rs, '
                        'the reports of the two analyses included; so no mistake is dropped, and a grammar without mistakes gets no error.')

def translate_bounded(tier, seed):
    def go():
        import mistakes
        b = {'name': 'grammars with mistakes', 'fails': [], 'cases': 0, 'nontrivial': 0, 'label': 'bounded',
             'bound': 'every right and wrong call alone, under every operator and (sampled in quick) under two; operators of a precedence block of every shape of up to 3 (thorough 4) elements; seeded random grammars of up to 3 rules and depth 3 around 6 fixed ones: the number of errors, those of the two analyses apart, against a count on the grammar'}
        exe, err = gm()
        if err: b['note'] = err; return b
        gs = mistakes.grammars(tier, seed)
        b['cmd'] = exe + ' < grammar'
        for g, l in zip(gs, ask(exe, [g.text() for g in gs])):
            if l == '-': continue
            b['cases'] += 1
            t = one_line(g.text())
            if l[0] != 'E':
                if l[0] == 'X': b['fails'].append('the macro crashes on %s: %s' % (t, l))
                else: b['note'] = 'a grammar of the enumeration is not read: %s: %s' % (l, t)
                continue
            msgs = [m for m in l.split('\t')[1:] if m and 'left recurs' not in m and 'infinite' not in m]
            want = mistakes.total(g)
            if want: b['nontrivial'] += 1
            if len(msgs) != want: b['fails'].append('%s: %d mistakes, %d reported: %s' % (t, want, len(msgs), ' | '.join(msgs)[:200]))
            if b['cases'] in (5, 500, 5000): b.setdefault('samples', []).append(t + ' -> ' + l[:200])
        return b
    return go
