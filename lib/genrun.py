"""Generated parsers: the translator of the tree under test, contract units over its output, bounded runs of its output."""
import os, re, shutil, random, hashlib, json
import gram, schem
from gram import *
from vxlib import VERIF, BUILD, REPO, run, part, Unit, Broken

def translator(trace=False):
    d = os.path.join(BUILD, 'pbt' if trace else 'pb')
    cmd = ['cargo', 'build', '-q', '--offline', '-p', 'peg-macros', '--target-dir', d] + (['--features', 'trace'] if trace else [])
    r = run(cmd, cwd=REPO, timeout=400)
    if r[0] != 0: return None, 'translator does not build: ' + r[2][-400:]
    return os.path.join(d, 'debug', 'rust-peg'), None

def translate(g, wd, exe, name, inp='Inp', uses='use super::*;'):
    os.makedirs(wd, exist_ok=True)
    f = os.path.join(wd, name + '.rustpeg')
    open(f, 'w').write(grammar_text(g, inp, uses))
    r = run([exe, f], timeout=120, mem_gb=8)
    out = os.path.join(wd, name + '_gen.rs')
    open(out, 'w').write(r[1])
    if r[0] != 0 or not r[1].strip(): return None, 'the translator fails on %s: %s' % (name, (r[2] or str(r[0]))[:300])
    e = re.search(r'compile_error ! \((.*?)\) ;', r[1])
    if e: return None, 'the translator rejects %s: %s' % (name, e.group(1))
    return out, None

def is_E(msg, lines):
    return any('/*E*/' in l for l in lines) or ('overflow' in msg and any('suppress_fail' in l for l in lines))
def is_panic(msg, lines): return any('vx_panic' in l or 'requires false' in l for l in lines)
def side_S(msg, lines): return not is_E(msg, lines) and not is_panic(msg, lines)
def side_E(msg, lines): return is_E(msg, lines)
def side_all(msg, lines): return True

def chunks(rules, n):
    k = max(1, (len(rules) + n - 1) // n)
    return [rules[i::k] for i in range(k)]

def contract_units(b, rules, wd, exe, prefix, clause, size=40, public=False, targets=None, helpers=(), spec=None, extra='', logged=False):
    units, lost = [], []
    for j, ch in enumerate(chunks(rules, size)):
        names = {r.name for r in list(helpers) + ch}
        keep = [r for r in b.g.rules if r.hole and (not getattr(r, 'once', None) or r.once in names)] + list(helpers) + ch
        sub = Grammar(b.g.name, keep, b.g.args, b.g.acts, b.g.custs)
        used = set(w for r in list(helpers) + ch for w in re.findall(r'\w+', rule_text(r)))
        sub.acts = {k: v for k, v in b.g.acts.items() if k in used}
        name = '%s_%d' % (prefix, j)
        src, err = translate(sub, wd, exe, name)
        if err: lost.append((name, err)); continue
        tx = unit_text(sub, src, (lambda n: part('gen_log' if n == 'gen_err' else n)) if logged else part, extra=values('ABC') + extra, spec=spec and spec(sub))
        if logged: import tracing; tx = tracing.logify(tx)
        u = Unit(name, tx, targets or r'__parse_r\d|mod g::fn r\d', 'generated parsers', clause=clause)
        u.rules = {r.name: rule_text(r) for r in list(helpers) + ch}
        u.canaried = False
        units.append(u)
    return units, lost

# ---- bounded runs ----
def bad_rules(grammars, lines, err):
    """the rules of the grammars that rustc's errors point into"""
    out = set()
    for m in re.finditer(r'^error.*\n\s*--> src/main\.rs:(\d+):', err, re.M):
        n = int(m.group(1)) - 1
        rule = re.match(r'(?:#\[\w+\] )*(?:pub )?rule (\w+)', lines[n]) if n < len(lines) else None
        if not rule: continue
        for k in range(n, -1, -1):
            g = re.match(r'grammar (\w+)\(', lines[k])
            if g: out.add((g.group(1), rule.group(1))); break
    return out

MAIN = """#![allow(dead_code, unused, non_snake_case, clippy::all)]
mod interp; use interp::*;
type A = V; type B = V; type C = V; type Sl<'i> = &'i str;
pub fn t1(n: &'static str, a: impl IntoV) -> V { V::T(n, vec![a.v()]) }
pub fn odd(v: &V) -> bool { format!("{v:?}").bytes().map(|b| b as u32).sum::<u32>() %% 3 == 0 }
pub fn cu(s: &str, p: usize) -> peg::RuleResult<V> { if s[p..].starts_with('c') { peg::RuleResult::Matched(p + 1, V::S("cu".into())) } else { peg::RuleResult::Failed } }
%(acts)s
%(code)s
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog();
    let deep: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let mut st = Stat { cases: 0, nontrivial: 0, fails: 0, samples: 0 };
%(calls)s
        println!("CASES {} NONTRIVIAL {}", st.cases, st.nontrivial);
        if st.fails > 0 { std::process::exit(1) }
    }).unwrap();
    t.join().unwrap();
}
"""
def bounded(name, grammars, what, tier, deep=0, extra='', features=None, drivers=None):
    """a crate with these grammars compiled by the macro of the tree under test, against the interpreter"""
    def go():
        b = {'name': name, 'fails': [], 'cases': 0, 'nontrivial': 0, 'label': 'bounded', 'bound': what}
        src = os.path.join(BUILD, 'gr', name, 'src')
        shutil.rmtree(os.path.dirname(src), ignore_errors=True); os.makedirs(src)
        shutil.copy(os.path.join(VERIF, 'harness', 'gr', 'src', 'interp.rs'), src)
        t = open(os.path.join(VERIF, 'harness', 'gr', 'Cargo.toml')).read().replace('"/repo', '"' + REPO)
        open(os.path.join(os.path.dirname(src), 'Cargo.toml'), 'w').write(t)
        lock = os.path.join(VERIF, 'harness', 'gr', 'Cargo.lock')
        if os.path.exists(lock): shutil.copy(lock, os.path.join(os.path.dirname(src), 'Cargo.lock'))
        def write():
          code = '\n'.join('mod m_%s {\nuse super::*;\n%s\n%s\n}' % (g.name, act_fns(g.acts), driver(g)) for g in grammars)
          calls = '\n'.join('        m_%s::run_%s(&mut st, deep);' % (g.name, g.name) for g in grammars)
          open(os.path.join(src, 'main.rs'), 'w').write(MAIN % dict(acts=extra, code=code, calls=calls))
        write()
        cmd = ['cargo', 'build', '-q', '--offline', '--target-dir', os.path.join(BUILD, 'grt' + (features or ''))] + (['--features', features] if features else [])
        r = run(cmd, cwd=os.path.dirname(src), timeout=600)
        for _ in range(4):
            # grammars this tree does not compile: take the rules out and say so
            if r[0] == 0: break
            bad = bad_rules(grammars, open(os.path.join(src, 'main.rs')).read().split('\n'), r[2])
            if os.environ.get('VX_DEBUG'): print(r[2][:3000])
            if not bad: break
            b['note'] = 'rules this tree does not compile were left out: ' + '; '.join(sorted(x for _, x in bad))[:400]
            for g in grammars: g.rules[:] = [x for x in g.rules if (g.name, x.name) not in bad]
            write()
            r = run(cmd, cwd=os.path.dirname(src), timeout=600)
        if r[0] != 0:
            b['note'] = 'not available: the harness does not build against this tree: ' + r[2][-1500:]
            return b
        exe = os.path.join(BUILD, 'grt' + (features or ''), 'debug', 'gr')
        b['cmd'] = '%s %d' % (exe, deep)
        import plans
        return plans.parse_bounded(b, run([exe, str(deep)], timeout=400, mem_gb=16))
    return go
