//! An independent interpreter of grammars, written from the documentation: the oracle
//! of the bounded runs. Nothing in here is shared with the code under test.
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum V { U, C(char), S(String), N(usize), T(&'static str, Vec<V>), O(Option<Box<V>>), L(Vec<V>) }
pub trait IntoV { fn v(self) -> V; }
impl IntoV for V { fn v(self) -> V { self } }
impl IntoV for () { fn v(self) -> V { V::U } }
impl IntoV for char { fn v(self) -> V { V::C(self) } }
impl IntoV for usize { fn v(self) -> V { V::N(self) } }
impl<'a> IntoV for &'a str { fn v(self) -> V { V::S(self.to_string()) } }
impl IntoV for String { fn v(self) -> V { V::S(self) } }
impl<T: IntoV> IntoV for Option<T> { fn v(self) -> V { V::O(self.map(|x| Box::new(x.v()))) } }
impl<T: IntoV> IntoV for Vec<T> { fn v(self) -> V { V::L(self.into_iter().map(|x| x.v()).collect()) } }
impl<A: IntoV, B: IntoV> IntoV for (A, B) { fn v(self) -> V { V::T("pair", vec![self.0.v(), self.1.v()]) } }
impl<T: IntoV> IntoV for Box<T> { fn v(self) -> V { (*self).v() } }

pub type Env = Vec<(&'static str, V)>;
pub fn get(e: &Env, n: &str) -> V {
    e.iter().rev().find(|x| x.0 == n).unwrap_or_else(|| panic!("interpreter: no label {n}")).1.clone()
}
pub fn num(v: V) -> usize { match v { V::N(n) => n, _ => panic!("interpreter: not a number") } }

#[derive(Clone)]
pub enum Act { None, Val(fn(&Env) -> V), Cond(fn(&Env) -> Result<V, &'static str>) }
#[derive(Clone)]
pub enum Bound { No, N(usize), Var(&'static str) }
#[derive(Clone)]
pub enum Arg { Val(fn(&Env) -> V), Rule(E) }
pub enum Side { Label(Option<&'static str>), }
#[derive(Clone)]
pub struct Op { pub pre: Option<(Option<&'static str>, bool)>, pub mid: Vec<(Option<&'static str>, E)>, pub post: Option<(Option<&'static str>, bool)>, pub act: fn(&Env) -> V }
#[derive(Clone)]
pub enum E {
    Lit(&'static str), Pat(&'static str, fn(char) -> bool), Seq(Vec<(Option<&'static str>, E)>, Act), Choice(Vec<E>), Opt(Box<E>),
    Rep(Box<E>, Bound, Bound, Option<Box<E>>), And(Box<E>), Not(Box<E>), Quiet(Box<E>), Exp(&'static str), Slice(Box<E>), Pos,
    Cust(fn(&str, usize) -> Option<(usize, V)>), Call(&'static str, Vec<Arg>), Param(&'static str), Prec(Vec<Vec<Op>>, Option<fn(usize, V, usize) -> V>),
}
#[derive(Clone, Copy, PartialEq)]
pub enum Cache { No, Left }
pub struct Rule { pub params: Vec<&'static str>, pub e: E, pub cache: Cache, pub ret: bool }
#[derive(Default)]
pub struct Prog { pub rules: HashMap<&'static str, Rule> }

#[derive(Clone)]
pub struct Clo<'p> { e: &'p E, env: Env, rules: Vec<(&'static str, Clo<'p>)> }
pub struct Run<'p> {
    p: &'p Prog, s: &'p str, sup: usize, pub marks: Vec<(usize, String)>, pub steps: usize,
    memo: HashMap<(&'static str, usize), Option<(usize, V)>>,
    pub args: Env,
    pub calls: Vec<String>,
}
type R = Option<(usize, V)>;
pub const BUDGET: usize = 3_000_000;
impl<'p> Run<'p> {
    pub fn new(p: &'p Prog, s: &'p str, args: Env) -> Self { Run { p, s, sup: 0, marks: vec![], steps: 0, memo: HashMap::new(), args, calls: vec![] } }
    fn mark(&mut self, p: usize, w: &str) { if self.sup == 0 { self.marks.push((p, w.to_string())) } }
    fn lc(&self, pos: usize) -> String {
        if !cfg!(feature = "trace") { return String::new(); }
        let b = &self.s[..pos];
        format!("{}:{}", b.matches('\n').count() + 1, b.rsplit('\n').next().unwrap().chars().count() + 1)
    }
    pub fn rule(&mut self, n: &'static str, pos: usize, vals: Env, clo: Vec<(&'static str, Clo<'p>)>) -> R {
        let r = &self.p.rules[n];
        let mut env = self.args.clone();
        env.extend(vals);
        let at = self.lc(pos);
        if cfg!(feature = "trace") { self.calls.push(format!("[PEG_TRACE] Attempting to match rule `{n}` at {at}")); }
        let out = if r.cache == Cache::Left {
            if let Some(x) = self.memo.get(&(n, pos)) { return x.clone(); }
            self.memo.insert((n, pos), None);
            let mut best: R = None;
            loop {
                let cur = self.ev(&r.e, pos, &env, &clo);
                let better = match (&cur, &best) { (None, _) => false, (Some(_), None) => true, (Some(a), Some(b)) => a.0 > b.0 };
                if !better { break; }
                self.memo.insert((n, pos), cur.clone());
                best = cur;
            }
            self.memo.remove(&(n, pos));
            best
        } else { self.ev(&r.e, pos, &env, &clo) };
        if cfg!(feature = "trace") {
            let l = match &out { Some((q, _)) => format!("[PEG_TRACE] Matched rule `{n}` at {at} to {}", self.lc(*q)), None => format!("[PEG_TRACE] Failed to match rule `{n}` at {at}") };
            self.calls.push(l);
        }
        out.map(|(p, v)| (p, if r.ret { v } else { V::U }))
    }
    fn ev(&mut self, e: &'p E, p: usize, env: &Env, rs: &Vec<(&'static str, Clo<'p>)>) -> R {
        self.steps += 1;
        if self.steps > BUDGET { panic!("interpreter: budget") }
        match e {
            E::Lit(l) => if self.s[p..].starts_with(l) { Some((p + l.len(), V::U)) } else { self.mark(p, &format!("{l:?}")); None },
            E::Pat(d, t) => match self.s[p..].chars().next() { Some(c) if t(c) => Some((p + c.len_utf8(), V::C(c))), _ => { self.mark(p, d); None } },
            E::Seq(items, act) => {
                let (mut q, mut en) = (p, env.clone());
                for (l, x) in items {
                    let (n, v) = self.ev(x, q, &en, rs)?;
                    q = n;
                    if let Some(l) = l { en.push((l, v)); }
                }
                match act {
                    Act::None => Some((q, V::U)),
                    Act::Val(f) => Some((q, f(&en))),
                    Act::Cond(f) => match f(&en) { Ok(v) => Some((q, v)), Err(w) => { self.mark(q, w); None } },
                }
            }
            E::Choice(xs) => { for x in xs { if let Some(r) = self.ev(x, p, env, rs) { return Some(r); } } None }
            E::Opt(x) => Some(match self.ev(x, p, env, rs) { Some((q, v)) => (q, V::O(Some(Box::new(v)))), None => (p, V::O(None)) }),
            E::Rep(x, mn, mx, sep) => {
                let b = |b: &Bound| match b { Bound::No => None, Bound::N(n) => Some(*n), Bound::Var(v) => Some(num(get(env, v))) };
                let (mn, mx) = (b(mn), b(mx));
                let (mut items, mut end) = (vec![], p);
                loop {
                    let mut q = end;
                    // a separator is looked for once there is an item (it is, even when there may be no further item)
                    if let (Some(s), false) = (sep, items.is_empty()) { match self.ev(s, q, env, rs) { Some((n, _)) => q = n, None => break } }
                    if let Some(m) = mx { if items.len() >= m { break } }
                    match self.ev(x, q, env, rs) { Some((n, v)) => { end = n; items.push(v) } None => break }
                }
                if items.len() >= mn.unwrap_or(0) { Some((end, V::L(items))) } else { None }
            }
            E::And(x) => { self.sup += 1; let r = self.ev(x, p, env, rs); self.sup -= 1; r.map(|(_, v)| (p, v)) }
            E::Not(x) => { self.sup += 1; let r = self.ev(x, p, env, rs); self.sup -= 1; if r.is_some() { None } else { Some((p, V::U)) } }
            E::Quiet(x) => { self.sup += 1; let r = self.ev(x, p, env, rs); self.sup -= 1; r }
            E::Exp(w) => { self.mark(p, w); None }
            E::Slice(x) => self.ev(x, p, env, rs).map(|(q, _)| (q, V::S(self.s[p..q].to_string()))),
            E::Pos => Some((p, V::N(p))),
            E::Cust(f) => f(self.s, p),
            E::Param(n) => { let c = rs.iter().rev().find(|x| x.0 == *n).expect("interpreter: no rule parameter").1.clone(); self.ev(c.e, p, &c.env, &c.rules) }
            E::Call(n, args) => {
                let r = &self.p.rules[n];
                let (mut vals, mut clo) = (vec![], vec![]);
                for (a, name) in args.iter().zip(&r.params) {
                    match a { Arg::Val(f) => vals.push((*name, f(env))), Arg::Rule(e) => clo.push((*name, Clo { e, env: env.clone(), rules: rs.clone() })) }
                }
                self.rule(n, p, vals, clo)
            }
            E::Prec(levels, wrap) => self.prec(levels, *wrap, 0, p, env, rs),
        }
    }
    fn items(&mut self, mid: &'p [(Option<&'static str>, E)], p: usize, en: &mut Env, rs: &Vec<(&'static str, Clo<'p>)>) -> Option<usize> {
        let mut q = p;
        for (l, x) in mid { let (n, v) = self.ev(x, q, en, rs)?; q = n; if let Some(l) = l { en.push((l, v)) } }
        Some(q)
    }
    /// `@` on an operator's side: operators of the same level may follow there; `(@)`: only tighter ones.
    /// In declaration: left operand marker (@), right operand @ = left associative: its right operand is tighter.
    fn prec(&mut self, levels: &'p Vec<Vec<Op>>, wrap: Option<fn(usize, V, usize) -> V>, min: usize, p: usize, env: &Env, rs: &Vec<(&'static str, Clo<'p>)>) -> R {
        let w = |l: usize, v: V, r: usize| match wrap { Some(f) => f(l, v, r), None => v };
        let mut cur: R = None;
        'start: for (lv, ops) in levels.iter().enumerate() {
            for op in ops {
                if op.pre.is_some() { continue; }
                let mut en = env.clone();
                if let Some(q) = self.items(&op.mid, p, &mut en, rs) {
                    if let Some((l, same)) = op.post {
                        let m = if same { lv } else { lv + 1 };
                        if let Some((q2, v)) = self.prec(levels, wrap, m, q, env, rs) {
                            if let Some(l) = l { en.push((l, v)) }
                            cur = Some((q2, w(p, (op.act)(&en), q2)));
                            break 'start;
                        }
                    } else {
                        cur = Some((q, w(p, (op.act)(&en), q)));
                        break 'start;
                    }
                }
            }
        }
        let (mut q, mut v) = cur?;
        'grow: loop {
            for (lv, ops) in levels.iter().enumerate() {
                if lv < min { continue; }
                for op in ops {
                    let Some((ll, _)) = op.pre else { continue };
                    let mut en = env.clone();
                    let Some(m) = self.items(&op.mid, q, &mut en, rs) else { continue };
                    if let Some((rl, same)) = op.post {
                        let Some((e, rv)) = self.prec(levels, wrap, if same { lv } else { lv + 1 }, m, env, rs) else { continue };
                        if let Some(l) = rl { en.push((l, rv)) }
                        if let Some(l) = ll { en.push((l, v)) }
                        v = w(p, (op.act)(&en), e);
                        q = e;
                    } else {
                        if let Some(l) = ll { en.push((l, v)) }
                        v = w(p, (op.act)(&en), m);
                        q = m;
                    }
                    continue 'grow;
                }
            }
            return Some((q, v));
        }
    }
}

/// what a public rule must return: value, or location and expected set
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Ok(V), Err(usize, BTreeSet<String>) }
pub fn expect(p: &Prog, rule: &'static str, s: &str, args: Env, vals: Env, no_eof: bool) -> (Out, usize, Vec<String>) {
    let mut r = Run::new(p, s, args);
    let x = r.rule(rule, 0, vals, vec![]);
    if let Some((q, v)) = x {
        if no_eof || q == s.len() { return (Out::Ok(v), r.marks.len(), r.calls); }
        r.marks.push((q, "EOF".to_string()));
    }
    let m = r.marks.iter().map(|x| x.0).max().unwrap_or(0);
    (Out::Err(m, r.marks.iter().filter(|x| x.0 == m).map(|x| x.1.clone()).collect()), r.marks.len(), r.calls)
}

// ---- driver ----
pub fn out<T: IntoV>(r: Result<T, peg::error::ParseError<peg::str::LineCol>>) -> Out {
    match r { Ok(v) => Out::Ok(v.v()), Err(e) => Out::Err(e.location.offset, e.expected.tokens().map(|x| x.to_string()).collect()) }
}
thread_local!(static LAST: RefCell<(String, String)> = RefCell::new((String::new(), String::new())));
// how often the body of a cached rule was evaluated at a position in the current call
thread_local!(static TICKS: RefCell<HashMap<(&'static str, usize), usize>> = RefCell::new(HashMap::new()));
pub fn tick(n: &'static str, p: usize) { TICKS.with(|t| *t.borrow_mut().entry((n, p)).or_insert(0) += 1) }
pub static PROGRESS: std::sync::Mutex<(u64, String)> = std::sync::Mutex::new((0, String::new()));
pub struct Case { pub grammar: &'static str, pub text: &'static str, pub rule: &'static str, pub strings: &'static [&'static str], pub alphabet: &'static [&'static str], pub len: usize, pub errors: bool, pub no_eof: bool, pub args: Env, pub vals: Env }
pub struct Stat { pub cases: u64, pub nontrivial: u64, pub fails: u64, pub samples: u64 }

pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0, String::new());
        let mut n = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let cur = PROGRESS.lock().unwrap().clone();
            if cur == last { n += 1 } else { n = 0 }
            last = cur;
            if n >= 8 { println!("FAIL does not terminate: {}", last.1); println!("CASES 0 NONTRIVIAL 0"); std::process::exit(1); }
        }
    });
}
/// strings over the alphabet up to len, in order of length
pub fn inputs(alpha: &[&str], len: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..len {
        let mut nx = vec![];
        for s in &cur { for a in alpha { nx.push(format!("{s}{a}")) } }
        all.extend(nx.iter().cloned());
        cur = nx;
    }
    all
}
pub fn tidy(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
pub fn drive(p: &Prog, c: &Case, st: &mut Stat, f: &dyn Fn(&str) -> Out) {
    let mut ins = inputs(c.alphabet, c.len);
    ins.extend(c.strings.iter().map(|s| s.to_string()));
    let mut bad = 0;
    for s in &ins {
        { let mut g = PROGRESS.lock().unwrap(); g.0 += 1; g.1 = format!("rule {} of {} on {:?}: {}", c.rule, c.grammar, s, c.text); }
        let (want, marks, calls) = expect(p, c.rule, s, c.args.clone(), c.vals.clone(), c.no_eof);
        TICKS.with(|t| t.borrow_mut().clear());
        let (got, printed) = capture(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(s))));
        // one pass, or two when there is an error to report
        let passes = if matches!(got, Ok(Out::Ok(_))) { 1 } else { 2 };
        let again = TICKS.with(|t| t.borrow().iter().find(|x| *x.1 > passes).map(|x| *x.0));
        st.cases += 1;
        if matches!(want, Out::Ok(_)) && !s.is_empty() || marks > 1 { st.nontrivial += 1; }
        let ok = match (&got, &want) {
            (Ok(Out::Ok(a)), Out::Ok(b)) => a == b,
            (Ok(Out::Err(a, x)), Out::Err(b, y)) => !c.errors || a == b && x.iter().map(|s| tidy(s)).collect::<BTreeSet<_>>() == y.iter().map(|s| tidy(s)).collect::<BTreeSet<_>>(),
            _ => false,
        };
        let ok = if let (true, Some((n, p))) = (ok, again) {
            if bad < 2 { bad += 1; println!("FAIL rule {} of grammar {} on input {:?}: the body of the cached rule behind {} is evaluated again at {}; rule text: {}", c.rule, c.grammar, s, n, p, c.text); }
            st.fails += 1;
            continue;
        } else { ok };
        if ok && cfg!(feature = "trace") {
            if let Some(why) = bad_trace(&printed, &calls, passes, c.errors) {
                if bad < 2 { bad += 1; println!("FAIL rule {} of grammar {} on input {:?}: {why}; rule text: {}", c.rule, c.grammar, s, c.text); }
                st.fails += 1;
                continue;
            }
        }
        if !ok && bad < 2 {
            bad += 1;
            println!("FAIL rule {} of grammar {} on input {:?}: expected {:?}, got {}; rule text: {}", c.rule, c.grammar, s, want,
                match got { Ok(g) => format!("{g:?}"), Err(e) => format!("panic {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()))) }, c.text);
        }
        if !ok { st.fails += 1; }
        if ok && st.samples < 6 && s.len() == 2 && st.cases % 7 == 0 { st.samples += 1; println!("SAMPLE {} on {:?}: {:?}; {}", c.rule, s, want, c.text); }
    }
}

/// what the real parser prints meanwhile (feature trace)
#[cfg(not(feature = "trace"))]
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) { (f(), String::new()) }
#[cfg(feature = "trace")]
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::io::{Read, Seek, Write};
    use std::os::fd::{AsRawFd, FromRawFd};
    extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn memfd_create(n: *const u8, f: u32) -> i32; }
    thread_local!(static F: RefCell<Option<(i32, std::fs::File)>> = RefCell::new(None));
    F.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() { let d = unsafe { (dup(1), memfd_create(b"trace\0".as_ptr(), 0)) }; assert!(d.0 >= 0 && d.1 >= 0); *c = Some((d.0, unsafe { std::fs::File::from_raw_fd(d.1) })); }
        let (out, file) = c.as_mut().unwrap();
        file.set_len(0).unwrap(); file.rewind().unwrap();
        std::io::stdout().flush().unwrap();
        unsafe { dup2(file.as_raw_fd(), 1); }
        let r = f();
        std::io::stdout().flush().unwrap();
        unsafe { dup2(*out, 1); }
        file.rewind().unwrap();
        let mut s = String::new();
        file.read_to_string(&mut s).unwrap();
        (r, s)
    })
}
/// exact: the lines are those of the interpreter, once per pass; otherwise every attempt ends, properly nested
fn bad_trace(printed: &str, calls: &[String], passes: usize, exact: bool) -> Option<String> {
    let lines: Vec<&str> = printed.lines().filter(|l| !l.contains("level") && !l.contains("[PEG_INPUT_START]") && !l.contains("[PEG_TRACE_START]") && !l.contains("[PEG_TRACE_STOP]")).collect();
    if exact {
        let n = calls.len();
        if lines.len() != n * passes || lines.iter().enumerate().any(|(j, l)| *l != calls[j % n]) {
            let j = lines.iter().enumerate().position(|(j, l)| *l != calls[j % n]).unwrap_or(lines.len());
            return Some(format!("printed {} lines, expected {} x {}; first difference: {:?}, expected {:?}", lines.len(), passes, n, lines.get(j), calls.get(j % n)));
        }
        return None;
    }
    let mut open: Vec<&str> = vec![];
    let mut any = 0;
    for l in lines {
        if let Some(r) = l.strip_prefix("[PEG_TRACE] Attempting to match ") { open.push(r); any += 1; continue; }
        if l.starts_with("[PEG_TRACE] Cached match of rule `") || l.starts_with("[PEG_TRACE] Cached fail of rule `") { any += 1; continue; }
        let r = match (l.strip_prefix("[PEG_TRACE] Matched "), l.strip_prefix("[PEG_TRACE] Failed to match ")) {
            (Some(r), _) => match r.split_once(" to ") { Some((a, _)) => a, None => return Some(format!("malformed: {l}")) },
            (_, Some(r)) => r,
            _ => return Some(format!("malformed: {l}")),
        };
        if open.pop() != Some(r) { return Some(format!("not an open attempt: {l}")); }
    }
    if !open.is_empty() || any == 0 { return Some(format!("attempts without an end: {open:?}")); }
    None
}
