//! Symbolic interpreter: concrete control state, symbolic scalar values, path constraints decided by Z3.
use crate::expr::*;
use crate::ll::*;
use crate::z3::{Res, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}
/// Operations the solver finds hard when both operands are unknown.
fn hard(k: Bin) -> bool {
    matches!(k, Bin::Mul | Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem | Bin::Shl | Bin::LShr | Bin::AShr)
}

impl V {
    pub fn num(w: u32, v: u128) -> V {
        if w <= 64 { V::C(v as u64) } else { V::W(Rc::new(v)) }
    }
    pub fn u128(&self) -> Option<u128> {
        match self {
            V::C(v) => Some(*v as u128),
            V::W(v) => Some(**v),
            _ => None,
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Vec<(E, u8)>>,
}

#[derive(Clone)]
struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u32>,
    ret_dst: u32,
    ret_block: u32,
}

type Asg = HashMap<u32, u128, BuildH>;
struct Model {
    asg: Asg,
    cache: RefCell<HashMap<E, u128, BuildH>>,
}

#[derive(Clone)]
struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    gmut: Rc<HashMap<u32, Rc<Obj>, BuildH>>,
    pc: Rc<Vec<E>>,
    known: Rc<HashMap<E, u128, BuildH>>,
    fixed: Rc<HashMap<u32, u128, BuildH>>,
    model: Rc<Model>,
    occ: Rc<HashMap<String, u32>>,
    inputs: Rc<Vec<(String, V)>>,
    obs: Rc<Vec<(String, V)>>,
    steps: u64,
    depth: u32,
    panic_label: String,
    ctx: String,
}

pub enum Stop {
    Done,
    Infeasible,
    Panic(String),
    Abort(String),
    Hang,
    Failed,
}
type R<T> = Result<T, Stop>;

pub struct Opts {
    pub max_steps: u64,
    pub max_paths: u64,
    pub time_limit: f64,
    pub seed: u64,
    pub traces: usize,
    pub params: Vec<u64>,
    pub src_prefix: String,
    pub verbose: bool,
    pub audit: usize,
    pub max_viol_per_label: usize,
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub at: String,
    pub inputs: Vec<(String, u128)>,
    pub obs: Vec<(String, u128)>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub branches: u64,
    pub forks: u64,
    pub steps: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_cached: u64,
    pub q_fallback: u64,
    pub solver: Duration,
    pub max_query: Duration,
    pub checks: u64,
    pub checks_symbolic: u64,
}

pub struct Eng {
    pub m: Module,
    pub ex: Ex,
    z3: Z3,
    opts: Opts,
    work: Vec<State>,
    bi: Vec<Bi>, // per symbol builtin
    panic_fn: Vec<bool>,
    gobjs: Vec<Option<Rc<Obj>>>,
    qcache: HashMap<Vec<E>, Option<Rc<Asg>>, BuildH>,
    recent: Vec<Rc<Asg>>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub vcount: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub reached: BTreeMap<String, u64>,
    pub checked: BTreeMap<String, u64>,
    pub traces: Vec<(Vec<(String, u128)>, Vec<(String, u128)>)>,
    rng: u64,
    leaves: Vec<Leaf>,
    pub audited: (usize, usize),
    cov: HashSet<(u32, u32), BuildH>, // (func, dbg)
    fn_cov: Vec<bool>,
    start: Instant,
}

/// Where a path ended: its condition, the choices made, a model.
struct Leaf {
    pc: Rc<Vec<E>>,
    extra: E,
    inputs: Rc<Vec<(String, V)>>,
    asg: Asg,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Bi {
    None,
    Func(u32),
    Nop,
    Zero,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Abort,
    KSym,
    KChoice,
    KAssume,
    KCheck,
    KObserve,
    KReach,
    KPanicLabel,
    KCtx,
    KParam,
    KFork,
    Getrandom,
    Syscall,
    MinusOne,
    One,
    Expect,
    UMax,
    UMin,
    SMax,
    SMin,
    AbsI,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UCmp,
    SCmp,
    FToUSat,
    FToSSat,
    FAbs,
    FFloor,
    FCeil,
    FTrunc,
    FRne,
    FRna,
    FMa,
    FMinMax(bool),
    Copysign,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceUMax,
    ReduceUMin,
    LoadRel,
    Tls,
    Errno,
    Unsup,
}

fn builtin(n: &str) -> Bi {
    use Bi::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r == s || r.starts_with(&format!("{}.", s));
        if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg") || p("prefetch") || p("x86.sse2.pause") || p("donothing") || p("invariant") || p("var.annotation") || p("fake.use") || p("pseudoprobe") {
            return Nop;
        }
        if p("memcpy") || p("memmove") || p("memcpy.inline") {
            return Memcpy;
        }
        if p("memset") {
            return Memset;
        }
        if p("trap") || p("ubsantrap") || p("debugtrap") {
            return Abort;
        }
        if p("expect") || p("launder") || p("strip") || p("ptrmask.none") || p("ssa.copy") {
            return Expect;
        }
        if p("is.constant") {
            return Zero;
        }
        for (k, b) in [
            ("umax", UMax), ("umin", UMin), ("smax", SMax), ("smin", SMin), ("abs", AbsI),
            ("uadd.with.overflow", UAddO), ("usub.with.overflow", USubO), ("umul.with.overflow", UMulO),
            ("sadd.with.overflow", SAddO), ("ssub.with.overflow", SSubO), ("smul.with.overflow", SMulO),
            ("uadd.sat", UAddSat), ("usub.sat", USubSat), ("sadd.sat", SAddSat), ("ssub.sat", SSubSat),
            ("ctpop", Ctpop), ("ctlz", Ctlz), ("cttz", Cttz), ("bswap", Bswap), ("bitreverse", Bitrev),
            ("fshl", Fshl), ("fshr", Fshr), ("ucmp", UCmp), ("scmp", SCmp),
            ("fptoui.sat", FToUSat), ("fptosi.sat", FToSSat), ("fabs", FAbs), ("floor", FFloor), ("ceil", FCeil),
            ("trunc", FTrunc), ("rint", FRne), ("roundeven", FRne), ("nearbyint", FRne), ("round", FRna), ("fmuladd", FMa),
            ("minnum", FMinMax(false)), ("maxnum", FMinMax(true)), ("minimumnum", FMinMax(false)), ("maximumnum", FMinMax(true)), ("copysign", Copysign),
            ("vector.reduce.add", ReduceAdd), ("vector.reduce.or", ReduceOr), ("vector.reduce.and", ReduceAnd),
            ("vector.reduce.umax", ReduceUMax), ("vector.reduce.umin", ReduceUMin),
            ("load.relative", LoadRel), ("threadlocal.address", Tls),
        ] {
            if p(k) {
                return b;
            }
        }
        return Unsup;
    }
    match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" | "memalign" => AlignedAlloc,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "abort" => Abort,
        "getenv" | "pthread_self" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" => Zero,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        // no files, no affinity mask: one processor
        "open" | "open64" | "sched_getaffinity" => MinusOne,
        "sysconf" => One,
        "__errno_location" => Errno,
        "ksym_sym" => KSym,
        "ksym_choice" => KChoice,
        "ksym_assume" => KAssume,
        "ksym_check" => KCheck,
        "ksym_observe" => KObserve,
        "ksym_reach" => KReach,
        "ksym_panic_label" => KPanicLabel,
        "ksym_ctx" => KCtx,
        "ksym_param" => KParam,
        "ksym_fork" => KFork,
        _ => Unsup,
    }
}

pub fn short_name(mangled: &str) -> String {
    // v0 symbol: collect length-prefixed identifiers
    let b = mangled.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b'B' || b[i] == b's' {
            // back reference or disambiguator: base-62 number terminated by '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() && n < 200 && mangled.is_char_boundary(j) && mangled.is_char_boundary(j + n) {
                let id = &mangled[j..j + n];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(id.to_string());
                    i = j + n;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Eng {
    pub fn new(m: Module, opts: Opts, z3_timeout: u32) -> Eng {
        let bi = m
            .syms
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let b = builtin(&m.sym_names[i]);
                match s {
                    Sym::Func(f) if b == Bi::Unsup => Bi::Func(*f),
                    Sym::Func(f) => match b {
                        // runtime memory functions that happen to be linked in are replaced by the built-in model
                        Bi::Memcpy | Bi::Memset | Bi::Memcmp | Bi::Bcmp | Bi::Strlen => b,
                        _ => Bi::Func(*f),
                    },
                    Sym::Decl | Sym::Undef => b,
                    Sym::Alias(_) => Bi::None,
                    Sym::Global(_) => Bi::None,
                }
            })
            .collect();
        let panic_fn = m
            .funcs
            .iter()
            .map(|f| {
                let n = &f.name;
                (n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("17rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("10rust_panic") || n.contains("3std7process5abort")) && !n.contains("panic_count")
            })
            .collect();
        let gobjs = m
            .globals
            .iter()
            .map(|g| {
                if g.weak_undef {
                    return None;
                }
                let mut data = vec![0u8; g.size as usize];
                m.c_bytes(g.ty, g.init.as_ref().unwrap(), &mut data);
                Some(Rc::new(Obj { data, sym: None }))
            })
            .collect();
        let nf = m.funcs.len();
        let seed = opts.seed;
        Eng {
            m,
            ex: Ex::new(),
            z3: Z3::new(z3_timeout),
            opts,
            work: vec![],
            bi,
            panic_fn,
            gobjs,
            qcache: HashMap::default(),
            recent: vec![],
            st: Stats::default(),
            violations: vec![],
            vcount: BTreeMap::new(),
            incomplete: BTreeMap::new(),
            reached: BTreeMap::new(),
            checked: BTreeMap::new(),
            traces: vec![],
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567,
            leaves: vec![],
            audited: (0, 0),
            cov: HashSet::default(),
            fn_cov: vec![false; nf],
            start: Instant::now(),
        }
    }
    pub fn z3_version(&self) -> String {
        self.z3.version.clone()
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn run(&mut self, entry: &str) {
        let Some(&s) = self.m.sym_map.get(entry) else {
            *self.incomplete.entry(format!("no entry function {}", entry)).or_default() += 1;
            return;
        };
        let Sym::Func(f) = self.m.syms[s as usize] else {
            *self.incomplete.entry(format!("entry {} is not defined", entry)).or_default() += 1;
            return;
        };
        let nregs = self.m.funcs[f as usize].nregs as usize;
        let st = State {
            frames: vec![Rc::new(Frame { func: f, block: 0, ip: 0, regs: vec![V::C(0); nregs], allocas: vec![], ret_dst: u32::MAX, ret_block: u32::MAX })],
            heap: vec![],
            free: vec![],
            gmut: Rc::new(HashMap::default()),
            pc: Rc::new(vec![]),
            known: Rc::new(HashMap::default()),
            fixed: Rc::new(HashMap::default()),
            model: Rc::new(Model { asg: HashMap::default(), cache: RefCell::new(HashMap::default()) }),
            occ: Rc::new(HashMap::new()),
            inputs: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            steps: 0,
            depth: 0,
            panic_label: String::new(),
            ctx: String::new(),
        };
        self.fn_cov[f as usize] = true;
        self.work.push(st);
        while let Some(mut s) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.opts.time_limit {
                *self.incomplete.entry("time limit reached".into()).or_default() += 1;
                break;
            }
            if self.st.paths >= self.opts.max_paths {
                *self.incomplete.entry("path limit reached".into()).or_default() += 1;
                break;
            }
            let r = self.run_state(&mut s);
            let t = self.ex.t();
            self.leaf(&s, t);
            match r {
                Stop::Infeasible => {
                    self.st.infeasible += 1;
                    continue;
                }
                Stop::Done => {
                    self.st.paths += 1;
                    self.sample(&s);
                }
                Stop::Panic(kind) => {
                    self.st.paths += 1;
                    let (at, f) = self.where_(&s);
                    if self.opts.verbose {
                        eprintln!("panic {} at {}\n{}", kind, at, self.backtrace(&s));
                    }
                    if let Some(l) = s.panic_label.strip_prefix("ok:") {
                        *self.reached.entry(l.to_string()).or_default() += 1;
                        self.sample(&s);
                        continue;
                    }
                    let lab = if s.panic_label.is_empty() { format!("panic:{}:{}", f, kind) } else { s.panic_label.clone() };
                    let m = s.model.clone();
                    self.violation(&s, lab, format!("{} at {}", kind, at), &m);
                }
                Stop::Failed => self.st.paths += 1,
                Stop::Hang => {
                    self.st.paths += 1;
                    let (at, f) = self.where_(&s);
                    let m = s.model.clone();
                    self.violation(&s, format!("hang:{}", f), format!("step limit reached at {}", at), &m);
                }
                Stop::Abort(why) => {
                    self.st.paths += 1;
                    let (at, _) = self.where_(&s);
                    if self.opts.verbose {
                        eprintln!("incomplete: {} at {}\n{}", why, at, self.backtrace(&s));
                    }
                    *self.incomplete.entry(format!("{} [{}]", why, at)).or_default() += 1;
                }
            }
        }
    }

    fn leaf(&mut self, s: &State, extra: E) {
        if self.opts.audit != 0 && self.leaves.len() < 30000 {
            self.leaves.push(Leaf { pc: s.pc.clone(), extra, inputs: s.inputs.clone(), asg: s.model.asg.clone() });
        }
    }
    /// The paths explored must partition the inputs: whatever the inputs are, exactly one path
    /// belongs to them. Tried on inputs made by changing those of explored paths.
    pub fn audit(&mut self) {
        if self.leaves.len() >= 30000 || !self.incomplete.is_empty() {
            return;
        }
        let leaves = std::mem::take(&mut self.leaves);
        let t0 = Instant::now();
        for _ in 0..self.opts.audit {
            if t0.elapsed().as_secs_f64() > 3.0 {
                break;
            }
            let base = self.rand() as usize % leaves.len();
            let (mut asg, mut vs): (Asg, Vec<u32>) = (leaves[base].asg.clone(), vec![]);
            for &c in leaves[base].pc.iter() {
                vs.extend(self.ex.vars(c).iter());
            }
            vs.sort();
            vs.dedup();
            for v in vs {
                let w = self.ex.var_names[v as usize].1;
                let cur = asg.get(&v).copied().unwrap_or(0);
                let r = self.rand();
                let new = match r % 8 {
                    0 => self.rand() as u128 & mask(w),
                    1 => cur.wrapping_add(1) & mask(w),
                    2 => cur.wrapping_sub(1) & mask(w),
                    3 | 4 => {
                        let o = (r >> 8) as usize % leaves.len();
                        leaves[o].asg.get(&v).copied().unwrap_or(cur)
                    }
                    _ => cur,
                };
                asg.insert(v, new);
            }
            let mut cache = HashMap::default();
            let mut hits = vec![];
            for (i, l) in leaves.iter().enumerate() {
                let same = l.inputs.iter().zip(leaves[base].inputs.iter()).all(|(a, b)| match (&a.1, &b.1) {
                    (V::C(x), V::C(y)) => x == y || a.0 != b.0,
                    _ => true,
                });
                if same && self.ex.eval(l.extra, &asg, &mut cache) != 0 && l.pc.iter().all(|&c| self.ex.eval(c, &asg, &mut cache) != 0) {
                    hits.push(i);
                }
            }
            self.audited.0 += 1;
            // after different conditions paths may make different choices: those do not overlap
            let choices = |i: usize| -> Vec<(&str, u64)> { leaves[i].inputs.iter().filter_map(|(n, v)| if let V::C(x) = v { Some((&n[..], *x)) } else { None }).collect() };
            let free = hits.iter().any(|&i| choices(i) != choices(hits[0]));
            if hits.is_empty() || (hits.len() > 1 && !free) {
                self.audited.1 += 1;
                if self.opts.verbose {
                    eprintln!("audit: {} paths for {:?}", hits.len(), asg);
                }
                *self.incomplete.entry(format!("the explored paths do not partition the inputs ({} paths)", hits.len())).or_default() += 1;
            }
        }
    }
    fn sample(&mut self, s: &State) {
        let n = self.st.paths;
        let k = self.opts.traces;
        if k == 0 {
            return;
        }
        let idx = if self.traces.len() < k {
            self.traces.push((vec![], vec![]));
            self.traces.len() - 1
        } else {
            let r = (self.rand() % n) as usize;
            if r >= k {
                return;
            }
            r
        };
        let m = s.model.clone();
        let t = (self.concrete_inputs(s, &m), self.concrete_obs(s, &m));
        self.traces[idx] = t;
    }
    fn ev(&self, m: &Model, v: &V) -> u128 {
        match v {
            V::S(e) => self.ex.eval(*e, &m.asg, &mut m.cache.borrow_mut()),
            x => x.u128().unwrap_or(0),
        }
    }
    fn concrete_inputs(&self, s: &State, m: &Model) -> Vec<(String, u128)> {
        s.inputs.iter().map(|(n, v)| (n.clone(), self.ev(m, v))).collect()
    }
    fn concrete_obs(&self, s: &State, m: &Model) -> Vec<(String, u128)> {
        s.obs.iter().map(|(n, v)| (n.clone(), self.ev(m, v))).collect()
    }
    fn violation(&mut self, s: &State, label: String, at: String, m: &Model) {
        let label = if s.ctx.is_empty() { label } else { format!("{}/{}", s.ctx, label) };
        let c = self.vcount.entry(label.clone()).or_default();
        *c += 1;
        if *c as usize <= self.opts.max_viol_per_label {
            if self.opts.verbose {
                for &c in s.pc.iter() {
                    eprintln!("pc {} = {}", self.ex.show(c, 12), self.ev(m, &V::S(c)));
                }
            }
            let v = Violation { label, at, inputs: self.concrete_inputs(s, m), obs: self.concrete_obs(s, m) };
            self.violations.push(v);
        }
    }
    /// Debug chain of a location: (function name, file, line) innermost first.
    fn chain(&self, dbg: u32, func: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut d = dbg;
        let mut n = 0;
        while d != 0 && n < 64 {
            let Some(l) = self.m.locs.get(&d) else { break };
            if let Some((name, file)) = self.sp_of(l.scope) {
                out.push((name, file, l.line));
            }
            d = l.inlined;
            n += 1;
        }
        if out.is_empty() {
            let f = &self.m.funcs[func as usize];
            let file = self.sp_of(f.sp).map(|x| x.1).unwrap_or_default();
            out.push((short_name(&f.name), file, 0));
        }
        out
    }
    fn sp_of(&self, mut s: u32) -> Option<(String, String)> {
        let mut n = 0;
        while n < 64 {
            let sc = self.m.scopes.get(&s)?;
            if sc.is_sp {
                let f = self.m.files.get(&sc.file).cloned().unwrap_or_default();
                let nm = if sc.linkage.starts_with("_R") { short_name(&sc.linkage) } else { sc.name.clone() };
                return Some((nm, f));
            }
            s = sc.scope;
            n += 1;
        }
        None
    }
    fn cur_dbg(&self, f: &Frame) -> u32 {
        let b = &self.m.funcs[f.func as usize].blocks[f.block as usize];
        b.insts.get(f.ip as usize).map(|i| i.dbg).unwrap_or(0)
    }
    /// (description, innermost function of the code under test)
    fn where_(&self, s: &State) -> (String, String) {
        let mut first = String::new();
        for f in s.frames.iter().rev() {
            for (n, file, line) in self.chain(self.cur_dbg(f), f.func) {
                if first.is_empty() {
                    first = format!("{} {}:{}", n, file, line);
                }
                if file.starts_with(&self.opts.src_prefix) {
                    let nm = n.split("klavier_core::").last().unwrap_or(&n).to_string();
                    return (format!("{} {}:{}", nm, file, line), nm);
                }
            }
        }
        (first, "harness".into())
    }
    fn backtrace(&self, s: &State) -> String {
        let mut o = String::new();
        for f in s.frames.iter().rev().take(30) {
            for (n, file, line) in self.chain(self.cur_dbg(f), f.func) {
                o += &format!("    {} {}:{}\n", n, file, line);
            }
        }
        o
    }
    /// Functions and source lines of the code under test that were executed symbolically.
    pub fn coverage(&self) -> (BTreeMap<String, u32>, usize) {
        let mut fns: BTreeMap<String, HashSet<u32>> = BTreeMap::new();
        let mut lines: HashSet<(String, u32)> = HashSet::new();
        for (f, d) in self.cov.iter() {
            for (n, file, line) in self.chain(*d, *f) {
                if let Some(rel) = file.strip_prefix(&self.opts.src_prefix) {
                    let nm = n.split("klavier_core::").last().unwrap_or(&n).to_string();
                    fns.entry(format!("{}:{}", rel.trim_start_matches('/'), nm)).or_default().insert(line);
                    lines.insert((rel.to_string(), line));
                }
            }
        }
        (fns.into_iter().map(|(k, v)| (k, v.len() as u32)).collect(), lines.len())
    }

    // ---------------------------------------------------------------- solver
    fn slice(&mut self, pc: &[E], cond: E) -> (Vec<E>, Vec<u32>) {
        let mut vs: HashSet<u32, BuildH> = self.ex.vars(cond).iter().copied().collect();
        let mut inc = vec![false; pc.len()];
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|&c| self.ex.vars(c)).collect();
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !inc[i] && sets[i].iter().any(|v| vs.contains(v)) {
                    inc[i] = true;
                    ch = true;
                    for v in sets[i].iter() {
                        vs.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<E> = (0..pc.len()).filter(|&i| inc[i]).map(|i| pc[i]).collect();
        cs.push(cond);
        let mut v: Vec<u32> = vs.into_iter().collect();
        v.sort();
        (cs, v)
    }
    /// Is pc && cond satisfiable?  Some(model) if so.
    fn query(&mut self, s: &State, cond: E) -> R<Option<Rc<Model>>> {
        if let Some(k) = self.ex.is_const(cond) {
            return Ok(if k != 0 { Some(s.model.clone()) } else { None });
        }
        if self.ev(&s.model, &V::S(cond)) != 0 {
            return Ok(Some(s.model.clone()));
        }
        let (cs, vars) = self.slice(&s.pc, cond);
        let mut key = cs.clone();
        key.sort();
        key.dedup();
        let merge = |s: &State, a: &Asg| {
            let mut asg = s.model.asg.clone();
            for (k, v) in a.iter() {
                asg.insert(*k, *v);
            }
            Rc::new(Model { asg, cache: RefCell::new(HashMap::default()) })
        };
        if let Some(r) = self.qcache.get(&key) {
            self.st.q_cached += 1;
            return Ok(r.clone().map(|a| merge(s, &a)));
        }
        // recent models
        for i in (0..self.recent.len()).rev() {
            let a = self.recent[i].clone();
            let mut cache = HashMap::default();
            if cs.iter().rev().all(|&c| self.ex.eval(c, &a, &mut cache) != 0) {
                let sub: Asg = vars.iter().map(|v| (*v, a.get(v).copied().unwrap_or(0))).collect();
                let sub = Rc::new(sub);
                self.qcache.insert(key, Some(sub.clone()));
                self.st.q_cached += 1;
                return Ok(Some(merge(s, &sub)));
            }
        }
        let t = Instant::now();
        let mut smt = String::new();
        let r = self.z3.check(&self.ex, &cs, &vars, Some(&mut smt));
        let dt = t.elapsed();
        self.st.solver += dt;
        if dt > self.st.max_query {
            self.st.max_query = dt;
        }
        if self.opts.verbose && dt.as_millis() > 100 {
            eprintln!("slow query {:?}: {} constraints at {}; cond {}", dt, cs.len(), self.where_(s).0, self.ex.show(cond, 6));
        }
        let out = match r {
            Res::Sat(a) => {
                // trust but verify: the model must satisfy the sliced constraints under our own evaluator
                let mut cache = HashMap::default();
                for &c in cs.iter() {
                    if self.ex.eval(c, &a, &mut cache) == 0 {
                        return Err(Stop::Abort(format!("solver model does not satisfy the query: {}", self.ex.show(c, 5))));
                    }
                }
                self.st.q_sat += 1;
                let a = Rc::new(a);
                self.recent.push(a.clone());
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
                Some(a)
            }
            Res::Unsat => {
                self.st.q_unsat += 1;
                None
            }
            Res::Unknown => {
                // branches inside the terms that the path already decides make queries needlessly hard
                let simpler = self.resolve_ites(s, &cs[..cs.len() - 1], cond);
                if simpler != cond {
                    let r = self.query(s, simpler)?;
                    let sub = r.as_ref().map(|m| Rc::new(vars.iter().map(|v| (*v, m.asg.get(v).copied().unwrap_or(0))).collect::<Asg>()));
                    self.qcache.insert(key, sub);
                    return Ok(r);
                }
                match self.fallback(&smt, &vars) {
                Some(Some(a)) => {
                    let mut cache = HashMap::default();
                    if !cs.iter().all(|&c| self.ex.eval(c, &a, &mut cache) != 0) {
                        return Err(Stop::Abort("fallback solver model does not satisfy the query".into()));
                    }
                    self.st.q_sat += 1;
                    Some(Rc::new(a))
                }
                Some(None) => {
                    self.st.q_unsat += 1;
                    None
                }
                None => {
                    self.st.q_unknown += 1;
                    return Err(Stop::Abort(format!("solver gave no answer: {}", self.ex.show(cond, 4))));
                }
            }}
        };
        self.qcache.insert(key, out.clone());
        Ok(out.map(|a| merge(s, &a)))
    }
    /// `v` without the if-then-else nodes whose condition this path already decides: operands of
    /// operations the solver finds hard (products, quotients, shifts by variable amounts).
    fn settle(&mut self, s: &State, v: V) -> R<V> {
        let V::S(mut e) = v else { return Ok(v) };
        loop {
            let mut ites = vec![];
            self.ex.ites(e, &mut HashSet::default(), &mut ites);
            if ites.is_empty() || ites.len() > 60 {
                return Ok(V::S(e));
            }
            let mut map: HashMap<E, E, BuildH> = HashMap::default();
            let mut done: HashMap<E, bool, BuildH> = HashMap::default();
            for i in ites {
                let n = self.ex.n(i);
                let c = n.a;
                let decided = match done.get(&c) {
                    Some(&d) => d,
                    None => {
                        let holds = self.ev(&s.model, &V::S(c)) != 0;
                        let other = if holds { self.ex.not(c) } else { c };
                        let d = self.query(s, other)?.is_none();
                        done.insert(c, d);
                        d
                    }
                };
                if decided {
                    let holds = self.ev(&s.model, &V::S(c)) != 0;
                    map.insert(i, if holds { n.b } else { n.c });
                }
            }
            if map.is_empty() {
                return Ok(V::S(e));
            }
            let r = self.ex.rebuild(e, &mut map);
            if r == e {
                return Ok(V::S(e));
            }
            e = r;
            if self.ex.is_const(e).is_some() {
                return Ok(self.v(e));
            }
        }
    }
    /// `cond` with those if-then-else nodes removed that equal one of their branches on this path.
    fn resolve_ites(&mut self, s: &State, pc: &[E], cond: E) -> E {
        let mut ites = vec![];
        self.ex.ites(cond, &mut HashSet::default(), &mut ites);
        let mut map: HashMap<E, E, BuildH> = HashMap::default();
        for i in ites.into_iter().take(40) {
            let n = self.ex.n(i);
            let holds = self.ev(&s.model, &V::S(n.a)) != 0;
            for keep in [if holds { n.b } else { n.c }, if holds { n.c } else { n.b }] {
                let eq = self.ex.eq(i, keep);
                let ne = self.ex.not(eq);
                if self.ev(&s.model, &V::S(ne)) != 0 {
                    continue;
                }
                let mut cs = pc.to_vec();
                cs.push(ne);
                let mut vars: Vec<u32> = vec![];
                for &x in &cs {
                    vars.extend(self.ex.vars(x).iter());
                }
                vars.sort();
                vars.dedup();
                let t = Instant::now();
                let r = self.z3.check(&self.ex, &cs, &vars, None);
                self.st.solver += t.elapsed();
                if let Res::Unsat = r {
                    self.st.q_unsat += 1;
                    map.insert(i, keep);
                    break;
                }
            }
        }
        if map.is_empty() {
            return cond;
        }
        self.ex.rebuild(cond, &mut map)
    }
    /// Ask other solvers about a query Z3's library interface did not decide in time.
    fn fallback(&mut self, smt: &str, vars: &[u32]) -> Option<Option<Asg>> {
        self.st.q_fallback += 1;
        let t0 = Instant::now();
        let base = std::env::var("KSYM_TMP").unwrap_or_else(|_| "/tmp".into());
        let path = format!("{}/ksym-{}.smt2", base, std::process::id());
        let decl = smt.to_string();
        let present: Vec<u32> = vars.iter().copied().filter(|v| decl.contains(&format!("(declare-fun v{} ", v))).collect();
        let mut text = format!("(set-option :produce-models true)\n(set-logic ALL)\n{}\n(check-sat)\n", decl);
        if !present.is_empty() {
            text += "(get-value (";
            for v in &present {
                text += &format!("v{} ", v);
            }
            text += "))\n";
        }
        if std::fs::write(&path, &text).is_err() {
            return None;
        }
        let cmds: [(&str, Vec<&str>); 3] = [
            ("cvc5", vec!["--tlimit=60000", "--solve-bv-as-int=sum"]),
            ("cvc5", vec!["--tlimit=60000"]),
            ("z3-new", vec!["-T:60"]),
        ];
        let mut kids: Vec<std::process::Child> = vec![];
        for (c, a) in cmds.iter() {
            if let Ok(k) = std::process::Command::new(c).args(a).arg(&path).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn() {
                kids.push(k);
            }
        }
        let mut res = None;
        'o: while !kids.is_empty() && res.is_none() {
            let mut i = 0;
            while i < kids.len() {
                if let Ok(Some(_)) = kids[i].try_wait() {
                    let mut k = kids.remove(i);
                    let mut s = String::new();
                    use std::io::Read;
                    if let Some(o) = k.stdout.as_mut() {
                        let _ = o.read_to_string(&mut s);
                    }
                    if s.starts_with("unsat") {
                        res = Some(None);
                        break 'o;
                    }
                    if s.starts_with("sat") {
                        let mut a: Asg = HashMap::default();
                        for v in vars {
                            a.insert(*v, 0);
                        }
                        let toks: Vec<&str> = s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
                        for w in toks.windows(2) {
                            if let Some(n) = w[0].strip_prefix('v') {
                                if let (Ok(n), Some(val)) = (n.parse::<u32>(), w[1].strip_prefix('#')) {
                                    let x = if let Some(h) = val.strip_prefix('x') { u128::from_str_radix(h, 16) } else { u128::from_str_radix(&val[1..], 2) };
                                    if let Ok(x) = x {
                                        a.insert(n, x);
                                    }
                                }
                            }
                        }
                        res = Some(Some(a));
                        break 'o;
                    }
                } else {
                    i += 1;
                }
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        let _ = std::fs::remove_file(&path);
        self.st.solver += t0.elapsed();
        res
    }
    fn add_c(&mut self, s: &mut State, c: E) {
        let n = self.ex.n(c);
        if n.op == Op::Const {
            return;
        }
        if s.known.get(&c) == Some(&1) {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.add_c(s, n.a);
            self.add_c(s, n.b);
            return;
        }
        if n.op == Op::Not {
            let i = self.ex.n(n.a);
            if i.op == Op::Or {
                let x = self.ex.not(i.a);
                let y = self.ex.not(i.b);
                self.add_c(s, x);
                self.add_c(s, y);
                return;
            }
        }
        Rc::make_mut(&mut s.pc).push(c);
        let known = Rc::make_mut(&mut s.known);
        known.insert(c, 1);
        let mut fix: Option<(E, u128)> = None;
        match n.op {
            Op::Eq => {
                if let Some(k) = self.ex.is_const(n.b) {
                    known.insert(n.a, k);
                    fix = Some((n.a, k));
                }
            }
            Op::Not => {
                known.insert(n.a, 0);
                fix = Some((n.a, 0));
            }
            Op::Var => fix = Some((c, 1)),
            _ => {}
        }
        if let Some((e, k)) = fix {
            let ne = self.ex.n(e);
            if ne.op == Op::Var {
                Rc::make_mut(&mut s.fixed).insert(ne.k as u32, k);
            }
        }
    }
    fn lookup(&mut self, s: &State, e: E) -> Option<u128> {
        if let Some(k) = self.ex.is_const(e) {
            return Some(k);
        }
        if let Some(k) = s.known.get(&e) {
            return Some(*k);
        }
        if !s.fixed.is_empty() {
            let vs = self.ex.vars(e);
            if vs.len() <= s.fixed.len() && vs.iter().all(|v| s.fixed.contains_key(v)) {
                return Some(self.ev(&s.model, &V::S(e)));
            }
        }
        None
    }
    /// Decide a 1-bit condition, forking when both sides are feasible.
    fn branch(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.lookup(s, c) {
            return Ok(k != 0);
        }
        self.st.branches += 1;
        let cur = self.ev(&s.model, &V::S(c)) != 0;
        let nc = self.ex.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.query(s, other)? {
            None => {
                // implied; remember it
                let k = Rc::make_mut(&mut s.known);
                k.insert(c, cur as u128);
                k.insert(nc, !cur as u128);
                Ok(cur)
            }
            Some(m) => {
                self.st.forks += 1;
                let mut o = s.clone();
                o.model = m;
                o.depth += 1;
                self.add_c(&mut o, other);
                self.work.push(o);
                s.depth += 1;
                self.add_c(s, mine);
                Ok(cur)
            }
        }
    }
    /// Restrict an expression to a single value on this path, forking off the rest.
    fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::S(e) => {
                if let Some(k) = self.lookup(s, *e) {
                    return Ok(k as u64);
                }
                let w = self.ex.w(*e);
                let k = self.ev(&s.model, v);
                let kc = self.ex.k(w, k);
                let eq = self.ex.eq(*e, kc);
                let ne = self.ex.not(eq);
                self.st.branches += 1;
                if let Some(m) = self.query(s, ne)? {
                    self.st.forks += 1;
                    let mut o = s.clone();
                    o.model = m;
                    o.depth += 1;
                    self.add_c(&mut o, ne);
                    self.work.push(o);
                    s.depth += 1;
                    self.add_c(s, eq);
                }
                Rc::make_mut(&mut s.known).insert(*e, k);
                Ok(k as u64)
            }
            V::A(_) => Err(Stop::Abort("aggregate where scalar expected".into())),
        }
    }

    // ---------------------------------------------------------------- values
    fn e(&mut self, w: u32, v: &V) -> E {
        match v {
            V::C(x) => self.ex.k(w, *x as u128),
            V::W(x) => self.ex.k(w, **x),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V {
        let n = &self.ex.nodes[e as usize];
        if n.op == Op::Const { V::num(n.w, n.k) } else { V::S(e) }
    }
    fn bin(&mut self, k: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w) as u64;
            let r = match k {
                Bin::Add => x.wrapping_add(y) & m,
                Bin::Sub => x.wrapping_sub(y) & m,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl if y < w as u64 => (x << y) & m,
                Bin::LShr if y < w as u64 => x >> y,
                Bin::UDiv if y != 0 => x / y,
                Bin::URem if y != 0 => x % y,
                _ => {
                    let (x, y) = (self.ex.k(w, x as u128), self.ex.k(w, y as u128));
                    let r = self.bine(k, x, y)?;
                    return Ok(self.v(r));
                }
            };
            return Ok(V::C(r));
        }
        let (x, y) = (self.e(w, a), self.e(w, b));
        let r = self.bine(k, x, y)?;
        Ok(self.v(r))
    }
    fn bine(&mut self, k: Bin, x: E, y: E) -> R<E> {
        let ex = &mut self.ex;
        Ok(match k {
            Bin::Add => ex.add(x, y),
            Bin::Sub => ex.sub(x, y),
            Bin::Mul => ex.mul(x, y),
            Bin::UDiv => ex.udiv(x, y),
            Bin::SDiv => ex.sdiv(x, y),
            Bin::URem => ex.urem(x, y),
            Bin::SRem => ex.srem(x, y),
            Bin::Shl => ex.shl(x, y),
            Bin::LShr => ex.lshr(x, y),
            Bin::AShr => ex.ashr(x, y),
            Bin::And => ex.and(x, y),
            Bin::Or => ex.or(x, y),
            Bin::Xor => ex.xor(x, y),
            Bin::FAdd => ex.f2(Op::FAdd, x, y),
            Bin::FSub => ex.f2(Op::FSub, x, y),
            Bin::FMul => ex.f2(Op::FMul, x, y),
            Bin::FDiv => ex.f2(Op::FDiv, x, y),
            Bin::FRem => {
                if ex.is_const(x).is_some() && ex.is_const(y).is_some() {
                    ex.f2(Op::FRem, x, y)
                } else {
                    return Err(Stop::Abort("symbolic frem".into()));
                }
            }
        })
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx_, sy) = (sx(w, x as u128), sx(w, y as u128));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.e(w, a), self.e(w, b));
        let ex = &mut self.ex;
        let r = match p {
            Pred::Eq => ex.eq(x, y),
            Pred::Ne => {
                let q = ex.eq(x, y);
                ex.not(q)
            }
            Pred::Ugt => ex.ult(y, x),
            Pred::Uge => ex.ule(y, x),
            Pred::Ult => ex.ult(x, y),
            Pred::Ule => ex.ule(x, y),
            Pred::Sgt => ex.slt(y, x),
            Pred::Sge => ex.sle(y, x),
            Pred::Slt => ex.slt(x, y),
            Pred::Sle => ex.sle(x, y),
        };
        self.v(r)
    }
    fn select(&mut self, w: u32, c: E, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                // element widths are recovered from the values; only reached for uniform integers
                let v: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.select(w, c, p, q)).collect();
                V::A(Rc::new(v))
            }
            _ => {
                let (x, y) = (self.e(w, a), self.e(w, b));
                let r = self.ex.ite(c, x, y);
                self.v(r)
            }
        }
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, a: &V) -> R<V> {
        if let V::C(x) = a {
            match k {
                Cast::Trunc if tw <= 64 => return Ok(V::C(*x & mask(tw) as u64)),
                Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast if tw <= 64 => return Ok(V::C(*x & mask(tw) as u64)),
                Cast::SExt if tw <= 64 => return Ok(V::C(sx(fw, *x as u128) as u64 & mask(tw) as u64)),
                _ => {}
            }
        }
        let x = self.e(fw, a);
        let ex = &mut self.ex;
        let r = match k {
            Cast::Trunc => ex.extract(x, 0, tw),
            Cast::ZExt => ex.zext(x, tw),
            Cast::SExt => ex.sext(x, tw),
            Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast => {
                if tw < fw { ex.extract(x, 0, tw) } else { ex.zext(x, tw) }
            }
            Cast::FpToUi => ex.f1(Op::FToUSat, tw, x, 0),
            Cast::FpToSi => ex.f1(Op::FToSSat, tw, x, 0),
            Cast::UiToFp => ex.f1(Op::UToF, tw, x, 0),
            Cast::SiToFp => ex.f1(Op::SToF, tw, x, 0),
            Cast::FpTrunc | Cast::FpExt => ex.f1(Op::FToF, tw, x, 0),
        };
        Ok(self.v(r))
    }
    fn to_bits(&mut self, t: Ty, v: &V) -> R<(u32, V)> {
        match self.m.t(t).clone() {
            T::Vec(n, e) => {
                let ew = self.m.int_w(e);
                let tot = ew * n as u32;
                let V::A(xs) = v else { return Err(Stop::Abort("vector value".into())) };
                if tot <= 128 && xs.iter().all(|x| x.u128().is_some()) {
                    let mut r = 0u128;
                    for (i, x) in xs.iter().enumerate() {
                        r |= x.u128().unwrap() << (i as u32 * ew);
                    }
                    return Ok((tot, V::num(tot, r)));
                }
                let mut acc: Option<E> = None;
                for x in xs.iter() {
                    let e = self.e(ew, x);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ex.concat(e, a),
                    });
                }
                let e = acc.unwrap();
                Ok((tot, self.v(e)))
            }
            _ => Ok((self.m.int_w(t), v.clone())),
        }
    }
    fn from_bits(&mut self, t: Ty, w: u32, v: &V) -> R<V> {
        match self.m.t(t).clone() {
            T::Vec(n, e) => {
                let ew = self.m.int_w(e);
                let x = self.e(w, v);
                let mut out = vec![];
                for i in 0..n as u32 {
                    let y = self.ex.extract(x, i * ew, ew);
                    out.push(self.v(y));
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Ok(v.clone()),
        }
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, s: &mut State, size: u64) -> R<u32> {
        if size > (64 << 20) {
            return Err(Stop::Abort(format!("allocation of {} bytes", size)));
        }
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: None });
        if let Some(i) = s.free.pop() {
            s.heap[i as usize] = Some(o);
            Ok(i)
        } else {
            s.heap.push(Some(o));
            Ok(s.heap.len() as u32 - 1)
        }
    }
    fn haddr(i: u32) -> u64 {
        (HBASE + i as u64) << 32
    }
    fn obj<'a>(&'a self, s: &'a State, addr: u64) -> R<(&'a Rc<Obj>, u64)> {
        let hi = addr >> 32;
        if hi >= HBASE {
            let i = (hi - HBASE) as usize;
            match s.heap.get(i) {
                Some(Some(o)) => Ok((o, addr & 0xffff_ffff)),
                _ => Err(Stop::Abort(format!("access to freed memory {:#x}", addr))),
            }
        } else if let Some((g, off)) = self.m.gfind(addr) {
            if let Some(o) = s.gmut.get(&g) {
                return Ok((o, off));
            }
            Ok((self.gobjs[g as usize].as_ref().unwrap(), off))
        } else {
            Err(Stop::Abort(format!("access to invalid address {:#x}", addr)))
        }
    }
    fn obj_mut<'a>(&self, s: &'a mut State, addr: u64) -> R<(&'a mut Obj, u64)> {
        let hi = addr >> 32;
        if hi >= HBASE {
            let i = (hi - HBASE) as usize;
            match s.heap.get_mut(i) {
                Some(Some(o)) => Ok((Rc::make_mut(o), addr & 0xffff_ffff)),
                _ => Err(Stop::Abort(format!("write to freed memory {:#x}", addr))),
            }
        } else if let Some((g, off)) = self.m.gfind(addr) {
            if self.m.globals[g as usize].constant {
                return Err(Stop::Abort("write to constant".into()));
            }
            let gm = Rc::make_mut(&mut s.gmut);
            let o = gm.entry(g).or_insert_with(|| self.gobjs[g as usize].as_ref().unwrap().clone());
            Ok((Rc::make_mut(o), off))
        } else {
            Err(Stop::Abort(format!("write to invalid address {:#x}", addr)))
        }
    }
    fn load_int(&mut self, s: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj(s, addr)?;
        let off = off as usize;
        if off + n > o.data.len() {
            return Err(Stop::Abort(format!("out-of-bounds read of {} bytes at offset {} of {}", n, off, o.data.len())));
        }
        let conc = match &o.sym {
            None => true,
            Some(sy) => sy[off..off + n].iter().all(|x| x.0 == 0),
        };
        if conc {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b) & mask(w);
            return Ok(V::num(w, v));
        }
        let bytes: Vec<(E, u8)> = o.sym.as_ref().unwrap()[off..off + n].to_vec();
        let data: Vec<u8> = o.data[off..off + n].to_vec();
        // whole expression?
        let (e0, i0) = bytes[0];
        if e0 != 0 && i0 == 0 && self.ex.w(e0) == 8 * n as u32 && bytes.iter().enumerate().all(|(k, b)| b.0 == e0 && b.1 as usize == k) {
            let r = if w == 8 * n as u32 { e0 } else { self.ex.extract(e0, 0, w) };
            return Ok(self.v(r));
        }
        let mut acc: Option<E> = None;
        let mut k = 0;
        while k < n {
            let (e, i) = bytes[k];
            let mut j = k + 1;
            let part;
            if e == 0 {
                while j < n && bytes[j].0 == 0 {
                    j += 1;
                }
                let mut b = [0u8; 16];
                b[..j - k].copy_from_slice(&data[k..j]);
                part = self.ex.k(8 * (j - k) as u32, u128::from_le_bytes(b));
            } else {
                while j < n && bytes[j].0 == e && bytes[j].1 as usize == i as usize + (j - k) {
                    j += 1;
                }
                part = self.ex.extract(e, 8 * i as u32, 8 * (j - k) as u32);
            }
            acc = Some(match acc {
                None => part,
                Some(a) => self.ex.concat(part, a),
            });
            k = j;
        }
        let mut r = acc.unwrap();
        if w != 8 * n as u32 {
            r = self.ex.extract(r, 0, w);
        }
        Ok(self.v(r))
    }
    fn store_int(&mut self, s: &mut State, addr: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let mut sym = None;
        if let V::S(e) = v {
            let e = if w != 8 * n as u32 { self.ex.zext(*e, 8 * n as u32) } else { *e };
            sym = Some(e);
        }
        let (o, off) = self.obj_mut(s, addr)?;
        let off = off as usize;
        if off + n > o.data.len() {
            return Err(Stop::Abort(format!("out-of-bounds write of {} bytes at offset {} of {}", n, off, o.data.len())));
        }
        match sym {
            None => {
                let b = v.u128().unwrap().to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(sy) = &mut o.sym {
                    for x in &mut sy[off..off + n] {
                        *x = (0, 0);
                    }
                }
            }
            Some(e) => {
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                for k in 0..n {
                    sy[off + k] = (e, k as u8);
                }
            }
        }
        Ok(())
    }
    fn load(&mut self, s: &mut State, t: Ty, addr: u64) -> R<V> {
        match self.m.t(t).clone() {
            T::Vec(n, e) => {
                let ew = self.m.int_w(e);
                if ew % 8 != 0 {
                    let tot = ew * n as u32;
                    let x = self.load_int(s, addr, tot)?;
                    return self.from_bits(t, tot, &x);
                }
                let mut out = vec![];
                for i in 0..n {
                    out.push(self.load_int(s, addr + i * (ew as u64 / 8), ew)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            T::Struct(_, ts) => {
                let mut out = vec![];
                for (i, x) in ts.iter().enumerate() {
                    let o = self.m.field_off(t, i);
                    out.push(self.load(s, *x, addr + o)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            T::Arr(n, e) => {
                let sz = self.m.size(e);
                let mut out = vec![];
                for i in 0..n {
                    out.push(self.load(s, e, addr + i * sz)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => {
                let w = self.m.int_w(t);
                self.load_int(s, addr, w)
            }
        }
    }
    fn store(&mut self, s: &mut State, t: Ty, addr: u64, v: &V) -> R<()> {
        match self.m.t(t).clone() {
            T::Vec(n, e) => {
                let ew = self.m.int_w(e);
                if ew % 8 != 0 {
                    let (tot, x) = self.to_bits(t, v)?;
                    return self.store_int(s, addr, tot, &x);
                }
                let V::A(xs) = v else { return Err(Stop::Abort("vector store".into())) };
                for i in 0..n as usize {
                    self.store_int(s, addr + i as u64 * (ew as u64 / 8), ew, &xs[i])?;
                }
                Ok(())
            }
            T::Struct(_, ts) => {
                let V::A(xs) = v else { return Err(Stop::Abort("struct store".into())) };
                for (i, x) in ts.iter().enumerate() {
                    let o = self.m.field_off(t, i);
                    self.store(s, *x, addr + o, &xs[i])?;
                }
                Ok(())
            }
            T::Arr(n, e) => {
                let sz = self.m.size(e);
                let V::A(xs) = v else { return Err(Stop::Abort("array store".into())) };
                for i in 0..n {
                    self.store(s, e, addr + i * sz, &xs[i as usize])?;
                }
                Ok(())
            }
            _ => {
                let w = self.m.int_w(t);
                self.store_int(s, addr, w, v)
            }
        }
    }
    /// Load through a symbolic address without forking where the target is one small object.
    fn load_sym(&mut self, s: &mut State, t: Ty, a: E) -> R<V> {
        if let Some(k) = self.lookup(s, a) {
            return self.load(s, t, k as u64);
        }
        let w = self.m.int_w(t);
        if w == 0 {
            let ad = self.conc(s, &V::S(a))?;
            return self.load(s, t, ad);
        }
        let n = ((w + 7) / 8) as u64;
        let cur = self.ev(&s.model, &V::S(a)) as u64;
        let (base, size) = {
            let (o, off) = self.obj(s, cur)?;
            (cur - off, o.data.len() as u64)
        };
        if size < n {
            return Err(Stop::Abort("symbolic read beyond a small object".into()));
        }
        // inside this object?
        let lo = self.ex.k(64, base as u128);
        let off = self.ex.sub(a, lo);
        let lim = self.ex.k(64, (size - n) as u128);
        let inb = self.ex.ule(off, lim);
        if !self.branch(s, inb)? {
            return Err(Stop::Abort("out-of-bounds read (symbolic)".into()));
        }
        // stride from the structure of the offset
        let stride = self.stride(off);
        let (rl, rh) = self.ex.range(off);
        let first = (rl as u64).min(size);
        let last = (rh.min((size - n) as u128)) as u64;
        let first = (first + stride - 1) / stride * stride;
        let cnt = if last >= first { (last - first) / stride + 1 } else { 0 };
        if cnt == 0 || cnt > 600 {
            let ad = self.conc(s, &V::S(a))?;
            return self.load(s, t, ad);
        }
        // distinct values, most frequent as the default
        let mut vals: Vec<(u64, E)> = vec![];
        let mut o = first;
        while o <= last {
            let v = self.load_int(s, base + o, w)?;
            let e = self.e(w, &v);
            vals.push((o, e));
            o += stride;
        }
        let mut freq: HashMap<E, usize> = HashMap::new();
        for (_, e) in &vals {
            *freq.entry(*e).or_default() += 1;
        }
        let def = vals.iter().map(|x| x.1).max_by_key(|e| (freq[e], u32::MAX - *e)).unwrap();
        let mut groups: Vec<(E, Vec<u64>)> = vec![];
        for (o, e) in vals {
            if e != def {
                if let Some(g) = groups.iter_mut().find(|g| g.0 == e) {
                    g.1.push(o);
                } else {
                    groups.push((e, vec![o]));
                }
            }
        }
        let mut r = def;
        for (e, os) in groups {
            let mut c = self.ex.f();
            for o in os {
                let k = self.ex.k(64, o as u128);
                let q = self.ex.eq(off, k);
                c = self.ex.or(c, q);
            }
            r = self.ex.ite(c, e, r);
        }
        Ok(self.v(r))
    }
    fn stride(&self, e: E) -> u64 {
        let n = self.ex.n(e);
        match n.op {
            Op::Const => {
                if n.k == 0 { 1 << 20 } else { 1u64 << (n.k.trailing_zeros().min(20)) }
            }
            Op::Concat => {
                if self.ex.is_const(n.b) == Some(0) {
                    let wb = self.ex.w(n.b);
                    (1u64 << wb.min(20)) * self.stride(n.a).min(1 << 20).min(1u64 << (20 - wb.min(20)))
                } else {
                    self.stride(n.b).min(1u64 << self.ex.w(n.b).min(20))
                }
            }
            Op::ZExt => self.stride(n.a),
            Op::Add | Op::Sub => self.stride(n.a).min(self.stride(n.b)),
            Op::Mul => {
                if let Some(k) = self.ex.is_const(n.b) {
                    // offset is k * x (no wrap inside an object); use the exact multiple
                    if k < (1 << 20) && self.small(n.a) { k as u64 } else { 1u64 << k.trailing_zeros().min(20) }
                } else {
                    1
                }
            }
            Op::Ite => self.stride(n.b).min(self.stride(n.c)),
            _ => 1,
        }
    }
    fn small(&self, e: E) -> bool {
        let n = self.ex.n(e);
        n.op == Op::ZExt && self.ex.w(n.a) <= 40
    }
    fn cstr(&mut self, s: &mut State, p: &V, len: &V) -> R<String> {
        let p = self.conc(s, p)?;
        let n = self.conc(s, len)?;
        let mut b = vec![];
        for i in 0..n {
            match self.load_int(s, p + i, 8)? {
                V::C(x) => b.push(x as u8),
                _ => return Err(Stop::Abort("symbolic label".into())),
            }
        }
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn memcpy(&mut self, s: &mut State, d: u64, sr: u64, n: u64) -> R<()> {
        if n == 0 || d == sr {
            return Ok(());
        }
        let n = n as usize;
        let (o, off) = self.obj(s, sr)?;
        let off = off as usize;
        if off + n > o.data.len() {
            return Err(Stop::Abort("memcpy source out of bounds".into()));
        }
        let data: Vec<u8> = o.data[off..off + n].to_vec();
        let sym: Option<Vec<(E, u8)>> = o.sym.as_ref().map(|x| x[off..off + n].to_vec()).filter(|x| x.iter().any(|b| b.0 != 0));
        let (o, off) = self.obj_mut(s, d)?;
        let off = off as usize;
        if off + n > o.data.len() {
            return Err(Stop::Abort("memcpy destination out of bounds".into()));
        }
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(sy) => {
                let len = o.data.len();
                let t = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                t[off..off + n].copy_from_slice(&sy);
            }
            None => {
                if let Some(t) = &mut o.sym {
                    for x in &mut t[off..off + n] {
                        *x = (0, 0);
                    }
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- interpreter
    #[inline]
    fn get(&mut self, s: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => {
                let v = s.frames.last().unwrap().regs[*r as usize].clone();
                if let V::S(e) = v {
                    if let Some(k) = s.known.get(&e) {
                        return V::num(self.ex.w(e), *k);
                    }
                }
                v
            }
            Opd::C(v) => v.clone(),
        }
    }
    #[inline]
    fn top(s: &mut State) -> &mut Frame {
        Rc::make_mut(s.frames.last_mut().unwrap())
    }
    fn set(&mut self, s: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            Self::top(s).regs[d as usize] = v;
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let f = Self::top(s);
        let from = f.block;
        f.block = to;
        f.ip = 0;
        let func = f.func;
        let bl = &self.m.funcs[func as usize].blocks[to as usize];
        if bl.phis.is_empty() {
            return;
        }
        let mut vals: Vec<(u32, V)> = Vec::with_capacity(bl.phis.len());
        for (d, vs) in bl.phis.iter() {
            let o = &vs.iter().find(|x| x.0 == from).expect("phi predecessor").1;
            let v = match o {
                Opd::R(r) => f.regs[*r as usize].clone(),
                Opd::C(c) => c.clone(),
            };
            vals.push((*d, v));
        }
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
    }
    fn run_state(&mut self, s: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 {
                if self.start.elapsed().as_secs_f64() > self.opts.time_limit {
                    return Stop::Abort("time limit reached".into());
                }
            }
            s.steps += 1;
            self.st.steps += 1;
            if s.steps > self.opts.max_steps {
                return Stop::Hang;
            }
            if let Err(e) = self.step(s) {
                return e;
            }
        }
    }
    fn step(&mut self, s: &mut State) -> R<()> {
        let (fi, bi, ip) = {
            let f = s.frames.last().unwrap();
            (f.func, f.block, f.ip)
        };
        // SAFETY: the module is never mutated during execution.
        let ins: &Inst = unsafe { &*(&self.m.funcs[fi as usize].blocks[bi as usize].insts[ip as usize] as *const Inst) };
        if ins.dbg != 0 {
            self.cov.insert((fi, ins.dbg));
        }
        let dst = ins.dst;
        match &ins.k {
            K::Bin(k, t, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let r = match (&x, &y) {
                    (V::A(p), V::A(q)) => {
                        let ew = self.m.int_w(self.m.elem_ty(*t, 0));
                        let mut out = Vec::with_capacity(p.len());
                        for (i, j) in p.iter().zip(q.iter()) {
                            out.push(self.bin(*k, ew, i, j)?);
                        }
                        V::A(Rc::new(out))
                    }
                    (V::S(_), V::S(_)) if hard(*k) => {
                        let w = self.m.int_w(*t);
                        let (x, y) = (self.settle(s, x)?, self.settle(s, y)?);
                        self.bin(*k, w, &x, &y)?
                    }
                    _ => {
                        let w = self.m.int_w(*t);
                        self.bin(*k, w, &x, &y)?
                    }
                };
                self.set(s, dst, r);
            }
            K::ICmp(p, t, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let r = match (&x, &y) {
                    (V::A(v), V::A(q)) => {
                        let ew = self.m.int_w(self.m.elem_ty(*t, 0));
                        V::A(Rc::new(v.iter().zip(q.iter()).map(|(i, j)| self.icmp(*p, ew, i, j)).collect()))
                    }
                    _ => {
                        let w = self.m.int_w(*t);
                        self.icmp(*p, w, &x, &y)
                    }
                };
                self.set(s, dst, r);
            }
            K::FCmp(p, t, a, b) => {
                let w = self.m.int_w(*t);
                let (x, y) = (self.get(s, a), self.get(s, b));
                if w == 0 {
                    return Err(Stop::Abort("vector fcmp".into()));
                }
                let (x, y) = (self.e(w, &x), self.e(w, &y));
                let ex = &mut self.ex;
                let ux = ex.funo(x);
                let uy = ex.funo(y);
                let uno = ex.or(ux, uy);
                let ord = ex.not(uno);
                let r = match p.as_str() {
                    "oeq" => ex.fcmp(Op::FOeq, x, y),
                    "une" => {
                        let q = ex.fcmp(Op::FOeq, x, y);
                        ex.not(q)
                    }
                    "one" => {
                        let q = ex.fcmp(Op::FOeq, x, y);
                        let q = ex.not(q);
                        ex.and(q, ord)
                    }
                    "ueq" => {
                        let q = ex.fcmp(Op::FOeq, x, y);
                        ex.or(q, uno)
                    }
                    "olt" => ex.fcmp(Op::FOlt, x, y),
                    "ole" => ex.fcmp(Op::FOle, x, y),
                    "ogt" => ex.fcmp(Op::FOlt, y, x),
                    "oge" => ex.fcmp(Op::FOle, y, x),
                    "ult" => {
                        let q = ex.fcmp(Op::FOle, y, x);
                        ex.not(q)
                    }
                    "ule" => {
                        let q = ex.fcmp(Op::FOlt, y, x);
                        ex.not(q)
                    }
                    "ugt" => {
                        let q = ex.fcmp(Op::FOle, x, y);
                        ex.not(q)
                    }
                    "uge" => {
                        let q = ex.fcmp(Op::FOlt, x, y);
                        ex.not(q)
                    }
                    "ord" => ord,
                    "uno" => uno,
                    "true" => ex.t(),
                    _ => ex.f(),
                };
                let r = self.v(r);
                self.set(s, dst, r);
            }
            K::FNeg(t, a) => {
                let w = self.m.int_w(*t);
                let x = self.get(s, a);
                let sign = V::num(w, 1u128 << (w - 1));
                let r = self.bin(Bin::Xor, w, &x, &sign)?;
                self.set(s, dst, r);
            }
            K::Cast(k, ft, tt, a) => {
                let x = self.get(s, a);
                let r = if *k == Cast::BitCast {
                    let (w, b) = self.to_bits(*ft, &x)?;
                    self.from_bits(*tt, w, &b)?
                } else if let V::A(xs) = &x {
                    let fw = self.m.int_w(self.m.elem_ty(*ft, 0));
                    let tw = self.m.int_w(self.m.elem_ty(*tt, 0));
                    let mut out = vec![];
                    for y in xs.iter() {
                        out.push(self.cast(*k, fw, tw, y)?);
                    }
                    V::A(Rc::new(out))
                } else {
                    let (fw, tw) = (self.m.int_w(*ft), self.m.int_w(*tt));
                    self.cast(*k, fw, tw, &x)?
                };
                self.set(s, dst, r);
            }
            K::Select(_ct, t, c, a, b) => {
                let c = self.get(s, c);
                let r = match &c {
                    V::C(k) => {
                        if *k != 0 { self.get(s, a) } else { self.get(s, b) }
                    }
                    V::A(cs) => {
                        let (x, y) = (self.get(s, a), self.get(s, b));
                        let ew = self.m.int_w(self.m.elem_ty(*t, 0));
                        let (V::A(p), V::A(q)) = (&x, &y) else { return Err(Stop::Abort("select".into())) };
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            let ce = self.e(1, &cs[i]);
                            out.push(self.select(ew, ce, &p[i], &q[i]));
                        }
                        V::A(Rc::new(out))
                    }
                    V::S(e) => {
                        if let Some(k) = self.lookup(s, *e) {
                            if k != 0 { self.get(s, a) } else { self.get(s, b) }
                        } else {
                            let (x, y) = (self.get(s, a), self.get(s, b));
                            let w = match self.m.t(*t) {
                                T::Vec(_, el) => self.m.int_w(*el),
                                T::Struct(..) | T::Arr(..) => {
                                    let k = self.branch(s, *e)?;
                                    let v = if k { x } else { y };
                                    self.set(s, dst, v);
                                    Self::top(s).ip += 1;
                                    return Ok(());
                                }
                                _ => self.m.int_w(*t),
                            };
                            self.select(w, *e, &x, &y)
                        }
                    }
                    _ => return Err(Stop::Abort("select condition".into())),
                };
                self.set(s, dst, r);
            }
            K::Load(t, p) => {
                let p = self.get(s, p);
                let r = match p {
                    V::C(a) => self.load(s, *t, a)?,
                    V::S(e) => self.load_sym(s, *t, e)?,
                    _ => return Err(Stop::Abort("load address".into())),
                };
                self.set(s, dst, r);
            }
            K::Store(t, v, p) => {
                let p = self.get(s, p);
                let a = self.conc(s, &p)?;
                let v = self.get(s, v);
                self.store(s, *t, a, &v)?;
            }
            K::Gep(b, off, dy) => {
                let b = self.get(s, b);
                let r = if dy.is_empty() {
                    match b {
                        V::C(x) => V::C(x.wrapping_add(*off as u64)),
                        _ => self.bin(Bin::Add, 64, &b, &V::C(*off as u64))?,
                    }
                } else {
                    let mut acc = self.bin(Bin::Add, 64, &b, &V::C(*off as u64))?;
                    for (ix, w, sc) in dy {
                        let i = self.get(s, ix);
                        let i = if *w < 64 { self.cast(Cast::SExt, *w, 64, &i)? } else { i };
                        let m = self.bin(Bin::Mul, 64, &i, &V::C(*sc as u64))?;
                        acc = self.bin(Bin::Add, 64, &acc, &m)?;
                    }
                    acc
                };
                self.set(s, dst, r);
            }
            K::Alloca(sz, n) => {
                let n = self.get(s, n);
                let n = self.conc(s, &n)?;
                let id = self.alloc(s, sz * n)?;
                let f = Self::top(s);
                f.allocas.push(id);
                f.regs[dst as usize] = V::C(Self::haddr(id));
            }
            K::Call(callee, args, rt, normal) => {
                return self.call(s, dst, callee, args, *rt, *normal);
            }
            K::Br(b) => {
                self.jump(s, *b);
                return Ok(());
            }
            K::CondBr(c, t, f) => {
                let c = self.get(s, c);
                let k = match c {
                    V::C(x) => x != 0,
                    V::S(e) => self.branch(s, e)?,
                    _ => return Err(Stop::Abort("branch condition".into())),
                };
                self.jump(s, if k { *t } else { *f });
                return Ok(());
            }
            K::Switch(w, v, d, cases) => {
                let v = self.get(s, v);
                if let Some(k) = v.u128() {
                    let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(s, to);
                    return Ok(());
                }
                let e = self.e(*w, &v);
                if let Some(k) = self.lookup(s, e) {
                    let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(s, to);
                    return Ok(());
                }
                // group by target; take the model's target, fork off the rest by re-executing
                let mut targets: Vec<(u32, E)> = vec![];
                let mut none = self.ex.t();
                for (k, b) in cases {
                    let kc = self.ex.k(*w, *k);
                    let q = self.ex.eq(e, kc);
                    let nq = self.ex.not(q);
                    none = self.ex.and(none, nq);
                    if let Some(t) = targets.iter_mut().find(|t| t.0 == *b) {
                        t.1 = self.ex.or(t.1, q);
                    } else {
                        targets.push((*b, q));
                    }
                }
                if let Some(t) = targets.iter_mut().find(|t| t.0 == *d) {
                    t.1 = self.ex.or(t.1, none);
                } else {
                    targets.push((*d, none));
                }
                // the path goes where its model goes; the state forked off executes the switch again
                for (b, q) in targets.iter() {
                    let here = match self.lookup(s, *q) {
                        Some(k) => k != 0,
                        None => self.ev(&s.model, &V::S(*q)) != 0 && self.branch(s, *q)?,
                    };
                    if here {
                        self.jump(s, *b);
                        return Ok(());
                    }
                }
                unreachable!();
            }
            K::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.get(s, o));
                let f = s.frames.pop().unwrap();
                for a in f.allocas.iter() {
                    s.heap[*a as usize] = None;
                    s.free.push(*a);
                }
                if s.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let Some(r) = r {
                    self.set(s, f.ret_dst, r);
                }
                if f.ret_block != u32::MAX {
                    self.jump(s, f.ret_block);
                } else {
                    Self::top(s).ip += 1;
                }
                return Ok(());
            }
            K::Unreachable => return Err(Stop::Abort("reached 'unreachable'".into())),
            K::ExtractValue(a, ix) => {
                let mut v = self.get(s, a);
                for i in ix {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Abort("extractvalue".into())),
                    };
                }
                self.set(s, dst, v);
            }
            K::InsertValue(a, v, ix) => {
                let mut base = self.get(s, a);
                let v = self.get(s, v);
                fn ins(b: &mut V, ix: &[u32], v: V) {
                    if ix.is_empty() {
                        *b = v;
                        return;
                    }
                    if let V::A(x) = b {
                        ins(&mut Rc::make_mut(x)[ix[0] as usize], &ix[1..], v);
                    }
                }
                ins(&mut base, ix, v);
                self.set(s, dst, base);
            }
            K::ExtractElement(a, i) => {
                let v = self.get(s, a);
                let i = self.get(s, i);
                let i = self.conc(s, &i)?;
                let V::A(x) = v else { return Err(Stop::Abort("extractelement".into())) };
                let r = x[i as usize].clone();
                self.set(s, dst, r);
            }
            K::InsertElement(a, v, i) => {
                let b = self.get(s, a);
                let v = self.get(s, v);
                let i = self.get(s, i);
                let i = self.conc(s, &i)?;
                let V::A(mut x) = b else { return Err(Stop::Abort("insertelement".into())) };
                Rc::make_mut(&mut x)[i as usize] = v;
                self.set(s, dst, V::A(x));
            }
            K::Shuffle(_, a, b, mk) => {
                let (V::A(x), V::A(y)) = (self.get(s, a), self.get(s, b)) else { return Err(Stop::Abort("shuffle".into())) };
                let out = mk.iter().map(|i| { let i = *i as usize; if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() } }).collect();
                self.set(s, dst, V::A(Rc::new(out)));
            }
            K::Copy(a) => {
                let v = self.get(s, a);
                self.set(s, dst, v);
            }
            K::Rmw(o, t, p, v) => {
                let p = self.get(s, p);
                let a = self.conc(s, &p)?;
                let v = self.get(s, v);
                let w = self.m.int_w(*t);
                let old = self.load_int(s, a, w)?;
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, w, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                    "and" => self.bin(Bin::And, w, &old, &v)?,
                    "or" => self.bin(Bin::Or, w, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                    x => return Err(Stop::Abort(format!("atomicrmw {}", x))),
                };
                self.store_int(s, a, w, &new)?;
                self.set(s, dst, old);
            }
            K::CmpXchg(t, p, c, n) => {
                let p = self.get(s, p);
                let a = self.conc(s, &p)?;
                let c = self.get(s, c);
                let n = self.get(s, n);
                let w = self.m.int_w(*t);
                let old = self.load_int(s, a, w)?;
                let eq = self.icmp(Pred::Eq, w, &old, &c);
                let k = match eq {
                    V::C(x) => x != 0,
                    V::S(e) => self.branch(s, e)?,
                    _ => false,
                };
                if k {
                    self.store_int(s, a, w, &n)?;
                }
                self.set(s, dst, V::A(Rc::new(vec![old, V::C(k as u64)])));
            }
            K::Nop => {}
            K::Unsupported(w) => return Err(Stop::Abort(format!("unsupported instruction {}", w))),
        }
        Self::top(s).ip += 1;
        Ok(())
    }

    fn call(&mut self, s: &mut State, dst: u32, callee: &Callee, args: &[(Ty, Opd)], rt: Ty, normal: u32) -> R<()> {
        let target = match callee {
            Callee::Sym(x) => {
                let mut x = *x;
                while let Sym::Alias(t) = self.m.syms[x as usize] {
                    x = t;
                }
                self.bi[x as usize]
            }
            Callee::Ptr(o) => {
                let p = self.get(s, o);
                let a = self.conc(s, &p)?;
                if a >= FBASE && a < FBASE + (1 << 31) {
                    Bi::Func(((a - FBASE) / 16) as u32)
                } else if a >= FBASE + (1 << 31) && a < FBASE + (1 << 32) {
                    let x = ((a - FBASE - (1 << 31)) / 16) as usize;
                    self.bi[x]
                } else {
                    return Err(Stop::Abort(format!("call to invalid address {:#x}", a)));
                }
            }
            Callee::Asm => {
                // cpuid probes and compiler barriers: no features, no effect
                let z = if matches!(self.m.t(rt), T::Void) { V::C(0) } else { self.m.c_val(rt, &C::Zero) };
                self.set(s, dst, z);
                Self::top(s).ip += 1;
                return Ok(());
            }
        };
        if let Bi::Func(f) = target {
            if self.panic_fn[f as usize] {
                let n = short_name(&self.m.funcs[f as usize].name);
                let n = n.split("panicking::").last().unwrap_or(&n).to_string();
                let n = n.split("::").next().unwrap_or("panic").to_string();
                return Err(Stop::Panic(n));
            }
            let nregs = self.m.funcs[f as usize].nregs as usize;
            let mut regs = vec![V::C(0); nregs];
            for (i, (_, o)) in args.iter().enumerate() {
                let v = self.get(s, o);
                if let Some(p) = self.m.funcs[f as usize].params.get(i) {
                    regs[*p as usize] = v;
                }
            }
            if s.frames.len() > 2000 {
                return Err(Stop::Abort("call depth".into()));
            }
            self.fn_cov[f as usize] = true;
            s.frames.push(Rc::new(Frame { func: f, block: 0, ip: 0, regs, allocas: vec![], ret_dst: dst, ret_block: normal }));
            return Ok(());
        }
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (_, o) in args {
            av.push(self.get(s, o));
        }
        let w0 = args.first().map(|a| self.m.int_w(a.0)).unwrap_or(0);
        let r = self.builtin(s, target, callee, &av, args, rt, w0)?;
        self.set(s, dst, r);
        if normal != u32::MAX {
            self.jump(s, normal);
        } else {
            Self::top(s).ip += 1;
        }
        Ok(())
    }

    fn lanes(&mut self, s: &mut State, b: Bi, callee: &Callee, a: &[V], args: &[(Ty, Opd)], rt: Ty) -> R<Option<V>> {
        // element-wise application for vector arguments
        let reduce = matches!(b, Bi::ReduceAdd | Bi::ReduceAnd | Bi::ReduceOr | Bi::ReduceUMax | Bi::ReduceUMin);
        if reduce {
            return Ok(None);
        }
        if let (Some(V::A(x)), T::Vec(_, e)) = (a.first(), self.m.t(rt).clone()) {
            let n = x.len();
            let ew = self.m.int_w(e);
            let mut out = vec![];
            for i in 0..n {
                let ai: Vec<V> = a.iter().map(|v| match v { V::A(y) => y[i].clone(), z => z.clone() }).collect();
                let w0 = self.m.int_w(self.m.elem_ty(args[0].0, 0));
                let _ = ew;
                out.push(self.builtin(s, b, callee, &ai, &[], e, w0)?);
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        Ok(None)
    }

    fn builtin(&mut self, s: &mut State, b: Bi, callee: &Callee, a: &[V], args: &[(Ty, Opd)], rt: Ty, w: u32) -> R<V> {
        if !args.is_empty() {
            if let Some(v) = self.lanes(s, b, callee, a, args, rt)? {
                return Ok(v);
            }
        }
        match b {
            Bi::Nop => Ok(V::C(0)),
            Bi::Zero => Ok(V::C(0)),
            Bi::Expect => Ok(a[0].clone()),
            Bi::Tls => Ok(a[0].clone()),
            Bi::Malloc | Bi::AlignedAlloc => {
                let n = self.conc(s, &a[if b == Bi::Malloc { 0 } else { 1 }])?;
                let id = self.alloc(s, n)?;
                Ok(V::C(Self::haddr(id)))
            }
            Bi::Calloc => {
                let n = self.conc(s, &a[0])?;
                let m = self.conc(s, &a[1])?;
                let id = self.alloc(s, n.saturating_mul(m))?;
                Ok(V::C(Self::haddr(id)))
            }
            Bi::PosixMemalign => {
                let p = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[2])?;
                let id = self.alloc(s, n)?;
                self.store_int(s, p, 64, &V::C(Self::haddr(id)))?;
                Ok(V::C(0))
            }
            Bi::Realloc => {
                let p = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[1])?;
                if p == 0 {
                    let id = self.alloc(s, n)?;
                    return Ok(V::C(Self::haddr(id)));
                }
                let old = self.obj(s, p)?.0.data.len() as u64;
                let id = self.alloc(s, n)?;
                self.memcpy(s, Self::haddr(id), p, old.min(n))?;
                let i = ((p >> 32) - HBASE) as usize;
                s.heap[i] = None;
                s.free.push(i as u32);
                Ok(V::C(Self::haddr(id)))
            }
            Bi::Free => {
                let p = self.conc(s, &a[0])?;
                if p != 0 {
                    let hi = p >> 32;
                    if hi < HBASE {
                        return Err(Stop::Abort("free of non-heap".into()));
                    }
                    let i = (hi - HBASE) as usize;
                    if s.heap.get(i).map(|x| x.is_none()).unwrap_or(true) {
                        return Err(Stop::Abort("double free".into()));
                    }
                    s.heap[i] = None;
                    s.free.push(i as u32);
                }
                Ok(V::C(0))
            }
            Bi::Memcpy => {
                let n = self.conc(s, &a[2])?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.conc(s, &a[0])?;
                let sr = self.conc(s, &a[1])?;
                self.memcpy(s, d, sr, n)?;
                Ok(V::C(d))
            }
            Bi::Memset => {
                let n = self.conc(s, &a[2])?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.conc(s, &a[0])?;
                if let V::C(x) = a[1] {
                    let (o, off) = self.obj_mut(s, d)?;
                    let (off, n) = (off as usize, n as usize);
                    if off + n > o.data.len() {
                        return Err(Stop::Abort("memset out of bounds".into()));
                    }
                    for y in &mut o.data[off..off + n] {
                        *y = x as u8;
                    }
                    if let Some(sy) = &mut o.sym {
                        for y in &mut sy[off..off + n] {
                            *y = (0, 0);
                        }
                    }
                } else {
                    let v = if args.len() > 1 && self.m.int_w(args[1].0) > 8 { self.cast(Cast::Trunc, self.m.int_w(args[1].0), 8, &a[1])? } else { a[1].clone() };
                    for i in 0..n {
                        self.store_int(s, d + i, 8, &v)?;
                    }
                }
                Ok(V::C(d))
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.conc(s, &a[2])?;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let p = self.conc(s, &a[0])?;
                let q = self.conc(s, &a[1])?;
                let mut acc = self.ex.k(32, 0);
                let one = self.ex.k(32, 1);
                let minus = self.ex.k(32, u32::MAX as u128);
                for i in (0..n).rev() {
                    let x = self.load_int(s, p + i, 8)?;
                    let y = self.load_int(s, q + i, 8)?;
                    let (x, y) = (self.e(8, &x), self.e(8, &y));
                    let eq = self.ex.eq(x, y);
                    let lt = self.ex.ult(x, y);
                    let ne = if b == Bi::Bcmp { one } else { self.ex.ite(lt, minus, one) };
                    acc = self.ex.ite(eq, acc, ne);
                }
                Ok(self.v(acc))
            }
            Bi::Strlen => {
                let p = self.conc(s, &a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load_int(s, p + n, 8)?;
                    if self.conc(s, &v)? == 0 {
                        return Ok(V::C(n));
                    }
                    n += 1;
                }
            }
            Bi::Abort => Err(Stop::Panic("abort".into())),
            Bi::Getrandom => {
                let n = self.conc(s, &a[1])?;
                Ok(V::C(n))
            }
            Bi::Syscall => {
                // only getrandom(buf, len, flags): the buffer keeps its (zero) contents
                match self.conc(s, &a[0])? {
                    318 => {
                        let n = self.conc(s, &a[2])?;
                        Ok(V::C(n))
                    }
                    n => Err(Stop::Abort(format!("system call {}", n))),
                }
            }
            Bi::MinusOne => Ok(V::C(mask(self.m.int_w(rt)) as u64)),
            Bi::One => Ok(V::C(1)),
            Bi::Errno => {
                let id = self.alloc(s, 4)?;
                Ok(V::C(Self::haddr(id)))
            }
            // ---- harness interface
            Bi::KSym => {
                let name = self.cstr(s, &a[0], &a[1])?;
                let bits = self.conc(s, &a[2])? as u32;
                let occ = {
                    let m = Rc::make_mut(&mut s.occ);
                    let c = m.entry(name.clone()).or_insert(0);
                    *c += 1;
                    *c - 1
                };
                let v = self.ex.var(&name, occ, bits);
                Rc::make_mut(&mut s.inputs).push((name, V::S(v)));
                let r = if bits < 64 { self.ex.zext(v, 64) } else { v };
                Ok(self.v(r))
            }
            Bi::KChoice => {
                let name = self.cstr(s, &a[0], &a[1])?;
                let n = self.conc(s, &a[2])?;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                // fork n-1 siblings positioned after this call
                for k in (1..n).rev() {
                    let mut o = s.clone();
                    o.depth += 1;
                    Rc::make_mut(&mut o.inputs).push((name.clone(), V::C(k)));
                    self.finish_choice(&mut o, k);
                    self.work.push(o);
                    self.st.forks += 1;
                }
                Rc::make_mut(&mut s.inputs).push((name, V::C(0)));
                Ok(V::C(0))
            }
            Bi::KAssume => {
                let c = match &a[0] {
                    V::C(x) => {
                        return if *x != 0 { Ok(V::C(0)) } else { Err(Stop::Infeasible) };
                    }
                    V::S(e) => {
                        if self.ex.w(*e) != 1 { self.ex.extract(*e, 0, 1) } else { *e }
                    }
                    _ => return Err(Stop::Abort("assume".into())),
                };
                if let Some(k) = self.lookup(s, c) {
                    return if k != 0 { Ok(V::C(0)) } else { Err(Stop::Infeasible) };
                }
                match self.query(s, c)? {
                    None => Err(Stop::Infeasible),
                    Some(m) => {
                        let nc = self.ex.not(c);
                        self.leaf(s, nc);
                        s.model = m;
                        self.add_c(s, c);
                        Ok(V::C(0))
                    }
                }
            }
            Bi::KCheck => {
                let label = self.cstr(s, &a[1], &a[2])?;
                *self.checked.entry(label.clone()).or_default() += 1;
                self.st.checks += 1;
                let c = match &a[0] {
                    V::C(x) => {
                        if *x != 0 {
                            return Ok(V::C(0));
                        }
                        let m = s.model.clone();
                        let at = self.where_(s).0;
                        self.violation(s, label, at, &m);
                        return Err(Stop::Failed);
                    }
                    V::S(e) => {
                        if self.ex.w(*e) != 1 { self.ex.extract(*e, 0, 1) } else { *e }
                    }
                    _ => return Err(Stop::Abort("check".into())),
                };
                self.st.checks_symbolic += 1;
                let nc = self.ex.not(c);
                if let Some(m) = self.query(s, nc)? {
                    let at = self.where_(s).0;
                    self.violation(s, label, at, &m);
                    match self.query(s, c)? {
                        None => return Err(Stop::Failed),
                        Some(m) => {
                            self.leaf(s, nc);
                            s.model = m;
                            self.add_c(s, c);
                        }
                    }
                }
                Ok(V::C(0))
            }
            Bi::KObserve => {
                let name = self.cstr(s, &a[0], &a[1])?;
                Rc::make_mut(&mut s.obs).push((name, a[2].clone()));
                Ok(V::C(0))
            }
            Bi::KReach => {
                let name = self.cstr(s, &a[0], &a[1])?;
                *self.reached.entry(name).or_default() += 1;
                Ok(V::C(0))
            }
            Bi::KPanicLabel => {
                s.panic_label = self.cstr(s, &a[0], &a[1])?;
                Ok(V::C(0))
            }
            Bi::KCtx => {
                s.ctx = self.cstr(s, &a[0], &a[1])?;
                Ok(V::C(0))
            }
            Bi::KParam => {
                let i = self.conc(s, &a[0])?;
                match self.opts.params.get(i as usize) {
                    Some(p) => Ok(V::C(*p)),
                    None => Err(Stop::Abort(format!("missing parameter {}", i))),
                }
            }
            Bi::KFork => {
                // concretize (fork over all feasible values)
                let k = self.conc(s, &a[0])?;
                Ok(V::C(k))
            }
            // ---- integer intrinsics
            Bi::UMax | Bi::UMin | Bi::SMax | Bi::SMin => {
                let (x, y) = (self.e(w, &a[0]), self.e(w, &a[1]));
                let c = match b {
                    Bi::UMax => self.ex.ult(y, x),
                    Bi::UMin => self.ex.ult(x, y),
                    Bi::SMax => self.ex.slt(y, x),
                    _ => self.ex.slt(x, y),
                };
                let r = self.ex.ite(c, x, y);
                Ok(self.v(r))
            }
            Bi::AbsI => {
                let x = self.e(w, &a[0]);
                let z = self.ex.k(w, 0);
                let c = self.ex.slt(x, z);
                let n = self.ex.neg(x);
                let r = self.ex.ite(c, n, x);
                Ok(self.v(r))
            }
            Bi::UAddO | Bi::USubO | Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                if matches!(b, Bi::UMulO | Bi::SMulO) && matches!((&x, &y), (V::S(_), V::S(_))) {
                    x = self.settle(s, x)?;
                    y = self.settle(s, y)?;
                }
                let (x, y) = (self.e(w, &x), self.e(w, &y));
                let (r, o) = self.ovf(b, w, x, y);
                Ok(V::A(Rc::new(vec![self.v(r), self.v(o)])))
            }
            Bi::UAddSat => {
                let (x, y) = (self.e(w, &a[0]), self.e(w, &a[1]));
                let (r, o) = self.ovf(Bi::UAddO, w, x, y);
                let m = self.ex.k(w, mask(w));
                let r = self.ex.ite(o, m, r);
                Ok(self.v(r))
            }
            Bi::USubSat => {
                let (x, y) = (self.e(w, &a[0]), self.e(w, &a[1]));
                let c = self.ex.ult(x, y);
                let d = self.ex.sub(x, y);
                let z = self.ex.k(w, 0);
                let r = self.ex.ite(c, z, d);
                Ok(self.v(r))
            }
            Bi::SAddSat | Bi::SSubSat => {
                let (x, y) = (self.e(w, &a[0]), self.e(w, &a[1]));
                let (r, o) = self.ovf(if b == Bi::SAddSat { Bi::SAddO } else { Bi::SSubO }, w, x, y);
                let z = self.ex.k(w, 0);
                let neg = self.ex.slt(x, z);
                let mn = self.ex.k(w, 1u128 << (w - 1));
                let mx = self.ex.k(w, mask(w) >> 1);
                let sat = self.ex.ite(neg, mn, mx);
                let r = self.ex.ite(o, sat, r);
                Ok(self.v(r))
            }
            Bi::Ctpop => {
                let x = self.e(w, &a[0]);
                let mut acc = self.ex.k(w, 0);
                for i in 0..w {
                    let bt = self.ex.extract(x, i, 1);
                    let z = if w > 1 { self.ex.zext(bt, w) } else { bt };
                    acc = self.ex.add(acc, z);
                }
                Ok(self.v(acc))
            }
            Bi::Ctlz | Bi::Cttz => {
                let x = self.e(w, &a[0]);
                let mut acc = self.ex.k(w, w as u128);
                for i in 0..w {
                    // last applied wins: iterate so that the decisive bit is applied last
                    let bit = if b == Bi::Ctlz { i } else { w - 1 - i };
                    let val = if b == Bi::Ctlz { w - 1 - bit } else { bit };
                    let bt = self.ex.extract(x, bit, 1);
                    let k = self.ex.k(w, val as u128);
                    acc = self.ex.ite(bt, k, acc);
                }
                // the position of a byte found by a word-wise search: a path per position, since
                // what follows would otherwise run at a symbolic address
                let bytes = w == 64 && (0..64).all(|i| i % 8 == 7 || { let e = self.ex.extract(x, i, 1); self.ex.is_const(e) == Some(0) });
                if bytes {
                    let v = self.v(acc);
                    return Ok(V::C(self.conc(s, &v)?));
                }
                Ok(self.v(acc))
            }
            Bi::Bswap => {
                let x = self.e(w, &a[0]);
                let mut acc: Option<E> = None;
                for i in 0..w / 8 {
                    let p = self.ex.extract(x, i * 8, 8);
                    acc = Some(match acc { None => p, Some(q) => self.ex.concat(q, p) });
                }
                let r = acc.unwrap();
                Ok(self.v(r))
            }
            Bi::Bitrev => {
                let x = self.e(w, &a[0]);
                let mut acc: Option<E> = None;
                for i in 0..w {
                    let p = self.ex.extract(x, i, 1);
                    acc = Some(match acc { None => p, Some(q) => self.ex.concat(q, p) });
                }
                let r = acc.unwrap();
                Ok(self.v(r))
            }
            Bi::Fshl | Bi::Fshr => {
                let (x, y, z) = (self.e(w, &a[0]), self.e(w, &a[1]), self.e(w, &a[2]));
                let kw = self.ex.k(w, w as u128);
                let sh = self.ex.urem(z, kw);
                let cc = self.ex.concat(x, y);
                let sh2 = self.ex.zext(sh, 2 * w);
                let r = if b == Bi::Fshl {
                    let t = self.ex.shl(cc, sh2);
                    self.ex.extract(t, w, w)
                } else {
                    let t = self.ex.lshr(cc, sh2);
                    self.ex.extract(t, 0, w)
                };
                Ok(self.v(r))
            }
            Bi::UCmp | Bi::SCmp => {
                let rw = self.m.int_w(rt);
                let (x, y) = (self.e(w, &a[0]), self.e(w, &a[1]));
                let (lt, gt) = if b == Bi::UCmp { (self.ex.ult(x, y), self.ex.ult(y, x)) } else { (self.ex.slt(x, y), self.ex.slt(y, x)) };
                let m1 = self.ex.k(rw, mask(rw));
                let one = self.ex.k(rw, 1);
                let zero = self.ex.k(rw, 0);
                let r = self.ex.ite(gt, one, zero);
                let r = self.ex.ite(lt, m1, r);
                Ok(self.v(r))
            }
            Bi::FToUSat | Bi::FToSSat => {
                let rw = self.m.int_w(rt);
                let x = self.e(w, &a[0]);
                let r = self.ex.f1(if b == Bi::FToUSat { Op::FToUSat } else { Op::FToSSat }, rw, x, 0);
                Ok(self.v(r))
            }
            Bi::FAbs => {
                let x = self.e(w, &a[0]);
                let r = self.ex.f1(Op::FAbs, w, x, 0);
                Ok(self.v(r))
            }
            Bi::FFloor | Bi::FCeil | Bi::FTrunc | Bi::FRne | Bi::FRna => {
                let k = match b { Bi::FFloor => 0, Bi::FCeil => 1, Bi::FTrunc => 2, Bi::FRne => 3, _ => 4 };
                let x = self.e(w, &a[0]);
                let r = self.ex.f1(Op::FRound, w, x, k);
                Ok(self.v(r))
            }
            Bi::FMinMax(max) => {
                let (x, y) = (self.e(w, &a[0]), self.e(w, &a[1]));
                let ex = &mut self.ex;
                let nx = ex.funo(x);
                let ny = ex.funo(y);
                let c = if max { ex.fcmp(Op::FOlt, y, x) } else { ex.fcmp(Op::FOlt, x, y) };
                let r = ex.ite(c, x, y);
                let r = ex.ite(ny, x, r);
                let r = ex.ite(nx, y, r);
                Ok(self.v(r))
            }
            Bi::ReduceAdd | Bi::ReduceAnd | Bi::ReduceOr | Bi::ReduceUMax | Bi::ReduceUMin => {
                let V::A(xs) = &a[0] else { return Err(Stop::Abort("reduce".into())) };
                let ew = self.m.int_w(self.m.elem_ty(args[0].0, 0));
                let mut acc = self.e(ew, &xs[0]);
                for x in xs[1..].iter() {
                    let y = self.e(ew, x);
                    acc = match b {
                        Bi::ReduceAdd => self.ex.add(acc, y),
                        Bi::ReduceAnd => self.ex.and(acc, y),
                        Bi::ReduceOr => self.ex.or(acc, y),
                        Bi::ReduceUMax => {
                            let c = self.ex.ult(acc, y);
                            self.ex.ite(c, y, acc)
                        }
                        _ => {
                            let c = self.ex.ult(y, acc);
                            self.ex.ite(c, y, acc)
                        }
                    };
                }
                Ok(self.v(acc))
            }
            Bi::LoadRel => {
                let p = self.conc(s, &a[0])?;
                let o = self.conc(s, &a[1])?;
                let v = self.load_int(s, p.wrapping_add(o), 32)?;
                let d = self.conc(s, &v)?;
                Ok(V::C(p.wrapping_add(d as u32 as i32 as i64 as u64)))
            }
            _ => {
                let n = match callee {
                    Callee::Sym(x) => self.m.sym_names[*x as usize].clone(),
                    _ => "indirect".into(),
                };
                Err(Stop::Abort(format!("unsupported external function {}", n)))
            }
        }
    }
    fn finish_choice(&mut self, o: &mut State, k: u64) {
        // set the destination register of the current call and advance
        let (fi, bi, ip) = {
            let f = o.frames.last().unwrap();
            (f.func, f.block, f.ip)
        };
        let ins: &Inst = unsafe { &*(&self.m.funcs[fi as usize].blocks[bi as usize].insts[ip as usize] as *const Inst) };
        self.set(o, ins.dst, V::C(k));
        if let K::Call(_, _, _, normal) = &ins.k {
            if *normal != u32::MAX {
                self.jump(o, *normal);
                return;
            }
        }
        Self::top(o).ip += 1;
    }
    fn ovf(&mut self, b: Bi, w: u32, x: E, y: E) -> (E, E) {
        let ex = &mut self.ex;
        match b {
            Bi::UAddO => {
                let r = ex.add(x, y);
                let (_, hx) = ex.range(x);
                let (_, hy) = ex.range(y);
                if hx.checked_add(hy).map(|h| h <= mask(w)).unwrap_or(false) {
                    return (r, ex.f());
                }
                if let Some(k) = ex.is_const(y) {
                    let lim = ex.k(w, mask(w) - k);
                    return (r, ex.ult(lim, x));
                }
                if let Some(k) = ex.is_const(x) {
                    let lim = ex.k(w, mask(w) - k);
                    return (r, ex.ult(lim, y));
                }
                let o = ex.ult(r, x);
                (r, o)
            }
            Bi::USubO => {
                let r = ex.sub(x, y);
                let o = ex.ult(x, y);
                (r, o)
            }
            Bi::UMulO => {
                let r = ex.mul(x, y);
                let (_, hx) = ex.range(x);
                let (_, hy) = ex.range(y);
                if hx.checked_mul(hy).map(|h| h <= mask(w)).unwrap_or(false) {
                    return (r, ex.f());
                }
                for (p, q) in [(x, y), (y, x)] {
                    if let Some(k) = ex.is_const(p) {
                        if k == 0 {
                            return (r, ex.f());
                        }
                        let lim = ex.k(w, mask(w) / k);
                        let o = ex.ult(lim, q);
                        return (r, o);
                    }
                }
                let (xx, yy) = (ex.zext(x, 2 * w), ex.zext(y, 2 * w));
                let p = ex.mul(xx, yy);
                let h = ex.extract(p, w, w);
                let z = ex.k(w, 0);
                let e = ex.eq(h, z);
                let o = ex.not(e);
                (r, o)
            }
            Bi::SAddO | Bi::SSubO => {
                let r = if b == Bi::SAddO { ex.add(x, y) } else { ex.sub(x, y) };
                let (xx, yy) = (ex.sext(x, w + 1), ex.sext(y, w + 1));
                let p = if b == Bi::SAddO { ex.add(xx, yy) } else { ex.sub(xx, yy) };
                let rr = ex.sext(r, w + 1);
                let e = ex.eq(p, rr);
                let o = ex.not(e);
                (r, o)
            }
            _ => {
                let r = ex.mul(x, y);
                let (xx, yy) = (ex.sext(x, 2 * w), ex.sext(y, 2 * w));
                let p = ex.mul(xx, yy);
                let rr = ex.sext(r, 2 * w);
                let e = ex.eq(p, rr);
                let o = ex.not(e);
                (r, o)
            }
        }
    }
}
