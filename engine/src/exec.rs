//! Symbolic executor: forks at undecided branches, merges acyclic regions into if-then-else terms.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    E(E),
    Agg(Rc<Vec<Val>>),
    None,
}

const UNDEF: E = u32::MAX;
type Byte = (E, u8);

#[derive(Clone)]
pub struct Obj {
    size: u64,
    bytes: Vec<Byte>,
    constant: bool,
}

#[derive(Clone)]
pub struct Frame {
    func: usize,
    block: usize,
    prev: usize,
    ip: usize,
    locals: Vec<Val>,
    allocas: Vec<usize>,
    ret_dst: Option<usize>,
    normal: Option<usize>,
}

pub type Model = Rc<HashMap<u32, u128>>;

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    pc: Vec<E>,
    model: Model,
    conc: HashMap<E, u128>,
    inputs: Vec<(E, u32)>,
    steps: u64,
    notes: Vec<(String, E)>,
}

enum Flow {
    Next,
    Stop,
    Fork(Vec<State>),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u128)>,
    pub notes: Vec<(String, u128)>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub x: Ctx,
    pub s: Solver,
    fmap: HashMap<Rc<str>, usize>,
    gaddr: HashMap<Rc<str>, u64>,
    consts: HashMap<*const Const, Val>,
    rpo: Vec<Option<Rc<Vec<usize>>>>,
    stack: Vec<State>,
    pub violations: Vec<Violation>,
    vkeys: BTreeSet<String>,
    pub covers: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, (u64, u64)>, // message -> (reached, solver-decided)
    pub paths: u64,
    pub infeasible: u64,
    pub insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub funcs_run: BTreeSet<usize>,
    pub blocks_run: BTreeSet<(usize, usize)>,
    pub errors: Vec<String>,
    pub max_steps: u64,
    pub deadline: Instant,
    pub params: Vec<u64>,
    pub samples: Vec<Vec<(u32, u128)>>,
    pub max_violations: usize,
    pub no_merge: bool,
    pub trace: bool,
    pub vars_made: u64,
    pub max_pc: usize,
    pub concrete: Option<Vec<u128>>,
}

const FBASE: u64 = 0x4000_0000_0000_0000;

fn base_of(id: usize) -> u64 {
    ((id as u64) + 1) << 32
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, timeout_ms: u32) -> Self {
        let mut fmap = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            if !f.is_decl || !fmap.contains_key(&f.name) {
                fmap.insert(f.name.clone(), i);
            }
        }
        for (a, t) in &m.aliases {
            if let Some(i) = fmap.get(t).copied() {
                fmap.insert(a.clone(), i);
            }
        }
        let mut gaddr = HashMap::new();
        for (i, g) in m.globals.iter().enumerate() {
            gaddr.insert(g.name.clone(), base_of(i));
        }
        for (a, t) in &m.aliases {
            if let Some(i) = gaddr.get(t).copied() {
                gaddr.insert(a.clone(), i);
            }
        }
        Exec {
            m,
            x: Ctx::new(),
            s: Solver::new(timeout_ms),
            fmap,
            gaddr,
            consts: HashMap::new(),
            rpo: vec![None; m.funcs.len()],
            stack: Vec::new(),
            violations: Vec::new(),
            vkeys: BTreeSet::new(),
            covers: BTreeMap::new(),
            asserts: BTreeMap::new(),
            paths: 0,
            infeasible: 0,
            insts: 0,
            forks: 0,
            merges: 0,
            funcs_run: BTreeSet::new(),
            blocks_run: BTreeSet::new(),
            errors: Vec::new(),
            max_steps: 5_000_000,
            deadline: Instant::now() + std::time::Duration::from_secs(600),
            params: Vec::new(),
            samples: Vec::new(),
            max_violations: 8,
            no_merge: false,
            trace: false,
            vars_made: 0,
            max_pc: 0,
            concrete: None,
        }
    }

    // ---------------------------------------------------------------- constants
    fn const_val(&mut self, ty: &Ty, c: &Const) -> Result<Val, String> {
        Ok(match c {
            Const::Int(n) => Val::E(self.x.c(*n, ty.bits())),
            Const::Float(n) => match ty {
                Ty::F32 => {
                    let f = f64::from_bits(*n) as f32;
                    Val::E(self.x.c(f.to_bits() as u128, 32))
                }
                _ => Val::E(self.x.c(*n as u128, 64)),
            },
            Const::Null => Val::E(self.x.c(0, 64)),
            Const::Undef => self.zero_val(ty),
            Const::Zero => self.zero_val(ty),
            Const::Global(g) => {
                if let Some(a) = self.gaddr.get(g).copied() {
                    Val::E(self.x.c(a as u128, 64))
                } else if let Some(f) = self.fmap.get(g).copied() {
                    Val::E(self.x.c((FBASE + f as u64 * 16) as u128, 64))
                } else {
                    return Err(format!("unknown global {}", g));
                }
            }
            Const::Agg(v) => {
                let mut o = Vec::new();
                for (t, c) in v {
                    o.push(self.const_val(t, c)?);
                }
                Val::Agg(Rc::new(o))
            }
            Const::Bytes(b) => {
                let v = b.iter().map(|x| Val::E(self.x.c(*x as u128, 8))).collect();
                Val::Agg(Rc::new(v))
            }
            Const::Splat(b) => {
                let e = self.const_val(&b.0, &b.1)?;
                Val::Agg(Rc::new(vec![e; ty.count()]))
            }
            Const::Gep(t, b, idx) => {
                let base = self.const_val(&Ty::Ptr, b)?;
                let mut ix = Vec::new();
                for (it, ic) in idx {
                    let v = self.const_val(it, ic)?;
                    ix.push(v);
                }
                Val::E(self.gep(t, base, &ix)?)
            }
            Const::Cast(op, f, c, t) => {
                let v = self.const_val(f, c)?;
                // The distance of two globals in a relative table does not fit 32 bits here, where
                // every object has 4 GB of addresses: distance of the objects << 16 | offset,
                // which llvm.load.relative undoes
                if let (CastOp::Trunc, Ty::Int(32), Const::Bin(BinOp::Sub, _, a, _)) = (op, t, &**c) {
                    if matches!(**a, Const::Cast(CastOp::PtrToInt, ..)) {
                        let d = self.x.as_const(Self::e(&v)?).ok_or("relative table")? as u64;
                        let (hi, lo) = ((d as i64) >> 32, d & 0xffff_ffff);
                        if lo >= 65536 || hi >= 32768 || hi < -32768 {
                            return Err("relative table".into());
                        }
                        let r = ((hi as u32) << 16) | lo as u32;
                        return Ok(Val::E(self.x.c(r as u128, 32)));
                    }
                }
                self.cast(*op, f, v, t)?
            }
            Const::Bin(op, t, a, b) => {
                let a = self.const_val(t, a)?;
                let b = self.const_val(t, b)?;
                self.binop(*op, t, a, b)?
            }
        })
    }
    fn zero_val(&mut self, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = ty.count();
                let v = (0..n).map(|i| self.zero_val(&ty.elem(i))).collect();
                Val::Agg(Rc::new(v))
            }
            Ty::Void | Ty::Other => Val::None,
            _ => Val::E(self.x.c(0, ty.bits())),
        }
    }
    fn const_bytes(&mut self, ty: &Ty, c: &Const, out: &mut [Byte]) -> Result<(), String> {
        match c {
            Const::Undef => Ok(()),
            Const::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    out[i] = (self.x.c(*x as u128, 8), 0);
                }
                Ok(())
            }
            Const::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    let n = t.size() as usize;
                    self.const_bytes(t, c, &mut out[o..o + n])?;
                }
                Ok(())
            }
            Const::Zero => {
                let z = self.x.c(0, 8);
                for b in out.iter_mut() {
                    *b = (z, 0);
                }
                Ok(())
            }
            _ => {
                let v = self.const_val(ty, c)?;
                self.write_val(ty, &v, out);
                Ok(())
            }
        }
    }
    fn write_val(&mut self, ty: &Ty, v: &Val, out: &mut [Byte]) {
        match v {
            Val::E(e) => {
                let n = ty.size() as usize;
                let w = self.x.w(*e);
                let store = ((w + 7) / 8) as usize;
                let e = if w % 8 != 0 { self.x.zext(*e, store as u32 * 8) } else { *e };
                if let Some(c) = self.x.as_const(e) {
                    for i in 0..store.min(n) {
                        let b = self.x.c((c >> (8 * i)) & 0xff, 8);
                        out[i] = (b, 0);
                    }
                } else {
                    for i in 0..store.min(n) {
                        out[i] = (e, i as u8);
                    }
                }
            }
            Val::Agg(a) => {
                for (i, v) in a.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    let t = ty.elem(i);
                    let n = t.size() as usize;
                    self.write_val(&t, v, &mut out[o..o + n]);
                }
            }
            Val::None => {}
        }
    }
    fn byte_expr(&mut self, b: Byte) -> E {
        if b.0 == UNDEF {
            // Arbitrary: reading it is only legal when the value is not used.
            self.x.var(8)
        } else {
            self.x.extract(b.0, 8 * b.1 as u32, 8)
        }
    }
    fn read_val(&mut self, ty: &Ty, bytes: &[Byte]) -> Val {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = ty.count();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let t = ty.elem(i);
                    let o = ty.field_offset(i) as usize;
                    v.push(self.read_val(&t, &bytes[o..o + t.size() as usize]));
                }
                Val::Agg(Rc::new(v))
            }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                let mut acc: Option<E> = None;
                let mut i = 0;
                while i < n {
                    let (e, k) = bytes[i];
                    let mut j = i + 1;
                    let piece = if e == UNDEF {
                        self.x.var(8)
                    } else {
                        while j < n && bytes[j].0 == e && bytes[j].1 as usize == k as usize + (j - i) {
                            // single-byte terms repeat index 0, so runs only form inside wider terms
                            j += 1;
                        }
                        self.x.extract(e, 8 * k as u32, 8 * (j - i) as u32)
                    };
                    acc = Some(match acc {
                        None => piece,
                        Some(a) => self.x.concat(piece, a),
                    });
                    i = j;
                }
                let mut r = acc.unwrap();
                if w % 8 != 0 {
                    r = self.x.extract(r, 0, w);
                }
                Val::E(r)
            }
        }
    }

    // ---------------------------------------------------------------- setup
    pub fn init(&mut self, entry: &str) -> Result<State, String> {
        let m = self.m;
        let mut objs = Vec::new();
        for g in m.globals.iter() {
            let size = g.ty.size();
            let mut bytes = vec![(UNDEF, 0u8); size as usize];
            if let Some(init) = &g.init {
                self.const_bytes(&g.ty, init, &mut bytes)?;
            }
            objs.push(Some(Rc::new(Obj { size, bytes, constant: g.constant })));
        }
        let f = *self.fmap.get(entry).ok_or(format!("no harness {}", entry))?;
        let mut st = State {
            frames: Vec::new(),
            objs,
            pc: Vec::new(),
            model: Rc::new(HashMap::new()),
            conc: HashMap::new(),
            inputs: Vec::new(),
            steps: 0,
            notes: Vec::new(),
        };
        self.push_frame(&mut st, f, &[], None, None);
        Ok(st)
    }
    fn push_frame(&mut self, st: &mut State, f: usize, args: &[Val], ret_dst: Option<usize>, normal: Option<usize>) {
        let func = &self.m.funcs[f];
        self.funcs_run.insert(f);
        self.blocks_run.insert((f, 0));
        let mut locals = vec![Val::None; func.nlocals];
        for ((_, slot), a) in func.params.iter().zip(args.iter()) {
            locals[*slot] = a.clone();
        }
        st.frames.push(Frame { func: f, block: 0, prev: usize::MAX, ip: 0, locals, allocas: Vec::new(), ret_dst, normal });
    }

    pub fn run(&mut self, entry: &str) {
        match self.init(entry) {
            Ok(st) => self.stack.push(st),
            Err(e) => {
                self.errors.push(e);
                return;
            }
        }
        while let Some(mut st) = self.stack.pop() {
            loop {
                if Instant::now() > self.deadline {
                    self.errors.push("time limit".into());
                    return;
                }
                match self.run_path(&mut st) {
                    Flow::Next => {}
                    Flow::Stop => break,
                    Flow::Fork(v) => {
                        self.forks += v.len() as u64;
                        self.stack.extend(v);
                        break;
                    }
                }
            }
            if self.errors.len() > 20 || self.violations.len() >= self.max_violations {
                return;
            }
        }
    }
    fn run_path(&mut self, st: &mut State) -> Flow {
        for _ in 0..20000 {
            match self.step(st) {
                Ok(Flow::Next) => {}
                Ok(f) => return f,
                Err(e) => {
                    let w = self.where_(st);
                    self.errors.push(format!("{} @ {}", e, w.last().cloned().unwrap_or_default()));
                    return Flow::Stop;
                }
            }
        }
        Flow::Next
    }
    fn where_(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .map(|f| {
                let fun = &self.m.funcs[f.func];
                format!("{}:{}#{}", fun.name, fun.blocks.get(f.block).map(|b| b.name.as_str()).unwrap_or("?"), f.ip)
            })
            .collect()
    }
    fn end_path(&mut self, st: &State) {
        self.paths += 1;
        self.max_pc = self.max_pc.max(st.pc.len());
        if self.samples.len() < 3 {
            let v = st.inputs.iter().map(|(e, w)| (*w, self.x.eval(*e, &st.model))).collect();
            self.samples.push(v);
        }
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let stack = self.where_(st);
        let key = if kind == "assert" {
            format!("{}|{}", kind, msg)
        } else {
            // the innermost frame that is not in the standard library's panic plumbing
            let fr: Vec<String> = stack
                .iter()
                .filter(|s| !s.contains("panick") && !s.contains("rust_begin_unwind") && !s.contains("rustc"))
                .cloned()
                .collect();
            format!("{}|{}", kind, fr.last().cloned().unwrap_or_default())
        };
        if !self.vkeys.insert(key) {
            return;
        }
        let inputs = st.inputs.iter().map(|(e, w)| (*w, self.x.eval(*e, &st.model))).collect();
        let notes = st.notes.iter().map(|(n, e)| (n.clone(), self.x.eval(*e, &st.model))).collect();
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), stack, inputs, notes });
    }

    // ---------------------------------------------------------------- solver helpers
    /// A model of pc ∧ c, or None if unsatisfiable.
    fn feasible(&mut self, st: &State, c: E) -> Result<Option<Model>, String> {
        if let Some(v) = self.x.as_const(c) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        if self.x.eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        match self.s.check(&self.x, &st.pc, c) {
            Res::Sat(m) => {
                let mut n = (*st.model).clone();
                for (k, v) in m.iter() {
                    n.insert(*k, *v);
                }
                Ok(Some(Rc::new(n)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err("solver returned unknown".into()),
        }
    }
    fn assume(&mut self, st: &mut State, c: E, m: Model) {
        if self.x.as_const(c).is_none() {
            self.push_pc(st, c);
        }
        st.model = m;
    }
    fn push_pc(&mut self, st: &mut State, c: E) {
        if let N::Bin(B::And, a, b) = self.x.n(c) {
            self.push_pc(st, a);
            self.push_pc(st, b);
        } else if self.x.as_const(c).is_none() && !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }

    // ---------------------------------------------------------------- operands
    fn op(&mut self, st: &State, ty: &Ty, o: &Op) -> Result<Val, String> {
        match o {
            Op::L(i) => {
                let v = st.frames.last().unwrap().locals[*i].clone();
                if let Val::None = v {
                    return Err(format!("use of unset local {}", i));
                }
                Ok(v)
            }
            Op::C(c) => {
                let k = c as *const Const;
                if let Some(v) = self.consts.get(&k) {
                    return Ok(v.clone());
                }
                let v = self.const_val(ty, c)?;
                self.consts.insert(k, v.clone());
                Ok(v)
            }
        }
    }
    fn ope(&mut self, st: &State, ty: &Ty, o: &Op) -> Result<E, String> {
        match self.op(st, ty, o)? {
            Val::E(e) => Ok(e),
            v => Err(format!("scalar expected, got {:?}", v)),
        }
    }
    fn e(v: &Val) -> Result<E, String> {
        match v {
            Val::E(e) => Ok(*e),
            _ => Err("scalar expected".into()),
        }
    }
    fn gep(&mut self, ty: &Ty, base: Val, idx: &[Val]) -> Result<E, String> {
        let mut addr = Self::e(&base)?;
        let mut t = ty.clone();
        for (k, iv) in idx.iter().enumerate() {
            let i = Self::e(iv)?;
            let stride;
            if k == 0 {
                stride = t.size();
            } else {
                match &t {
                    Ty::Struct(..) => {
                        let n = self.x.as_const(i).ok_or("symbolic struct index")? as usize;
                        let off = t.field_offset(n);
                        let c = self.x.c(off as u128, 64);
                        addr = self.x.add(addr, c);
                        let nt = t.elem(n);
                        t = nt;
                        continue;
                    }
                    Ty::Arr(_, et) | Ty::Vec(_, et) => {
                        stride = et.size();
                        let nt = (**et).clone();
                        t = nt;
                    }
                    _ => return Err(format!("gep into {:?}", t)),
                }
            }
            let w = self.x.w(i);
            let i64_ = if w < 64 {
                self.x.sext(i, 64)
            } else {
                self.x.extract(i, 0, 64)
            };
            let s = self.x.c(stride as u128, 64);
            let o = self.x.bin(B::Mul, i64_, s);
            addr = self.x.add(addr, o);
        }
        Ok(addr)
    }
    fn lanes(&mut self, v: &Val) -> Option<Rc<Vec<Val>>> {
        match v {
            Val::Agg(a) => Some(a.clone()),
            _ => None,
        }
    }
    fn binop(&mut self, op: BinOp, ty: &Ty, a: Val, b: Val) -> Result<Val, String> {
        if let (Some(x), Some(y)) = (self.lanes(&a), self.lanes(&b)) {
            let t = ty.elem(0);
            let mut o = Vec::new();
            for (p, q) in x.iter().zip(y.iter()) {
                o.push(self.binop(op, &t, p.clone(), q.clone())?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let (a, b) = (Self::e(&a)?, Self::e(&b)?);
        let o = match op {
            BinOp::Add => B::Add,
            BinOp::Sub => B::Sub,
            BinOp::Mul => B::Mul,
            BinOp::UDiv => B::UDiv,
            BinOp::URem => B::URem,
            BinOp::SDiv => B::SDiv,
            BinOp::SRem => B::SRem,
            BinOp::And => B::And,
            BinOp::Or => B::Or,
            BinOp::Xor => B::Xor,
            BinOp::Shl => B::Shl,
            BinOp::LShr => B::LShr,
            BinOp::AShr => B::AShr,
            _ => {
                let (x, y) = match (self.x.as_const(a), self.x.as_const(b)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Err("symbolic floating point".into()),
                };
                let r = match ty {
                    Ty::F32 => {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            BinOp::FAdd => x + y,
                            BinOp::FSub => x - y,
                            BinOp::FMul => x * y,
                            BinOp::FDiv => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u128
                    }
                    _ => {
                        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                        (match op {
                            BinOp::FAdd => x + y,
                            BinOp::FSub => x - y,
                            BinOp::FMul => x * y,
                            BinOp::FDiv => x / y,
                            _ => x % y,
                        })
                        .to_bits() as u128
                    }
                };
                return Ok(Val::E(self.x.c(r, ty.bits())));
            }
        };
        Ok(Val::E(self.x.bin(o, a, b)))
    }
    fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.x.eq(a, b),
            Pred::Ne => {
                let e = self.x.eq(a, b);
                self.x.not(e)
            }
            Pred::Ult => self.x.ult(a, b),
            Pred::Ule => self.x.ule(a, b),
            Pred::Ugt => self.x.ult(b, a),
            Pred::Uge => self.x.ule(b, a),
            Pred::Slt => self.x.slt(a, b),
            Pred::Sle => self.x.sle(a, b),
            Pred::Sgt => self.x.slt(b, a),
            Pred::Sge => self.x.sle(b, a),
        }
    }
    fn flatten(&mut self, ty: &Ty, v: &Val) -> Result<E, String> {
        // bit image of a scalar or vector
        match v {
            Val::E(e) => Ok(*e),
            Val::Agg(a) => {
                let t = ty.elem(0);
                let mut acc: Option<E> = None;
                for v in a.iter() {
                    let e = self.flatten(&t, v)?;
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.x.concat(e, l),
                    });
                }
                acc.ok_or("empty vector".into())
            }
            _ => Err("flatten".into()),
        }
    }
    fn unflatten(&mut self, ty: &Ty, e: E) -> Val {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut v = Vec::new();
                for i in 0..*n {
                    v.push(Val::E(self.x.extract(e, i as u32 * w, w)));
                }
                Val::Agg(Rc::new(v))
            }
            _ => Val::E(e),
        }
    }
    fn cast(&mut self, op: CastOp, from: &Ty, v: Val, to: &Ty) -> Result<Val, String> {
        if op == CastOp::BitCast {
            let e = self.flatten(from, &v)?;
            return Ok(self.unflatten(to, e));
        }
        if let Some(l) = self.lanes(&v) {
            let (f, t) = (from.elem(0), to.elem(0));
            let mut o = Vec::new();
            for p in l.iter() {
                o.push(self.cast(op, &f, p.clone(), &t)?);
            }
            return Ok(Val::Agg(Rc::new(o)));
        }
        let e = Self::e(&v)?;
        let w = to.bits();
        Ok(Val::E(match op {
            CastOp::Trunc => self.x.extract(e, 0, w),
            CastOp::ZExt => self.x.zext(e, w),
            CastOp::SExt => self.x.sext(e, w),
            CastOp::PtrToInt | CastOp::IntToPtr | CastOp::AddrSpace => {
                let ew = self.x.w(e);
                if ew > w {
                    self.x.extract(e, 0, w)
                } else {
                    self.x.zext(e, w)
                }
            }
            _ => {
                let c = self.x.as_const(e).ok_or("symbolic floating point")?;
                let r: u128 = match op {
                    CastOp::UIToFP => match to {
                        Ty::F32 => (c as f32).to_bits() as u128,
                        _ => (c as f64).to_bits() as u128,
                    },
                    CastOp::SIToFP => {
                        let s = sext_val(c, from.bits());
                        match to {
                            Ty::F32 => (s as f32).to_bits() as u128,
                            _ => (s as f64).to_bits() as u128,
                        }
                    }
                    CastOp::FPToUI => match from {
                        Ty::F32 => f32::from_bits(c as u32) as u128,
                        _ => f64::from_bits(c as u64) as u128,
                    },
                    CastOp::FPToSI => match from {
                        Ty::F32 => f32::from_bits(c as u32) as i128 as u128,
                        _ => f64::from_bits(c as u64) as i128 as u128,
                    },
                    CastOp::FPExt => (f32::from_bits(c as u32) as f64).to_bits() as u128,
                    CastOp::FPTrunc => (f64::from_bits(c as u64) as f32).to_bits() as u128,
                    _ => unreachable!(),
                };
                self.x.c(r, w)
            }
        }))
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, st: &mut State, size: u64) -> usize {
        let id = st.objs.len();
        st.objs.push(Some(Rc::new(Obj { size, bytes: vec![(UNDEF, 0); size as usize], constant: false })));
        id
    }
    fn locate(st: &State, a: u64, n: u64) -> Option<(usize, u64)> {
        let id = (a >> 32) as usize;
        if id == 0 || id > st.objs.len() {
            return None;
        }
        let o = st.objs[id - 1].as_ref()?;
        let off = a & 0xffff_ffff;
        if off + n <= o.size {
            Some((id - 1, off))
        } else {
            None
        }
    }
    /// Turns a possibly symbolic 64-bit term into a single value on this path, forking if needed.
    fn concretise(&mut self, st: &State, e: E, cap: usize) -> Result<Result<u128, Vec<State>>, String> {
        if let Some(c) = self.x.as_const(e) {
            return Ok(Ok(c));
        }
        if let Some(v) = st.conc.get(&e) {
            return Ok(Ok(*v));
        }
        let w = self.x.w(e);
        let mut out = Vec::new();
        let mut excl = self.x.t();
        let mut model = Some(st.model.clone());
        while let Some(m) = model {
            let v = self.x.eval(e, &m);
            let c = self.x.c(v, w);
            let eq = self.x.eq(e, c);
            let mut s2 = st.clone();
            s2.conc.insert(e, v);
            self.assume(&mut s2, eq, m);
            out.push(s2);
            if out.len() > cap {
                return Err(format!("more than {} values for a symbolic address or length", cap));
            }
            let ne = self.x.not(eq);
            excl = self.x.and(excl, ne);
            model = match self.s.check(&self.x, &st.pc, excl) {
                Res::Sat(m) => {
                    let mut n = (*st.model).clone();
                    for (k, v) in m.iter() {
                        n.insert(*k, *v);
                    }
                    Some(Rc::new(n))
                }
                Res::Unsat => None,
                Res::Unknown => return Err("solver returned unknown".into()),
            };
        }
        Ok(Err(out))
    }
    /// Resolves an address for an access of n bytes.
    fn resolve(&mut self, st: &mut State, addr: E, n: u64, write: bool) -> Result<Result<(usize, Result<u64, E>), Flow>, String> {
        let addr = if let Some(v) = st.conc.get(&addr) { self.x.c(*v, 64) } else { addr };
        if let Some(a) = self.x.as_const(addr) {
            let a = a as u64;
            if n == 0 {
                return Ok(Ok((usize::MAX, Ok(0))));
            }
            return match Self::locate(st, a, n) {
                Some((id, off)) => Ok(Ok((id, Ok(off)))),
                None => {
                    self.violation(st, "memory", &format!("{} of {} bytes outside every live object", if write { "write" } else { "read" }, n));
                    Ok(Err(Flow::Stop))
                }
            };
        }
        let v0 = self.x.eval(addr, &st.model) as u64;
        let id = (v0 >> 32) as usize;
        if id == 0 || id > st.objs.len() || st.objs[id - 1].is_none() {
            self.violation(st, "memory", "access through a pointer outside every live object");
            return Ok(Err(Flow::Stop));
        }
        let (osize, oconst) = {
            let o = st.objs[id - 1].as_ref().unwrap();
            (o.size, o.constant)
        };
        let base = self.x.c(base_of(id - 1) as u128, 64);
        let off = self.x.bin(B::Sub, addr, base);
        if n > osize {
            self.violation(st, "memory", "access larger than its object");
            return Ok(Err(Flow::Stop));
        }
        let lim = self.x.c((osize - n) as u128, 64);
        let oob = self.x.ult(lim, off);
        if let Some(m) = self.feasible(st, oob)? {
            let v = self.x.eval(addr, &m) as u64;
            if Self::locate(st, v, n).is_none() {
                let mut bad = st.clone();
                self.assume(&mut bad, oob, m);
                self.violation(&bad, "memory", &format!("{} of {} bytes out of bounds of its object", if write { "write" } else { "read" }, n));
                let inb = self.x.not(oob);
                match self.feasible(st, inb)? {
                    Some(m) => self.assume(st, inb, m),
                    None => return Ok(Err(Flow::Stop)),
                }
            } else {
                // several objects possible
                return match self.concretise(st, addr, 600)? {
                    Ok(_) => unreachable!(),
                    Err(v) => Ok(Err(Flow::Fork(v))),
                };
            }
        }
        if oconst && !write && osize <= 65536 {
            return Ok(Ok((id - 1, Err(off))));
        }
        match self.concretise(st, addr, 1200)? {
            Ok(v) => Ok(Ok((id - 1, Ok(v as u64 - base_of(id - 1))))),
            Err(v) => Ok(Err(Flow::Fork(v))),
        }
    }
    fn load_at(&mut self, st: &State, id: usize, off: u64, ty: &Ty) -> Val {
        let n = ty.store_size();
        let o = st.objs[id].as_ref().unwrap().clone();
        self.read_val(ty, &o.bytes[off as usize..(off + n) as usize])
    }
    fn store_at(&mut self, st: &mut State, id: usize, off: u64, ty: &Ty, v: &Val) {
        let n = ty.store_size() as usize;
        let mut tmp: Vec<Byte> = {
            let o = st.objs[id].as_ref().unwrap();
            o.bytes[off as usize..off as usize + n].to_vec()
        };
        self.write_val(ty, v, &mut tmp);
        let o = Rc::make_mut(st.objs[id].as_mut().unwrap());
        o.bytes[off as usize..off as usize + n].copy_from_slice(&tmp);
    }
    /// Load at a symbolic offset from a constant table.
    fn table_load(&mut self, st: &State, id: usize, off: E, ty: &Ty) -> Result<Val, String> {
        if !ty.is_scalar() {
            return Err("aggregate load at a symbolic offset".into());
        }
        let n = ty.store_size();
        let size = st.objs[id].as_ref().unwrap().size;
        let stride = 1u64 << self.x.tz(off).min(12);
        let mut ents: Vec<(u64, E)> = Vec::new();
        let mut o = 0;
        while o + n <= size {
            if let Val::E(e) = self.load_at(st, id, o, ty) {
                ents.push((o, e));
            }
            o += stride;
        }
        Ok(Val::E(self.table(off, &ents)))
    }
    fn table(&mut self, off: E, ents: &[(u64, E)]) -> E {
        // runs of equal values collapse; balanced tree over the remaining runs
        let mut runs: Vec<(u64, E)> = Vec::new();
        for (o, e) in ents {
            if runs.last().map(|r| r.1) != Some(*e) {
                runs.push((*o, *e));
            }
        }
        self.tree(off, &runs)
    }
    fn tree(&mut self, off: E, r: &[(u64, E)]) -> E {
        if r.len() == 1 {
            return r[0].1;
        }
        let mid = r.len() / 2;
        let a = self.tree(off, &r[..mid]);
        let b = self.tree(off, &r[mid..]);
        let k = self.x.c(r[mid].0 as u128, 64);
        let c = self.x.ult(off, k);
        self.x.ite(c, a, b)
    }

    // ---------------------------------------------------------------- control flow
    fn rpo_of(&mut self, f: usize) -> Rc<Vec<usize>> {
        if let Some(r) = &self.rpo[f] {
            return r.clone();
        }
        let func = &self.m.funcs[f];
        let n = func.blocks.len();
        let mut seen = vec![false; n];
        let mut post = Vec::new();
        let mut stk: Vec<(usize, Vec<usize>, usize)> = Vec::new();
        let succ = |b: usize| -> Vec<usize> {
            match func.blocks[b].insts.last() {
                Some(Inst::Br(t)) => vec![*t],
                Some(Inst::CondBr(_, a, c)) => vec![*a, *c],
                Some(Inst::Switch { default, cases, .. }) => {
                    let mut v: Vec<usize> = cases.iter().map(|c| c.1).collect();
                    v.push(*default);
                    v
                }
                Some(Inst::Call { normal: Some(t), .. }) => vec![*t],
                _ => vec![],
            }
        };
        seen[0] = true;
        stk.push((0, succ(0), 0));
        while let Some((b, s, i)) = stk.pop() {
            if i < s.len() {
                let t = s[i];
                stk.push((b, s, i + 1));
                if !seen[t] {
                    seen[t] = true;
                    stk.push((t, succ(t), 0));
                }
            } else {
                post.push(b);
            }
        }
        let mut num = vec![usize::MAX; n];
        for (i, b) in post.iter().rev().enumerate() {
            num[*b] = i;
        }
        let r = Rc::new(num);
        self.rpo[f] = Some(r.clone());
        r
    }
    fn enter_block(&mut self, st: &mut State, target: usize) -> Result<(), String> {
        let fi = st.frames.last().unwrap().func;
        let cur = st.frames.last().unwrap().block;
        let func = &self.m.funcs[fi];
        self.blocks_run.insert((fi, target));
        let mut vals = Vec::new();
        let mut ip = 0;
        for ins in &func.blocks[target].insts {
            if let Inst::Phi { dst, ty, inc } = ins {
                let (o, _) = inc.iter().find(|(_, b)| *b == cur).ok_or("phi without matching edge")?;
                let v = self.op(st, ty, o)?;
                vals.push((*dst, v));
                ip += 1;
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.locals[d] = v;
        }
        fr.prev = cur;
        fr.block = target;
        fr.ip = ip;
        Ok(())
    }
    fn ite_val(&mut self, c: E, a: &Val, b: &Val) -> Result<Val, String> {
        Ok(match (a, b) {
            (Val::E(p), Val::E(q)) => Val::E(self.x.ite(c, *p, *q)),
            (Val::Agg(p), Val::Agg(q)) => {
                let mut o = Vec::new();
                for (u, v) in p.iter().zip(q.iter()) {
                    o.push(self.ite_val(c, u, v)?);
                }
                Val::Agg(Rc::new(o))
            }
            _ => return Err("ite of mismatched values".into()),
        })
    }
    fn val_key(v: &Val, out: &mut Vec<E>) {
        match v {
            Val::E(e) => out.push(*e),
            Val::Agg(a) => a.iter().for_each(|v| Self::val_key(v, out)),
            Val::None => {}
        }
    }
    fn has_wide(ty: &Ty) -> bool {
        match ty {
            Ty::Ptr => true,
            Ty::Int(w) => *w == 64,
            Ty::Struct(f, _) => f.iter().any(Self::has_wide),
            Ty::Arr(_, t) | Ty::Vec(_, t) => Self::has_wide(t),
            _ => false,
        }
    }
    fn mergeable(func: &Func, b: usize) -> bool {
        for i in &func.blocks[b].insts {
            match i {
                Inst::Load { .. } | Inst::Store { .. } | Inst::Gep { .. } | Inst::Bin { .. } | Inst::ICmp { .. }
                | Inst::Cast { .. } | Inst::Select { .. } | Inst::Phi { .. } | Inst::ExtractValue { .. }
                | Inst::InsertValue { .. } | Inst::Freeze { .. } | Inst::Br(_) | Inst::CondBr(..) | Inst::Switch { .. }
                | Inst::Nop => {}
                Inst::Call { callee: Op::C(Const::Global(g)), .. } => {
                    if !(g.starts_with("llvm.") && Self::pure_intrinsic(g)) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        true
    }
    fn pure_intrinsic(g: &str) -> bool {
        ["llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.uadd", "llvm.usub", "llvm.umul", "llvm.sadd", "llvm.ssub",
         "llvm.smul", "llvm.ctpop", "llvm.cttz", "llvm.ctlz", "llvm.bswap", "llvm.fsh", "llvm.lifetime", "llvm.assume",
         "llvm.experimental.noalias", "llvm.ucmp", "llvm.scmp", "llvm.abs", "llvm.expect", "llvm.bitreverse", "llvm.dbg"]
            .iter()
            .any(|p| g.starts_with(p))
    }

    /// Takes a multi-way branch whose edge conditions are not all decided.
    fn branch(&mut self, st: &mut State, edges: Vec<(E, usize)>) -> Result<Flow, String> {
        let edges: Vec<(E, usize)> = edges.into_iter().filter(|(g, _)| self.x.as_const(*g) != Some(0)).collect();
        if edges.len() == 1 {
            self.enter_block(st, edges[0].1)?;
            return Ok(Flow::Next);
        }
        // two-way: drop an infeasible side first
        if edges.len() == 2 {
            let a = self.feasible(st, edges[0].0)?;
            if a.is_none() {
                self.enter_block(st, edges[1].1)?;
                return Ok(Flow::Next);
            }
            let b = self.feasible(st, edges[1].0)?;
            if b.is_none() {
                self.enter_block(st, edges[0].1)?;
                return Ok(Flow::Next);
            }
            if self.no_merge {
                let mut out = Vec::new();
                for (i, m) in [a, b].into_iter().enumerate() {
                    let mut s2 = st.clone();
                    self.assume(&mut s2, edges[i].0, m.unwrap());
                    self.enter_block(&mut s2, edges[i].1)?;
                    out.push(s2);
                }
                return Ok(Flow::Fork(out));
            }
        }
        let fi = st.frames.last().unwrap().func;
        let cur = st.frames.last().unwrap().block;
        let rpo = self.rpo_of(fi);
        let func = &self.m.funcs[fi];
        // block -> incoming (pred, guard)
        let mut pending: BTreeMap<usize, (usize, Vec<(usize, E)>)> = BTreeMap::new();
        let mut exits: Vec<(usize, Vec<(usize, E)>)> = Vec::new();
        let start = rpo[cur];
        let add = |pending: &mut BTreeMap<usize, (usize, Vec<(usize, E)>)>, exits: &mut Vec<(usize, Vec<(usize, E)>)>, from_rpo: usize, pred: usize, t: usize, g: E, x: &mut Ctx| {
            if x.as_const(g) == Some(0) {
                return;
            }
            let list = if rpo[t] <= from_rpo || rpo[t] <= start || rpo[t] == usize::MAX {
                // back edge: leaves the region
                match exits.iter_mut().find(|e| e.0 == t) {
                    Some(e) => &mut e.1,
                    None => {
                        exits.push((t, Vec::new()));
                        &mut exits.last_mut().unwrap().1
                    }
                }
            } else {
                &mut pending.entry(rpo[t]).or_insert((t, Vec::new())).1
            };
            match list.iter_mut().find(|(p, _)| *p == pred) {
                Some(e) => e.1 = x.or(e.1, g),
                None => list.push((pred, g)),
            }
        };
        for (g, t) in &edges {
            add(&mut pending, &mut exits, start, cur, *t, *g, &mut self.x);
        }
        let mut absorbed = 0;
        while let Some((&k, _)) = pending.iter().next() {
            if pending.len() == 1 && exits.is_empty() {
                let (_, (b, inc)) = pending.pop_first().unwrap();
                exits.push((b, inc));
                break;
            }
            let (b, inc) = pending.remove(&k).unwrap();
            let ok = absorbed < 96 && !self.no_merge && Self::mergeable(func, b) && self.absorb(st, fi, b, &inc)?;
            if !ok {
                exits.push((b, inc));
                continue;
            }
            absorbed += 1;
            // successors
            let mut guard = self.x.f();
            for (_, g) in &inc {
                guard = self.x.or(guard, *g);
            }
            self.blocks_run.insert((fi, b));
            let outs = self.edges_of(st, fi, b)?;
            for (c, t) in outs {
                let g = self.x.and(guard, c);
                add(&mut pending, &mut exits, k, b, t, g, &mut self.x);
            }
        }
        if absorbed > 0 {
            self.merges += 1;
        }
        // leave the region
        let mut out: Vec<State> = Vec::new();
        let single_exit = exits.len() == 1;
        for (b, inc) in exits {
            // group incoming edges by their wide phi inputs
            let mut groups: Vec<(Vec<E>, E, Vec<(usize, Val)>)> = Vec::new();
            for (pred, g) in &inc {
                let mut key = Vec::new();
                let mut vals = Vec::new();
                for ins in &func.blocks[b].insts {
                    if let Inst::Phi { dst, ty, inc: pin } = ins {
                        let (o, _) = pin.iter().find(|(_, p)| p == pred).ok_or("phi without matching edge")?;
                        let v = self.op(st, ty, o)?;
                        if Self::has_wide(ty) {
                            Self::val_key(&v, &mut key);
                        }
                        vals.push((*dst, v));
                    } else {
                        break;
                    }
                }
                match groups.iter_mut().find(|gr| gr.0 == key) {
                    Some(gr) => {
                        let old = gr.2.clone();
                        let mut nv = Vec::new();
                        for ((d, ov), (_, v)) in old.iter().zip(vals.iter()) {
                            nv.push((*d, self.ite_val(*g, v, ov)?));
                        }
                        gr.2 = nv;
                        gr.1 = self.x.or(gr.1, *g);
                    }
                    None => groups.push((key, *g, vals)),
                }
            }
            let single = single_exit && groups.len() == 1;
            for (_, g, vals) in groups {
                let m = if single { Some(st.model.clone()) } else { self.feasible(st, g)? };
                if let Some(m) = m {
                    let mut s2 = st.clone();
                    if !single {
                        self.assume(&mut s2, g, m);
                    }
                    let nphi = vals.len();
                    self.blocks_run.insert((fi, b));
                    let fr = s2.frames.last_mut().unwrap();
                    for (d, v) in vals {
                        fr.locals[d] = v;
                    }
                    fr.prev = fr.block;
                    fr.block = b;
                    fr.ip = nphi;
                    out.push(s2);
                }
            }
        }
        if out.len() == 1 {
            *st = out.pop().unwrap();
            return Ok(Flow::Next);
        }
        if out.is_empty() {
            return Err("no feasible exit from a region".into());
        }
        Ok(Flow::Fork(out))
    }
    fn edges_of(&mut self, st: &State, fi: usize, b: usize) -> Result<Vec<(E, usize)>, String> {
        let m = self.m;
        match m.funcs[fi].blocks[b].insts.last() {
            Some(Inst::Br(t)) => Ok(vec![(self.x.t(), *t)]),
            Some(Inst::CondBr(c, a, d)) => {
                let c = self.ope(st, &Ty::Int(1), c)?;
                let n = self.x.not(c);
                if a == d {
                    return Ok(vec![(self.x.t(), *a)]);
                }
                Ok(vec![(c, *a), (n, *d)])
            }
            Some(Inst::Switch { ty, v, default, cases }) => {
                let e = self.ope(st, ty, v)?;
                let w = self.x.w(e);
                let mut out: Vec<(E, usize)> = Vec::new();
                let mut none = self.x.t();
                for (k, t) in cases {
                    let c = self.x.c(*k, w);
                    let q = self.x.eq(e, c);
                    let nq = self.x.not(q);
                    none = self.x.and(none, nq);
                    match out.iter_mut().find(|o| o.1 == *t) {
                        Some(o) => o.0 = self.x.or(o.0, q),
                        None => out.push((q, *t)),
                    }
                }
                match out.iter_mut().find(|o| o.1 == *default) {
                    Some(o) => o.0 = self.x.or(o.0, none),
                    None => out.push((none, *default)),
                }
                Ok(out)
            }
            _ => Err("edges".into()),
        }
    }
    /// Executes block b speculatively under the guard of its incoming edges.
    fn absorb(&mut self, st: &mut State, fi: usize, b: usize, inc: &[(usize, E)]) -> Result<bool, String> {
        let m = self.m;
        let func = &m.funcs[fi];
        let mut guard = self.x.f();
        for (_, g) in inc {
            guard = self.x.or(guard, *g);
        }
        let mut new_locals: Vec<(usize, Val)> = Vec::new();
        // phis read old locals
        let mut ip = 0;
        for ins in &func.blocks[b].insts {
            if let Inst::Phi { dst, ty, inc: pin } = ins {
                let mut acc: Option<Val> = None;
                for (pred, g) in inc {
                    let (o, _) = pin.iter().find(|(_, p)| p == pred).ok_or("phi without matching edge")?;
                    let v = self.op(st, ty, o)?;
                    acc = Some(match acc {
                        None => v,
                        Some(a) => {
                            if Self::has_wide(ty) {
                                let (mut k1, mut k2) = (vec![], vec![]);
                                Self::val_key(&a, &mut k1);
                                Self::val_key(&v, &mut k2);
                                if k1 != k2 {
                                    return Ok(false);
                                }
                                a
                            } else {
                                self.ite_val(*g, &v, &a)?
                            }
                        }
                    });
                }
                new_locals.push((*dst, acc.ok_or("phi")?));
                ip += 1;
            } else {
                break;
            }
        }
        for (d, v) in new_locals {
            st.frames.last_mut().unwrap().locals[d] = v;
        }
        let mut undo: Vec<(usize, Rc<Obj>)> = Vec::new();
        let mut ok = true;
        for ins in &func.blocks[b].insts[ip..] {
            match ins {
                Inst::Br(_) | Inst::CondBr(..) | Inst::Switch { .. } | Inst::Nop => {}
                Inst::Load { dst, ty, ptr } => {
                    let a = self.ope(st, &Ty::Ptr, ptr)?;
                    let a = if let Some(v) = st.conc.get(&a) { self.x.c(*v, 64) } else { a };
                    match self.x.as_const(a) {
                        Some(a) => match Self::locate(st, a as u64, ty.store_size()) {
                            Some((id, off)) => {
                                let v = self.load_at(st, id, off, ty);
                                st.frames.last_mut().unwrap().locals[*dst] = v;
                            }
                            None => {
                                ok = false;
                                break;
                            }
                        },
                        None => {
                            // table lookup that is in bounds whenever this block runs
                            let v0 = self.x.eval(a, &st.model) as u64;
                            let mut done = false;
                            if let Some(gm) = self.feasible(st, guard)? {
                                let v0 = if self.x.eval(guard, &st.model) == 1 { v0 } else { self.x.eval(a, &gm) as u64 };
                                if let Some((id, _)) = Self::locate(st, v0, ty.store_size()) {
                                    let o = st.objs[id].as_ref().unwrap();
                                    if o.constant && ty.is_scalar() && o.size <= 65536 {
                                        let lim = o.size - ty.store_size();
                                        let base = self.x.c(base_of(id) as u128, 64);
                                        let off = self.x.bin(B::Sub, a, base);
                                        let lim = self.x.c(lim as u128, 64);
                                        let oob = self.x.ult(lim, off);
                                        let q = self.x.and(guard, oob);
                                        if self.feasible(st, q)?.is_none() {
                                            let v = self.table_load(st, id, off, ty)?;
                                            st.frames.last_mut().unwrap().locals[*dst] = v;
                                            done = true;
                                        }
                                    }
                                }
                            }
                            if !done {
                                ok = false;
                                break;
                            }
                        }
                    }
                }
                Inst::Store { ty, val, ptr } => {
                    let a = self.ope(st, &Ty::Ptr, ptr)?;
                    let v = self.op(st, ty, val)?;
                    let loc = self.x.as_const(a).and_then(|a| Self::locate(st, a as u64, ty.store_size()));
                    match loc {
                        Some((id, off)) if !st.objs[id].as_ref().unwrap().constant => {
                            let range = off as usize..(off + ty.store_size()) as usize;
                            let old_bytes: Vec<Byte> = st.objs[id].as_ref().unwrap().bytes[range].to_vec();
                            let undef = old_bytes.iter().filter(|b| b.0 == UNDEF).count();
                            if undef == old_bytes.len() {
                                // nothing there yet: whoever reads it runs under this guard
                                undo.push((id, st.objs[id].as_ref().unwrap().clone()));
                                self.store_at(st, id, off, ty, &v);
                            } else if undef > 0 {
                                // some of it was written under another guard: that part is merged
                                if Self::has_wide(ty) || !ty.is_scalar() {
                                    ok = false;
                                    break;
                                }
                                let mut mixed = vec![(UNDEF, 0u8); old_bytes.len()];
                                self.write_val(ty, &v, &mut mixed);
                                for (m, o) in mixed.iter_mut().zip(old_bytes.iter()) {
                                    if o.0 != UNDEF {
                                        *m = *o;
                                    }
                                }
                                let old = self.read_val(ty, &mixed);
                                let nv = self.ite_val(guard, &v, &old)?;
                                undo.push((id, st.objs[id].as_ref().unwrap().clone()));
                                self.store_at(st, id, off, ty, &nv);
                            } else {
                                let old = self.load_at(st, id, off, ty);
                                if Self::has_wide(ty) {
                                    let (mut k1, mut k2) = (vec![], vec![]);
                                    Self::val_key(&old, &mut k1);
                                    Self::val_key(&v, &mut k2);
                                    if k1 != k2 {
                                        ok = false;
                                        break;
                                    }
                                }
                                let nv = self.ite_val(guard, &v, &old)?;
                                undo.push((id, st.objs[id].as_ref().unwrap().clone()));
                                self.store_at(st, id, off, ty, &nv);
                            }
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                _ => match self.simple(st, ins)? {
                    true => {}
                    false => {
                        ok = false;
                        break;
                    }
                },
            }
            self.insts += 1;
        }
        if !ok {
            for (id, o) in undo.into_iter().rev() {
                st.objs[id] = Some(o);
            }
        }
        Ok(ok)
    }

    /// Instructions without control flow or memory effects.  Ok(false): not one of them.
    fn simple(&mut self, st: &mut State, ins: &Inst) -> Result<bool, String> {
        let (dst, v) = match ins {
            Inst::Gep { dst, ty, base, idx } => {
                let b = self.op(st, &Ty::Ptr, base)?;
                let mut ix = Vec::with_capacity(idx.len());
                for (t, o) in idx {
                    ix.push(self.op(st, t, o)?);
                }
                (*dst, Val::E(self.gep(ty, b, &ix)?))
            }
            Inst::Bin { dst, op, ty, a, b } => {
                let a = self.op(st, ty, a)?;
                let b = self.op(st, ty, b)?;
                (*dst, self.binop(*op, ty, a, b)?)
            }
            Inst::ICmp { dst, pred, ty, a, b } => {
                let a = self.op(st, ty, a)?;
                let b = self.op(st, ty, b)?;
                match (&a, &b) {
                    (Val::Agg(p), Val::Agg(q)) => {
                        let mut o = Vec::new();
                        for (u, v) in p.iter().zip(q.iter()) {
                            o.push(Val::E(self.icmp(*pred, Self::e(u)?, Self::e(v)?)));
                        }
                        (*dst, Val::Agg(Rc::new(o)))
                    }
                    _ => (*dst, Val::E(self.icmp(*pred, Self::e(&a)?, Self::e(&b)?))),
                }
            }
            Inst::Cast { dst, op, from, v, to } => {
                let v = self.op(st, from, v)?;
                (*dst, self.cast(*op, from, v, to)?)
            }
            Inst::Select { dst, cty, c, ty, a, b } => {
                let c = self.op(st, cty, c)?;
                let a = self.op(st, ty, a)?;
                let b = self.op(st, ty, b)?;
                let r = match c {
                    Val::E(c) => self.ite_val(c, &a, &b)?,
                    Val::Agg(cs) => match (&a, &b) {
                        (Val::Agg(p), Val::Agg(q)) => {
                            let mut o = Vec::new();
                            for i in 0..cs.len() {
                                o.push(self.ite_val(Self::e(&cs[i])?, &p[i], &q[i])?);
                            }
                            Val::Agg(Rc::new(o))
                        }
                        _ => return Err("vector select".into()),
                    },
                    Val::None => return Err("select".into()),
                };
                (*dst, r)
            }
            Inst::ExtractValue { dst, ty, v, idx } => {
                let mut v = self.op(st, ty, v)?;
                for i in idx {
                    v = match v {
                        Val::Agg(a) => a[*i].clone(),
                        _ => return Err("extractvalue".into()),
                    };
                }
                (*dst, v)
            }
            Inst::InsertValue { dst, ty, v, ety, e, idx } => {
                let v = self.op(st, ty, v)?;
                let e = self.op(st, ety, e)?;
                (*dst, Self::insert(&v, &e, idx)?)
            }
            Inst::ExtractElement { dst, ty, v, ity, i } => {
                let v = self.op(st, ty, v)?;
                let i = self.ope(st, ity, i)?;
                let i = self.x.as_const(i).ok_or("symbolic lane")? as usize;
                match v {
                    Val::Agg(a) => (*dst, a.get(i).cloned().ok_or("lane")?),
                    _ => return Err("extractelement".into()),
                }
            }
            Inst::InsertElement { dst, ty, v, ety, e, ity, i } => {
                let v = self.op(st, ty, v)?;
                let e = self.op(st, ety, e)?;
                let i = self.ope(st, ity, i)?;
                let i = self.x.as_const(i).ok_or("symbolic lane")? as usize;
                (*dst, Self::insert(&v, &e, &[i])?)
            }
            Inst::ShuffleVector { dst, ty, a, b, mask } => {
                let a = self.op(st, ty, a)?;
                let b = self.op(st, ty, b)?;
                let (a, b) = match (a, b) {
                    (Val::Agg(a), Val::Agg(b)) => (a, b),
                    _ => return Err("shuffle".into()),
                };
                let n = a.len() as i64;
                let z = self.zero_val(&ty.elem(0));
                let o = mask
                    .iter()
                    .map(|k| {
                        if *k < 0 {
                            z.clone()
                        } else if *k < n {
                            a[*k as usize].clone()
                        } else {
                            b[(*k - n) as usize].clone()
                        }
                    })
                    .collect();
                (*dst, Val::Agg(Rc::new(o)))
            }
            Inst::Freeze { dst, ty, v } => (*dst, self.op(st, ty, v)?),
            Inst::FNeg { dst, ty, v } => {
                let e = self.ope(st, ty, v)?;
                let w = ty.bits();
                let k = self.x.c(1u128 << (w - 1), w);
                (*dst, Val::E(self.x.bin(B::Xor, e, k)))
            }
            Inst::FCmp { dst, pred, ty, a, b } => {
                let a = self.ope(st, ty, a)?;
                let b = self.ope(st, ty, b)?;
                let (a, b) = match (self.x.as_const(a), self.x.as_const(b)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Err("symbolic floating point".into()),
                };
                let (x, y) = match ty {
                    Ty::F32 => (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64),
                    _ => (f64::from_bits(a as u64), f64::from_bits(b as u64)),
                };
                let un = x.is_nan() || y.is_nan();
                let r = match &**pred {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                (*dst, Val::E(self.x.c(r as u128, 1)))
            }
            Inst::Call { dst, ret, callee: Op::C(Const::Global(g)), args, .. } if g.starts_with("llvm.") && Self::pure_intrinsic(g) => {
                let mut a = Vec::new();
                for (t, o) in args {
                    if *t == Ty::Other {
                        a.push(Val::None);
                    } else {
                        a.push(self.op(st, t, o)?);
                    }
                }
                let v = self.intrinsic_pure(g, ret, &a)?;
                match (dst, v) {
                    (Some(d), Some(v)) => (*d, v),
                    _ => return Ok(true),
                }
            }
            _ => return Ok(false),
        };
        st.frames.last_mut().unwrap().locals[dst] = v;
        Ok(true)
    }
    fn insert(v: &Val, e: &Val, idx: &[usize]) -> Result<Val, String> {
        if idx.is_empty() {
            return Ok(e.clone());
        }
        match v {
            Val::Agg(a) => {
                let mut n = (**a).clone();
                n[idx[0]] = Self::insert(&n[idx[0]], e, &idx[1..])?;
                Ok(Val::Agg(Rc::new(n)))
            }
            _ => Err("insertvalue".into()),
        }
    }
    fn intrinsic_pure(&mut self, g: &str, ret: &Ty, a: &[Val]) -> Result<Option<Val>, String> {
        if let Some(Val::Agg(_)) = a.first() {
            if let Ty::Vec(n, t) = ret {
                let mut out = Vec::new();
                for i in 0..*n as usize {
                    let la: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::Agg(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    out.push(self.intrinsic_pure(g, t, &la)?.ok_or("lane intrinsic")?);
                }
                return Ok(Some(Val::Agg(Rc::new(out))));
            }
            return Err(format!("vector intrinsic {}", g));
        }
        let arg = |i: usize| -> Result<E, String> { a.get(i).ok_or("arg".to_string()).and_then(Self::e) };
        let name = &g[5..];
        let x = &mut self.x;
        macro_rules! pick {
            ($c:expr, $p:expr, $q:expr) => {{
                let c = $c;
                x.ite(c, $p, $q)
            }};
        }
        let r = if name.starts_with("umin") {
            let (p, q) = (arg(0)?, arg(1)?);
            pick!(x.ult(p, q), p, q)
        } else if name.starts_with("umax") {
            let (p, q) = (arg(0)?, arg(1)?);
            pick!(x.ult(p, q), q, p)
        } else if name.starts_with("smin") {
            let (p, q) = (arg(0)?, arg(1)?);
            pick!(x.slt(p, q), p, q)
        } else if name.starts_with("smax") {
            let (p, q) = (arg(0)?, arg(1)?);
            pick!(x.slt(p, q), q, p)
        } else if name.starts_with("abs") {
            let p = arg(0)?;
            let w = x.w(p);
            let z = x.c(0, w);
            let n = x.bin(B::Sub, z, p);
            let c = x.slt(p, z);
            x.ite(c, n, p)
        } else if name.contains("with.overflow") {
            let (p, q) = (arg(0)?, arg(1)?);
            let w = x.w(p);
            let (op, sg) = match &name[..4] {
                "uadd" => (B::Add, false),
                "usub" => (B::Sub, false),
                "umul" => (B::Mul, false),
                "sadd" => (B::Add, true),
                "ssub" => (B::Sub, true),
                _ => (B::Mul, true),
            };
            let r = x.bin(op, p, q);
            let fits = match op {
                B::Add => x.hi(p).checked_add(x.hi(q)),
                B::Mul => x.hi(p).checked_mul(x.hi(q)),
                _ => None,
            };
            let ov = if fits.is_some_and(|h| h <= mask(w - sg as u32)) {
                // decided by the bounds of the operands
                x.f()
            } else if !sg {
                match op {
                    B::Add => x.ult(r, p),
                    B::Sub => x.ult(p, q),
                    _ => {
                        let w2 = (2 * w).min(128);
                        if w > 64 {
                            return Err("wide umul.with.overflow".into());
                        }
                        let a = x.zext(p, w2);
                        let b = x.zext(q, w2);
                        let m = x.bin(B::Mul, a, b);
                        let h = x.extract(m, w, w2 - w);
                        let z = x.c(0, w2 - w);
                        let e = x.eq(h, z);
                        x.not(e)
                    }
                }
            } else {
                if w > 64 {
                    return Err("wide signed overflow".into());
                }
                let w2 = 2 * w;
                let a = x.sext(p, w2);
                let b = x.sext(q, w2);
                let m = x.bin(op, a, b);
                let rs = x.sext(r, w2);
                let e = x.eq(m, rs);
                x.not(e)
            };
            return Ok(Some(Val::Agg(Rc::new(vec![Val::E(r), Val::E(ov)]))));
        } else if name.starts_with("uadd.sat") {
            let (p, q) = (arg(0)?, arg(1)?);
            let w = x.w(p);
            let r = x.add(p, q);
            let c = x.ult(r, p);
            let m = x.c(mask(w), w);
            x.ite(c, m, r)
        } else if name.starts_with("usub.sat") {
            let (p, q) = (arg(0)?, arg(1)?);
            let w = x.w(p);
            let r = x.bin(B::Sub, p, q);
            let c = x.ult(p, q);
            let m = x.c(0, w);
            x.ite(c, m, r)
        } else if name.starts_with("ctpop") {
            let p = arg(0)?;
            let w = x.w(p);
            let mut s = x.c(0, w);
            for i in 0..w {
                let b = x.extract(p, i, 1);
                let z = x.zext(b, w);
                s = x.add(s, z);
            }
            s
        } else if name.starts_with("cttz") {
            let p = arg(0)?;
            let w = x.w(p);
            let mut r = x.c(w as u128, w);
            for i in (0..w).rev() {
                let b = x.extract(p, i, 1);
                let k = x.c(i as u128, w);
                r = x.ite(b, k, r);
            }
            r
        } else if name.starts_with("ctlz") {
            let p = arg(0)?;
            let w = x.w(p);
            let mut r = x.c(w as u128, w);
            for i in 0..w {
                let b = x.extract(p, i, 1);
                let k = x.c((w - 1 - i) as u128, w);
                r = x.ite(b, k, r);
            }
            r
        } else if name.starts_with("bswap") {
            let p = arg(0)?;
            let w = x.w(p);
            let mut r = x.extract(p, 0, 8);
            for i in 1..w / 8 {
                let b = x.extract(p, 8 * i, 8);
                r = x.concat(r, b);
            }
            r
        } else if name.starts_with("bitreverse") {
            let p = arg(0)?;
            let w = x.w(p);
            let mut r = x.extract(p, 0, 1);
            for i in 1..w {
                let b = x.extract(p, i, 1);
                r = x.concat(r, b);
            }
            r
        } else if name.starts_with("fshl") || name.starts_with("fshr") {
            let (p, q, s) = (arg(0)?, arg(1)?, arg(2)?);
            let w = x.w(p);
            let k = x.as_const(s).ok_or("symbolic funnel shift")? as u32 % w;
            let c = x.concat(p, q);
            if name.starts_with("fshl") {
                x.extract(c, w - k, w)
            } else {
                x.extract(c, k, w)
            }
        } else if name.starts_with("ucmp") || name.starts_with("scmp") {
            let (p, q) = (arg(0)?, arg(1)?);
            let w = ret.bits();
            let lt = if name.starts_with('u') { x.ult(p, q) } else { x.slt(p, q) };
            let e = x.eq(p, q);
            let m1 = x.c(mask(w), w);
            let z = x.c(0, w);
            let o = x.c(1, w);
            let r = x.ite(e, z, o);
            x.ite(lt, m1, r)
        } else if name.starts_with("expect") {
            arg(0)?
        } else if name.starts_with("lifetime") || name.starts_with("assume") || name.starts_with("experimental.noalias") || name.starts_with("dbg") {
            return Ok(None);
        } else {
            return Err(format!("intrinsic {}", g));
        };
        Ok(Some(Val::E(r)))
    }

    // ---------------------------------------------------------------- stepping
    fn step(&mut self, st: &mut State) -> Result<Flow, String> {
        let m = self.m;
        let (fi, bi, ip) = {
            let f = st.frames.last().unwrap();
            (f.func, f.block, f.ip)
        };
        let ins = m.funcs[fi].blocks[bi].insts.get(ip).ok_or("fell off a block")?;
        self.insts += 1;
        st.steps += 1;
        if st.steps > self.max_steps {
            self.violation(st, "steps", "path exceeded the step limit");
            return Ok(Flow::Stop);
        }
        if self.simple(st, ins)? {
            st.frames.last_mut().unwrap().ip += 1;
            return Ok(Flow::Next);
        }
        match ins {
            Inst::Nop => {}
            Inst::Phi { .. } => return Err("stray phi".into()),
            Inst::Alloca { dst, ty, count, .. } => {
                let mut n = ty.size();
                if let Some((t, o)) = count {
                    let e = self.ope(st, t, o)?;
                    n *= self.x.as_const(e).ok_or("symbolic alloca")? as u64;
                }
                let id = self.alloc(st, n);
                let a = self.x.c(base_of(id) as u128, 64);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(id);
                fr.locals[*dst] = Val::E(a);
            }
            Inst::Load { dst, ty, ptr } => {
                let a = self.ope(st, &Ty::Ptr, ptr)?;
                match self.resolve(st, a, ty.store_size(), false)? {
                    Err(f) => return Ok(f),
                    Ok((id, off)) => {
                        let v = match off {
                            Ok(o) => self.load_at(st, id, o, ty),
                            Err(e) => self.table_load(st, id, e, ty)?,
                        };
                        st.frames.last_mut().unwrap().locals[*dst] = v;
                    }
                }
            }
            Inst::Store { ty, val, ptr } => {
                let a = self.ope(st, &Ty::Ptr, ptr)?;
                let v = self.op(st, ty, val)?;
                match self.resolve(st, a, ty.store_size(), true)? {
                    Err(f) => return Ok(f),
                    Ok((id, Ok(off))) => {
                        if st.objs[id].as_ref().unwrap().constant {
                            self.violation(st, "memory", "write to constant data");
                            return Ok(Flow::Stop);
                        }
                        self.store_at(st, id, off, ty, &v)
                    }
                    Ok(_) => return Err("symbolic store".into()),
                }
            }
            Inst::Br(t) => {
                self.enter_block(st, *t)?;
                return Ok(Flow::Next);
            }
            Inst::CondBr(..) | Inst::Switch { .. } => {
                let e = self.edges_of(st, fi, bi)?;
                return self.branch(st, e);
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((t, o)) => Some(self.op(st, t, o)?),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.objs[a] = None;
                }
                if st.frames.is_empty() {
                    self.end_path(st);
                    return Ok(Flow::Stop);
                }
                if let (Some(d), Some(v)) = (fr.ret_dst, v) {
                    st.frames.last_mut().unwrap().locals[d] = v;
                }
                if let Some(t) = fr.normal {
                    self.enter_block(st, t)?;
                } else {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                return Ok(Flow::Next);
            }
            Inst::Unreachable => {
                self.violation(st, "unreachable", "code marked unreachable was reached");
                return Ok(Flow::Stop);
            }
            Inst::Call { dst, ret, callee, args, normal } => return self.call(st, *dst, ret, callee, args, *normal),
            Inst::Unsupported(s) => return Err(format!("unsupported instruction: {}", s)),
            _ => return Err("instruction".into()),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(Flow::Next)
    }

    fn advance(&mut self, st: &mut State, dst: Option<usize>, v: Option<Val>, normal: Option<usize>) -> Result<Flow, String> {
        if let (Some(d), Some(v)) = (dst, v) {
            st.frames.last_mut().unwrap().locals[d] = v;
        }
        if let Some(t) = normal {
            self.enter_block(st, t)?;
        } else {
            st.frames.last_mut().unwrap().ip += 1;
        }
        Ok(Flow::Next)
    }
    fn input(&mut self, st: &mut State, w: u32) -> E {
        if let Some(c) = &self.concrete {
            let v = c.get(st.inputs.len()).copied().unwrap_or(0);
            let e = self.x.c(v, w);
            st.inputs.push((e, w));
            return e;
        }
        let e = self.x.var(w);
        self.vars_made += 1;
        st.inputs.push((e, w));
        e
    }
    fn read_cstr(&mut self, st: &State, p: E, n: E) -> String {
        let (p, n) = match (self.x.as_const(p), self.x.as_const(n)) {
            (Some(p), Some(n)) => (p as u64, n as u64),
            _ => return "?".into(),
        };
        if let Some((id, off)) = Self::locate(st, p, n) {
            let o = st.objs[id].as_ref().unwrap().clone();
            let mut s = Vec::new();
            for i in 0..n {
                let b = o.bytes[(off + i) as usize];
                let e = self.byte_expr(b);
                s.push(self.x.as_const(e).unwrap_or(b'?' as u128) as u8);
            }
            return String::from_utf8_lossy(&s).into_owned();
        }
        "?".into()
    }
    /// n consecutive bytes at a concretised address.
    fn bytes_at(&mut self, st: &mut State, p: E, n: u64, write: bool) -> Result<Result<(usize, u64), Flow>, String> {
        match self.concretise(st, p, 600)? {
            Err(v) => Ok(Err(Flow::Fork(v))),
            Ok(a) => {
                if n == 0 {
                    return Ok(Ok((usize::MAX, 0)));
                }
                match Self::locate(st, a as u64, n) {
                    Some((id, off)) => {
                        if write && st.objs[id].as_ref().unwrap().constant {
                            self.violation(st, "memory", "write to constant data");
                            return Ok(Err(Flow::Stop));
                        }
                        Ok(Ok((id, off)))
                    }
                    None => {
                        self.violation(st, "memory", &format!("{} of {} bytes out of bounds", if write { "write" } else { "read" }, n));
                        Ok(Err(Flow::Stop))
                    }
                }
            }
        }
    }

    fn call(&mut self, st: &mut State, dst: Option<usize>, ret: &Ty, callee: &Op, args: &[(Ty, Op)], normal: Option<usize>) -> Result<Flow, String> {
        let mut a = Vec::with_capacity(args.len());
        for (t, o) in args {
            if *t == Ty::Other {
                a.push(Val::None);
            } else {
                a.push(self.op(st, t, o)?);
            }
        }
        let fi = match callee {
            Op::C(Const::Global(g)) => *self.fmap.get(g).ok_or(format!("call to unknown {}", g))?,
            _ => {
                let e = self.ope(st, &Ty::Ptr, callee)?;
                let v = match self.concretise(st, e, 64)? {
                    Ok(v) => v as u64,
                    Err(v) => return Ok(Flow::Fork(v)),
                };
                if v < FBASE || (v - FBASE) % 16 != 0 || ((v - FBASE) / 16) as usize >= self.m.funcs.len() {
                    self.violation(st, "memory", "call through an invalid function pointer");
                    return Ok(Flow::Stop);
                }
                ((v - FBASE) / 16) as usize
            }
        };
        let m = self.m;
        let f = &m.funcs[fi];
        if !f.is_decl {
            if st.frames.len() > 200 {
                return Err("call depth".into());
            }
            self.push_frame(st, fi, &a, dst, normal);
            return Ok(Flow::Next);
        }
        let name: &str = &f.name;
        macro_rules! e {
            ($i:expr) => {
                Self::e(a.get($i).ok_or("missing argument")?)?
            };
        }
        match name {
            "vp_panic" => {
                let n = st.frames.len();
                let _ = n;
                self.violation(st, "panic", "panic");
                Ok(Flow::Stop)
            }
            "vp_u8" | "vp_u16" | "vp_u32" | "vp_u64" => {
                let w: u32 = name[4..].parse().unwrap();
                let e = self.input(st, w);
                self.advance(st, dst, Some(Val::E(e)), normal)
            }
            "vp_any" => {
                let (p, n) = (e!(0), e!(1));
                let n = self.x.as_const(n).ok_or("symbolic length in vp_any")? as u64;
                match self.bytes_at(st, p, n, true)? {
                    Err(f) => Ok(f),
                    Ok((id, off)) => {
                        for i in 0..n {
                            let v = self.input(st, 8);
                            self.store_at(st, id, off + i, &Ty::Int(8), &Val::E(v));
                        }
                        self.advance(st, dst, None, normal)
                    }
                }
            }
            "vp_buf" => {
                let n = e!(0);
                match self.concretise(st, n, 600)? {
                    Err(v) => Ok(Flow::Fork(v)),
                    Ok(n) => {
                        let id = self.alloc(st, n as u64);
                        let z = self.x.c(0, 8);
                        for b in Rc::make_mut(st.objs[id].as_mut().unwrap()).bytes.iter_mut() {
                            *b = (z, 0);
                        }
                        let p = self.x.c(base_of(id) as u128, 64);
                        self.advance(st, dst, Some(Val::E(p)), normal)
                    }
                }
            }
            "vp_choose" => {
                let n = e!(0);
                let n = self.x.as_const(n).ok_or("symbolic bound in vp_choose")? as u32;
                if self.concrete.is_some() {
                    let e = self.input(st, 32);
                    return self.advance(st, dst, Some(Val::E(e)), normal);
                }
                let v = self.input(st, 32);
                let mut out = Vec::new();
                for i in (0..n).rev() {
                    let mut s2 = st.clone();
                    let c = self.x.c(i as u128, 32);
                    let eq = self.x.eq(v, c);
                    if let Some(md) = self.feasible(&s2, eq)? {
                        self.assume(&mut s2, eq, md);
                        self.advance(&mut s2, dst, Some(Val::E(c)), normal)?;
                        out.push(s2);
                    }
                }
                Ok(Flow::Fork(out))
            }
            "vp_conc" => {
                // case split: every feasible value of the argument becomes a path of its own
                let v = e!(0);
                match self.concretise(st, v, 70000)? {
                    Err(f) => Ok(Flow::Fork(f)),
                    Ok(k) => {
                        let w = self.x.w(v);
                        let c = self.x.c(k, w);
                        self.advance(st, dst, Some(Val::E(c)), normal)
                    }
                }
            }
            "vp_param" => {
                let i = self.x.as_const(e!(0)).ok_or("vp_param")? as usize;
                let v = *self.params.get(i).ok_or("missing --param")?;
                let c = self.x.c(v as u128, 32);
                self.advance(st, dst, Some(Val::E(c)), normal)
            }
            "vp_assume" => {
                let c = e!(0);
                match self.feasible(st, c)? {
                    None => {
                        self.infeasible += 1;
                        Ok(Flow::Stop)
                    }
                    Some(md) => {
                        self.assume(st, c, md);
                        self.advance(st, dst, None, normal)
                    }
                }
            }
            "vp_assert" => {
                let (c, p, n) = (e!(0), e!(1), e!(2));
                let msg = self.read_cstr(st, p, n);
                let ent = self.asserts.entry(msg.clone()).or_insert((0, 0));
                ent.0 += 1;
                if self.x.as_const(c).is_none() {
                    self.asserts.get_mut(&msg).unwrap().1 += 1;
                }
                let nc = self.x.not(c);
                if let Some(md) = self.feasible(st, nc)? {
                    let mut bad = st.clone();
                    self.assume(&mut bad, nc, md);
                    self.violation(&bad, "assert", &msg);
                    match self.feasible(st, c)? {
                        None => return Ok(Flow::Stop),
                        Some(md) => self.assume(st, c, md),
                    }
                }
                self.advance(st, dst, None, normal)
            }
            "vp_cover" => {
                let (p, n) = (e!(0), e!(1));
                let msg = self.read_cstr(st, p, n);
                *self.covers.entry(msg).or_insert(0) += 1;
                self.advance(st, dst, None, normal)
            }
            // the compiler has to assume that the memory is read
            "vp_keep" => self.advance(st, dst, None, normal),
            "vp_note" => {
                let (p, n, v) = (e!(0), e!(1), e!(2));
                let msg = self.read_cstr(st, p, n);
                st.notes.push((msg, v));
                self.advance(st, dst, None, normal)
            }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (e!(0), e!(1), e!(2));
                let n = match self.concretise(st, n, 600)? {
                    Ok(n) => n as u64,
                    Err(v) => return Ok(Flow::Fork(v)),
                };
                if n == 0 {
                    let z = self.x.c(0, 32);
                    return self.advance(st, dst, Some(Val::E(z)), normal);
                }
                let (i1, o1) = match self.bytes_at(st, p, n, false)? {
                    Ok(x) => x,
                    Err(f) => return Ok(f),
                };
                let (i2, o2) = match self.bytes_at(st, q, n, false)? {
                    Ok(x) => x,
                    Err(f) => return Ok(f),
                };
                let b1 = st.objs[i1].as_ref().unwrap().clone();
                let b2 = st.objs[i2].as_ref().unwrap().clone();
                let mut r = self.x.c(0, 32);
                for i in (0..n).rev() {
                    let x = self.byte_expr(b1.bytes[(o1 + i) as usize]);
                    let y = self.byte_expr(b2.bytes[(o2 + i) as usize]);
                    let eq = self.x.eq(x, y);
                    let d = if name == "bcmp" {
                        self.x.c(1, 32)
                    } else {
                        let lt = self.x.ult(x, y);
                        let m1 = self.x.c(mask(32), 32);
                        let p1 = self.x.c(1, 32);
                        self.x.ite(lt, m1, p1)
                    };
                    r = self.x.ite(eq, r, d);
                }
                self.advance(st, dst, Some(Val::E(r)), normal)
            }
            "memcpy" | "memmove" => {
                let p = a[0].clone();
                match self.mem_copy(st, e!(0), e!(1), e!(2))? {
                    Some(f) => Ok(f),
                    None => self.advance(st, dst, Some(p), normal),
                }
            }
            "memset" => {
                let p = a[0].clone();
                let b = self.x.extract(e!(1), 0, 8);
                match self.mem_set(st, e!(0), b, e!(2))? {
                    Some(f) => Ok(f),
                    None => self.advance(st, dst, Some(p), normal),
                }
            }
            _ if name.starts_with("llvm.memcpy") || name.starts_with("llvm.memmove") => {
                match self.mem_copy(st, e!(0), e!(1), e!(2))? {
                    Some(f) => Ok(f),
                    None => self.advance(st, dst, None, normal),
                }
            }
            _ if name.starts_with("llvm.memset") => match self.mem_set(st, e!(0), e!(1), e!(2))? {
                Some(f) => Ok(f),
                None => self.advance(st, dst, None, normal),
            },
            _ if name.starts_with("llvm.trap") || name == "abort" => {
                self.violation(st, "panic", "abort");
                Ok(Flow::Stop)
            }
            _ if name.starts_with("llvm.load.relative") => {
                let (p, off) = (e!(0), e!(1));
                let w = self.x.w(off);
                let off = if w < 64 { self.x.sext(off, 64) } else { off };
                let q = self.x.add(p, off);
                match self.resolve(st, q, 4, false)? {
                    Err(f) => Ok(f),
                    Ok((id, o)) => {
                        let v = match o {
                            Ok(o) => self.load_at(st, id, o, &Ty::Int(32)),
                            Err(e) => self.table_load(st, id, e, &Ty::Int(32))?,
                        };
                        let d = Self::e(&v)?;
                        let hi = self.x.extract(d, 16, 16);
                        let hi = self.x.sext(hi, 64);
                        let k = self.x.c(1 << 32, 64);
                        let hi = self.x.bin(B::Mul, hi, k);
                        let lo = self.x.extract(d, 0, 16);
                        let lo = self.x.zext(lo, 64);
                        let r = self.x.add(p, hi);
                        let r = self.x.add(r, lo);
                        self.advance(st, dst, Some(Val::E(r)), normal)
                    }
                }
            }
            _ if name.starts_with("llvm.fabs.f") => {
                let a = e!(0);
                let w = self.x.w(a);
                let m = self.x.c(mask(w - 1), w);
                let r = self.x.bin(B::And, a, m);
                self.advance(st, dst, Some(Val::E(r)), normal)
            }
            _ if name.starts_with("llvm.is.constant") => {
                let z = self.x.f();
                self.advance(st, dst, Some(Val::E(z)), normal)
            }
            _ if name.starts_with("llvm.objectsize") => {
                let z = self.x.c(mask(64), ret.bits());
                self.advance(st, dst, Some(Val::E(z)), normal)
            }
            _ if name.starts_with("llvm.ptrmask") => {
                let r = self.x.and(e!(0), e!(1));
                self.advance(st, dst, Some(Val::E(r)), normal)
            }
            _ => Err(format!("call to external function {}", name)),
        }
    }
    fn mem_copy(&mut self, st: &mut State, d: E, s: E, n: E) -> Result<Option<Flow>, String> {
        let n = match self.concretise(st, n, 600)? {
            Ok(n) => n as u64,
            Err(v) => return Ok(Some(Flow::Fork(v))),
        };
        if n == 0 {
            return Ok(None);
        }
        let (si, so) = match self.bytes_at(st, s, n, false)? {
            Ok(x) => x,
            Err(f) => return Ok(Some(f)),
        };
        let (di, do_) = match self.bytes_at(st, d, n, true)? {
            Ok(x) => x,
            Err(f) => return Ok(Some(f)),
        };
        let tmp: Vec<Byte> = st.objs[si].as_ref().unwrap().bytes[so as usize..(so + n) as usize].to_vec();
        let o = Rc::make_mut(st.objs[di].as_mut().unwrap());
        o.bytes[do_ as usize..(do_ + n) as usize].copy_from_slice(&tmp);
        Ok(None)
    }
    fn mem_set(&mut self, st: &mut State, d: E, b: E, n: E) -> Result<Option<Flow>, String> {
        let n = match self.concretise(st, n, 600)? {
            Ok(n) => n as u64,
            Err(v) => return Ok(Some(Flow::Fork(v))),
        };
        if n == 0 {
            return Ok(None);
        }
        let (di, do_) = match self.bytes_at(st, d, n, true)? {
            Ok(x) => x,
            Err(f) => return Ok(Some(f)),
        };
        let o = Rc::make_mut(st.objs[di].as_mut().unwrap());
        for i in 0..n {
            o.bytes[(do_ + i) as usize] = (b, 0);
        }
        Ok(None)
    }
}
