//! Parser for textual LLVM IR (the subset rustc's LLVM prints).
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Int(i128),
    UInt(u128),
    HexF(u64),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    Attr(String),
    P(char),
    Dots,
    Nl,
}

struct Lexer<'a> {
    s: &'a [u8],
    i: usize,
}

fn ident_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lexer<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = Vec::new();
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && ident_char(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn lex(&mut self) -> Vec<Tok> {
        let mut v = Vec::new();
        while self.i < self.s.len() {
            let c = self.s[self.i];
            match c {
                b'\n' => {
                    v.push(Tok::Nl);
                    self.i += 1;
                }
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'%' => {
                    self.i += 1;
                    let n = self.name();
                    v.push(Tok::Local(n));
                }
                b'@' => {
                    self.i += 1;
                    let n = self.name();
                    v.push(Tok::Global(n));
                }
                b'!' => {
                    self.i += 1;
                    if self.i < self.s.len() && (ident_char(self.s[self.i])) {
                        let n = self.name();
                        v.push(Tok::Meta(n));
                    } else if self.i < self.s.len() && self.s[self.i] == b'"' {
                        self.quoted();
                        v.push(Tok::Meta("str".into()));
                    } else {
                        v.push(Tok::Meta(String::new()));
                    }
                }
                b'#' => {
                    self.i += 1;
                    let n = self.name();
                    v.push(Tok::Attr(n));
                }
                b'"' => {
                    let q = self.quoted();
                    v.push(Tok::Str(q));
                }
                b'.' if self.s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    v.push(Tok::Dots);
                }
                b'0'..=b'9' | b'-' => {
                    let st = self.i;
                    self.i += 1;
                    if c == b'0' && self.s.get(self.i) == Some(&b'x') {
                        self.i += 1;
                        while self.i < self.s.len() && self.s[self.i].is_ascii_alphanumeric() {
                            self.i += 1;
                        }
                        let t = std::str::from_utf8(&self.s[st + 2..self.i]).unwrap();
                        let t = t.trim_start_matches(|c: char| !c.is_ascii_hexdigit());
                        v.push(Tok::HexF(u64::from_str_radix(t, 16).unwrap_or(0)));
                        continue;
                    }
                    while self.i < self.s.len() && (ident_char(self.s[self.i]) || self.s[self.i] == b'+') {
                        self.i += 1;
                    }
                    let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                    if let Ok(n) = t.parse::<i128>() {
                        v.push(Tok::Int(n));
                    } else if let Ok(n) = t.parse::<u128>() {
                        v.push(Tok::UInt(n));
                    } else if let Ok(f) = t.parse::<f64>() {
                        v.push(Tok::HexF(f.to_bits()));
                    } else {
                        v.push(Tok::Word(t.to_string()));
                    }
                }
                _ if ident_char(c) => {
                    if c == b'c' && self.s.get(self.i + 1) == Some(&b'"') {
                        self.i += 1;
                        let q = self.quoted();
                        v.push(Tok::CStr(q));
                    } else {
                        let n = self.name();
                        v.push(Tok::Word(n));
                    }
                }
                _ => {
                    v.push(Tok::P(c as char));
                    self.i += 1;
                }
            }
        }
        v.push(Tok::Nl);
        v
    }
}

type R<T> = Result<T, String>;

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    types: &'a HashMap<String, Ty>,
    locals: HashMap<String, usize>,
    blocks: HashMap<String, usize>,
}

fn int_ty(w: &str) -> Option<u32> {
    if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::Nl)
    }
    fn peek_at(&self, k: usize) -> &Tok {
        self.t.get(self.i + k).unwrap_or(&Tok::Nl)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::Nl);
        self.i += 1;
        t
    }
    fn eat(&mut self, c: char) -> bool {
        if *self.peek() == Tok::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, got {:?}", c, self.peek()))
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn skip_nl(&mut self) {
        while *self.peek() == Tok::Nl && self.i < self.t.len() {
            self.i += 1;
        }
    }
    fn skip_line(&mut self) {
        while *self.peek() != Tok::Nl {
            self.i += 1;
        }
    }
    fn local(&mut self, n: &str) -> usize {
        let k = self.locals.len();
        *self.locals.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> usize {
        let k = self.blocks.len();
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
            if self.i > self.t.len() {
                return;
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => {
                int_ty(w).is_some()
                    || matches!(
                        w.as_str(),
                        "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80"
                    )
            }
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Local(n) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Word(w) => {
                if let Some(n) = int_ty(&w) {
                    Ty::Int(n)
                } else {
                    match w.as_str() {
                        "void" => Ty::Void,
                        "ptr" => {
                            if self.eatw("addrspace") {
                                self.skip_parens();
                            }
                            Ty::Ptr
                        }
                        "float" => Ty::F32,
                        "double" => Ty::F64,
                        "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "opaque" => Ty::Other,
                        _ => return Err(format!("type word {}", w)),
                    }
                }
            }
            Tok::P('[') => {
                let n = self.int()?;
                self.eatw("x");
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::P('{') => self.struct_body(false)?,
            Tok::P('<') => {
                if self.eat('{') {
                    let t = self.struct_body(true)?;
                    self.expect('>')?;
                    t
                } else {
                    let n = self.int()?;
                    self.eatw("x");
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or(format!("unknown type {}", n))?,
            t => return Err(format!("type token {:?}", t)),
        };
        // function type suffix: `void (i32, ...)`
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> R<Ty> {
        let mut f = Vec::new();
        if self.eat('}') {
            return Ok(Ty::Struct(Rc::new(f), packed));
        }
        loop {
            f.push(self.ty()?);
            if self.eat('}') {
                break;
            }
            self.expect(',')?;
        }
        Ok(Ty::Struct(Rc::new(f), packed))
    }
    fn int(&mut self) -> R<i128> {
        match self.next() {
            Tok::Int(n) => Ok(n),
            t => Err(format!("int expected, got {:?}", t)),
        }
    }
    fn is_operand_start(&self) -> bool {
        match self.peek() {
            Tok::Local(_) | Tok::Global(_) | Tok::Int(_) | Tok::UInt(_) | Tok::HexF(_) | Tok::CStr(_) => true,
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Meta(_) => true,
            Tok::Word(w) => matches!(
                w.as_str(),
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "bitcast" | "none" | "blockaddress" | "splat" | "add" | "sub" | "mul" | "xor" | "trunc"
                    | "dso_local_equivalent" | "no_cfi" | "asm" | "addrspacecast"
            ),
            _ => false,
        }
    }
    /// Skips parameter/return attributes.
    fn skip_attrs_until_operand(&mut self) {
        loop {
            if self.is_operand_start() {
                return;
            }
            match self.peek() {
                Tok::Word(w) => {
                    let al = w == "align";
                    self.i += 1;
                    if *self.peek() == Tok::P('(') {
                        self.skip_parens();
                    } else if al {
                        self.i += 1;
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Tok::Attr(_) => self.i += 1,
                _ => return,
            }
        }
    }
    fn skip_attrs_until_type(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            match self.peek() {
                Tok::Word(w) => {
                    let al = w == "align";
                    self.i += 1;
                    if *self.peek() == Tok::P('(') {
                        self.skip_parens();
                    } else if al {
                        self.i += 1;
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Tok::Attr(_) => self.i += 1,
                _ => return,
            }
        }
    }
    fn cast_op(w: &str) -> Option<CastOp> {
        Some(match w {
            "trunc" => CastOp::Trunc,
            "zext" => CastOp::ZExt,
            "sext" => CastOp::SExt,
            "ptrtoint" => CastOp::PtrToInt,
            "inttoptr" => CastOp::IntToPtr,
            "bitcast" => CastOp::BitCast,
            "uitofp" => CastOp::UIToFP,
            "sitofp" => CastOp::SIToFP,
            "fptoui" => CastOp::FPToUI,
            "fptosi" => CastOp::FPToSI,
            "fpext" => CastOp::FPExt,
            "fptrunc" => CastOp::FPTrunc,
            "addrspacecast" => CastOp::AddrSpace,
            _ => return None,
        })
    }
    fn bin_op(w: &str) -> Option<BinOp> {
        Some(match w {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "urem" => BinOp::URem,
            "sdiv" => BinOp::SDiv,
            "srem" => BinOp::SRem,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            "fadd" => BinOp::FAdd,
            "fsub" => BinOp::FSub,
            "fmul" => BinOp::FMul,
            "fdiv" => BinOp::FDiv,
            "frem" => BinOp::FRem,
            _ => return None,
        })
    }
    fn skip_flags(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w)
                    if matches!(
                        w.as_str(),
                        "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "disjoint" | "nneg" | "samesign" | "inrange"
                            | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile"
                            | "atomic" | "inalloca"
                    ) =>
                {
                    self.i += 1;
                    if *self.peek() == Tok::P('(') && matches!(self.t[self.i - 1], Tok::Word(ref x) if x == "inrange") {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn cst(&mut self, ty: &Ty) -> R<Const> {
        Ok(match self.next() {
            Tok::Int(n) => match ty {
                Ty::F32 | Ty::F64 => Const::Float((n as f64).to_bits()),
                _ => Const::Int(n as u128),
            },
            Tok::UInt(n) => Const::Int(n),
            Tok::HexF(n) => Const::Float(n),
            Tok::Global(g) => Const::Global(g.into()),
            Tok::CStr(b) => Const::Bytes(b),
            Tok::Meta(_) => {
                // metadata operand; skip anything bracketed
                if *self.peek() == Tok::P('(') {
                    self.skip_parens();
                } else if *self.peek() == Tok::P('{') {
                    let mut d = 0;
                    loop {
                        match self.next() {
                            Tok::P('{') => d += 1,
                            Tok::P('}') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            Tok::Nl => break,
                            _ => {}
                        }
                    }
                }
                Const::Undef
            }
            Tok::P('[') => self.agg(']')?,
            Tok::P('{') => self.agg('}')?,
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}')?;
                    self.expect('>')?;
                    a
                } else {
                    self.agg('>')?
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "none" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "dso_local_equivalent" | "no_cfi" => self.cst(ty)?,
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.expect(')')?;
                    Const::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    self.skip_flags();
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    let bt = self.ty()?;
                    let b = self.cst(&bt)?;
                    let mut idx = Vec::new();
                    while self.eat(',') {
                        self.skip_flags();
                        let it = self.ty()?;
                        let ic = self.cst(&it)?;
                        idx.push((it, ic));
                    }
                    self.expect(')')?;
                    Const::Gep(t, Box::new(b), idx)
                }
                _ => {
                    if let Some(op) = Self::cast_op(&w) {
                        self.expect('(')?;
                        let f = self.ty()?;
                        let c = self.cst(&f)?;
                        self.eatw("to");
                        let t = self.ty()?;
                        self.expect(')')?;
                        Const::Cast(op, f, Box::new(c), t)
                    } else if let Some(op) = Self::bin_op(&w) {
                        self.skip_flags();
                        self.expect('(')?;
                        let f = self.ty()?;
                        let a = self.cst(&f)?;
                        self.expect(',')?;
                        let f2 = self.ty()?;
                        let b = self.cst(&f2)?;
                        self.expect(')')?;
                        Const::Bin(op, f, Box::new(a), Box::new(b))
                    } else {
                        return Err(format!("constant word {}", w));
                    }
                }
            },
            t => return Err(format!("constant token {:?}", t)),
        })
    }
    fn agg(&mut self, close: char) -> R<Const> {
        let mut v = Vec::new();
        if self.eat(close) {
            return Ok(Const::Agg(v));
        }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eat(close) {
                break;
            }
            self.expect(',')?;
        }
        Ok(Const::Agg(v))
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        if let Tok::Local(n) = self.peek().clone() {
            self.i += 1;
            Ok(Op::L(self.local(&n)))
        } else {
            Ok(Op::C(self.cst(ty)?))
        }
    }
    fn ty_op(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs_until_operand();
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<usize> {
        if !self.eatw("label") {
            return Err(format!("label expected, got {:?}", self.peek()));
        }
        match self.next() {
            Tok::Local(n) => Ok(self.block(&n)),
            t => Err(format!("label name {:?}", t)),
        }
    }
    fn align(&mut self) -> u64 {
        // looks ahead on the line for `align N`
        let mut k = 0;
        loop {
            match self.peek_at(k) {
                Tok::Nl => return 1,
                Tok::Word(w) if w == "align" => {
                    if let Tok::Int(n) = self.peek_at(k + 1) {
                        return *n as u64;
                    }
                    return 1;
                }
                _ => k += 1,
            }
        }
    }

    fn inst(&mut self) -> R<Inst> {
        let mut dst: Option<usize> = None;
        if let (Tok::Local(n), Tok::P('=')) = (self.peek().clone(), self.peek_at(1).clone()) {
            dst = Some(self.local(&n));
            self.i += 2;
        }
        let w = match self.next() {
            Tok::Word(w) => w,
            t => return Err(format!("instruction token {:?}", t)),
        };
        let d = dst.unwrap_or(usize::MAX);
        let r = match w.as_str() {
            "alloca" => {
                self.skip_flags();
                let ty = self.ty()?;
                let al = self.align();
                let mut count = None;
                if *self.peek() == Tok::P(',') && !matches!(self.peek_at(1), Tok::Word(w) if w == "align" || w == "addrspace") {
                    if matches!(self.peek_at(1), Tok::Meta(_)) {
                    } else {
                        self.i += 1;
                        let t = self.ty()?;
                        let o = self.op(&t)?;
                        count = Some((t, o));
                    }
                }
                Inst::Alloca { dst: d, ty, count, align: al }
            }
            "load" => {
                self.skip_flags();
                let ty = self.ty()?;
                self.expect(',')?;
                let (_, ptr) = self.ty_op()?;
                Inst::Load { dst: d, ty, ptr }
            }
            "store" => {
                self.skip_flags();
                let (ty, val) = self.ty_op()?;
                self.expect(',')?;
                let (_, ptr) = self.ty_op()?;
                Inst::Store { ty, val, ptr }
            }
            "getelementptr" => {
                self.skip_flags();
                let ty = self.ty()?;
                self.expect(',')?;
                let (_, base) = self.ty_op()?;
                let mut idx = Vec::new();
                while *self.peek() == Tok::P(',') && !matches!(self.peek_at(1), Tok::Meta(_)) {
                    self.i += 1;
                    idx.push(self.ty_op()?);
                }
                Inst::Gep { dst: d, ty, base, idx }
            }
            "icmp" => {
                self.skip_flags();
                let p = match self.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("icmp pred {:?}", t)),
                };
                let pred = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("icmp pred {}", p)),
                };
                let (ty, a) = self.ty_op()?;
                self.expect(',')?;
                let b = self.op(&ty)?;
                Inst::ICmp { dst: d, pred, ty, a, b }
            }
            "fcmp" => {
                self.skip_flags();
                let p = match self.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("fcmp pred {:?}", t)),
                };
                let (ty, a) = self.ty_op()?;
                self.expect(',')?;
                let b = self.op(&ty)?;
                Inst::FCmp { dst: d, pred: p.into(), ty, a, b }
            }
            "fneg" => {
                self.skip_flags();
                let (ty, v) = self.ty_op()?;
                Inst::FNeg { dst: d, ty, v }
            }
            "select" => {
                self.skip_flags();
                let (cty, c) = self.ty_op()?;
                self.expect(',')?;
                let (ty, a) = self.ty_op()?;
                self.expect(',')?;
                let (_, b) = self.ty_op()?;
                Inst::Select { dst: d, cty, c, ty, a, b }
            }
            "phi" => {
                self.skip_flags();
                let ty = self.ty()?;
                let mut inc = Vec::new();
                loop {
                    self.expect('[')?;
                    let o = self.op(&ty)?;
                    self.expect(',')?;
                    let b = match self.next() {
                        Tok::Local(n) => self.block(&n),
                        t => return Err(format!("phi block {:?}", t)),
                    };
                    self.expect(']')?;
                    inc.push((o, b));
                    if *self.peek() == Tok::P(',') && *self.peek_at(1) == Tok::P('[') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Inst::Phi { dst: d, ty, inc }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = w == "invoke";
                if w != "call" && !invoke {
                    self.eatw("call");
                }
                self.skip_flags();
                self.skip_attrs_until_type();
                let ret = self.ty()?;
                if *self.peek() == Tok::P('(') {
                    // explicit function type
                    self.skip_parens();
                }
                self.skip_attrs_until_operand();
                if matches!(self.peek(), Tok::Word(w) if w == "asm") {
                    self.skip_line();
                    return Ok(Inst::Unsupported("inline asm".into()));
                }
                let callee = self.op(&Ty::Ptr)?;
                self.expect('(')?;
                let mut args = Vec::new();
                if !self.eat(')') {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Other {
                            // metadata argument
                            let mut depth = 0;
                            loop {
                                match self.peek() {
                                    Tok::P('(') | Tok::P('{') => depth += 1,
                                    Tok::P(')') | Tok::P('}') if depth > 0 => depth -= 1,
                                    Tok::P(')') | Tok::P(',') if depth == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push((t, Op::C(Const::Undef)));
                        } else {
                            self.skip_attrs_until_operand();
                            let o = self.op(&t)?;
                            args.push((t, o));
                        }
                        if self.eat(')') {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                let mut normal = None;
                if invoke {
                    // attributes, then newline, then `to label %x unwind label %y`
                    loop {
                        if self.eatw("to") {
                            break;
                        }
                        self.i += 1;
                        if self.i >= self.t.len() {
                            return Err("invoke without 'to'".into());
                        }
                    }
                    normal = Some(self.label()?);
                    self.eatw("unwind");
                    self.label()?;
                }
                Inst::Call { dst, ret, callee, args, normal }
            }
            "extractvalue" => {
                let (ty, v) = self.ty_op()?;
                let mut idx = Vec::new();
                while *self.peek() == Tok::P(',') && matches!(self.peek_at(1), Tok::Int(_)) {
                    self.i += 1;
                    idx.push(self.int()? as usize);
                }
                Inst::ExtractValue { dst: d, ty, v, idx }
            }
            "insertvalue" => {
                let (ty, v) = self.ty_op()?;
                self.expect(',')?;
                let (ety, e) = self.ty_op()?;
                let mut idx = Vec::new();
                while *self.peek() == Tok::P(',') && matches!(self.peek_at(1), Tok::Int(_)) {
                    self.i += 1;
                    idx.push(self.int()? as usize);
                }
                Inst::InsertValue { dst: d, ty, v, ety, e, idx }
            }
            "extractelement" => {
                let (ty, v) = self.ty_op()?;
                self.expect(',')?;
                let (ity, i) = self.ty_op()?;
                Inst::ExtractElement { dst: d, ty, v, ity, i }
            }
            "insertelement" => {
                let (ty, v) = self.ty_op()?;
                self.expect(',')?;
                let (ety, e) = self.ty_op()?;
                self.expect(',')?;
                let (ity, i) = self.ty_op()?;
                Inst::InsertElement { dst: d, ty, v, ety, e, ity, i }
            }
            "shufflevector" => {
                let (ty, a) = self.ty_op()?;
                self.expect(',')?;
                let (_, b) = self.ty_op()?;
                self.expect(',')?;
                let (mt, m) = self.ty_op()?;
                let n = mt.count();
                let mask = match m {
                    Op::C(Const::Zero) => vec![0; n],
                    Op::C(Const::Undef) => vec![-1; n],
                    Op::C(Const::Splat(b)) => match b.1 {
                        Const::Int(k) => vec![k as i64; n],
                        _ => vec![-1; n],
                    },
                    Op::C(Const::Agg(v)) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(k) => *k as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Inst::ShuffleVector { dst: d, ty, a, b, mask }
            }
            "freeze" => {
                let (ty, v) = self.ty_op()?;
                Inst::Freeze { dst: d, ty, v }
            }
            "br" => {
                if matches!(self.peek(), Tok::Word(w) if w == "label") {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.ty_op()?;
                    self.expect(',')?;
                    let a = self.label()?;
                    self.expect(',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.ty_op()?;
                self.expect(',')?;
                let default = self.label()?;
                self.expect('[')?;
                let mut cases = Vec::new();
                loop {
                    self.skip_nl();
                    if self.eat(']') {
                        break;
                    }
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.expect(',')?;
                    let l = self.label()?;
                    if let Const::Int(n) = c {
                        cases.push((n, l));
                    } else {
                        return Err("switch case".into());
                    }
                }
                Inst::Switch { ty, v, default, cases }
            }
            "ret" => {
                if self.eatw("void") {
                    Inst::Ret(None)
                } else {
                    let (t, o) = self.ty_op()?;
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "landingpad" => {
                self.ty()?;
                // clauses on following lines
                loop {
                    self.skip_line();
                    let save = self.i;
                    self.skip_nl();
                    if matches!(self.peek(), Tok::Word(w) if matches!(w.as_str(), "cleanup" | "catch" | "filter")) {
                        continue;
                    }
                    self.i = save;
                    break;
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" => Inst::Unsupported("resume".into()),
            _ => {
                if let Some(op) = Self::bin_op(&w) {
                    self.skip_flags();
                    let (ty, a) = self.ty_op()?;
                    self.expect(',')?;
                    let b = self.op(&ty)?;
                    Inst::Bin { dst: d, op, ty, a, b }
                } else if let Some(op) = Self::cast_op(&w) {
                    self.skip_flags();
                    let (from, v) = self.ty_op()?;
                    if !self.eatw("to") {
                        return Err("cast without to".into());
                    }
                    let to = self.ty()?;
                    Inst::Cast { dst: d, op, from, v, to }
                } else {
                    Inst::Unsupported(w)
                }
            }
        };
        self.skip_line();
        Ok(r)
    }
}

pub fn parse_module(text: &str) -> R<Module> {
    let mut m = Module::default();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let lines: Vec<&str> = text.lines().collect();
    // named types first, repeated until all resolve
    let mut pending: Vec<(String, String)> = Vec::new();
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let k = l.find(" = type ").unwrap();
            let n = l[1..k].trim_matches('"').to_string();
            pending.push((n, l[k + 8..].to_string()));
        }
    }
    for _ in 0..pending.len() + 1 {
        let mut rest = Vec::new();
        for (n, b) in pending.drain(..) {
            let t = Lexer { s: b.as_bytes(), i: 0 }.lex();
            let mut p = P { t, i: 0, types: &types, locals: HashMap::new(), blocks: HashMap::new() };
            match p.ty() {
                Ok(t) => {
                    types.insert(n, t);
                }
                Err(_) => rest.push((n, b)),
            }
        }
        pending = rest;
        if pending.is_empty() {
            break;
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let t = Lexer { s: l.as_bytes(), i: 0 }.lex();
            let mut p = P { t, i: 0, types: &types, locals: HashMap::new(), blocks: HashMap::new() };
            let name: Rc<str> = match p.next() {
                Tok::Global(g) => g.into(),
                t => return Err(format!("global {:?}", t)),
            };
            p.expect('=')?;
            let mut constant = None;
            let mut alias = false;
            let mut external = false;
            while let Tok::Word(w) = p.peek().clone() {
                match w.as_str() {
                    "constant" => {
                        constant = Some(true);
                        p.i += 1;
                        break;
                    }
                    "global" => {
                        constant = Some(false);
                        p.i += 1;
                        break;
                    }
                    "alias" | "ifunc" => {
                        alias = true;
                        p.i += 1;
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.i += 1;
                    }
                    _ => {
                        p.i += 1;
                        if *p.peek() == Tok::P('(') {
                            p.skip_parens();
                        }
                    }
                }
            }
            if alias {
                // skip the value type, find last global on line
                let mut target = None;
                while *p.peek() != Tok::Nl {
                    if let Tok::Global(g) = p.next() {
                        target = Some(g);
                    }
                }
                if let Some(t) = target {
                    m.aliases.push((name, t.into()));
                }
            } else if let Some(constant) = constant {
                let ty = p.ty().map_err(|e| format!("{} in {}", e, l))?;
                let init = if external || *p.peek() == Tok::P(',') || *p.peek() == Tok::Nl {
                    None
                } else {
                    Some(p.cst(&ty).map_err(|e| format!("{} in {}", e, l))?)
                };
                let align = p.align();
                m.globals.push(Global { name, ty, init, constant, align });
            }
            i += 1;
        } else if l.starts_with("define ") || l.starts_with("declare ") {
            let is_decl = l.starts_with("declare ");
            let mut j = i + 1;
            if !is_decl {
                while j < lines.len() && lines[j] != "}" {
                    j += 1;
                }
            }
            let body: String = if is_decl {
                l.to_string()
            } else {
                let mut s = String::with_capacity((j - i) * 60);
                for x in &lines[i..j] {
                    if x.trim_start().starts_with("#dbg_") {
                        continue;
                    }
                    s.push_str(x);
                    s.push('\n');
                }
                s
            };
            let t = Lexer { s: body.as_bytes(), i: 0 }.lex();
            let mut p = P { t, i: 0, types: &types, locals: HashMap::new(), blocks: HashMap::new() };
            p.i += 1;
            // linkage, attributes, cc
            loop {
                if p.is_type_start() {
                    break;
                }
                p.i += 1;
                if *p.peek() == Tok::P('(') {
                    p.skip_parens();
                }
            }
            let ctx = |e: String| format!("{} in {}", e, &l[..l.len().min(160)]);
            let ret = p.ty().map_err(ctx)?;
            let name: Rc<str> = match p.next() {
                Tok::Global(g) => g.into(),
                t => return Err(format!("function name {:?} in {}", t, l)),
            };
            p.expect('(').map_err(ctx)?;
            let mut params = Vec::new();
            let mut anon = 0usize;
            if !p.eat(')') {
                loop {
                    if *p.peek() == Tok::Dots {
                        p.i += 1;
                    } else {
                        let ty = p.ty().map_err(ctx)?;
                        p.skip_attrs_until_operand();
                        let slot = if let Tok::Local(n) = p.peek().clone() {
                            p.i += 1;
                            p.local(&n)
                        } else {
                            let n = format!("{}", anon);
                            p.local(&n)
                        };
                        anon += 1;
                        params.push((ty, slot));
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',').map_err(ctx)?;
                }
            }
            p.skip_line();
            let mut blocks: Vec<Option<Block>> = Vec::new();
            if !is_decl {
                p.skip_nl();
                // entry label may be implicit
                let mut cur: Option<usize> = None;
                let nparams_anon = params.len();
                loop {
                    p.skip_nl();
                    if p.i >= p.t.len() {
                        break;
                    }
                    // label?
                    let lab = match (p.peek().clone(), p.peek_at(1).clone()) {
                        (Tok::Word(w), Tok::P(':')) => Some(w),
                        (Tok::Int(n), Tok::P(':')) => Some(n.to_string()),
                        (Tok::Str(s), Tok::P(':')) => Some(String::from_utf8_lossy(&s).into_owned()),
                        _ => None,
                    };
                    if let Some(lab) = lab {
                        p.i += 2;
                        let b = p.block(&lab);
                        while blocks.len() <= b {
                            blocks.push(None);
                        }
                        blocks[b] = Some(Block { insts: Vec::new(), name: lab });
                        cur = Some(b);
                        continue;
                    }
                    if cur.is_none() {
                        let lab = nparams_anon.to_string();
                        let b = p.block(&lab);
                        while blocks.len() <= b {
                            blocks.push(None);
                        }
                        blocks[b] = Some(Block { insts: Vec::new(), name: lab });
                        cur = Some(b);
                    }
                    let st = p.i;
                    match p.inst() {
                        Ok(ins) => blocks[cur.unwrap()].as_mut().unwrap().insts.push(ins),
                        Err(e) => {
                            // An instruction outside the subset only matters if it is reached.
                            p.i = st;
                            let mut txt = String::new();
                            let mut k = p.i;
                            while k < p.t.len() && p.t[k] != Tok::Nl {
                                txt.push_str(&format!("{:?} ", p.t[k]));
                                k += 1;
                            }
                            p.skip_line();
                            txt.truncate(300);
                            blocks[cur.unwrap()]
                                .as_mut()
                                .unwrap()
                                .insts
                                .push(Inst::Unsupported(format!("parse: {} at {}", e, txt)));
                        }
                    }
                }
            }
            let blocks: Vec<Block> = blocks
                .into_iter()
                .map(|b| b.unwrap_or(Block { insts: vec![Inst::Unsupported("missing block".into())], name: String::new() }))
                .collect();
            // entry block must be index 0: the first block seen. Phi/branch forward refs number
            // blocks by first mention, and the entry label is mentioned first.
            m.funcs.push(Func { name, params, ret, nlocals: p.locals.len(), blocks, is_decl });
            i = if is_decl { i + 1 } else { j + 1 };
        } else {
            i += 1;
        }
    }
    Ok(m)
}
