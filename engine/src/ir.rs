//! In-memory form of the subset of LLVM IR that rustc emits.
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    /// Width in bits of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    /// Bytes a load or store of the type touches
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) | Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Null,
    Undef,
    Zero,
    Global(Rc<str>),
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Const)>),
    Gep(Ty, Box<Const>, Vec<(Ty, Const)>),
    Cast(CastOp, Ty, Box<Const>, Ty),
    Bin(BinOp, Ty, Box<Const>, Box<Const>),
    Float(u64),
}

#[derive(Clone, Debug)]
pub enum Op {
    L(usize),
    C(Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc, AddrSpace,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: usize, ty: Ty, count: Option<(Ty, Op)>, align: u64 },
    Load { dst: usize, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Gep { dst: usize, ty: Ty, base: Op, idx: Vec<(Ty, Op)> },
    Bin { dst: usize, op: BinOp, ty: Ty, a: Op, b: Op },
    ICmp { dst: usize, pred: Pred, ty: Ty, a: Op, b: Op },
    FCmp { dst: usize, pred: Rc<str>, ty: Ty, a: Op, b: Op },
    Cast { dst: usize, op: CastOp, from: Ty, v: Op, to: Ty },
    Select { dst: usize, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Phi { dst: usize, ty: Ty, inc: Vec<(Op, usize)> },
    Call { dst: Option<usize>, ret: Ty, callee: Op, args: Vec<(Ty, Op)>, normal: Option<usize> },
    ExtractValue { dst: usize, ty: Ty, v: Op, idx: Vec<usize> },
    InsertValue { dst: usize, ty: Ty, v: Op, ety: Ty, e: Op, idx: Vec<usize> },
    ExtractElement { dst: usize, ty: Ty, v: Op, ity: Ty, i: Op },
    InsertElement { dst: usize, ty: Ty, v: Op, ety: Ty, e: Op, ity: Ty, i: Op },
    ShuffleVector { dst: usize, ty: Ty, a: Op, b: Op, mask: Vec<i64> },
    Freeze { dst: usize, ty: Ty, v: Op },
    FNeg { dst: usize, ty: Ty, v: Op },
    Br(usize),
    CondBr(Op, usize, usize),
    Switch { ty: Ty, v: Op, default: usize, cases: Vec<(u128, usize)> },
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    pub name: String,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, usize)>,
    pub ret: Ty,
    pub nlocals: usize,
    pub blocks: Vec<Block>,
    pub is_decl: bool,
}

#[derive(Debug)]
pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

#[derive(Debug, Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(Rc<str>, Rc<str>)>,
}
