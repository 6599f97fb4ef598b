//! Hand-written FFI declarations for the part of the Z3 C API that is used.
#![allow(non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type Config = *mut c_void;
pub type Context = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Symbol = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Params = *mut c_void;

#[link(name = "z3")]
extern "C" {
    pub fn Z3_mk_config() -> Config;
    pub fn Z3_mk_context(c: Config) -> Context;
    pub fn Z3_set_error_handler(c: Context, h: Option<extern "C" fn(Context, c_int)>);
    pub fn Z3_get_error_code(c: Context) -> c_int;
    pub fn Z3_get_full_version() -> *const c_char;
    pub fn Z3_mk_bv_sort(c: Context, sz: c_uint) -> Sort;
    pub fn Z3_mk_int_symbol(c: Context, i: c_int) -> Symbol;
    pub fn Z3_mk_const(c: Context, s: Symbol, ty: Sort) -> Ast;
    pub fn Z3_mk_unsigned_int64(c: Context, v: u64, ty: Sort) -> Ast;
    pub fn Z3_mk_numeral(c: Context, s: *const c_char, ty: Sort) -> Ast;
    pub fn Z3_mk_eq(c: Context, l: Ast, r: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Context, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_and(c: Context, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Context, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_xor(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_true(c: Context) -> Ast;
    pub fn Z3_mk_false(c: Context) -> Ast;
    pub fn Z3_mk_not(c: Context, a: Ast) -> Ast;
    pub fn Z3_mk_bvadd(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsdiv(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsrem(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvashr(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvule(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvslt(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsle(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_concat(c: Context, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Context, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Context, i: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_sign_ext(c: Context, i: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_simple_solver(c: Context) -> Solver;
    pub fn Z3_mk_solver_for_logic(c: Context, s: Symbol) -> Solver;
    pub fn Z3_mk_string_symbol(c: Context, s: *const c_char) -> Symbol;
    pub fn Z3_solver_inc_ref(c: Context, s: Solver);
    pub fn Z3_solver_push(c: Context, s: Solver);
    pub fn Z3_solver_pop(c: Context, s: Solver, n: c_uint);
    pub fn Z3_solver_assert(c: Context, s: Solver, a: Ast);
    pub fn Z3_solver_check(c: Context, s: Solver) -> c_int;
    pub fn Z3_solver_get_model(c: Context, s: Solver) -> Model;
    pub fn Z3_solver_to_string(c: Context, s: Solver) -> *const c_char;
    pub fn Z3_solver_set_params(c: Context, s: Solver, p: Params);
    pub fn Z3_mk_params(c: Context) -> Params;
    pub fn Z3_params_inc_ref(c: Context, p: Params);
    pub fn Z3_params_set_uint(c: Context, p: Params, k: Symbol, v: c_uint);
    pub fn Z3_model_inc_ref(c: Context, m: Model);
    pub fn Z3_model_dec_ref(c: Context, m: Model);
    pub fn Z3_model_eval(c: Context, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    pub fn Z3_get_numeral_uint64(c: Context, a: Ast, v: *mut u64) -> bool;
    pub fn Z3_get_numeral_string(c: Context, a: Ast) -> *const c_char;
}
