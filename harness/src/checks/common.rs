//! Interface to the engine (or to the native replay shim) and helpers shared by all harnesses.
#![allow(dead_code)]

pub use dmidecode::*;

extern "C" {
    pub fn vp_u8() -> u8;
    pub fn vp_u16() -> u16;
    pub fn vp_u32() -> u32;
    pub fn vp_u64() -> u64;
    pub fn vp_any(p: *mut u8, n: usize);
    pub fn vp_buf(n: usize) -> *mut u8;
    pub fn vp_choose(n: u32) -> u32;
    pub fn vp_conc(v: u64) -> u64;
    pub fn vp_param(i: u32) -> u32;
    pub fn vp_assume(c: bool);
    pub fn vp_assert(c: bool, p: *const u8, n: usize);
    pub fn vp_cover(p: *const u8, n: usize);
    pub fn vp_note(p: *const u8, n: usize, v: u64);
    pub fn vp_keep(p: *const u8);
    pub fn vp_panic() -> !;
}

pub fn u8_() -> u8 {
    unsafe { vp_u8() }
}
pub fn u16_() -> u16 {
    unsafe { vp_u16() }
}
pub fn u32_() -> u32 {
    unsafe { vp_u32() }
}
pub fn u64_() -> u64 {
    unsafe { vp_u64() }
}
/// Case split: a concrete value on every path
pub fn choose(n: usize) -> usize {
    unsafe { vp_choose(n as u32) as usize }
}
/// Case split of a symbolic byte
pub fn conc8(v: u8) -> u8 {
    unsafe { vp_conc(v as u64) as u8 }
}
pub fn conc16(v: u16) -> u16 {
    unsafe { vp_conc(v as u64) as u16 }
}
/// Parameter of the job (one instance of the engine per value)
pub fn param(i: usize) -> usize {
    unsafe { vp_param(i as u32) as usize }
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn ck(c: bool, m: &'static str) {
    unsafe { vp_assert(c, m.as_ptr(), m.len()) }
}
pub fn cover(m: &'static str) {
    unsafe { vp_cover(m.as_ptr(), m.len()) }
}
pub fn note(m: &'static str, v: u64) {
    unsafe { vp_note(m.as_ptr(), m.len(), v) }
}
/// The value is used: nothing that computes it is optimised away
pub fn keep<T>(v: T) {
    unsafe { vp_keep(&v as *const T as *const u8) }
    core::mem::forget(v)
}

/// `n` symbolic bytes in an allocation of exactly that size
#[inline(never)]
pub fn any_buf(n: usize) -> &'static mut [u8] {
    unsafe {
        let p = vp_buf(n);
        vp_any(p, n);
        core::slice::from_raw_parts_mut(p, n)
    }
}
/// `n` zero bytes in an allocation of exactly that size
#[inline(never)]
pub fn zero_buf(n: usize) -> &'static mut [u8] {
    unsafe {
        let p = vp_buf(n);
        core::slice::from_raw_parts_mut(p, n)
    }
}

/// Entry point of a table of `len` bytes; what has nothing to do with the table is any
pub fn entry(len: u16, major: u8, minor: u8) -> EntryPoint {
    EntryPoint::V2(EntryPointV2 {
        signature: 0,
        checksum: 0,
        len: 31,
        major,
        minor,
        struct_max: u16_(),
        revision: u8_(),
        formatted: [0; 5],
        dmi_signature: [0; 5],
        dmi_checksum: 0,
        smbios_len: len,
        smbios_address: u32_(),
        smbios_count: u16_(),
        bcd_revision: u8_(),
    })
}

pub type Item<'a> = Option<Result<Structure<'a>, MalformedStructureError>>;

/// The code under test, kept apart from the oracle: the next item of a table walk
#[inline(never)]
pub fn next_item<'a>(it: &mut Structures<'a>) -> Item<'a> {
    it.next()
}
/// The code under test: the first item of a table
#[inline(never)]
pub fn first<'a>(b: &'a [u8], major: u8, minor: u8) -> Item<'a> {
    entry(b.len() as u16, major, minor).structures(b).next()
}
#[inline(never)]
pub fn walk<'a>(b: &'a [u8], len: u16, major: u8, minor: u8) -> Structures<'a> {
    entry(len, major, minor).structures(b)
}

/// A version 3 entry point, its bytes given
pub fn entry3(len: u32, major: u8, minor: u8) -> EntryPoint {
    let mut b = [0u8; 24];
    unsafe { vp_any(b.as_mut_ptr(), 24) };
    b[6] = 24;
    b[7] = major;
    b[8] = minor;
    b[12..16].copy_from_slice(&len.to_le_bytes());
    EntryPoint::V3(unsafe { core::mem::transmute::<[u8; 24], EntryPointV3>(b) })
}
#[inline(never)]
pub fn walk3<'a>(b: &'a [u8], len: u32, major: u8, minor: u8) -> Structures<'a> {
    entry3(len, major, minor).structures(b)
}

/// A table of one structure whose formatted area, but for type and length, is symbolic
pub fn table(kind: u8, l: usize, strings: &[u8]) -> &'static mut [u8] {
    let n = l + strings.len();
    let b = zero_buf(n);
    unsafe { vp_any(b.as_mut_ptr(), l) };
    b[0] = kind;
    b[1] = l as u8;
    b[l..].copy_from_slice(strings);
    b
}

/// The string set of the decoding checks: three strings
pub const STRS: &[u8] = b" s1\0t22 \0\xC3\xA9~\0\0";
pub fn str_of(i: u8) -> &'static str {
    match i {
        1 => " s1",
        2 => "t22 ",
        3 => "é~",
        _ => "",
    }
}

/// The oracle's view of a structure: independent reads from its bytes
pub struct O<'a> {
    pub b: &'a [u8],
    pub l: usize,
    pub v: (u8, u8),
    pub nstr: u8,
}
impl<'a> O<'a> {
    pub fn new(b: &'a [u8], l: usize, v: (u8, u8)) -> Self {
        O { b, l, v, nstr: 3 }
    }
    pub fn has(&self, off: usize, size: usize) -> bool {
        off + size <= self.l
    }
    pub fn since(&self, major: u8, minor: u8) -> bool {
        self.v.0 > major || (self.v.0 == major && self.v.1 >= minor)
    }
    pub fn handle(&self) -> u16 {
        self.u16(2)
    }
    pub fn u8(&self, o: usize) -> u8 {
        self.b[o]
    }
    pub fn u16(&self, o: usize) -> u16 {
        self.b[o] as u16 | (self.b[o + 1] as u16) << 8
    }
    pub fn u32(&self, o: usize) -> u32 {
        self.u16(o) as u32 | (self.u16(o + 2) as u32) << 16
    }
    pub fn u64(&self, o: usize) -> u64 {
        self.u32(o) as u64 | (self.u32(o + 4) as u64) << 32
    }
    pub fn o8(&self, o: usize) -> Option<u8> {
        if self.has(o, 1) { Some(self.u8(o)) } else { None }
    }
    pub fn o16(&self, o: usize) -> Option<u16> {
        if self.has(o, 2) { Some(self.u16(o)) } else { None }
    }
    pub fn o32(&self, o: usize) -> Option<u32> {
        if self.has(o, 4) { Some(self.u32(o)) } else { None }
    }
    pub fn o64(&self, o: usize) -> Option<u64> {
        if self.has(o, 8) { Some(self.u64(o)) } else { None }
    }
    /// A string reference that no string of the set satisfies
    pub fn bad(&self, o: usize) -> bool {
        self.u8(o) > self.nstr
    }
    pub fn any_bad(&self, offs: &[usize]) -> bool {
        let mut r = false;
        for &o in offs {
            r |= self.bad(o);
        }
        r
    }
    pub fn ck_str(&self, got: &str, o: usize, m: &'static str) {
        ck(got == str_of(self.u8(o)), m)
    }
    /// got is the string referenced at `o` if `present`, else None
    pub fn ck_ostr(&self, got: Option<&str>, present: bool, o: usize, m: &'static str) {
        match got {
            None => ck(!present, m),
            Some(s) => {
                ck(present, m);
                self.ck_str(s, o, m)
            }
        }
    }
    /// The error for a reference to a missing string names the structure and one such reference
    pub fn ck_bad_string(&self, e: &MalformedStructureError, info: InfoType, offs: &[usize]) {
        match e {
            MalformedStructureError::InvalidStringIndex(i, h, x) => {
                ck(*i == info, "the string error names the structure type");
                ck(*h == self.handle(), "the string error names the handle");
                let mut r = false;
                for &o in offs {
                    r |= self.bad(o) & (self.u8(o) == *x);
                }
                ck(r, "the string error names a reference to a missing string");
            }
            _ => ck(false, "a reference to a missing string is a string index error"),
        }
    }
    pub fn ck_length(&self, e: &MalformedStructureError, info: InfoType) {
        match e {
            MalformedStructureError::InvalidFormattedSectionLength(i, h, _, _) => {
                ck(*i == info, "the length error names the structure type");
                ck(*h == self.handle(), "the length error names the handle");
            }
            _ => ck(false, "an invalid length is reported as a length error"),
        }
    }
}

/// Outcome the oracle expects of a decode
pub enum Want {
    Fields,
    BadString,
    Length,
    Slice,
    /// Several reasons to reject it: any error
    Reject,
}

/// Compares the kind of outcome; gives the decoded structure to compare its fields if it is due.
pub fn outcome<'a>(
    o: &O,
    got: Item<'a>,
    want: Want,
    info: InfoType,
    offs: &[usize],
) -> Option<Structure<'a>> {
    match got {
        None => {
            ck(false, "a well framed structure is yielded");
            None
        }
        Some(Err(e)) => {
            match want {
                Want::Fields => ck(false, "a valid structure is decoded"),
                Want::BadString => {
                    o.ck_bad_string(&e, info, offs);
                    cover("missing string rejected");
                }
                Want::Length => {
                    o.ck_length(&e, info);
                    cover("invalid length rejected");
                }
                Want::Reject => cover("rejected"),
                Want::Slice => {
                    ck(
                        matches!(e, MalformedStructureError::InvalidSlice(_)),
                        "a missing mandatory field is reported as such",
                    );
                    cover("missing field rejected");
                }
            }
            None
        }
        Some(Ok(s)) => match want {
            Want::Fields => {
                cover("decoded");
                Some(s)
            }
            Want::BadString => {
                ck(false, "a reference to a missing string is rejected");
                None
            }
            Want::Length => {
                ck(false, "an invalid length is rejected");
                None
            }
            Want::Slice | Want::Reject => {
                ck(false, "a structure without a mandatory field is rejected");
                None
            }
        },
    }
}

/// Length expected of the structure `got`, or a wrong variant
#[macro_export]
macro_rules! variant {
    ($got:expr, $v:ident) => {
        match $got {
            Some(Structure::$v(s)) => Some(s),
            Some(_) => {
                ck(false, "the structure is decoded as its type");
                None
            }
            None => None,
        }
    };
}

/// Text written by a Display implementation
pub struct Text {
    pub b: [u8; 320],
    pub n: usize,
}
impl Text {
    pub fn new() -> Self {
        Text { b: [0; 320], n: 0 }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn same(&self, o: &Text) -> bool {
        if self.n != o.n {
            return false;
        }
        let mut r = true;
        for i in 0..self.n {
            r &= self.b[i] == o.b[i];
        }
        r
    }
    pub fn is(&self, s: &str) -> bool {
        self.bytes() == s.as_bytes()
    }
}
impl Text {
    pub fn put(&mut self, s: &str) {
        for &c in s.as_bytes() {
            self.b[self.n] = c;
            self.n += 1;
        }
    }
    /// The value in the given base, upper case, of at least `width` digits
    pub fn num(&mut self, v: u64, base: u64, width: usize) {
        let mut d = [0u8; 64];
        let mut n = 0;
        let mut v = v;
        while v > 0 || n < width {
            let k = (v % base) as u8;
            d[n] = if k < 10 { b'0' + k } else { b'A' + k - 10 };
            v /= base;
            n += 1;
        }
        while n > 0 {
            n -= 1;
            self.b[self.n] = d[n];
            self.n += 1;
        }
    }
}
/// What the code under test displays
#[inline(never)]
pub fn text<T: core::fmt::Display>(t: &T) -> Text {
    let mut r = Text::new();
    ck(core::fmt::Write::write_fmt(&mut r, format_args!("{}", t)).is_ok(), "a value can be displayed");
    r
}
#[inline(never)]
pub fn text_alt<T: core::fmt::Display>(t: &T) -> Text {
    let mut r = Text::new();
    ck(core::fmt::Write::write_fmt(&mut r, format_args!("{:#}", t)).is_ok(), "a value can be displayed");
    r
}

pub trait Any {
    fn any() -> Self;
    /// One of lo..=hi
    fn any_in(lo: u32, hi: u32) -> Self;
}
impl Any for u8 {
    fn any() -> u8 {
        u8_()
    }
    fn any_in(lo: u32, hi: u32) -> u8 {
        let v = u8_();
        assume(v as u32 >= lo && v as u32 <= hi);
        v
    }
}
impl Any for u16 {
    fn any() -> u16 {
        u16_()
    }
    fn any_in(lo: u32, hi: u32) -> u16 {
        let v = u16_();
        assume(v as u32 >= lo && v as u32 <= hi);
        v
    }
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if self.n == self.b.len() {
                return Err(core::fmt::Error);
            }
            self.b[self.n] = c;
            self.n += 1;
        }
        Ok(())
    }
}
