//! C06: raw field access
use super::common::*;

#[inline(never)]
fn get<'a, T: TryFromBytes<'a, T>>(r: &RawStructure<'a>, o: usize) -> Result<T, MalformedStructureError> {
    r.get::<T>(o)
}
#[inline(never)]
fn slice<'a>(r: &RawStructure<'a>, o: usize, n: usize) -> Option<&'a [u8]> {
    r.get_slice(o, n)
}
#[inline(never)]
fn string<'a>(r: &RawStructure<'a>, o: usize) -> Result<&'a str, MalformedStructureError> {
    r.get_string(o)
}

fn raw(l: usize) -> (&'static [u8], Option<RawStructure<'static>>) {
    let b: &[u8] = {
        let b = table(200, l, STRS);
        b
    };
    let v = (u8_(), u8_());
    match first(b, v.0, v.1) {
        Some(Ok(Structure::Other(r))) => (b, Some(r)),
        _ => {
            ck(false, "a structure without decoder is yielded");
            (b, None)
        }
    }
}

macro_rules! value {
    ($name:ident, $t:ty, $n:expr) => {
        /// Formatted length param(0), any content; any 64-bit offset
        #[no_mangle]
        pub extern "C" fn $name() {
            let l = param(0);
            if let (b, Some(r)) = raw(l) {
                let o = u64_() as usize;
                let inside = o >= 4 && o <= l && l - o >= $n;
                match get::<$t>(&r, o) {
                    Err(MalformedStructureError::InvalidSlice(_)) => {
                        cover("absent");
                        ck(!inside, "a value inside the formatted area is read");
                    }
                    Err(_) => ck(false, "an absent value is reported as such"),
                    Ok(x) => {
                        cover("value");
                        ck(inside, "a value outside the formatted area is absent");
                        if inside {
                            let o = unsafe { vp_conc(o as u64) } as usize;
                            let mut w: $t = 0;
                            for i in 0..$n {
                                w |= (b[o + i] as $t) << (8 * i);
                            }
                            ck(x == w, "a value is the little-endian bytes at its offset");
                        }
                    }
                }
            }
        }
    };
}
value!(c06_u8, u8, 1);
value!(c06_u16, u16, 2);
value!(c06_u32, u32, 4);
value!(c06_u64, u64, 8);
value!(c06_u128, u128, 16);

/// Formatted length param(0), any content; any 64-bit offset and size
#[no_mangle]
pub extern "C" fn c06_slice() {
    let l = param(0);
    if let (b, Some(r)) = raw(l) {
        let o = u64_() as usize;
        let n = u64_() as usize;
        let inside = o >= 4 && o <= l && n <= l - o;
        match slice(&r, o, n) {
            None => {
                cover("absent");
                ck(!inside, "bytes inside the formatted area are given");
            }
            Some(s) => {
                cover("bytes");
                ck(inside, "bytes outside the formatted area are absent");
                if inside {
                    let o = unsafe { vp_conc(o as u64) } as usize;
                    let n = unsafe { vp_conc(n as u64) } as usize;
                    ck(s.len() == n, "as many bytes as asked for");
                    ck(s == &b[o..o + n], "the bytes at the offset");
                }
            }
        }
    }
}

/// Formatted length param(0), any content; any 64-bit offset
#[no_mangle]
pub extern "C" fn c06_string() {
    let l = param(0);
    if let (b, Some(r)) = raw(l) {
        let o = u64_() as usize;
        let inside = o >= 4 && o < l;
        match string(&r, o) {
            Ok(s) => {
                cover("string");
                ck(inside, "a string reference outside the formatted area is absent");
                if inside {
                    let o = unsafe { vp_conc(o as u64) } as usize;
                    ck(s == str_of(b[o]) && b[o] <= 3, "the string referenced at the offset");
                }
            }
            Err(MalformedStructureError::InvalidSlice(_)) => {
                cover("absent");
                ck(!inside, "a string reference inside the formatted area is read");
            }
            Err(MalformedStructureError::InvalidStringIndex(i, h, x)) => {
                cover("missing string");
                ck(inside, "a string reference outside the formatted area is absent");
                if inside {
                    let o = unsafe { vp_conc(o as u64) } as usize;
                    ck(b[o] > 3 && x == b[o], "the error names the reference");
                    ck(i == InfoType::Oem(200), "the error names the type");
                    ck(h == b[2] as u16 | (b[3] as u16) << 8, "the error names the handle");
                }
            }
            Err(_) => ck(false, "an absent string reference is reported as such"),
        }
    }
}

/// The conversions of slices of param(0) bytes to numbers: exactly those of the number's size
#[no_mangle]
pub extern "C" fn c06_bytes() {
    let n = param(0);
    let b: &[u8] = any_buf(n);
    macro_rules! t {
        ($t:ty, $n:expr) => {
            match <$t as TryFromBytes<'static, $t>>::try_from_bytes(b) {
                Err(_) => ck(n != $n, "a slice of the right size is converted"),
                Ok(x) => {
                    ck(n == $n, "a slice of another size is not converted");
                    let mut w: $t = 0;
                    for i in 0..$n.min(n) {
                        w |= (b[i] as $t) << (8 * i);
                    }
                    ck(x == w, "the little-endian value");
                    cover("converted");
                }
            }
        };
    }
    t!(u8, 1);
    t!(u16, 2);
    t!(u32, 4);
    t!(u64, 8);
    t!(u128, 16);
}
