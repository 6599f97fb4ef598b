//! C05: string references
use super::common::*;

/// UTF-8 validity of b[i..j], written from the definition (Unicode, table 3-7)
pub fn utf8(b: &[u8], mut i: usize, j: usize) -> bool {
    while i < j {
        let c = b[i];
        let n = if c < 0x80 {
            0
        } else if c < 0xC2 || c > 0xF4 {
            return false;
        } else if c < 0xE0 {
            1
        } else if c < 0xF0 {
            2
        } else {
            3
        };
        if i + n >= j {
            return false;
        }
        if n > 0 {
            let d = b[i + 1];
            let (lo, hi) = match c {
                0xE0 => (0xA0, 0xBF),
                0xED => (0x80, 0x9F),
                0xF0 => (0x90, 0xBF),
                0xF4 => (0x80, 0x8F),
                _ => (0x80, 0xBF),
            };
            if d < lo || d > hi {
                return false;
            }
            let mut k = 2;
            while k <= n {
                if b[i + k] & 0xC0 != 0x80 {
                    return false;
                }
                k += 1;
            }
        }
        i += n + 1;
    }
    true
}

#[inline(never)]
fn find<'a>(r: &RawStructure<'a>, i: u8) -> Result<&'a str, MalformedStructureError> {
    r.find_string(i)
}
#[inline(never)]
fn at<'a>(r: &RawStructure<'a>, o: usize) -> Result<&'a str, MalformedStructureError> {
    r.get_string(o)
}
#[inline(never)]
fn next_str<'a>(it: &mut StructureStrings<'a>) -> Option<&'a str> {
    it.next()
}

/// The (start, end) of string number `idx`, or None; and whether an earlier string is not UTF-8
fn string_number(b: &[u8], from: usize, end: usize, idx: u8) -> (Option<(usize, usize)>, bool) {
    let mut i = from;
    let mut k = 1;
    let mut bad = false;
    loop {
        let mut j = i;
        while j < end && b[j] != 0 {
            j += 1;
        }
        if j == i {
            return (None, bad);
        }
        if k == idx {
            return (Some((i, j)), bad);
        }
        bad |= !utf8(b, i, j);
        i = j + 1;
        k += 1;
    }
}

fn same(got: &str, b: &[u8], i: usize, j: usize) -> bool {
    got.as_bytes() == &b[i..j]
}

/// param(0) bytes of any content behind a formatted area: the string set of a structure without
/// decoder, which any reference is looked up in; param(1): 0 the reference is an argument, 1 it is
/// a byte of the formatted area
#[no_mangle]
pub extern "C" fn c05_reference() {
    let (n, how) = (param(0), param(1));
    let l = 6;
    let b = any_buf(l + n);
    b[0] = 200;
    b[1] = l as u8;
    let b: &[u8] = b;
    // the end of the set
    let mut j = l;
    while j + 1 < l + n && !(b[j] == 0 && b[j + 1] == 0) {
        j += 1;
    }
    assume(j + 1 < l + n);
    let handle = b[2] as u16 | (b[3] as u16) << 8;
    match first(b, 2, 8) {
        Some(Ok(Structure::Other(r))) => {
            let (idx, got) = if how == 0 {
                let i = u8_();
                (i, find(&r, i))
            } else {
                (b[5], at(&r, 5))
            };
            let idx = if idx as usize > n { 255 } else { conc8(idx) };
            if idx == 0 {
                cover("reference zero");
                ck(matches!(got, Ok("")), "reference zero is the empty string");
                return;
            }
            match string_number(b, l, j, idx) {
                (None, _) => {
                    cover("missing string");
                    match got {
                        Ok(_) => ck(false, "a reference to a missing string is an error"),
                        Err(MalformedStructureError::InvalidStringIndex(i, h, x)) => {
                            ck(i == InfoType::Oem(200), "the error names the structure type");
                            ck(h == handle, "the error names the handle");
                            ck(if idx == 255 { x as usize > n } else { x == idx }, "the error names the reference");
                        }
                        Err(_) => ck(false, "a missing string is a string index error"),
                    }
                }
                (Some((i, e)), earlier) => {
                    if utf8(b, i, e) {
                        match got {
                            Err(_) => ck(false, "an existing string is found"),
                            Ok(s) => {
                                cover("string");
                                if idx > 1 {
                                    cover("second string");
                                }
                                if earlier {
                                    cover("behind a string that is not UTF-8");
                                }
                                ck(same(s, b, i, e), "the string is the one referenced");
                            }
                        }
                    } else {
                        cover("not UTF-8");
                        ck(got.is_err(), "a string that is not UTF-8 is an error");
                    }
                }
            }
        }
        _ => ck(false, "a structure without decoder is yielded"),
    }
}

/// The strings of a structure, in order, of a set of param(0) bytes of UTF-8, or up to the first that is not
#[no_mangle]
pub extern "C" fn c05_strings() {
    let n = param(0);
    let l = 5;
    let b = any_buf(l + n);
    b[0] = 11;
    b[1] = l as u8;
    let b: &[u8] = b;
    let mut j = l;
    while j + 1 < l + n && !(b[j] == 0 && b[j + 1] == 0) {
        j += 1;
    }
    assume(j + 1 < l + n);
    match first(b, 2, 8) {
        Some(Ok(Structure::OemStrings(s))) => {
            let mut it = s.strings;
            let mut i = l;
            loop {
                let mut e = i;
                while e < j && b[e] != 0 {
                    e += 1;
                }
                if e > i && !utf8(b, i, e) {
                    return;
                }
                match next_str(&mut it) {
                    None => {
                        cover("end");
                        ck(e == i, "every string is yielded");
                        break;
                    }
                    Some(t) => {
                        cover("string");
                        ck(e > i, "only strings are yielded");
                        ck(same(t, b, i, e), "strings are yielded in order");
                    }
                }
                i = e + 1;
            }
            ck(next_str(&mut it).is_none(), "strings end once");
        }
        _ => ck(false, "a valid structure is decoded"),
    }
}

/// A string of param(0) bytes, all the same, and another behind it
#[no_mangle]
pub extern "C" fn c05_long() {
    let n = param(0);
    let l = 4;
    let b = zero_buf(l + n + 4);
    b[0] = 200;
    b[1] = l as u8;
    let c = u8_();
    assume(c >= 1 && c < 128);
    for i in 0..n {
        b[l + i] = c;
    }
    let d = u8_();
    assume(d >= 1 && d < 128);
    b[l + n + 1] = d;
    let b: &[u8] = b;
    match first(b, 2, 8) {
        Some(Ok(Structure::Other(r))) => {
            match find(&r, 1) {
                Ok(s) => {
                    cover("string");
                    ck(s.len() == n, "a long string has its length");
                    let mut ok = true;
                    for &x in s.as_bytes() {
                        ok &= x == c;
                    }
                    ck(ok, "a long string is itself");
                }
                Err(_) => ck(false, "a long string is found"),
            }
            match find(&r, 2) {
                Ok(s) => ck(s.len() == 1 && s.as_bytes()[0] == d, "a string behind a long one is itself"),
                Err(_) => ck(false, "a string behind a long one is found"),
            }
        }
        _ => ck(false, "a structure without decoder is yielded"),
    }
}

/// The iteration of a string of param(0) bytes, all the same, and another behind it
#[no_mangle]
pub extern "C" fn c05_long_strings() {
    let n = param(0);
    let l = 5;
    let b = zero_buf(l + n + 4);
    b[0] = 11;
    b[1] = l as u8;
    let c = u8_();
    assume(c >= 1 && c < 128);
    for i in 0..n {
        b[l + i] = c;
    }
    let d = u8_();
    assume(d >= 1 && d < 128);
    b[l + n + 1] = d;
    let b: &[u8] = b;
    match first(b, 2, 8) {
        Some(Ok(Structure::OemStrings(s))) => {
            let mut it = s.strings;
            match next_str(&mut it) {
                Some(s) => {
                    cover("string");
                    ck(s.len() == n, "a long string has its length");
                    let mut ok = true;
                    for &x in s.as_bytes() {
                        ok &= x == c;
                    }
                    ck(ok, "a long string is itself");
                }
                None => ck(false, "a long string is yielded"),
            }
            match next_str(&mut it) {
                Some(s) => ck(s.len() == 1 && s.as_bytes()[0] == d, "a string behind a long one is itself"),
                None => ck(false, "a string behind a long one is yielded"),
            }
            ck(next_str(&mut it).is_none(), "strings end once");
        }
        _ => ck(false, "a valid structure is decoded"),
    }
}

/// The iteration of param(0) strings, the one of number param(1) with a content of its own
#[no_mangle]
pub extern "C" fn c05_many_strings() {
    let (k, idx) = (param(0), param(1));
    let l = 5;
    let b = zero_buf(l + 2 * k + 1);
    b[0] = 11;
    b[1] = l as u8;
    let c = u8_();
    assume(c >= 1 && c < 128);
    for i in 0..k {
        b[l + 2 * i] = b'x';
    }
    b[l + 2 * (idx - 1)] = c;
    let b: &[u8] = b;
    match first(b, 2, 8) {
        Some(Ok(Structure::OemStrings(s))) => {
            let mut it = s.strings;
            for i in 1..=k {
                match next_str(&mut it) {
                    Some(s) => {
                        cover("string");
                        ck(s.len() == 1 && s.as_bytes()[0] == if i == idx { c } else { b'x' }, "strings are yielded in order");
                    }
                    None => ck(false, "every string is yielded"),
                }
            }
            ck(next_str(&mut it).is_none(), "strings end once");
        }
        _ => ck(false, "a valid structure is decoded"),
    }
}

/// param(0) strings, the one of number param(1) with a content of its own
#[no_mangle]
pub extern "C" fn c05_many() {
    let (k, idx) = (param(0), param(1));
    let l = 4;
    let b = zero_buf(l + 2 * k + 1);
    b[0] = 200;
    b[1] = l as u8;
    let c = u8_();
    assume(c >= 1 && c < 128);
    for i in 0..k {
        b[l + 2 * i] = b'x';
    }
    if idx <= k {
        b[l + 2 * (idx - 1)] = c;
    }
    let b: &[u8] = b;
    match first(b, 2, 8) {
        Some(Ok(Structure::Other(r))) => match find(&r, idx as u8) {
            Ok(s) => {
                cover("string");
                ck(idx <= k, "a reference to a missing string is an error");
                ck(s.len() == 1 && s.as_bytes()[0] == c, "the string is the one referenced");
            }
            Err(_) => {
                cover("missing string");
                ck(idx > k, "an existing string is found");
            }
        },
        _ => ck(false, "a structure without decoder is yielded"),
    }
}
