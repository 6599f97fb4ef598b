//! C03: the table walk yields exactly the structures of the table, in order
use super::c03k::*;
use super::common::*;

fn info_of(k: u8) -> InfoType {
    match k {
        32 => InfoType::SystemBoot,
        127 => InfoType::End,
        k => InfoType::Oem(k),
    }
}
/// Walks the table and the oracle side by side. `only_other` restricts the types to those without
/// a decoder, whose content can be compared byte by byte.
pub fn lockstep(b: &[u8], len: u16, major: u8, minor: u8, only_other: bool, max_items: usize) {
    steps(walk(b, len, major, minor), b, 0, len as usize, major, minor, only_other, max_items)
}
/// The same from offset `idx` on
fn steps(mut it: Structures, b: &[u8], mut idx: usize, len: usize, major: u8, minor: u8, only_other: bool, max_items: usize) {
    let n = b.len();
    let tl = len.min(n);
    let mut items = 0;
    let mut ended = false;
    loop {
        if idx + 4 <= n && idx + 4 <= tl && only_other && !ended {
            assume(!supported(b[idx]));
        }
        let got = next_item(&mut it);
        if ended || idx + 4 > tl {
            ck(got.is_none(), "the walk ends at the end of the table");
            break;
        }
        items += 1;
        if items > max_items {
            ck(false, "more structures than the bound of the harness");
            break;
        }
        let kind = b[idx];
        let l = b[idx + 1];
        let handle = b[idx + 2] as u16 | (b[idx + 3] as u16) << 8;
        if (l as usize) < 4 || idx + l as usize >= tl {
            cover("bad size");
            ck(
                matches!(got, Some(Err(MalformedStructureError::BadSize(o, x))) if o as usize == idx && x == l),
                "a structure reaching past the table is BadSize at its offset",
            );
            ended = true;
            continue;
        }
        let l = conc8(l) as usize;
        let mut j = idx + l;
        while j + 1 < n && !(b[j] == 0 && b[j + 1] == 0) {
            j += 1;
        }
        if j + 1 >= n {
            cover("unterminated");
            ck(
                matches!(got, Some(Err(MalformedStructureError::UnterminatedStrings(o))) if o as usize == idx),
                "a string set without end is UnterminatedStrings at the structure's offset",
            );
            ended = true;
            continue;
        }
        let end = j + 2;
        match got {
            None => ck(false, "a structure inside the table is yielded"),
            Some(Ok(Structure::Other(r))) => {
                cover("raw structure");
                if items == 2 {
                    cover("second structure");
                }
                ck(!supported(kind), "a structure type with a decoder is decoded");
                ck(r.info == info_of(kind), "raw type");
                ck(r.length as usize == l, "raw length");
                ck(r.handle == handle, "raw handle");
                ck(r.version == SmbiosVersion { major, minor }, "raw version");
                ck(r.data.len() == l - 4, "raw data length");
                ck(r.data == &b[idx + 4..idx + l], "raw data");
            }
            Some(Ok(s)) => {
                cover("decoded structure");
                ck(kind_of(&s) == Some(kind), "a structure is decoded by the decoder of its type");
                ck(handle_of(&s) == handle, "a decoded structure carries its handle");
            }
            Some(Err(e)) => {
                cover("decode error");
                ck(supported(kind), "a structure without a decoder is always yielded");
                ck(
                    !matches!(
                        e,
                        MalformedStructureError::BadSize(..) | MalformedStructureError::UnterminatedStrings(..)
                    ),
                    "a well framed structure is not reported as ill framed",
                );
            }
        }
        if major >= 3 && kind == 127 {
            cover("end of table");
            ended = true;
        }
        idx = end;
    }
    // exhausted iterators stay exhausted
    ck(next_item(&mut it).is_none(), "an exhausted walk stays exhausted");
    ck(next_item(&mut it).is_none(), "an exhausted walk stays exhausted");
}

/// Every buffer of param(0) bytes, every table length, version and structure type without decoder
#[no_mangle]
pub extern "C" fn c03_raw() {
    let n = param(0);
    let b: &[u8] = any_buf(n);
    let (len, major, minor) = (u16_(), u8_(), u8_());
    lockstep(b, len, major, minor, true, 64);
}

/// Every buffer of param(0) bytes, every table length, version and structure type
#[no_mangle]
pub extern "C" fn c03_all() {
    let n = param(0);
    let b: &[u8] = any_buf(n);
    let (len, major, minor) = (u16_(), u8_(), u8_());
    lockstep(b, len, major, minor, false, 64);
}

/// The table of a version 3 entry point of any length (32 bits)
#[no_mangle]
pub extern "C" fn c03_raw3() {
    let b: &[u8] = any_buf(param(0));
    let (len, major, minor) = (u32_(), u8_(), u8_());
    steps(walk3(b, len, major, minor), b, 0, len as usize, major, minor, true, 64);
}

/// param(1) bytes at offset param(0), behind a structure whose string set reaches up to there; param(2)
/// is the kind of entry point
#[no_mangle]
pub extern "C" fn c03_far() {
    let (p, n) = (param(0), param(1));
    let b = zero_buf(p + n);
    unsafe { vp_any(b.as_mut_ptr().add(p), n) };
    b[0] = 200;
    b[1] = 4;
    for i in 4..p - 2 {
        b[i] = b'x';
    }
    let b: &[u8] = b;
    let (major, minor) = (u8_(), u8_());
    let (mut it, len) = if param(2) == 2 {
        let len = u16_();
        assume(len > 4);
        (walk(b, len, major, minor), len as usize)
    } else {
        let len = u32_();
        assume(len > 4);
        (walk3(b, len, major, minor), len as usize)
    };
    match next_item(&mut it) {
        Some(Ok(Structure::Other(r))) => ck(r.length == 4 && r.handle == 0, "the first structure"),
        _ => ck(false, "the first structure is yielded"),
    }
    steps(it, b, p, len, major, minor, true, 64);
}

/// param(1) bytes behind param(0) structures; param(2) is the kind of entry point
#[no_mangle]
pub extern "C" fn c03_many() {
    let (k, n) = (param(0), param(1));
    let p = k * 6;
    let b = zero_buf(p + n);
    unsafe { vp_any(b.as_mut_ptr().add(p), n) };
    for i in 0..k {
        b[6 * i] = 200;
        b[6 * i + 1] = 4;
        b[6 * i + 2] = i as u8;
        b[6 * i + 3] = (i >> 8) as u8;
    }
    let b: &[u8] = b;
    let (major, minor) = (u8_(), u8_());
    let (mut it, len) = if param(2) == 2 {
        let len = u16_();
        assume(len as usize >= p);
        (walk(b, len, major, minor), len as usize)
    } else {
        let len = u32_();
        assume(len as usize >= p);
        (walk3(b, len, major, minor), len as usize)
    };
    for i in 0..k {
        match next_item(&mut it) {
            Some(Ok(Structure::Other(r))) => ck(
                r.info == InfoType::Oem(200) && r.length == 4 && r.handle as usize == i && r.data.is_empty(),
                "the structures in front are yielded in order",
            ),
            _ => ck(false, "the structures in front are yielded"),
        }
    }
    steps(it, b, p, len, major, minor, true, 64);
}

/// A structure of formatted length param(0) whose end is anywhere near that of the buffer
#[no_mangle]
pub extern "C" fn c03_long() {
    let (l, n) = (param(0), param(1));
    let b = zero_buf(n);
    b[0] = 200;
    b[1] = l as u8;
    b[2] = u8_();
    b[3] = u8_();
    let m = n.min(l.max(8) - 4);
    unsafe { vp_any(b.as_mut_ptr().add(m), n - m) };
    let b: &[u8] = b;
    let (len, major, minor) = (u32_(), u8_(), u8_());
    steps(walk3(b, len, major, minor), b, 0, len as usize, major, minor, true, 64);
}
