//! C24: what the error of a rejected structure says
use super::common::*;
use dmidecode::MalformedStructureError as E;

/// The length (or the smallest one) of structures of this type and version, None if it depends on more
fn length(t: usize, o: &O) -> Option<u8> {
    Some(match t {
        0 => 0x12,
        1 | 2 => 8,
        3 | 8 => 9,
        4 => 0x1A,
        7 => 0x0F,
        9 => {
            if o.since(2, 6) {
                0x11
            } else if o.since(2, 1) {
                0x0D
            } else {
                0x0C
            }
        }
        13 => {
            if o.since(2, 1) {
                0x16
            } else {
                0x15
            }
        }
        14 => 5,
        15 => {
            if !o.since(2, 1) {
                0x14
            } else if !o.has(0x15, 2) {
                0x17
            } else {
                let l = 0x17 + o.u8(0x15) as usize * o.u8(0x16) as usize;
                if l > 255 {
                    // no length is right
                    return None;
                }
                l as u8
            }
        }
        17 => 0x15,
        18 => 0x17,
        19 => {
            if o.since(2, 7) {
                0x1F
            } else {
                0x0F
            }
        }
        20 => {
            if o.since(2, 7) {
                0x23
            } else {
                0x13
            }
        }
        21 => 7,
        22 => {
            if o.since(2, 2) {
                0x1A
            } else {
                0x10
            }
        }
        _ => return None,
    })
}

fn info(t: usize) -> InfoType {
    (t as u8).into()
}

/// Type param(0), formatted length param(1), any content and version
#[no_mangle]
pub extern "C" fn c24_reject() {
    let (t, l) = (param(0), param(1));
    let b: &[u8] = table(t as u8, l, STRS);
    let v = (u8_(), u8_());
    let o = O::new(b, l, v);
    match first(b, v.0, v.1) {
        None => ck(false, "a well framed structure is yielded"),
        Some(Ok(_)) => {}
        Some(Err(E::InvalidFormattedSectionLength(i, h, how, n))) => {
            cover("length");
            ck(i == info(t), "the length error names the structure type");
            ck(h == o.handle(), "the length error names the handle");
            ck(how.is_empty() || how.ends_with(' '), "the length is set apart from the text before it");
            if let Some(want) = length(t, &o) {
                ck(n == want, "the length error names the length to have");
                ck(n as usize != l, "the length error does not name the length it rejects");
            }
        }
        Some(Err(E::InvalidStringIndex(i, h, x))) => {
            cover("string");
            ck(i == info(t), "the string error names the structure type");
            ck(h == o.handle(), "the string error names the handle");
            ck(x > 3 || t == 12, "the string error names a reference to a missing string");
            let mut found = false;
            for k in 4..l {
                found |= o.u8(k) == x;
            }
            ck(found, "the string error names a reference of the structure");
        }
        Some(Err(E::InvalidSlice(_))) => cover("slice"),
        Some(Err(_)) => ck(false, "a well framed structure is not reported as ill framed"),
    }
}
