//! C04: when a table walk stops
use super::common::*;
use super::c03k::{handle_of, supported};

/// param(0) structures of param(1) formatted bytes with symbolic type, handle and content, an
/// empty string set each, under any version: the walk yields one item per structure (a decode
/// error does not end it), up to and including an end-of-table marker if the major version is 3 or
/// more, and nothing after that.
#[no_mangle]
pub extern "C" fn c04_stop() {
    let (k, l) = (param(0), param(1));
    let s = l + 2;
    let b = zero_buf(k * s);
    for i in 0..k {
        unsafe { vp_any(b.as_mut_ptr().add(i * s), l) };
        b[i * s + 1] = l as u8;
    }
    let b: &[u8] = b;
    let (major, minor) = (u8_(), u8_());
    let mut it = walk(b, b.len() as u16, major, minor);
    let mut i = 0;
    while i < k {
        let kind = b[i * s];
        let handle = b[i * s + 2] as u16 | (b[i * s + 3] as u16) << 8;
        match next_item(&mut it) {
            None => ck(false, "every structure before the end of the table is yielded"),
            Some(Ok(x)) => {
                cover("structure");
                ck(handle_of(&x) == handle, "structures are yielded in table order");
            }
            Some(Err(e)) => {
                cover("decode error");
                if i + 1 < k {
                    cover("decode error before other structures");
                }
                ck(supported(kind), "only decoders fail on a well framed table");
                match e {
                    MalformedStructureError::InvalidStringIndex(_, h, _) => {
                        ck(h == handle, "a decode error names the handle of its structure")
                    }
                    MalformedStructureError::InvalidFormattedSectionLength(_, h, _, _) => {
                        ck(h == handle, "a decode error names the handle of its structure")
                    }
                    MalformedStructureError::InvalidSlice(_) => (),
                    _ => ck(false, "a well framed structure is not reported as ill framed"),
                }
            }
        }
        i += 1;
        if kind == 127 {
            if major >= 3 {
                cover("end of table marker");
                break;
            } else {
                cover("end of table marker of version 2");
            }
        }
    }
    for _ in 0..3 {
        ck(next_item(&mut it).is_none(), "nothing is yielded after the end of the table");
    }
}

/// A framing error is reported once and ends the walk, whatever follows: a first structure of any
/// content and param(0) further bytes, with the table length anywhere.
#[no_mangle]
pub extern "C" fn c04_error() {
    let n = param(0);
    let b: &[u8] = any_buf(n);
    let (len, major, minor) = (u16_(), u8_(), u8_());
    let mut it = walk(b, len, major, minor);
    let mut items = 0;
    let mut failed = false;
    loop {
        match next_item(&mut it) {
            None => break,
            Some(r) => {
                ck(!failed, "nothing is yielded after a framing error");
                items += 1;
                ck(items <= n / 4, "the walk takes at least a header per item");
                if items > n / 4 {
                    break;
                }
                if let Err(MalformedStructureError::BadSize(..) | MalformedStructureError::UnterminatedStrings(..)) = r {
                    cover("framing error");
                    failed = true;
                }
            }
        }
    }
    ck(next_item(&mut it).is_none(), "an exhausted walk stays exhausted");
}
