//! C07: decoding a structure depends only on that structure and the version
use super::common::*;

fn same_item(a: &Item, b: &Item) -> bool {
    use MalformedStructureError::*;
    match (a, b) {
        (Some(Ok(x)), Some(Ok(y))) => x == y,
        (Some(Err(x)), Some(Err(y))) => match (x, y) {
            (InvalidStringIndex(a, b, c), InvalidStringIndex(d, e, f)) => a == d && b == e && c == f,
            (InvalidSlice(_), InvalidSlice(_)) => true,
            (InvalidFormattedSectionLength(a, b, c, d), InvalidFormattedSectionLength(e, f, g, h)) => {
                a == e && b == f && c == g && d == h
            }
            _ => false,
        },
        _ => false,
    }
}

/// A structure of type param(0) and formatted length param(1) with any content and a string set of
/// param(2) any bytes and its end, once alone in a table of a version 3 entry point, once behind
/// another structure and before further bytes in the table of a version 2 entry point. Any
/// content around it, any table lengths that hold it, any version.
#[no_mangle]
pub extern "C" fn c07_isolated() {
    let (kind, l, s) = (param(0), param(1), param(2));
    let n = l + s + 2;
    let alone = any_buf(n);
    alone[0] = kind as u8;
    alone[1] = l as u8;
    // the set's end is at the end of the structure
    for i in l..l + s {
        assume(alone[i] != 0 || alone[i + 1] != 0);
    }
    if s > 0 {
        assume(alone[l + s - 1] != 0);
    }
    alone[n - 2] = 0;
    alone[n - 1] = 0;
    const P: usize = 9;
    let t = 3;
    let table = any_buf(P + n + t);
    table[0] = 201;
    table[1] = 7;
    table[7] = 0;
    table[8] = 0;
    table[P..P + n].copy_from_slice(alone);
    let (alone, table): (&[u8], &[u8]) = (alone, table);
    let (major, minor) = (u8_(), u8_());
    let len3 = u32_();
    assume(len3 as usize > l && len3 < 0x8000_0000);
    let len2 = u16_();
    assume(len2 as usize > P + l);
    let mut a = walk3(alone, len3, major, minor);
    let mut b = walk(table, len2, major, minor);
    let x = next_item(&mut a);
    match next_item(&mut b) {
        Some(Ok(Structure::Other(r))) => ck(r.handle == table[2] as u16 | (table[3] as u16) << 8, "the first structure"),
        _ => ck(false, "a structure without decoder is yielded"),
    }
    let mut c = b.clone();
    let y = next_item(&mut b);
    let z = next_item(&mut c);
    match &x {
        Some(Ok(_)) => cover("decoded"),
        Some(Err(_)) => cover("rejected"),
        None => ck(false, "the structure is yielded"),
    }
    ck(same_item(&x, &y), "a structure is decoded alike alone and among others");
    ck(same_item(&y, &z), "a copy of the walk continues like the walk");
    ck(b == c, "a copy of the walk stays equal to it");
}

/// The same, with the iterators of the structure's content
#[no_mangle]
pub extern "C" fn c07_iterators() {
    let (kind, l) = (param(0), param(1));
    let b: &[u8] = table(kind as u8, l, STRS);
    let v = (u8_(), u8_());
    let (x, y) = (first(b, v.0, v.1), first(b, v.0, v.1));
    ck(same_item(&x, &y), "decoding a table twice gives equal results");
    macro_rules! alike {
        ($i:expr) => {{
            let mut a = $i.clone();
            let mut n = 0;
            loop {
                let mut c = a.clone();
                ck(c == a, "a copy of an iterator is equal to it");
                let p = a.next();
                let q = c.next();
                ck(p == q, "a copy of an iterator continues like it");
                ck(c == a, "a copy of an iterator stays equal to it");
                n += 1;
                if p.is_none() || n > 8 {
                    break;
                }
                cover("item");
            }
        }};
    }
    match x {
        Some(Ok(Structure::Enclosure(s))) => {
            if let Some(i) = s.contained_elements {
                alike!(i)
            }
        }
        Some(Ok(Structure::SystemSlots(s))) => {
            if let Some(i) = s.peer_devices {
                alike!(i)
            }
        }
        Some(Ok(Structure::OemStrings(s))) => alike!(s.strings),
        Some(Ok(Structure::SystemConfigurationOptions(s))) => alike!(s.strings),
        Some(Ok(Structure::BiosLanguage(s))) => alike!(s.installable_languages),
        Some(Ok(Structure::GroupAssociations(s))) => alike!(s.items),
        Some(Ok(Structure::SystemEventLog(s))) => {
            if let Some(i) = s.supported_event_log_type_descriptors {
                alike!(i)
            }
        }
        _ => (),
    }
}
