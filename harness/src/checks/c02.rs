//! C02: no panic, no read outside the table, no endless loop. The engine reports each of these by
//! itself; the harnesses drive the code through everything a table offers.
use super::common::*;
use dmidecode::bitfield::BitField;

/// Everything a decoded structure offers: its iterators, run beyond their end, and its conversions.
/// `max`: a bound of the number of items no iterator may exceed
fn exercise(s: &Structure, max: usize) {
    match s {
        Structure::Other(r) => {
            let i = u8_();
            let o = u64_() as usize;
            raw_access(r, i, o, u64_() as usize);
        }
        Structure::Enclosure(x) => {
            if let Some(e) = &x.contained_elements {
                let mut it = e.clone();
                ends(max, || used(it.next()));
            }
        }
        Structure::SystemSlots(x) => {
            if let Some(e) = &x.peer_devices {
                let mut it = e.clone();
                ends(max, || used(it.next()));
            }
        }
        Structure::OemStrings(x) => strings(x.strings, max),
        Structure::SystemConfigurationOptions(x) => strings(x.strings, max),
        Structure::BiosLanguage(x) => {
            let mut it = x.installable_languages.clone();
            ends(max, || used(it.next()));
        }
        Structure::GroupAssociations(x) => {
            let mut it = x.items.clone();
            ends(max, || used(it.next()));
        }
        Structure::SystemEventLog(x) => {
            if let Some(d) = &x.supported_event_log_type_descriptors {
                let mut it = d.clone();
                ends(max, || used(it.next()));
            }
        }
        Structure::PortableBattery(x) => {
            let n: u64 = x.design_capacity.clone().into();
            keep(n)
        }
        Structure::Cache(x) => {
            keep(x.maximum_cache_size.bytes());
            keep(x.installed_size.bytes());
        }
        _ => (),
    }
}
/// String iterators end, but may go on when asked again after a string that is not UTF-8
fn strings(mut it: StructureStrings, max: usize) {
    let mut n = 0;
    for _ in 0..=max {
        if !used(it.next()) {
            n += 1;
        }
    }
    ck(n > 0, "the strings of a structure end");
}
fn used<T>(v: Option<T>) -> bool {
    let r = v.is_some();
    keep(v);
    r
}
#[inline(never)]
fn raw_access(r: &RawStructure, i: u8, o: usize, n: usize) {
    match choose(8) {
        0 => keep(r.find_string(i)),
        1 => keep(r.get::<u8>(o)),
        2 => keep(r.get::<u16>(o)),
        3 => keep(r.get::<u32>(o)),
        4 => keep(r.get::<u64>(o)),
        5 => keep(r.get::<u128>(o)),
        6 => keep(r.get_string(o)),
        _ => keep(r.get_slice(o, n)),
    }
}
#[inline(always)]
fn ends(max: usize, mut next: impl FnMut() -> bool) {
    let mut n = 0;
    while next() {
        n += 1;
        if n > max {
            ck(false, "an iterator of a structure ends");
            return;
        }
    }
    ck(!next(), "an exhausted iterator stays exhausted");
}

fn drive(b: &[u8], mut it: Structures) {
    let mut items = 0;
    loop {
        match next_item(&mut it) {
            None => break,
            Some(Ok(s)) => {
                cover("structure");
                exercise(&s, b.len().max(255));
                keep(s);
            }
            Some(Err(e)) => {
                cover("error");
                keep(e);
            }
        }
        items += 1;
        if items > b.len() / 4 {
            ck(false, "a walk ends");
            break;
        }
    }
    ck(next_item(&mut it).is_none(), "an exhausted walk stays exhausted");
}

/// A structure of type param(0), formatted length param(1) and any content, followed by param(2)
/// bytes: any bytes if param(3) is 0, else the zeros that end an empty string set; any version, any
/// announced table length of up to 32 bits
#[no_mangle]
pub extern "C" fn c02_type() {
    let (kind, l, s, mode) = (param(0), param(1), param(2), param(3));
    let b = any_buf(l + s);
    b[0] = kind as u8;
    b[1] = l as u8;
    if mode == 1 {
        for i in l..l + s {
            b[i] = 0;
        }
    }
    let b: &[u8] = b;
    let len = u32_();
    drive(b, walk3(b, len, u8_(), u8_()));
}

/// Any param(0) bytes under any version and announced length
#[no_mangle]
pub extern "C" fn c02_any() {
    let b: &[u8] = any_buf(param(0));
    let len = u32_();
    drive(b, walk3(b, len, u8_(), u8_()));
}

/// A structure of type param(0), formatted length param(1) and any content with many items: param(2) strings, and as many
/// records of as many bytes announced as param(3) and param(4) say
#[no_mangle]
pub extern "C" fn c02_many() {
    let (kind, l, k) = (param(0), param(1), param(2));
    let b = zero_buf(l + 2 * k + 2);
    unsafe { vp_any(b.as_mut_ptr(), l) };
    b[0] = kind as u8;
    b[1] = l as u8;
    for i in 0..k {
        b[l + 2 * i] = b'x';
    }
    // where the number and the length of the records are
    let at = match kind {
        3 => (19, 20),
        9 => (18, 18),
        15 => (21, 22),
        _ => (4, 4),
    };
    if l > at.1 && kind != 14 {
        b[at.1] = param(4) as u8;
        b[at.0] = param(3) as u8;
    }
    if l > 64 && (kind == 3 || kind == 15) {
        // the records in the middle are zero
        for x in b[32..l - 8].iter_mut() {
            *x = 0;
        }
    }
    let b: &[u8] = b;
    let len = u32_();
    drive(b, walk3(b, len, u8_(), u8_()));
}

fn flags<'a, T: BitField<'a>>(f: &T)
where
    T::Size: core::fmt::Debug,
{
    match choose(3) {
        0 => {
            let mut it = f.iter();
            ends(128, || used(it.next()));
        }
        1 => {
            let mut it = f.reserved();
            ends(128, || used(it.next()));
        }
        _ => {
            // up to the first ones
            let mut it = f.significants();
            if used(it.next()) {
                used(it.next());
            }
        }
    }
}

/// The flags of a structure of type param(0) and formatted length param(1)
#[no_mangle]
pub extern "C" fn c02_flags() {
    let (kind, l) = (param(0), param(1));
    let b: &[u8] = table(kind as u8, l, b"\0\0");
    match first(b, 3, 4) {
        Some(Ok(Structure::Bios(x))) => match choose(3) {
            0 => flags(&x.bios_characteristics),
            1 => {
                if let Some(f) = &x.bios_characteristics_exttension_1 {
                    flags(f)
                }
            }
            _ => {
                if let Some(f) = &x.bios_characteristics_exttension_2 {
                    flags(f)
                }
            }
        },
        Some(Ok(Structure::SystemSlots(x))) => {
            if choose(2) == 0 {
                flags(&x.slot_characteristics_1)
            } else if let Some(f) = &x.slot_characteristics_2 {
                flags(f)
            }
        }
        Some(Ok(Structure::BiosLanguage(x))) => {
            if let Some(f) = &x.flags {
                flags(f)
            }
        }
        Some(Ok(Structure::SystemEventLog(x))) => flags(&x.log_status),
        _ => (),
    }
    cover("done");
}

/// Any param(1) bytes behind param(0) structures of the types without decoder
#[no_mangle]
pub extern "C" fn c02_table() {
    let (k, n) = (param(0), param(1));
    let b = zero_buf(6 * k + n);
    for i in 0..k {
        b[6 * i] = 128 + (i & 127) as u8;
        b[6 * i + 1] = 4;
        b[6 * i + 2] = i as u8;
        b[6 * i + 3] = (i >> 8) as u8;
    }
    unsafe { vp_any(b.as_mut_ptr().add(6 * k), n) };
    let b: &[u8] = b;
    let len = u32_();
    assume(len as usize >= 6 * k);
    let mut it = walk3(b, len, u8_(), u8_());
    for _ in 0..k {
        ck(matches!(next_item(&mut it), Some(Ok(Structure::Other(_)))), "the structures in front are yielded");
    }
    drive(b, it);
}
