//! C25: the iterators keep to what iterators promise, however they are advanced
use super::c03k::handle_of;
use super::common::*;
use dmidecode::bitfield::{BitField, FlagType, Layout};

const MAX: usize = 9;

/// The steps of an iterator taken one by one are the oracle for all other ways of advancing it.
fn laws<I: Iterator + Clone>(it: &I, same: fn(&I::Item, &I::Item) -> bool) {
    let alike = |a: &Option<I::Item>, b: &Option<I::Item>| match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => true,
        _ => false,
    };
    // one by one
    let mut items: [Option<I::Item>; MAX + 1] = [const { None }; MAX + 1];
    let mut n = 0;
    let mut i = it.clone();
    loop {
        let x = i.next();
        if x.is_none() {
            break;
        }
        cover("item");
        assume(n < MAX);
        items[n] = x;
        n += 1;
    }
    cover("end");
    ck(i.next().is_none() && i.next().is_none(), "an iterator that has ended stays so");
    ck(alike(&i.nth(0), &None), "an iterator that has ended has nothing to skip to");
    // the hint of every position
    let mut i = it.clone();
    for k in 0..=n {
        let (lo, hi) = i.size_hint();
        ck(lo <= n - k, "there are at least as many items as the hint says");
        ck(hi.unwrap_or(usize::MAX) >= n - k, "there are at most as many items as the hint says");
        let _ = i.next();
    }
    // all at once
    ck(Iterator::count(it.clone()) == n, "the number of items");
    if n > 0 {
        ck(alike(&it.clone().last(), &items[n - 1]), "the last item");
    } else {
        ck(it.clone().last().is_none(), "there is no last item");
    }
    let mut k = 0;
    it.clone().for_each(|x| {
        ck(k < n && same(&x, items[k].as_ref().unwrap_or(&x)), "the items taken together");
        k += 1;
    });
    ck(k == n, "the number of items taken together");
    // skipping some, at any position
    let from = choose(n + 1);
    let skip = choose(n - from + 2);
    let mut i = it.clone();
    for _ in 0..from {
        let _ = i.next();
    }
    let j = i.clone();
    let at = if from + skip < n { &items[from + skip] } else { &None };
    ck(alike(&i.nth(skip), at), "skipping items leads to the same one as taking them");
    if from + skip < n {
        cover("skipped");
        ck(alike(&i.next(), &items[from + skip + 1]), "after skipping, the items go on");
    }
    let mut k = j.clone();
    let mut j = j.skip(skip);
    ck(alike(&j.next(), at), "leaving items out leads to the same one as taking them");
    // far beyond the end
    let far = u64_() as usize;
    assume(far >= n);
    ck(k.nth(far).is_none(), "there is nothing beyond the end");
    ck(k.next().is_none(), "an iterator that was led beyond its end has ended");
}
/// The same for many items
const MANY: usize = 320;
fn laws_many<I: Iterator + Clone>(it: &I, same: fn(&I::Item, &I::Item) -> bool) {
    let alike = |a: &Option<I::Item>, b: &Option<I::Item>| match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => true,
        _ => false,
    };
    let mut items: [Option<I::Item>; MANY + 1] = [const { None }; MANY + 1];
    let mut n = 0;
    let mut i = it.clone();
    loop {
        let x = i.next();
        if x.is_none() {
            break;
        }
        assume(n < MANY);
        items[n] = x;
        n += 1;
    }
    cover("end");
    let mut i = it.clone();
    for k in 0..=n {
        let (lo, hi) = i.size_hint();
        ck(lo <= n - k, "there are at least as many items as the hint says");
        ck(hi.unwrap_or(usize::MAX) >= n - k, "there are at most as many items as the hint says");
        let _ = i.next();
    }
    ck(Iterator::count(it.clone()) == n, "the number of items");
    if n > 0 {
        cover("items");
        ck(alike(&it.clone().last(), &items[n - 1]), "the last item");
    }
    let mut k = 0;
    it.clone().for_each(|x| {
        ck(k < n && same(&x, items[k].as_ref().unwrap_or(&x)), "the items taken together");
        k += 1;
    });
    ck(k == n, "the number of items taken together");
    for from in [0, 1, n / 2, n] {
        for skip in [0, 1, 15, 16, 127, 128, 254, 255, 256, n.saturating_sub(1), n] {
            let mut i = it.clone();
            for _ in 0..from {
                let _ = i.next();
            }
            let at = if from + skip < n { &items[from + skip] } else { &None };
            ck(alike(&i.nth(skip), at), "skipping items leads to the same one as taking them");
            if from + skip < n {
                ck(alike(&i.next(), &items[from + skip + 1]), "after skipping, the items go on");
            }
        }
    }
}

/// A structure of type param(0) and formatted length param(1) with param(2) strings, or param(3) records of param(4) bytes
#[no_mangle]
pub extern "C" fn c25_many() {
    let (kind, l, k) = (param(0), param(1), param(2));
    let b = zero_buf(l + 2 * k + 2);
    b[0] = kind as u8;
    b[1] = l as u8;
    for i in 4..l {
        b[i] = i as u8;
    }
    for i in 0..k {
        b[l + 2 * i] = b'a' + (i % 26) as u8;
    }
    if k > 0 {
        let c = u8_();
        assume(c > 0 && c < 128);
        b[l + 2 * (k / 2)] = c;
    }
    let (number, length) = match kind {
        3 => (19, 20),
        9 => (18, 18),
        15 => (21, 22),
        _ => (4, 4),
    };
    // no references to strings
    match kind {
        3 => {
            b[4] = 0;
            b[6] = 0;
            b[7] = 0;
            b[8] = 0;
            // behind the records
            let sku = 21 + param(3) * param(4);
            if sku < l {
                b[sku] = 0;
            }
        }
        9 | 14 => b[4] = 0,
        _ => (),
    }
    if kind == 3 || kind == 9 || kind == 15 || kind == 12 || kind == 13 {
        b[length] = param(4) as u8;
        b[number] = param(3) as u8;
    }
    let b: &[u8] = b;
    match first(b, 3, 4) {
        Some(Ok(Structure::Enclosure(s))) => {
            if let Some(i) = s.contained_elements {
                laws_many(&i, eq)
            }
        }
        Some(Ok(Structure::SystemSlots(s))) => {
            if let Some(i) = s.peer_devices {
                laws_many(&i, eq)
            }
        }
        Some(Ok(Structure::OemStrings(s))) => laws_many(&s.strings, eq),
        Some(Ok(Structure::SystemConfigurationOptions(s))) => laws_many(&s.strings, eq),
        Some(Ok(Structure::BiosLanguage(s))) => laws_many(&s.installable_languages, eq),
        Some(Ok(Structure::GroupAssociations(s))) => laws_many(&s.items, eq),
        Some(Ok(Structure::SystemEventLog(s))) => {
            if let Some(i) = s.supported_event_log_type_descriptors {
                laws_many(&i, eq)
            }
        }
        _ => ck(false, "the structure is decoded"),
    }
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

/// The iterators of a structure of type param(0) and formatted length param(1), any content
#[no_mangle]
pub extern "C" fn c25_content() {
    let (kind, l) = (param(0), param(1));
    let b: &[u8] = table(kind as u8, l, STRS);
    match first(b, u8_(), u8_()) {
        Some(Ok(Structure::Enclosure(s))) => {
            if let Some(i) = s.contained_elements {
                laws(&i, eq)
            }
        }
        Some(Ok(Structure::SystemSlots(s))) => {
            if let Some(i) = s.peer_devices {
                laws(&i, eq)
            }
        }
        Some(Ok(Structure::OemStrings(s))) => laws(&s.strings, eq),
        Some(Ok(Structure::SystemConfigurationOptions(s))) => laws(&s.strings, eq),
        Some(Ok(Structure::BiosLanguage(s))) => laws(&s.installable_languages, eq),
        Some(Ok(Structure::GroupAssociations(s))) => laws(&s.items, eq),
        Some(Ok(Structure::SystemEventLog(s))) => {
            if let Some(i) = s.supported_event_log_type_descriptors {
                laws(&i, eq)
            }
        }
        _ => (),
    }
}

/// The strings of type param(0) with a string set of param(1) bytes, any UTF-8 content
#[no_mangle]
pub extern "C" fn c25_strings() {
    let (kind, n) = (param(0), param(1));
    let l = if kind == 13 { 0x16 } else { 5 };
    let b = any_buf(l + n);
    b[0] = kind as u8;
    b[1] = l as u8;
    for x in b[l..].iter() {
        assume(*x < 128);
    }
    let b: &[u8] = b;
    match first(b, 3, u8_()) {
        Some(Ok(Structure::OemStrings(s))) => laws(&s.strings, eq),
        Some(Ok(Structure::SystemConfigurationOptions(s))) => laws(&s.strings, eq),
        Some(Ok(Structure::BiosLanguage(s))) => laws(&s.installable_languages, eq),
        _ => (),
    }
}

fn same_item<'a>(a: &Result<Structure<'a>, MalformedStructureError>, b: &Result<Structure<'a>, MalformedStructureError>) -> bool {
    use MalformedStructureError::*;
    match (a, b) {
        (Ok(a), Ok(b)) => handle_of(a) == handle_of(b),
        (Err(BadSize(a, b)), Err(BadSize(c, d))) => a == c && b == d,
        (Err(UnterminatedStrings(a)), Err(UnterminatedStrings(b))) => a == b,
        (Err(InvalidStringIndex(_, a, b)), Err(InvalidStringIndex(_, c, d))) => a == c && b == d,
        (Err(InvalidSlice(_)), Err(InvalidSlice(_))) => true,
        (Err(InvalidFormattedSectionLength(_, a, _, b)), Err(InvalidFormattedSectionLength(_, c, _, d))) => a == c && b == d,
        _ => false,
    }
}

/// The walk of any param(0) bytes
#[no_mangle]
pub extern "C" fn c25_walk() {
    let b: &[u8] = any_buf(param(0));
    for i in 0..b.len() {
        if i % 6 == 0 {
            // types without a decoder keep the number of paths down, others are in c25_types
            assume(b[i] > 22);
        }
    }
    let it = walk(b, u16_(), u8_(), u8_());
    laws(&it, same_item);
}

/// The walk of param(0) structures of formatted length param(1), any types and contents
#[no_mangle]
pub extern "C" fn c25_types() {
    let (k, l) = (param(0), param(1));
    let s = l + 2;
    let b = zero_buf(k * s);
    for i in 0..k {
        unsafe { vp_any(b.as_mut_ptr().add(i * s), l) };
        b[i * s + 1] = l as u8;
    }
    let b: &[u8] = b;
    let it = walk(b, b.len() as u16, u8_(), u8_());
    laws(&it, same_item);
}

struct Field(u8);
impl BitField<'static> for Field {
    type Size = u8;
    fn value(&self) -> u8 {
        self.0
    }
    const LAYOUT: Layout<'static> = &[
        FlagType::Significant("a", "A"),
        FlagType::Reserved("r"),
        FlagType::Reserved("r"),
        FlagType::Reserved("s"),
        FlagType::Significant("b", "B"),
    ];
}

/// The views of a bit field of any value, with bits beyond its layout
#[no_mangle]
pub extern "C" fn c25_bits() {
    let f = Field(u8_());
    match param(0) {
        0 => laws(&f.iter(), eq),
        1 => laws(&f.significants(), eq),
        _ => laws(&f.reserved(), eq),
    }
}
