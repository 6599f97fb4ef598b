//! C08: BIOS information (type 0) and BIOS language information (type 13)
use super::common::*;
use dmidecode::bitfield::BitField;

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c08_bios() {
    let l = param(0);
    let b: &[u8] = table(0, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let strs = [4, 5, 8];
    let want = if !o.has(0, 0x12) {
        Want::Length
    } else if o.any_bad(&strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::Bios, &strs), Bios) {
        let full = o.since(2, 4) && o.has(0, 0x18);
        let ext_size = o.since(3, 1) && o.has(0, 0x1A);
        ck(s.handle == o.handle(), "handle");
        o.ck_str(s.vendor, 4, "vendor");
        o.ck_str(s.bios_version, 5, "version");
        ck(s.bios_starting_address_segment == o.u16(6), "starting segment");
        o.ck_str(s.bios_release_date, 8, "release date");
        ck(s.rom_size.basic == o.u8(9), "ROM size");
        ck(s.bios_characteristics.value() == o.u64(0xA), "characteristics");
        let e1 = o.since(2, 1) && o.has(0x12, 1);
        match s.bios_characteristics_exttension_1 {
            None => ck(!e1, "extension byte 1 presence"),
            Some(x) => {
                cover("extension byte 1");
                ck(e1, "extension byte 1 presence");
                ck(x.value() == o.u8(0x12), "extension byte 1");
            }
        }
        match s.bios_characteristics_exttension_2 {
            None => ck(!full, "extension byte 2 presence"),
            Some(x) => {
                ck(full, "extension byte 2 presence");
                ck(x.value() == o.u8(0x13), "extension byte 2");
            }
        }
        match s.bios_revision {
            None => ck(!full, "BIOS revision presence"),
            Some(x) => {
                cover("BIOS revision");
                ck(full, "BIOS revision presence");
                ck(x.major == o.u8(0x14) && x.minor == o.u8(0x15), "BIOS revision");
            }
        }
        match s.firmware_revision {
            None => ck(!full, "firmware revision presence"),
            Some(x) => {
                ck(full, "firmware revision presence");
                ck(x.major == o.u8(0x16) && x.minor == o.u8(0x17), "firmware revision");
            }
        }
        match s.rom_size.extended {
            None => ck(!ext_size, "extended ROM size presence"),
            Some(x) => {
                cover("extended ROM size");
                ck(ext_size, "extended ROM size presence");
                ck(x == o.u16(0x18), "extended ROM size");
            }
        }
    }
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c08_language() {
    let l = param(0);
    let b: &[u8] = table(13, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let new = o.since(2, 1);
    let want = if l < if new { 0x16 } else { 0x15 } { Want::Length } else { Want::Fields };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::BiosLanguage, &[]), BiosLanguage) {
        ck(s.handle == o.handle(), "language handle");
        ck(s.current_language == o.u8(if new { 0x15 } else { 0x14 }), "current language");
        match s.flags {
            None => ck(!new, "language flags presence"),
            Some(f) => {
                cover("flags");
                ck(new, "language flags presence");
                ck(f.value() == o.u8(5), "language flags");
            }
        }
        let mut it = s.installable_languages;
        for i in 1..=3 {
            match lang(&mut it) {
                None => ck(false, "every string of the set is a language"),
                Some(t) => ck(t == str_of(i), "languages are the strings in order"),
            }
        }
        ck(lang(&mut it).is_none(), "languages end with the strings");
        ck(lang(&mut it).is_none(), "exhausted languages stay exhausted");
    }
}
#[inline(never)]
fn lang<'a>(it: &mut dmidecode::bios_language::InstallableLanguages<'a>) -> Option<&'a str> {
    it.next()
}

/// param(0) strings of one symbolic letter each: all of them are languages, also the last of 255
/// and those beyond are none, however often the iterator is asked
#[no_mangle]
pub extern "C" fn c08_language_many() {
    let k = param(0);
    let l = 0x16;
    let mut b = zero_buf(l + 2 * k + 2);
    b[0] = 13;
    b[1] = l as u8;
    let c = u8_();
    assume(c >= 1 && c < 128);
    for i in 0..k {
        b[l + 2 * i] = c;
    }
    let n = if k == 0 { l + 2 } else { l + 2 * k + 1 };
    let b: &[u8] = &b[..n];
    match first(b, 2, 1) {
        Some(Ok(Structure::BiosLanguage(s))) => {
            let mut it = s.installable_languages;
            for _ in 0..k.min(255) {
                match lang(&mut it) {
                    None => ck(false, "every string is a language"),
                    Some(t) => ck(t.len() == 1 && t.as_bytes()[0] == c, "a language is its string"),
                }
            }
            for _ in 0..3 {
                ck(lang(&mut it).is_none(), "there are no languages without a string number");
            }
            cover("languages exhausted");
        }
        _ => ck(false, "a valid structure is decoded"),
    }
}
