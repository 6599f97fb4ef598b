//! C14: OEM strings (type 11), system configuration options (type 12), group associations (type 14)
use super::common::*;
use dmidecode::group_associations::{GroupItem, GroupItems};

#[inline(never)]
fn string<'a>(it: &mut StructureStrings<'a>) -> Option<&'a str> {
    it.next()
}
fn ck_all(it: &mut StructureStrings) {
    for i in 1..=3 {
        match string(it) {
            None => ck(false, "every string is yielded"),
            Some(t) => ck(t == str_of(i), "strings are yielded in order"),
        }
    }
    ck(string(it).is_none(), "strings end with the set");
    ck(string(it).is_none(), "exhausted strings stay exhausted");
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c14_oem() {
    let l = param(0);
    let b: &[u8] = table(11, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    if let Some(mut s) = variant!(outcome(&o, got, Want::Fields, InfoType::OemStrings, &[]), OemStrings) {
        ck(s.handle == o.handle(), "OEM strings handle");
        ck_all(&mut s.strings);
    }
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c14_options() {
    let l = param(0);
    let b: &[u8] = table(12, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    if !o.has(4, 1) {
        outcome(&o, got, Want::Slice, InfoType::SystemConfigurationOptions, &[]);
        return;
    }
    let count = o.u8(4);
    match got {
        Some(Ok(Structure::SystemConfigurationOptions(mut s))) => {
            cover("decoded");
            ck(count == 3, "the number of options has to be that of the strings");
            ck(s.handle == o.handle(), "options handle");
            ck_all(&mut s.strings);
        }
        Some(Err(MalformedStructureError::InvalidStringIndex(i, h, x))) => {
            cover("wrong count rejected");
            ck(count != 3, "options with the right count are decoded");
            ck(
                i == InfoType::SystemConfigurationOptions && h == o.handle() && x == count,
                "the error names the structure and the count",
            );
        }
        _ => ck(false, "options are decoded or have a wrong count"),
    }
}

/// param(0) strings of one symbolic letter each, under any count of options: they are decoded
/// exactly if the count is right
#[no_mangle]
pub extern "C" fn c14_options_count() {
    let k = param(0);
    let l = 5;
    let b = zero_buf(if k == 0 { l + 2 } else { l + 2 * k + 1 });
    b[0] = 12;
    b[1] = l as u8;
    let count = u8_();
    b[4] = count;
    let c = u8_();
    assume(c >= 1 && c < 128);
    for i in 0..k {
        b[l + 2 * i] = c;
    }
    match first(b, 3, 0) {
        Some(Ok(Structure::SystemConfigurationOptions(mut s))) => {
            cover("decoded");
            ck(count as usize == k, "the number of options has to be that of the strings");
            for _ in 0..k {
                match string(&mut s.strings) {
                    None => ck(false, "every option is yielded"),
                    Some(t) => ck(t.len() == 1 && t.as_bytes()[0] == c, "an option is its string"),
                }
            }
            ck(string(&mut s.strings).is_none(), "options end");
        }
        Some(Err(_)) => {
            cover("wrong count rejected");
            ck(count as usize != k, "options with the right count are decoded");
        }
        _ => ck(false, "options are decoded or have a wrong count"),
    }
}

#[inline(never)]
fn item(it: &mut GroupItems) -> Option<GroupItem> {
    it.next()
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c14_group() {
    let l = param(0);
    let b: &[u8] = table(14, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let strs = [4];
    let want = if !o.has(0, 5) {
        Want::Length
    } else if o.any_bad(&strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(mut s) = variant!(outcome(&o, got, want, InfoType::GroupAssociations, &strs), GroupAssociations) {
        ck(s.handle == o.handle(), "group handle");
        o.ck_str(s.group_name, 4, "group name");
        let n = (l - 5) / 3;
        for i in 0..n {
            match item(&mut s.items) {
                None => ck(false, "every group item is yielded"),
                Some(x) => {
                    cover("group item");
                    ck(x.type_ == o.u8(5 + 3 * i), "group item type");
                    ck(x.handle == o.u16(6 + 3 * i), "group item handle");
                }
            }
        }
        ck(item(&mut s.items).is_none(), "group items end");
        ck(item(&mut s.items).is_none(), "group items stay exhausted");
    }
}
