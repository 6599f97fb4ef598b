//! C09: system information (type 1) and baseboard information (type 2)
use super::common::*;

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c09_system() {
    let l = param(0);
    let b: &[u8] = table(1, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let v21 = o.since(2, 1) && o.has(0, 0x19);
    let v24 = o.since(2, 4) && o.has(0, 0x1B);
    let all = [4, 5, 6, 7, 0x19, 0x1A];
    let strs = if v24 { &all[..] } else { &all[..4] };
    let want = if !o.has(0, 8) {
        Want::Length
    } else if o.any_bad(strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::System, strs), System) {
        ck(s.handle == o.handle(), "handle");
        o.ck_str(s.manufacturer, 4, "manufacturer");
        o.ck_str(s.product, 5, "product");
        o.ck_str(s.version, 6, "version");
        o.ck_str(s.serial, 7, "serial");
        match s.uuid {
            None => ck(!v21, "UUID presence"),
            Some(u) => {
                cover("uuid");
                ck(v21, "UUID presence");
                let u = u.as_bytes();
                let le = o.since(2, 6);
                if le {
                    cover("uuid with little-endian fields");
                }
                const SWAP: [usize; 16] = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
                for i in 0..16 {
                    ck(u[i] == o.u8(8 + if le { SWAP[i] } else { i }), "UUID bytes");
                }
            }
        }
        match s.wakeup {
            None => ck(!v21, "wake-up type presence"),
            Some(w) => {
                ck(v21, "wake-up type presence");
                ck(w == o.u8(0x18).into(), "wake-up type");
            }
        }
        o.ck_ostr(s.sku, v24, 0x19, "SKU number");
        o.ck_ostr(s.family, v24, 0x1A, "family");
        if v24 {
            cover("sku and family");
        }
    }
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c09_baseboard() {
    let l = param(0);
    let b: &[u8] = table(2, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let all = [4, 5, 6, 7, 8, 0xA];
    let k = if o.has(0xA, 1) {
        6
    } else if o.has(8, 1) {
        5
    } else {
        4
    };
    let strs = &all[..k];
    let want = if !o.has(0, 8) {
        Want::Length
    } else if o.any_bad(strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::BaseBoard, strs), BaseBoard) {
        ck(s.handle == o.handle(), "handle");
        o.ck_str(s.manufacturer, 4, "manufacturer");
        o.ck_str(s.product, 5, "product");
        o.ck_str(s.version, 6, "version");
        o.ck_str(s.serial, 7, "serial");
        o.ck_ostr(s.asset, o.has(8, 1), 8, "asset tag");
        match s.feature_flags {
            None => ck(!o.has(9, 1), "feature flags presence"),
            Some(f) => {
                ck(o.has(9, 1), "feature flags presence");
                ck(f.bits() == o.u8(9) & 0x1F, "feature flags");
            }
        }
        o.ck_ostr(s.location_in_chassis, o.has(0xA, 1), 0xA, "location in chassis");
        ck(s.chassis_handle == o.o16(0xB), "chassis handle");
        match s.board_type {
            None => ck(!o.has(0xD, 1), "board type presence"),
            Some(t) => {
                cover("board type");
                ck(o.has(0xD, 1), "board type presence");
                ck(t == o.u8(0xD).into(), "board type");
            }
        }
    }
}
