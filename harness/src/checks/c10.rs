//! C10: system enclosure (type 3)
use super::common::*;
use core::fmt::Write;
use dmidecode::enclosure::{ContainedElement, ContainedElements};

#[inline(never)]
fn element(it: &mut ContainedElements) -> Option<ContainedElement> {
    it.next()
}

/// Compares a decoded enclosure of formatted length o.l with its bytes. `fixed`: count and record
/// length are already concrete.
fn check_fields(o: &O, got: Item, l: usize) {
    let (mut count, mut rec) = (0usize, 0usize);
    let mut elements = false;
    let mut sku_off = 0;
    if o.has(0x13, 2) {
        let (c, r) = (o.u8(0x13), o.u8(0x14));
        if c == 0 || r == 0 {
            elements = true;
            sku_off = 0x15;
        } else if (c as u16 * r as u16) as usize <= l - 0x15 {
            count = conc8(c) as usize;
            rec = conc8(r) as usize;
            elements = true;
            sku_off = 0x15 + count * rec;
        }
    }
    let sku = elements && o.has(sku_off, 1);
    let all = [4, 6, 7, 8, sku_off];
    let strs = if sku { &all[..] } else { &all[..4] };
    let want = if !o.has(0, 9) {
        Want::Length
    } else if o.any_bad(strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(o, got, want, InfoType::Enclosure, strs), Enclosure) {
        ck(s.handle == o.handle(), "handle");
        o.ck_str(s.manufacturer, 4, "manufacturer");
        ck(s.chassis_lock == (o.u8(5) >= 0x80), "chassis lock");
        ck(s.enclosure_type == (o.u8(5) % 0x80).into(), "enclosure type");
        o.ck_str(s.version, 6, "version");
        o.ck_str(s.serial_number, 7, "serial number");
        o.ck_str(s.asset_tag_number, 8, "asset tag number");
        match s.boot_up_state {
            None => ck(!o.has(9, 1), "boot-up state presence"),
            Some(x) => {
                ck(o.has(9, 1), "boot-up state presence");
                ck(x == o.u8(9).into(), "boot-up state");
            }
        }
        match s.power_supply_state {
            None => ck(!o.has(0xA, 1), "power supply state presence"),
            Some(x) => {
                ck(o.has(0xA, 1), "power supply state presence");
                ck(x == o.u8(0xA).into(), "power supply state");
            }
        }
        match s.thermal_state {
            None => ck(!o.has(0xB, 1), "thermal state presence"),
            Some(x) => {
                ck(o.has(0xB, 1), "thermal state presence");
                ck(x == o.u8(0xB).into(), "thermal state");
            }
        }
        match s.security_status {
            None => ck(!o.has(0xC, 1), "security status presence"),
            Some(x) => {
                ck(o.has(0xC, 1), "security status presence");
                ck(x == o.u8(0xC).into(), "security status");
            }
        }
        ck(s.oem_defined == o.o32(0xD), "OEM defined");
        ck(s.height == o.o8(0x11), "height");
        ck(s.power_cords_number == o.o8(0x12), "number of power cords");
        match s.contained_elements {
            None => ck(!elements, "contained elements presence"),
            Some(mut e) => {
                cover("contained elements");
                ck(elements, "contained elements presence");
                if elements {
                    ck(ContainedElements::count(&e) == o.u8(0x13), "contained element count");
                    if rec >= 3 {
                        for i in 0..count {
                            let at = 0x15 + i * rec;
                            match element(&mut e) {
                                None => ck(false, "every contained element is yielded"),
                                Some(x) => {
                                    cover("contained element");
                                    ck(x == ContainedElement::from(&o.b[at..at + 3]), "contained element");
                                }
                            }
                        }
                    }
                    ck(element(&mut e).is_none(), "contained elements end");
                    ck(element(&mut e).is_none(), "contained elements stay exhausted");
                }
            }
        }
        o.ck_ostr(s.sku_number, sku, sku_off, "SKU number");
        if sku {
            cover("sku");
        }
    }
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c10_enclosure() {
    let l = param(0);
    let b: &[u8] = table(3, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    check_fields(&O::new(b, l, v), got, l);
}

/// param(0) contained elements of param(1) bytes in a structure of formatted length param(2); one
/// record, any of them, and the SKU number are symbolic, the others differ from each other
#[no_mangle]
pub extern "C" fn c10_records() {
    let (count, rec, l) = (param(0), param(1), param(2));
    let b = zero_buf(l + STRS.len());
    for i in 0x15..l {
        b[i] = (i as u8).wrapping_mul(7) | 1;
    }
    let at = 0x15 + choose(count) * rec;
    if at + rec <= l {
        unsafe { vp_any(b.as_mut_ptr().add(at), rec) };
    }
    if 0x15 + count * rec < l {
        b[0x15 + count * rec] = u8_();
    }
    b[0] = 3;
    b[1] = l as u8;
    b[0x13] = count as u8;
    b[0x14] = rec as u8;
    b[l..].copy_from_slice(STRS);
    let b: &[u8] = b;
    let got = first(b, 2, 7);
    check_fields(&O::new(b, l, (2, 7)), got, l);
}

/// The text of one contained element shows its type, minimum and maximum
#[no_mangle]
pub extern "C" fn c10_element() {
    let l = 0x18;
    let b = zero_buf(l + STRS.len());
    b[0] = 3;
    b[1] = l as u8;
    b[0x13] = 1;
    b[0x14] = 3;
    let (t, min, max) = (u8_(), u8_(), u8_());
    let t = conc8(t);
    b[0x15] = t;
    b[0x16] = min;
    b[0x17] = max;
    b[l..].copy_from_slice(STRS);
    let b: &[u8] = b;
    if let Some(Ok(Structure::Enclosure(s))) = first(b, 2, 7) {
        if let Some(mut e) = s.contained_elements {
            match element(&mut e) {
                None => ck(false, "the contained element is yielded"),
                Some(x) => {
                    let mut got = Text::new();
                    let r = write!(got, "{}", x);
                    ck(r.is_ok(), "a contained element can be shown");
                    let mut want = Text::new();
                    let _ = if t & 0x80 == 0 {
                        cover("board");
                        write!(want, "Baseboard type: {} ({}-{})", baseboard::BoardType::from(t), min, max)
                    } else {
                        cover("structure");
                        write!(want, "Structure type: {} ({}-{})", InfoType::from(t & 0x7F), min, max)
                    };
                    ck(got.same(&want), "a contained element shows its type, minimum and maximum");
                }
            }
        } else {
            ck(false, "contained elements are decoded");
        }
    } else {
        ck(false, "a valid structure is decoded");
    }
}
