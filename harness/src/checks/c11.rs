//! C11: processor information (type 4)
use super::common::*;
use dmidecode::processor::{ProcessorFamily, Voltage};

/// Formatted length param(0), any version. param(1): 0 any content with the string references
/// fixed; 1, 2 any references of the first or last three strings, with family, voltage and counts
/// fixed; 3 any content.
#[no_mangle]
pub extern "C" fn c11_processor() {
    let (l, mode) = (param(0), param(1));
    let b = table(4, l, STRS);
    let refs = [(4, 1), (7, 2), (0x10, 3), (0x20, 3), (0x21, 1), (0x22, 2)];
    for i in 0..6 {
        let (off, x) = refs[i];
        if off < l && (mode == 0 || (mode == 1 && i >= 3) || (mode == 2 && i < 3)) {
            b[off] = x;
        }
    }
    if mode == 1 || mode == 2 {
        for (off, x) in [(6, 0xFE), (0x11, 0x8C), (0x28, 0), (0x29, 1), (0x23, 0xFF), (0x24, 0xFF), (0x25, 0xFF)] {
            if off < l {
                b[off] = x;
            }
        }
    }
    let b: &[u8] = b;
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let v21 = o.since(2, 1) && o.has(0, 0x20);
    let v23 = o.since(2, 3) && o.has(0, 0x23);
    let v25 = o.since(2, 5) && o.has(0, 0x28);
    let v26 = o.since(2, 6) && o.has(0, 0x2A);
    let v30 = o.since(3, 0) && o.has(0, 0x30);
    let all = [4, 7, 0x10, 0x20, 0x21, 0x22];
    let strs = if v23 { &all[..] } else { &all[..3] };
    let want = if !o.has(0, 0x1A) {
        Want::Length
    } else if o.any_bad(strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::Processor, strs), Processor) {
        ck(s.handle == o.handle(), "handle");
        o.ck_str(s.socket_designation, 4, "socket designation");
        ck(s.processor_type == o.u8(5).into(), "processor type");
        o.ck_str(s.processor_manufacturer, 7, "manufacturer");
        ck(s.processor_id == o.u64(8), "processor ID");
        o.ck_str(s.processor_version, 0x10, "version");
        let x = o.u8(0x11);
        match s.voltage {
            Voltage::Current(n) => {
                cover("current voltage");
                ck(x >= 0x80, "voltage mode");
                ck(n == x % 0x80, "current voltage");
            }
            Voltage::Legacy(f) => {
                cover("legacy voltage");
                ck(x < 8, "voltage mode");
                ck(f.bits() == x, "legacy voltage");
            }
            Voltage::Undefined(n) => {
                ck(x >= 8 && x < 0x80, "voltage mode");
                ck(n == x, "undefined voltage");
            }
        }
        ck(s.external_clock == o.u16(0x12), "external clock");
        ck(s.max_speed == o.u16(0x14), "maximum speed");
        ck(s.current_speed == o.u16(0x16), "current speed");
        ck(s.status.bits() == o.u8(0x18) & 0x47, "status");
        ck(s.processor_upgrade == o.u8(0x19).into(), "upgrade");
        let f2 = o.u8(6) == 0xFE && v26;
        if f2 {
            cover("processor family 2");
        }
        let family = if f2 { o.u16(0x28) } else { o.u8(6) as u16 };
        ck(s.processor_family == ProcessorFamily::from(family), "processor family");
        ck(s.l1_cache_handle == if v21 { o.o16(0x1A) } else { None }, "L1 cache handle");
        ck(s.l2_cache_handle == if v21 { o.o16(0x1C) } else { None }, "L2 cache handle");
        ck(s.l3_cache_handle == if v21 { o.o16(0x1E) } else { None }, "L3 cache handle");
        o.ck_ostr(s.serial_number, v23, 0x20, "serial number");
        o.ck_ostr(s.asset_tag, v23, 0x21, "asset tag");
        o.ck_ostr(s.part_number, v23, 0x22, "part number");
        ck_count(&o, s.core_count, v25, v30, 0x23, 0x2A, "core count");
        ck_count(&o, s.core_enabled, v25, v30, 0x24, 0x2C, "enabled core count");
        ck_count(&o, s.thread_count, v25, v30, 0x25, 0x2E, "thread count");
        match s.processor_characteristics {
            None => ck(!v25, "characteristics presence"),
            Some(c) => {
                ck(v25, "characteristics presence");
                ck(c.bits() == o.u16(0x26) & 0x2FF, "characteristics");
            }
        }
    }
}
fn ck_count(o: &O, got: Option<u16>, v25: bool, v30: bool, a: usize, b: usize, m: &'static str) {
    match got {
        None => ck(!v25, m),
        Some(x) => {
            ck(v25, m);
            let n = o.u8(a);
            if v30 && n == 0xFF {
                cover("count of more than 255");
                ck(x == o.u16(b), m);
            } else {
                ck(x == n as u16, m);
            }
        }
    }
}
