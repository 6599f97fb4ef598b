//! C17: memory devices (type 17)
use super::common::*;

/// Formatted length param(0), any version. param(1): 0 any content with the string references
/// fixed; 1, 2 any references of the first or last strings; 3 any content.
#[no_mangle]
pub extern "C" fn c17_device() {
    let (l, mode) = (param(0), param(1));
    let b = table(17, l, STRS);
    let refs = [(0x10, 1), (0x11, 2), (0x17, 3), (0x18, 2), (0x19, 1), (0x1A, 3), (0x2B, 2)];
    for i in 0..7 {
        let (off, x) = refs[i];
        if off < l && (mode == 0 || (mode == 1 && i >= 3) || (mode == 2 && i < 3)) {
            b[off] = x;
        }
    }
    let b: &[u8] = b;
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let all = [0x10, 0x11, 0x17, 0x18, 0x19, 0x1A];
    let strs = &all[..if l < 0x17 { 2 } else { (l - 0x15).min(6) }];
    let want = if !o.has(0, 0x15) {
        Want::Length
    } else if o.any_bad(strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::MemoryDevice, strs), MemoryDevice) {
        let but = |x: Option<u16>, none: u16| if x == Some(none) { None } else { x };
        ck(s.handle == o.handle(), "handle");
        ck(s.physical_memory_handle == o.u16(4), "array handle");
        ck(s.memory_error_handle == but(o.o16(6), 0xFFFE), "error handle");
        ck(s.total_width == but(o.o16(8), 0xFFFF), "total width");
        ck(s.data_width == but(o.o16(0xA), 0xFFFF), "data width");
        ck(s.size == but(o.o16(0xC), 0xFFFF), "size");
        ck(s.form_factor == o.u8(0xE).into(), "form factor");
        ck(s.device_set == Some(o.u8(0xF)), "device set");
        o.ck_str(s.device_locator, 0x10, "device locator");
        o.ck_str(s.bank_locator, 0x11, "bank locator");
        ck(s.memory_type == o.u8(0x12).into(), "memory type");
        ck(s.type_detail.bits() == o.u16(0x13) & 0xFFFE, "type detail");
        ck(s.speed == but(o.o16(0x15), 0), "speed");
        ck_string(&o, s.manufacturer, 0x17, "manufacturer");
        ck_string(&o, s.serial, 0x18, "serial number");
        ck_string(&o, s.asset_tag, 0x19, "asset tag");
        ck_string(&o, s.part_number, 0x1A, "part number");
        ck(s.attributes == o.o8(0x1B).unwrap_or(0), "attributes");
        ck(s.extended_size == o.o32(0x1C).unwrap_or(0), "extended size");
        ck(s.configured_memory_speed == but(o.o16(0x20), 0), "configured speed");
        ck(s.minimum_voltage == but(o.o16(0x22), 0), "minimum voltage");
        ck(s.maximum_voltage == but(o.o16(0x24), 0), "maximum voltage");
        ck(s.configured_voltage == but(o.o16(0x26), 0), "configured voltage");
        match s.memory_technology {
            None => ck(!o.has(0x28, 1), "technology presence"),
            Some(x) => {
                ck(o.has(0x28, 1), "technology presence");
                ck(x == o.u8(0x28).into(), "technology");
            }
        }
        match s.operating_mode_capability {
            None => ck(!o.has(0x29, 2), "operating modes presence"),
            Some(x) => {
                ck(o.has(0x29, 2), "operating modes presence");
                ck(x.bits() == o.u16(0x29) & 0x3E, "operating modes");
            }
        }
        let firmware = o.has(0x2B, 1) && !o.bad(0x2B);
        o.ck_ostr(s.firmware_version, firmware, 0x2B, "firmware version");
        ck(s.module_manufacturer == o.o16(0x2C), "module manufacturer");
        ck(s.module_product_id == o.o16(0x2E), "module product");
        ck(s.memory_subsystem_controller_manufacturer_id == o.o16(0x30), "controller manufacturer");
        ck(s.memory_subsystem_controller_product_id == o.o16(0x32), "controller product");
        ck(s.non_volatile_size == o.o64(0x34), "non-volatile size");
        ck(s.volatile_size == o.o64(0x3C), "volatile size");
        ck(s.cache_size == o.o64(0x44), "cache size");
        ck(s.logical_size == o.o64(0x4C), "logical size");
        ck(s.extended_speed == o.o32(0x54), "extended speed");
        ck(s.extended_configured_memory_speed == o.o32(0x58), "extended configured speed");
        if o.has(0x58, 4) {
            cover("all fields");
        }
    }
}
/// A string that older versions do not have is empty
fn ck_string(o: &O, got: &str, off: usize, m: &'static str) {
    if o.has(off, 1) {
        o.ck_str(got, off, m)
    } else {
        ck(got == "", m)
    }
}
