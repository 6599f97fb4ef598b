//! C18: memory errors (type 18), pointing devices (type 21) and batteries (type 22)
use super::common::*;
use dmidecode::portable_battery::{DesignCapacity, DeviceChemistry, ManufactureDate, SerialNumber};

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c18_memory_error() {
    let l = param(0);
    let b: &[u8] = table(18, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let want = if o.since(2, 1) && l != 0x17 {
        Want::Length
    } else if l < 0x17 {
        Want::Slice
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::MemoryError32, &[]), MemoryError32) {
        ck(s.handle == o.handle(), "error handle");
        ck(s.error_type == o.u8(4).into(), "error type");
        ck(s.error_granularity == o.u8(5).into(), "error granularity");
        ck(s.error_operation == o.u8(6).into(), "error operation");
        ck(s.vendor_syndrome == o.u32(7), "vendor syndrome");
        ck(s.memory_array_error_address == o.u32(0xB), "array error address");
        ck(s.device_error_address == o.u32(0xF), "device error address");
        ck(s.error_resolution == o.u32(0x13), "error resolution");
    }
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c18_pointing() {
    let l = param(0);
    let b: &[u8] = table(21, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let want = if o.since(2, 1) && l != 7 {
        Want::Length
    } else if l < 7 {
        Want::Slice
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::BuiltInPointingDevice, &[]), BuiltInPointingDevice) {
        ck(s.handle == o.handle(), "pointing device handle");
        ck(s.type_ == o.u8(4).into(), "pointing device type");
        ck(s.interface == o.u8(5).into(), "pointing device interface");
        ck(s.number_of_buttons == o.u8(6), "number of buttons");
    }
}

/// Formatted length param(0), any version. param(1): 0 any content with the mandatory string
/// references fixed; 1 any of those, the others fixed; 3 any content.
#[no_mangle]
pub extern "C" fn c18_battery() {
    let (l, mode) = (param(0), param(1));
    let b = table(22, l, STRS);
    let refs = [(4, 1), (5, 2), (8, 3), (0xE, 2), (6, 1), (7, 3), (9, 2), (0x14, 1)];
    for i in 0..8 {
        let (off, x) = refs[i];
        if off < l && (mode == 0 && i < 4 || mode == 1 && i >= 4) {
            b[off] = x;
        }
    }
    let b: &[u8] = b;
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let strs = [4, 5, 8, 0xE];
    let length = if o.since(2, 2) {
        l == 0x1A
    } else if o.since(2, 1) {
        l == 0x10
    } else {
        true
    };
    let want = if !length {
        Want::Length
    } else if l < 0x10 {
        Want::Reject
    } else if o.any_bad(&strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::PortableBattery, &strs), PortableBattery) {
        ck(s.handle == o.handle(), "battery handle");
        o.ck_str(s.location, 4, "battery location");
        o.ck_str(s.manufacturer, 5, "battery manufacturer");
        let basic = o.u8(6) != 0 && !o.bad(6);
        match s.manufacture_date {
            ManufactureDate::None => ck(!basic && !o.has(0x12, 2), "manufacture date presence"),
            ManufactureDate::Basic(t) => {
                cover("basic date");
                ck(basic, "manufacture date kind");
                o.ck_str(t, 6, "manufacture date");
            }
            ManufactureDate::SmartBatteryDataSpecification { year, month, date } => {
                cover("smart battery date");
                ck(!basic && o.has(0x12, 2), "manufacture date kind");
                if o.has(0x12, 2) {
                    let d = o.u16(0x12);
                    ck(year == 1980 + d / 512, "year of manufacture");
                    ck(month as u16 == d / 32 % 16, "month of manufacture");
                    ck(date as u16 == d % 32, "day of manufacture");
                }
            }
        }
        let basic = o.u8(7) != 0 && !o.bad(7);
        match s.serial_number {
            SerialNumber::None => ck(!basic && !o.has(0x10, 2), "battery serial number presence"),
            SerialNumber::Basic(t) => {
                ck(basic, "battery serial number kind");
                o.ck_str(t, 7, "battery serial number");
            }
            SerialNumber::SmartBatteryDataSpecification(n) => {
                ck(!basic && o.has(0x10, 2), "battery serial number kind");
                ck(Some(n) == o.o16(0x10), "battery serial number");
            }
        }
        o.ck_str(s.device_name, 8, "device name");
        let c = o.u8(9);
        let sbds = o.has(0x14, 1) && !o.bad(0x14);
        let m = "device chemistry";
        match s.device_chemistry {
            DeviceChemistry::Other => ck(c == 1, m),
            DeviceChemistry::Unknown => ck(c == 2 && !sbds, m),
            DeviceChemistry::LeadAcid => ck(c == 3, m),
            DeviceChemistry::NickelCadmium => ck(c == 4, m),
            DeviceChemistry::NickelMetalHydride => ck(c == 5, m),
            DeviceChemistry::LithiumIon => ck(c == 6, m),
            DeviceChemistry::ZincAir => ck(c == 7, m),
            DeviceChemistry::LithiumPolymer => ck(c == 8, m),
            DeviceChemistry::Undefined(x) => ck(x == c && (c == 0 || c > 8), m),
            DeviceChemistry::SmartBatteryDataSpecification(t) => {
                ck(c == 2 && sbds, m);
                if sbds {
                    o.ck_str(t, 0x14, m);
                }
            }
        }
        let x = o.u16(0xA);
        match s.design_capacity {
            DesignCapacity::Unknown => ck(x == 0, "design capacity"),
            DesignCapacity::Data { value, multiplier } => {
                ck(x != 0 && value == x, "design capacity");
                ck(multiplier == o.o8(0x15).unwrap_or(1), "design capacity multiplier");
            }
        }
        ck(s.design_voltage == o.u16(0xC), "design voltage");
        o.ck_str(s.sbds_version_number, 0xE, "SBDS version number");
        ck(s.maximum_error_in_battery_data == o.u8(0xF), "maximum error");
        ck(s.oem_specific == o.o32(0x16), "OEM specific");
    }
}
