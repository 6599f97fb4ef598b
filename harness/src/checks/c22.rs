//! C22: texts of the values that are more than a code (see codes.rs for those)
use super::common::*;
use core::fmt::Write;
use dmidecode::portable_battery::{DeviceChemistry, ManufactureDate, SerialNumber};
use dmidecode::system_event_log::{log_record_format::*, *};

fn same(got: &Text, m: &'static str, f: impl FnOnce(&mut Text)) {
    let mut want = Text::new();
    f(&mut want);
    cover("shown");
    ck(want.same(got), m);
}

#[no_mangle]
pub extern "C" fn c22_revision() {
    let (major, minor) = (u8_(), u8_());
    let b = dmidecode::bios::BiosRevision { major, minor };
    let f = dmidecode::bios::FirmwareRevision { major, minor };
    let want = |w: &mut Text| {
        if major == 0xFF && minor == 0xFF {
            w.put("N/A");
        } else {
            w.num(major as u64, 10, 1);
            w.put(".");
            w.num(minor as u64, 10, 1);
        }
    };
    if param(0) == 0 {
        same(&text(&b), "the text of a BIOS release", want);
    } else {
        same(&text(&f), "the text of a controller release", want);
    }
}

/// The dates a packed date can hold
#[no_mangle]
pub extern "C" fn c22_date() {
    let (y, month, date) = (u8_() & 0x7F, u8_() & 15, u8_() & 31);
    let year = 1980 + y as u16;
    let d = ManufactureDate::SmartBatteryDataSpecification { year, month, date };
    same(&text(&d), "the text of a manufacture date", |w| {
        w.num(year as u64, 10, 4);
        w.put("-");
        w.num(month as u64, 10, 2);
        w.put("-");
        w.num(date as u64, 10, 2);
    });
    ck(text(&ManufactureDate::Basic("1/2/2003")).is("1/2/2003"), "the text of a basic manufacture date");
    ck(text(&ManufactureDate::None).is(""), "the text of no manufacture date");
}

/// The number in hexadecimal, leading zeros aside
fn hex(t: &[u8], v: u16) -> bool {
    if t.len() < 3 || t.len() > 6 || t[0] != b'0' || t[1] != b'x' {
        return false;
    }
    let mut n = 0u32;
    for i in 2..t.len() {
        let c = t[i];
        n = n * 16
            + match c {
                b'0'..=b'9' => (c - b'0') as u32,
                b'A'..=b'F' => (c - b'A') as u32 + 10,
                b'a'..=b'f' => (c - b'a') as u32 + 10,
                _ => return false,
            };
    }
    n == v as u32
}

#[no_mangle]
pub extern "C" fn c22_serial() {
    let v = u16_();
    let t = text(&SerialNumber::SmartBatteryDataSpecification(v));
    cover("shown");
    ck(hex(t.bytes(), v), "the text of a smart battery serial number is the number in hexadecimal");
    ck(text(&SerialNumber::Basic("S N1")).is("S N1"), "the text of a basic serial number");
    ck(text(&SerialNumber::None).is(""), "the text of no serial number");
}

#[no_mangle]
pub extern "C" fn c22_chemistry() {
    use DeviceChemistry::*;
    let v = u8_();
    same(&text(&Undefined(v)), "the text of an undefined chemistry", |w| {
        w.put("Undefined: ");
        w.num(v as u64, 10, 1);
    });
    ck(text(&SmartBatteryDataSpecification("LION")).is("LION"), "the text of a smart battery chemistry");
    ck(text(&Other).is("Other"), "the text of a chemistry");
    ck(text(&Unknown).is("Unknown"), "the text of a chemistry");
    ck(text(&LeadAcid).is("Lead Acid"), "the text of a chemistry");
    ck(text(&NickelCadmium).is("Nickel Cadmium"), "the text of a chemistry");
    ck(text(&NickelMetalHydride).is("Nickel metal hydride"), "the text of a chemistry");
    ck(text(&LithiumIon).is("Lithium-ion"), "the text of a chemistry");
    ck(text(&ZincAir).is("Zinc air"), "the text of a chemistry");
    ck(text(&LithiumPolymer).is("Lithium Polymer"), "the text of a chemistry");
}

#[no_mangle]
pub extern "C" fn c22_element() {
    use dmidecode::enclosure::{ContainedElement, ContainedElementType};
    let (minimum, maximum, v) = (u8_(), u8_(), u8_());
    if param(0) == 0 {
        let t = text(&ContainedElement::from(&[3u8, minimum, maximum][..]));
        same(&t, "the text of a contained element", |w| {
            w.put("Baseboard type: Server Blade (");
            w.num(minimum as u64, 10, 1);
            w.put("-");
            w.num(maximum as u64, 10, 1);
            w.put(")");
        });
    } else {
        let t = text(&ContainedElementType::InfoType(InfoType::Oem(v)));
        same(&t, "the text of a contained element's type", |w| {
            w.put("Structure type: OEM: ");
            w.num(v as u64, 10, 1);
        });
        ck(
            text(&ContainedElementType::InfoType(InfoType::BaseBoard)).is("Structure type: Baseboard (or Module) Information"),
            "the text of a contained element's type",
        );
    }
}

#[no_mangle]
pub extern "C" fn c22_entry_point_error() {
    use InvalidEntryPointError::*;
    let v = u8_();
    let (e, s) = match choose(4) {
        0 => (NotFound, "Input did not contain a valid SMBIOS entry point"),
        1 => (TooOldVersion(v), "Input version number was below 2.0: "),
        2 => (BadSize(v), "Input contained an invalid-sized SMBIOS entry: "),
        _ => (BadChecksum(v), "SMBIOS entry point has an invalid checksum: "),
    };
    let t = text(&e);
    same(&t, "the text of an entry point error", |w| {
        w.put(s);
        if !matches!(e, NotFound) {
            w.num(v as u64, 10, 1);
        }
    });
}

/// Offsets and handles below param(0)
#[no_mangle]
pub extern "C" fn c22_structure_error() {
    use MalformedStructureError::*;
    let (off, handle, len) = (u32_(), u16_(), u8_());
    let max = param(0) as u32;
    assume(off < max && (handle as u32) < max);
    match choose(5) {
        0 => same(&text(&BadSize(off, len)), "the text of a bad size", |w| {
            w.put("Structure at offset ");
            w.num(off as u64, 10, 1);
            w.put(" with length ");
            w.num(len as u64, 10, 1);
            w.put(" extends beyond SMBIOS");
        }),
        1 => same(&text(&UnterminatedStrings(off)), "the text of unterminated strings", |w| {
            w.put("Structure at offset ");
            w.num(off as u64, 10, 1);
            w.put(" with unterminated strings");
        }),
        2 => same(&text(&InvalidStringIndex(InfoType::Processor, handle, len)), "the text of an invalid string index", |w| {
            w.put("Structure Processor with handle ");
            w.num(handle as u64, 10, 1);
            w.put(" has invalid string index ");
            w.num(len as u64, 10, 1);
        }),
        3 => same(
            &text(&InvalidFormattedSectionLength(InfoType::BaseBoard, handle, "min ", len)),
            "the text of an invalid length",
            |w| {
                w.put("Formatted section length of structure BaseBoard with handle ");
                w.num(handle as u64, 10, 1);
                w.put(" should be min ");
                w.num(len as u64, 10, 1);
                w.put(" bytes");
            },
        ),
        _ => {
            if let Err(e) = <[u8; 2]>::try_from(&[0u8][..]) {
                same(&text(&InvalidSlice(e)), "the text of an invalid slice is that of its cause", |w| {
                    let _ = write!(w, "{}", e);
                });
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn c22_access_method() {
    let (method, a) = (u8_(), u32_());
    let long = param(1) == 1;
    // methods 0 to 4, and the two ranges of the others
    let method = match param(0) {
        5 => {
            assume(method >= 5 && method < 0x80);
            method
        }
        6 => {
            assume(method >= 0x80);
            method
        }
        m => m as u8,
    };
    let m = AccessMethod::new(method, a);
    let got = if long { text_alt(&m) } else { text(&m) };
    let (index, data) = (a & 0xFFFF, (a >> 16) as u8);
    same(&got, "the text of an access method", |w| match method {
        0 => {
            w.put("Indexed I/O, one 8-bit index port, one 8-bit data port");
            if long {
                w.put(": Index 0x");
                w.num((index & 0xFF) as u64, 16, 2);
                w.put(", Data 0x");
                w.num(data as u64, 16, 2);
            }
        }
        1 => {
            w.put("Indexed I/O, two 8-bit index ports, one 8-bit data port");
            if long {
                w.put(": Index ");
                let _ = write!(w, "{:X?}", [index as u8, (index >> 8) as u8]);
                w.put(", Data 0x");
                w.num(data as u64, 16, 2);
            }
        }
        2 => {
            w.put("Indexed I/O, one 16-bit index port, one 8-bit data port");
            if long {
                w.put(": Index 0x");
                w.num(index as u64, 16, 4);
                w.put(", Data 0x");
                w.num(data as u64, 16, 2);
            }
        }
        3 => {
            w.put("Memory-mapped physical 32-bit address");
            if long {
                w.put(": 0x");
                w.num(a as u64, 16, 8);
            }
        }
        4 => {
            if long {
                w.put("General-Purpose NonVolatile Data functions, handle 0x");
                w.num(index as u64, 16, 4);
            } else {
                w.put("General-purpose non-volatile data functions");
            }
        }
        _ => {
            w.put(match (method < 0x80, long) {
                (true, false) => "Available: ",
                (true, true) => "Available: Method ",
                (false, false) => "OEM-specific: ",
                (false, true) => "BIOS Vendor/OEM-specific: Method ",
            });
            w.num(method as u64, 10, 1);
            if long {
                w.put(", Address 0x");
                w.num(a as u64, 16, 8);
            }
        }
    });
}

/// Types up to param(0), and those with bit 31 or 16 set whose other bits are below 256
#[no_mangle]
pub extern "C" fn c22_system_management() {
    let v = u32_();
    let hi = v & 0x8001_0000;
    assume(v & !0x8001_0000 < 256);
    let t = text(&SystemManagementType::from(v));
    same(&t, "the text of a system management type", |w| match v {
        0 => w.put("+2.5V Out of range, #1"),
        1 => w.put("+2.5V Out of range, #2"),
        2 => w.put("+3.3V Out of range"),
        3 => w.put("+5V Out of range"),
        4 => w.put("-5V Out of range"),
        5 => w.put("+12V Out of range"),
        6 => w.put("-12V Out of range"),
        7..=0xF => {
            w.put("Out-of-range voltage reserved: ");
            w.num(v as u64, 10, 1)
        }
        0x10 => w.put("System board temperature out of range"),
        0x11 => w.put("Processor #1 temperature out of range"),
        0x12 => w.put("Processor #2 temperature out of range"),
        0x13 => w.put("Processor #3 temperature out of range"),
        0x14 => w.put("Processor #4 temperature out of range"),
        0x15..=0x1F => {
            w.put("Out-of-range temperatures reserved: ");
            w.num(v as u64, 10, 1)
        }
        0x20..=0x27 => {
            w.put("Fan ");
            w.num(v as u64 & 7, 10, 1);
            w.put(" Out of range");
        }
        0x30 => w.put("Chassis secure switch activated"),
        _ if hi == 0x1_0000 => {
            w.put("A system-management probe or cooling device with handle 0x");
            w.num(v as u64 & 0xFFFF, 16, 4);
            w.put(" is out of range");
        }
        _ if hi >= 0x8000_0000 => {
            w.put("OEM assigned: ");
            w.num(v as u64, 10, 1);
        }
        _ => {
            w.put("Reserved: ");
            w.num(v as u64, 10, 1);
        }
    });
}

#[no_mangle]
pub extern "C" fn c22_variable_data() {
    use VariableDataFormatType as V;
    let v = u8_();
    let h = u8_() as u16;
    let counter = u8_() as u32;
    let k = choose(9);
    let e = match k {
        0 => V::None,
        1 => V::Handle { handle: h },
        2 => V::MultipleEvent { counter },
        3 => V::MultipleEventHandle { handle: h, counter },
        4 => V::PostResults((counter as u64).into()),
        5 => V::SystemManagementType(0x10.into()),
        6 => V::MultipleEventSystemManagementType { system_management_type: 3.into(), counter },
        7 => V::Unused(v),
        _ => V::OemAssigned(v),
    };
    let short = text(&e);
    same(&short, "the text of a variable data format", |w| {
        w.put(
            ["None", "Handle", "Multiple-event", "Multiple-event handle", "POST results bitmap", "System management",
             "Multiple-event system management", "Unused: ", "OEM-specific"][k],
        );
        if k == 7 {
            w.num(v as u64, 10, 1);
        }
    });
    let long = text_alt(&e);
    same(&long, "the long text of a variable data format", |w| match k {
        0 => w.put("No standard format data is available"),
        1 => {
            w.put("SMBIOS structure associated handle: ");
            w.num(h as u64, 10, 1);
        }
        2 => {
            w.put("Multiple-event counter value: ");
            w.num(counter as u64, 10, 1);
        }
        3 => {
            w.put("Multiple-event: Handle 0x");
            w.num(h as u64, 16, 4);
            w.put(", Count ");
            w.num(counter as u64, 10, 1);
        }
        4 => {
            w.put("POST result: 0x");
            w.num(counter as u64, 16, 1);
        }
        5 => w.put("System management: System board temperature out of range"),
        6 => {
            w.put("Multiple-event system management: Type +5V Out of range, Count ");
            w.num(counter as u64, 10, 1);
        }
        7 => {
            w.put("Unused: ");
            w.num(v as u64, 10, 1);
        }
        _ => {
            w.put("OEM assigned: ");
            w.num(v as u64, 10, 1);
        }
    });
}

#[no_mangle]
pub extern "C" fn c22_voltage() {
    use dmidecode::processor::Voltage;
    let v = choose(256) as u8;
    let t = text(&Voltage::from(v));
    if v >= 0x80 {
        let n = (v & 0x7F) as u64;
        same(&t, "the text of a current voltage", |w| {
            w.put("Current voltage: ");
            w.num(n / 10, 10, 1);
            w.put(".");
            w.num(n % 10, 10, 1);
            w.put(" V");
        });
    } else if v & 0x78 != 0 {
        same(&t, "the text of an undefined voltage", |w| {
            w.put("Undefined 0b");
            w.num(v as u64, 2, 1);
        });
    } else if v == 0 {
        ck(t.is("Voltage capability unknown"), "the text of no legacy voltage");
    } else {
        // How 5 V is shown is left open
        let has = |s: &[u8]| t.bytes().windows(s.len()).any(|x| x == s);
        ck(has(b"3.3V") == (v & 2 != 0), "the text of a legacy voltage shows 3.3 V if it is there");
        ck(has(b"2.9V") == (v & 4 != 0), "the text of a legacy voltage shows 2.9 V if it is there");
        ck(has(b"5V") == (v & 1 != 0), "the text of a legacy voltage shows 5 V if it is there");
    }
}

/// Slot pitches of 256 * param(0) to 256 * param(0) + 255 hundredths of a millimetre
#[no_mangle]
pub extern "C" fn c22_pitch() {
    let n = (param(0) * 256 + choose(256)) as u64;
    let t = text(&dmidecode::system_slots::SlotPitch::from(n as u16));
    same(&t, "the text of a slot pitch", |w| {
        if n == 0 {
            w.put("Not given or is unknown");
        } else {
            w.num(n / 100, 10, 1);
            w.put(".");
            w.num(n % 100, 10, 2);
            w.put(" mm");
        }
    });
}

/// A peer device, all bytes symbolic
#[no_mangle]
pub extern "C" fn c22_device() {
    use dmidecode::system_slots::Device;
    let (seg, bus, df, width) = (u16_(), u8_(), u8_(), u8_());
    let b = [seg as u8, (seg >> 8) as u8, bus, df, width];
    let t = text(&Device::from(&b[..]));
    let low = |w: &mut Text, v: u64, n: usize| {
        for i in (0..n).rev() {
            let d = (v >> (4 * i)) as u8 & 15;
            w.b[w.n] = if d < 10 { b'0' + d } else { b'a' + d - 10 };
            w.n += 1;
        }
    };
    same(&t, "the text of a peer device", |w| {
        low(w, seg as u64, 4);
        w.put(":");
        low(w, bus as u64, 2);
        w.put(":");
        low(w, df as u64 / 8, 2);
        w.put(".");
        low(w, df as u64 % 8, 1);
        w.put(" (Width ");
        w.num(width as u64, 10, 1);
        w.put(")");
    });
}
