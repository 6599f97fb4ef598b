//! C15: system event log (type 15)
use super::common::*;
use dmidecode::bitfield::BitField;
use dmidecode::system_event_log::{AccessMethod, EventLogTypeDescriptor, SupportedEventLogTypeDescriptors};

#[inline(never)]
fn descriptor(it: &mut SupportedEventLogTypeDescriptors) -> Option<EventLogTypeDescriptor> {
    it.next()
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c15_event_log() {
    let l = param(0);
    let b: &[u8] = table(15, l, STRS);
    let v = (u8_(), u8_());
    log(b, l, v);
}

/// param(0) descriptors of param(1) bytes in a formatted length of param(2), any version; one of
/// the descriptors, any of them, is symbolic
#[no_mangle]
pub extern "C" fn c15_descriptors() {
    let (n, size, l) = (param(0), param(1), param(2));
    let b = zero_buf(l + STRS.len());
    for i in 0x17..l {
        b[i] = (i as u8).wrapping_mul(7) | 1;
    }
    let at = 0x17 + size * choose(n.max(1));
    for i in at..at + size {
        if i < l {
            b[i] = u8_();
        }
    }
    b[0] = 15;
    b[1] = l as u8;
    b[0x15] = n as u8;
    b[0x16] = size as u8;
    b[l..].copy_from_slice(STRS);
    log(b, l, (u8_(), u8_()));
}

fn log(b: &[u8], l: usize, v: (u8, u8)) {
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let fits = o.has(0x15, 2) && l - 0x17 == o.u8(0x15) as usize * o.u8(0x16) as usize;
    let length = if o.since(2, 1) {
        fits
    } else if o.since(2, 0) {
        l == 0x14
    } else {
        true
    };
    let want = if !length {
        Want::Length
    } else if !o.has(0, 0x14) {
        Want::Slice
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::SystemEventLog, &[]), SystemEventLog) {
        ck(s.handle == o.handle(), "handle");
        ck(s.log_area_length == o.u16(4), "log area length");
        ck(s.log_header_start_offset == o.u16(6), "log header start offset");
        ck(s.log_data_start_offset == o.u16(8), "log data start offset");
        let (method, address) = (o.u8(0xA), o.u32(0x10));
        let m = "access method";
        match s.access_method {
            AccessMethod::IndexedIoOne8bitIndexOne8bitData { index, data } => {
                ck(method == 0 && index == o.u8(0x10) && data == o.u8(0x12), m)
            }
            AccessMethod::IndexedIoTwo8bitIndexOne8bitData { index, data } => ck(
                method == 1 && index[0] == o.u8(0x10) && index[1] == o.u8(0x11) && data == o.u8(0x12),
                m,
            ),
            AccessMethod::IndexedIoOne16bitIndexOne8bitData { index, data } => {
                ck(method == 2 && index == o.u16(0x10) && data == o.u8(0x12), m)
            }
            AccessMethod::MemoryMappedPhysicaAddress { physical_address } => {
                ck(method == 3 && physical_address == address, m)
            }
            AccessMethod::GeneralPurposeNonVolatileData { gpnv_handle } => {
                ck(method == 4 && gpnv_handle == o.u16(0x10), m)
            }
            AccessMethod::Available { method: x, address: a } => {
                ck(method >= 5 && method < 0x80 && x == method && a == address, m)
            }
            AccessMethod::OemSpecific { method: x, address: a } => {
                ck(method >= 0x80 && x == method && a == address, m)
            }
        }
        ck(s.log_status.value() == o.u8(0xB), "log status");
        ck(s.log_change_token == o.u32(0xC), "log change token");
        match s.log_header_format {
            None => ck(!o.has(0x14, 1), "log header format presence"),
            Some(f) => {
                cover("log header format");
                ck(o.has(0x14, 1), "log header format presence");
                ck(f == o.u8(0x14).into(), "log header format");
            }
        }
        let present = o.has(0x15, 2) && o.u8(0x15) as usize * o.u8(0x16) as usize <= l - 0x17;
        match s.supported_event_log_type_descriptors {
            None => ck(!present, "descriptors presence"),
            Some(mut d) => {
                ck(present, "descriptors presence");
                if present {
                    // what follows the two bytes of a longer descriptor is not defined yet; a
                    // descriptor of less than two bytes does not hold anything
                    let size = conc8(o.u8(0x16)) as usize;
                    let mut n = 0;
                    if size >= 2 {
                        n = conc8(o.u8(0x15)) as usize;
                    }
                    for i in 0..n {
                        let at = 0x17 + size * i;
                        match descriptor(&mut d) {
                            None => ck(false, "every descriptor is yielded"),
                            Some(x) => {
                                cover("descriptor");
                                ck(x.log_type == o.u8(at).into(), "descriptor log type");
                                ck(x.variable_data_format_type == o.u8(at + 1).into(), "descriptor data format type");
                            }
                        }
                    }
                    ck(descriptor(&mut d).is_none(), "descriptors end");
                }
            }
        }
    }
}

/// An access method reports the address it was built from, but for the bytes it has no use for
#[no_mangle]
pub extern "C" fn c15_access_method() {
    let (method, address) = (u8_(), u32_());
    let a = AccessMethod::new(method, address);
    let mask = match method {
        0 => 0x00FF_00FF,
        1 | 2 => 0x00FF_FFFF,
        4 => 0x0000_FFFF,
        _ => 0xFFFF_FFFF,
    };
    cover("address");
    ck(a.address() == address & mask, "the address of an access method");
}
