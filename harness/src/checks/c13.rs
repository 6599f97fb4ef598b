//! C13: port connectors (type 8) and system slots (type 9)
use super::common::*;
use core::fmt::Write;
use dmidecode::bitfield::BitField;
use dmidecode::system_slots::{Device, PeerDevices};

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c13_port() {
    let l = param(0);
    let b: &[u8] = table(8, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let strs = [4, 6];
    let want = if !o.has(0, 9) {
        Want::Length
    } else if o.any_bad(&strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::PortConnector, &strs), PortConnector) {
        ck(s.handle == o.handle(), "port handle");
        o.ck_str(s.internal_reference_designator, 4, "internal designator");
        ck(s.internal_connector_type == o.u8(5).into(), "internal connector type");
        o.ck_str(s.external_reference_designator, 6, "external designator");
        ck(s.external_connector_type == o.u8(7).into(), "external connector type");
        ck(s.port_type == o.u8(8).into(), "port type");
    }
}

#[inline(never)]
fn peer(it: &mut PeerDevices) -> Option<Device> {
    it.next()
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c13_slot() {
    let l = param(0);
    let b: &[u8] = table(9, l, STRS);
    let v = (u8_(), u8_());
    slot(b, l, v);
}

/// Formatted length param(0), peer group count param(1), version 3.4: one peer group, any of them,
/// and the fields that follow the groups are symbolic
#[no_mangle]
pub extern "C" fn c13_peers() {
    let (l, n) = (param(0), param(1));
    let b = zero_buf(l + STRS.len());
    for i in 0x13..l {
        b[i] = (i as u8).wrapping_mul(7) | 1;
    }
    let at = 0x13 + 5 * choose(n.max(1));
    for i in (at..at + 5).chain(0x13 + 5 * n..0x18 + 5 * n) {
        if i < l {
            b[i] = u8_();
        }
    }
    b[0] = 9;
    b[1] = l as u8;
    b[0x12] = n as u8;
    b[l..].copy_from_slice(STRS);
    slot(b, l, (3, 4));
}

fn slot(b: &[u8], l: usize, v: (u8, u8)) {
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let strs = [4];
    let length = if o.since(3, 2) {
        l >= 0x11
    } else if o.since(2, 6) {
        l == 0x11
    } else if o.since(2, 1) {
        l == 0x0D
    } else if o.since(2, 0) {
        l == 0x0C
    } else {
        true
    };
    let want = if !length {
        Want::Length
    } else if !o.has(0, 0x0C) {
        Want::Reject
    } else if o.bad(4) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::SystemSlots, &strs), SystemSlots) {
        ck(s.handle == o.handle(), "slot handle");
        o.ck_str(s.slot_designation, 4, "designation");
        ck(s.slot_type == o.u8(5).into(), "slot type");
        ck(s.slot_data_bus_width == o.u8(6).into(), "slot width");
        ck(s.current_usage == o.u8(7).into(), "current usage");
        ck(s.slot_length == o.u8(8).into(), "slot length");
        ck(s.slot_id == o.u16(9), "slot ID");
        ck(s.slot_characteristics_1.value() == o.u8(0xB), "slot characteristics 1");
        match s.slot_characteristics_2 {
            None => ck(!o.has(0xC, 1), "slot characteristics 2 presence"),
            Some(x) => {
                ck(o.has(0xC, 1), "slot characteristics 2 presence");
                ck(x.value() == o.u8(0xC), "slot characteristics 2");
            }
        }
        let none16 = |x: Option<u16>| if x == Some(0xFFFF) { None } else { x };
        let none8 = |x: Option<u8>| if x == Some(0xFF) { None } else { x };
        ck(s.segment_group_number == none16(o.o16(0xD)), "segment group number");
        ck(s.bus_number == none8(o.o8(0xF)), "bus number");
        let df = none8(o.o8(0x10));
        match s.device_and_function_number {
            None => ck(df.is_none(), "device and function number presence"),
            Some(x) => {
                ck(df.is_some(), "device and function number presence");
                ck(u8::from(x) == o.u8(0x10), "device and function number");
            }
        }
        ck(s.data_bus_width == o.o8(0x11), "data bus width");
        let n = o.o8(0x12).unwrap_or(0);
        let end = 0x13 + 5 * n as usize;
        let fit = end <= l;
        match s.peer_devices {
            None => ck(!fit, "peer devices presence"),
            Some(mut d) => {
                ck(fit, "peer devices presence");
                if fit {
                    cover("peer devices");
                    let n = conc8(n) as usize;
                    for i in 0..n {
                        let at = 0x13 + 5 * i;
                        match peer(&mut d) {
                            None => ck(false, "every peer device is yielded"),
                            Some(x) => {
                                cover("peer device");
                                ck(x.segment_group_number == o.u16(at), "peer segment group");
                                ck(x.bus_number == o.u8(at + 2), "peer bus");
                                ck(u8::from(x.device_and_function_number) == o.u8(at + 3), "peer device and function");
                                ck(x.data_bus_width == o.u8(at + 4), "peer data bus width");
                            }
                        }
                    }
                    ck(peer(&mut d).is_none(), "peer devices end");
                    ck(peer(&mut d).is_none(), "peer devices stay exhausted");
                }
            }
        }
        // The fields that follow the peer groups
        let info = end + 1;
        match s.slot_information {
            None => ck(!o.has(info, 1), "slot information presence"),
            Some(x) => {
                ck(o.has(info, 1), "slot information presence");
                if o.has(info, 1) {
                    let info = 0x14 + 5 * conc8(n) as usize;
                    ck(x == o.u8(info), "slot information");
                }
            }
        }
        match s.slot_physical_width {
            None => ck(!o.has(info + 1, 1), "slot physical width presence"),
            Some(x) => {
                ck(o.has(info + 1, 1), "slot physical width presence");
                if o.has(info + 1, 1) {
                    let info = 0x14 + 5 * conc8(n) as usize;
                    ck(x == o.u8(info + 1).into(), "slot physical width");
                }
            }
        }
        match s.slot_pitch {
            None => ck(!o.has(info + 2, 2), "slot pitch presence"),
            Some(x) => {
                ck(o.has(info + 2, 2), "slot pitch presence");
                if o.has(info + 2, 2) {
                    cover("slot pitch");
                    let info = 0x14 + 5 * conc8(n) as usize;
                    ck(x == o.u16(info + 2).into(), "slot pitch");
                }
            }
        }
    }
}

/// The text of a peer device shows segment, bus, device, function and width
#[no_mangle]
pub extern "C" fn c13_device_text() {
    let (seg, bus, df, width) = (u16_(), u8_(), u8_(), u8_());
    let b = [seg as u8, (seg >> 8) as u8, bus, df, width];
    let d = Device::from(&b[..]);
    let (mut got, mut want) = (Text::new(), Text::new());
    let _ = write!(got, "{}", d);
    let _ = write!(want, "{:04x}:{:02x}:{:02x}.{:x} (Width {})", seg, bus, df / 8, df % 8, width);
    cover("shown");
    ck(got.same(&want), "a peer device shows segment, bus, device, function and width");
    let r: [u8; 5] = (&d).into();
    ck(r == b, "a peer device converts back to its bytes");
}

/// The text of a slot pitch of 256 * param(0) to 256 * param(0) + 255 hundredths of a millimetre
#[no_mangle]
pub extern "C" fn c13_pitch_text() {
    let n = (param(0) * 256 + choose(256)) as u16;
    let mut got = Text::new();
    let _ = write!(got, "{}", system_slots::SlotPitch::from(n));
    if n == 0 {
        ck(got.is("Not given or is unknown"), "an unknown slot pitch is shown as such");
    } else {
        let mut want = Text::new();
        let _ = write!(want, "{}.{:02} mm", n / 100, n % 100);
        cover("shown");
        ck(got.same(&want), "a slot pitch is shown in millimetres");
    }
}
