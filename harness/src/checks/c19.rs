//! C19: codes with a payload (see codes.rs for the plain ones)
use super::common::*;
use dmidecode::enclosure::ContainedElementType;
use dmidecode::processor::Voltage;
use dmidecode::system_event_log::log_record_format::*;
use dmidecode::system_event_log::*;

/// Every code of system management
#[no_mangle]
pub extern "C" fn c19_system_management() {
    use SystemManagementType as S;
    let v = u32_();
    #[inline(never)]
    fn decode(v: u32) -> S {
        v.into()
    }
    let want = match v {
        0 => S::OutOfRangeVoltagePlus2_5Num1,
        1 => S::OutOfRangeVoltagePlus2_5Num2,
        2 => S::OutOfRangeVoltagePlus3_3,
        3 => S::OutOfRangeVoltagePlus5,
        4 => S::OutOfRangeVoltageMinus5,
        5 => S::OutOfRangeVoltagePlus12,
        6 => S::OutOfRangeVoltageMinus12,
        7..=0xF => S::OutOfRangeVoltageReserved(v as u8),
        0x10 => S::OutOfRangeTemperatureSystemBoard,
        0x11 => S::OutOfRangeTemperatureProcessor1,
        0x12 => S::OutOfRangeTemperatureProcessor2,
        0x13 => S::OutOfRangeTemperatureProcessor3,
        0x14 => S::OutOfRangeTemperatureProcessor4,
        0x15..=0x1F => S::OutOfRangeTemperatureReserved(v as u8),
        0x20..=0x27 => S::OutOfRangeFan(v as u8 - 0x20),
        0x30 => S::ChassisSecureSwitchActivated,
        0x1_0000..=0x1_FFFF => S::OutOfRangeSystemManagementProbe((v - 0x1_0000) as u16),
        0x8000_0000.. => S::OemAssigned(v),
        _ => S::Reserved(v),
    };
    ck(decode(v) == want, "the code of a system management event");
}

/// Every code of variable data formats; the data themselves are not part of it
#[no_mangle]
pub extern "C" fn c19_variable_data() {
    use VariableDataFormatType as V;
    let v = u8_();
    #[inline(never)]
    fn decode(v: u8) -> V {
        v.into()
    }
    let got = decode(v);
    let ok = match v {
        0 => matches!(got, V::None),
        1 => matches!(got, V::Handle { .. }),
        2 => matches!(got, V::MultipleEvent { .. }),
        3 => matches!(got, V::MultipleEventHandle { .. }),
        4 => matches!(got, V::PostResults(_)),
        5 => matches!(got, V::SystemManagementType(_)),
        6 => matches!(got, V::MultipleEventSystemManagementType { .. }),
        7..=0x7F => matches!(got, V::Unused(x) if x == v),
        _ => matches!(got, V::OemAssigned(x) if x == v),
    };
    ck(ok, "the code of a variable data format");
}

/// Every access method and address
#[no_mangle]
pub extern "C" fn c19_access_method() {
    use AccessMethod as A;
    let (m, a) = (u8_(), u32_());
    #[inline(never)]
    fn decode(m: u8, a: u32) -> A {
        A::new(m, a)
    }
    let (i0, i1, d) = (a as u8, (a >> 8) as u8, (a >> 16) as u8);
    let want = match m {
        0 => A::IndexedIoOne8bitIndexOne8bitData { index: i0, data: d },
        1 => A::IndexedIoTwo8bitIndexOne8bitData { index: [i0, i1], data: d },
        2 => A::IndexedIoOne16bitIndexOne8bitData { index: a as u16, data: d },
        3 => A::MemoryMappedPhysicaAddress { physical_address: a },
        4 => A::GeneralPurposeNonVolatileData { gpnv_handle: a as u16 },
        5..=0x7F => A::Available { method: m, address: a },
        _ => A::OemSpecific { method: m, address: a },
    };
    ck(decode(m, a) == want, "the code of an access method");
}

/// Every type of a contained element
#[no_mangle]
pub extern "C" fn c19_contained_element() {
    let v = u8_();
    #[inline(never)]
    fn decode(v: u8) -> ContainedElementType {
        v.into()
    }
    match decode(v) {
        ContainedElementType::BoardType(b) => {
            cover("board");
            ck(v < 0x80 && b == dmidecode::baseboard::BoardType::from(v), "the board type of a contained element")
        }
        ContainedElementType::InfoType(i) => {
            cover("structure");
            ck(v >= 0x80 && i == InfoType::from(v & 0x7F), "the structure type of a contained element")
        }
    }
}

#[no_mangle]
pub extern "C" fn c19_voltage() {
    let v = u8_();
    #[inline(never)]
    fn decode(v: u8) -> Voltage {
        v.into()
    }
    match decode(v) {
        Voltage::Current(x) => ck(v >= 0x80 && x == v & 0x7F, "the current voltage"),
        Voltage::Legacy(x) => ck(v < 8 && x.bits() == v, "the legacy voltages"),
        Voltage::Undefined(x) => ck(v < 0x80 && v & 0x78 != 0 && x == v, "an undefined voltage"),
    }
}
