//! C21: sizes, numbers and round trips
use super::common::*;
use dmidecode::bitfield::BitField;
use dmidecode::cache::{CacheSize, CacheSize2, CacheSramType};
use dmidecode::portable_battery::DesignCapacity;
use dmidecode::system_event_log::log_record_format::*;
use dmidecode::system_event_log::*;
use dmidecode::system_slots::*;

#[inline(never)]
fn rom(s: dmidecode::bios::RomSize) -> u64 {
    s.into()
}
/// Any ROM size but those of a reserved unit
#[no_mangle]
pub extern "C" fn c21_rom_size() {
    let basic = u8_();
    let extended = if u8_() & 1 == 1 { Some(u16_()) } else { None };
    let unit = extended.unwrap_or(0) >> 14;
    assume(basic != 0xFF || unit < 2);
    let got = rom(dmidecode::bios::RomSize { basic, extended });
    let want = match (basic, extended) {
        (0xFF, Some(x)) => {
            cover("extended");
            ((x & 0x3FFF) as u64) * if unit == 0 { 1 << 20 } else { 1 << 30 }
        }
        // 16 MB or more, of which no more is known
        (b, _) => {
            cover("basic");
            (b as u64 + 1) * 65536
        }
    };
    ck(got == want, "the ROM size in bytes");
}
/// ROM sizes of a reserved unit
#[no_mangle]
pub extern "C" fn c21_rom_size_reserved() {
    let x = u16_();
    assume(x >> 14 >= 2);
    note("unit", (x >> 14) as u64);
    keep(rom(dmidecode::bios::RomSize { basic: 0xFF, extended: Some(x) }));
    cover("converted");
}

#[no_mangle]
pub extern "C" fn c21_cache_size() {
    let (a, b) = (u16_(), u32_());
    #[inline(never)]
    fn size(a: u16) -> u64 {
        CacheSize::from(a).bytes()
    }
    #[inline(never)]
    fn size2(a: u32) -> u64 {
        CacheSize2::from(a).bytes()
    }
    ck(size(a) == (a & 0x7FFF) as u64 * if a < 0x8000 { 1024 } else { 65536 }, "a cache size in bytes");
    ck(size2(b) == (b & 0x7FFF_FFFF) as u64 * if b < 0x8000_0000 { 1024 } else { 65536 }, "a cache size in bytes");
    // values no field can hold are sizes, too
    ck(CacheSize::Granularity64K(a).bytes() == a as u64 * 65536, "a cache size in bytes");
    ck(CacheSize2::Granularity64K(b).bytes() == b as u64 * 65536, "a cache size in bytes");
    ck(CacheSize::Granularity1K(a).bytes() == a as u64 * 1024, "a cache size in bytes");
    ck(CacheSize2::Granularity1K(b).bytes() == b as u64 * 1024, "a cache size in bytes");
}

#[no_mangle]
pub extern "C" fn c21_capacity() {
    let (value, multiplier) = (u16_(), u8_());
    let n: u64 = DesignCapacity::Data { value, multiplier }.into();
    ck(n == value as u64 * multiplier as u64, "a design capacity");
    let n: u64 = DesignCapacity::Unknown.into();
    ck(n == 0, "an unknown design capacity");
}

#[no_mangle]
pub extern "C" fn c21_event_log() {
    let v = u8_();
    #[inline(never)]
    fn type_(v: u8) -> u8 {
        EventLogType::from(v).into()
    }
    #[inline(never)]
    fn format(v: u8) -> u8 {
        VariableDataFormatType::from(v).into()
    }
    #[inline(never)]
    fn both(v: [u8; 2]) -> [u8; 2] {
        EventLogTypeDescriptor::from(v).into()
    }
    ck(type_(v) == v, "an event log type keeps its code");
    ck(format(v) == v, "a data format keeps its code");
    let w = u8_();
    let r = both([v, w]);
    ck(r[0] == v && r[1] == w, "a descriptor keeps its codes");
    let d = EventLogTypeDescriptor::from([v, w]);
    ck(d.log_type == EventLogType::from(v), "a descriptor's type");
    ck(d.variable_data_format_type == VariableDataFormatType::from(w), "a descriptor's data format");
    let m = "the kind of a data format";
    match VariableDataFormatType::from(v) {
        VariableDataFormatType::None => ck(v == 0, m),
        VariableDataFormatType::Handle { .. } => ck(v == 1, m),
        VariableDataFormatType::MultipleEvent { .. } => ck(v == 2, m),
        VariableDataFormatType::MultipleEventHandle { .. } => ck(v == 3, m),
        VariableDataFormatType::PostResults(_) => ck(v == 4, m),
        VariableDataFormatType::SystemManagementType(_) => ck(v == 5, m),
        VariableDataFormatType::MultipleEventSystemManagementType { .. } => ck(v == 6, m),
        VariableDataFormatType::Unused(x) => ck(x == v && v >= 7 && v < 0x80, m),
        VariableDataFormatType::OemAssigned(x) => ck(x == v && v >= 0x80, m),
    }
    let (q, s) = (u64_(), u8_());
    ck(PostResults::from(q).value() == q, "POST results keep their bits");
    ck(LogStatus::from(s).value() == s, "a log status keeps its bits");
}

#[no_mangle]
pub extern "C" fn c21_slots() {
    let v = u8_();
    #[inline(never)]
    fn device(v: u8) -> u8 {
        DeviceAndFunctionNumber::from(v).into()
    }
    ck(device(v) == v, "device and function number keep their byte");
    let b = [u8_(), u8_(), u8_(), u8_(), u8_()];
    #[inline(never)]
    fn peer(b: &[u8]) -> Device {
        Device::from(b)
    }
    let d = peer(&b);
    ck(d.segment_group_number == b[0] as u16 | (b[1] as u16) << 8, "a peer's segment group");
    ck(d.bus_number == b[2], "a peer's bus");
    ck(d.device_and_function_number == DeviceAndFunctionNumber::from(b[3]), "a peer's device and function");
    ck(d.data_bus_width == b[4], "a peer's bus width");
    let r: [u8; 5] = (&d).into();
    let mut same = true;
    for i in 0..5 {
        same &= r[i] == b[i];
    }
    ck(same, "a peer device keeps its bytes");
    ck(SlotCharacteristics1::from(v).value() == v, "slot characteristics keep their bits");
    ck(SlotCharacteristics2::from(v).value() == v, "slot characteristics keep their bits");
}

/// Any method and address
#[no_mangle]
pub extern "C" fn c21_access_method() {
    let (m, a) = (u8_(), u32_());
    #[inline(never)]
    fn address(m: u8, a: u32) -> u32 {
        AccessMethod::new(m, a).address()
    }
    let want = match m {
        0 => a & 0x00FF_00FF,
        1 | 2 => a & 0x00FF_FFFF,
        4 => a & 0xFFFF,
        _ => a,
    };
    ck(address(m, a) == want, "the address of an access method");
}

/// Versions: their fields, and their order
#[no_mangle]
pub extern "C" fn c21_version() {
    let (a, b, c, d) = (u8_(), u8_(), u8_(), u8_());
    let v = SmbiosVersion::from((a as usize, b as usize));
    ck(v.major == a && v.minor == b, "the fields of a version");
    let w = SmbiosVersion { major: c, minor: d };
    #[inline(never)]
    fn order(v: &SmbiosVersion, w: &SmbiosVersion) -> core::cmp::Ordering {
        v.cmp(w)
    }
    ck(order(&v, &w) == (a as u16 * 256 + b as u16).cmp(&(c as u16 * 256 + d as u16)), "versions are ordered by major, then minor");
    ck((v == w) == (a == c && b == d), "equal versions");
    ck((v < w) == (a < c || a == c && b < d), "older versions");
    ck((v >= w) == !(a < c || a == c && b < d), "versions of at least");
}

/// What an entry point says
#[no_mangle]
pub extern "C" fn c21_entry_point() {
    let b = any_buf(31);
    let raw = unsafe { core::ptr::read(b.as_ptr() as *const EntryPointV2) };
    let e = EntryPoint::V2(raw);
    let o = O::new(b, 31, (0, 0));
    ck(e.len() == b[5], "length of an entry point");
    ck(e.major() == b[6] && e.minor() == b[7], "version of an entry point");
    ck(e.to_version() == SmbiosVersion { major: b[6], minor: b[7] }, "version of an entry point");
    ck(e.revision() == b[10], "revision of an entry point");
    ck(e.smbios_len() == o.u16(22) as u32, "table length of an entry point");
    ck(e.smbios_address() == o.u32(24) as u64, "table address of an entry point");
    let raw = unsafe { core::ptr::read(b.as_ptr() as *const EntryPointV3) };
    let e = EntryPoint::V3(raw);
    ck(e.len() == b[6], "length of a version 3 entry point");
    ck(e.major() == b[7] && e.minor() == b[8], "version of a version 3 entry point");
    ck(e.to_version() == SmbiosVersion { major: b[7], minor: b[8] }, "version of a version 3 entry point");
    ck(e.revision() == b[10], "revision of a version 3 entry point");
    ck(e.smbios_len() == o.u32(12), "table length of a version 3 entry point");
    ck(e.smbios_address() == o.u64(16), "table address of a version 3 entry point");
}

/// The named flags are those of the specification's bits
#[no_mangle]
pub extern "C" fn c21_flags() {
    use dmidecode::baseboard::BaseBoardFlags as B;
    use dmidecode::memory_device::{Detail as D, OperatingModes as M};
    use dmidecode::processor::{ProcessorCharacteristics as C, ProcessorStatus as S, VoltageLegacy as V};
    use CacheSramType as R;
    macro_rules! flags {
        ($t:ident, $n:ty, $m:expr, $any:expr, { $($f:ident = $v:expr),* $(,)? }) => {{
            let v: $n = $any;
            let f = $t::from_bits_truncate(v);
            ck(f.bits() == v & $m, concat!("the bits of ", stringify!($t)));
            ck($t::all().bits() == $m, concat!("the defined bits of ", stringify!($t)));
            $(
                ck($t::$f.bits() == $v, concat!("the bits of ", stringify!($t), "::", stringify!($f)));
                ck(f.contains($t::$f) == (v & $v == $v), concat!("the flag ", stringify!($t), "::", stringify!($f)));
            )*
        }};
    }
    flags!(B, u8, 0x1F, u8_(), { HOSTING = 1, REQUIRES_DAUGHTER = 2, IS_REMOVABLE = 4, IS_REPLACEABLE = 8, IS_HOT_SWAPPABLE = 16 });
    flags!(S, u8, 0x47, u8_(), { CPU_SOCKET_POPULATED = 0x40, CPU_ENABLED = 1, CPU_DISABLED_BY_USER = 2, CPU_DISABLED_BY_BIOS = 3,
        CPU_IDLE = 4, CPU_OTHER = 7 });
    flags!(V, u8, 7, u8_(), { VOLTAGE_CAPABILITY_5V0 = 1, VOLTAGE_CAPABILITY_3V3 = 2, VOLTAGE_CAPABILITY_2V9 = 4 });
    flags!(R, u16, 0x7F, u16_(), { OTHER = 1, UNKNOWN = 2, NONBURST = 4, BURST = 8, PIPELINE_BURST = 16, SYNCHRONOUS = 32,
        ASYNCHRONOUS = 64 });
    flags!(C, u16, C::all().bits(), u16_(), { UNKNOWN = 2, CAPABLE_64BIT = 4, MULTICORE = 8, HARDWARE_THREAD = 16, EXECUTE_PROTECTION = 32,
        ENHANCED_VIRTUALIZATION = 64, POWER_PERFORMANCE_CONTROL = 128, ARM64_SOC_ID = 512 });
    flags!(D, u16, 0xFFFE, u16_(), { OTHER = 2, UNKNOWN = 4, FAST_PAGED = 8, STATIC_COLUMN = 16, PSEUDO_STATIC = 32, RAMBUS = 64,
        SYNCHRONOUS = 128, CMOS = 256, EDO = 512, WINDOW_DRAM = 1024, CACHE_DRAM = 2048, NON_VOLATILE = 4096, REGISTERED = 8192,
        UNREGISTERED = 16384, LRDIMM = 32768 });
    flags!(M, u16, 0x3E, u16_(), { OTHER = 2, UNKNOWN = 4, VOLATILE = 8, BYTE_ACCESSIBLE_PERSISTENT = 16,
        BLOCK_ACCESSIBLE_PERSISTENT = 32 });
}

#[no_mangle]
pub extern "C" fn c21_voltage() {
    use dmidecode::processor::Voltage;
    let v = u8_();
    #[inline(never)]
    fn decode(v: u8) -> Voltage {
        v.into()
    }
    match decode(v) {
        Voltage::Current(x) => ck(v >= 0x80 && x == v & 0x7F, "the current voltage"),
        Voltage::Legacy(x) => ck(v < 8 && x.bits() == v, "the legacy voltages"),
        Voltage::Undefined(x) => ck(v < 0x80 && v & 0x78 != 0 && x == v, "an undefined voltage"),
    }
}
