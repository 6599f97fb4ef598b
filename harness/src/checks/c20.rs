//! C20: the views of bit fields
use super::common::*;
use dmidecode::bitfield::*;
use dmidecode::bitfield::FlagType as F;

/// A bit field over any value and a layout that is chosen by the harness
struct Field<T: Copy> {
    value: T,
    layout: &'static [F<'static>],
}
macro_rules! field {
    ($t:ty) => {
        impl BitField<'static> for Field<$t> {
            type Size = $t;
            fn value(&self) -> $t {
                self.value
            }
            fn iter(&self) -> Iter<'static, $t> {
                Iter { value: self.value, index: 0, layout: self.layout }
            }
        }
    };
}
field!(u8);
field!(u16);
field!(u32);
field!(u64);
field!(u128);

#[inline(never)]
fn next_flag<T: Into<u128> + Copy>(i: &mut Iter<'static, T>) -> Option<Flag<'static>> {
    i.next()
}
#[inline(never)]
fn next_significant<T: Into<u128> + Copy>(i: &mut Significants<'static, T>) -> Option<Flag<'static>> {
    i.next()
}
#[inline(never)]
fn next_reserved<T: Into<u128> + Copy + core::fmt::Debug>(i: &mut Reserved<'static, T>) -> Option<ReservedRange<'static>> {
    i.next()
}

const KINDS: [F<'static>; 4] = [F::Significant("a", "A"), F::Reserved("r"), F::Reserved("s"), F::Unknown];

/// A layout of param(0) entries, each of any kind
fn layout(n: usize, kinds: usize) -> &'static [F<'static>] {
    let b = zero_buf(n * core::mem::size_of::<F>());
    let p = b.as_mut_ptr() as *mut F<'static>;
    for i in 0..n {
        unsafe { p.add(i).write(KINDS[choose(kinds)]) };
    }
    unsafe { core::slice::from_raw_parts(p, n) }
}

fn views<T>(f: Field<T>, n: usize, bits: usize)
where
    T: Copy + Default + Into<u128> + TryFrom<u128> + core::fmt::Debug,
    Field<T>: BitField<'static, Size = T>,
{
    let v: u128 = f.value.into();
    let kind = |i: usize| if i < n { f.layout[i] } else { F::Unknown };
    // every bit in order
    let mut it = f.iter();
    for i in 0..bits {
        match next_flag(&mut it) {
            None => ck(false, "every bit has a flag"),
            Some(x) => {
                ck(x.position == Position(i), "flags come in the order of the bits");
                ck(x.is_set == (v >> i & 1 == 1), "a flag is set if its bit is");
                ck(x.type_ == kind(i), "a flag is described by its entry of the layout");
            }
        }
    }
    ck(next_flag(&mut it).is_none(), "flags end with the bits");
    ck(next_flag(&mut it).is_none(), "exhausted flags stay exhausted");
    // set bits that are not reserved
    let mut it = f.significants();
    for i in 0..bits {
        if v >> i & 1 == 1 && !matches!(kind(i), F::Reserved(_)) {
            match next_significant(&mut it) {
                None => ck(false, "every set bit that is not reserved is significant"),
                Some(x) => {
                    cover("significant");
                    ck(x.position == Position(i), "significant flags come in order");
                    ck(x.is_set, "significant flags are set");
                    ck(x.type_ == kind(i), "a significant flag is described by its entry of the layout");
                }
            }
        }
    }
    ck(next_significant(&mut it).is_none(), "no other bit is significant");
    ck(next_significant(&mut it).is_none(), "exhausted flags stay exhausted");
    ranges(f, n, bits);
}
/// Runs of bits reserved for the same purpose
fn ranges<T>(f: Field<T>, n: usize, bits: usize)
where
    T: Copy + Default + Into<u128> + TryFrom<u128> + core::fmt::Debug,
    Field<T>: BitField<'static, Size = T>,
{
    let kind = |i: usize| if i < n { f.layout[i] } else { F::Unknown };
    let mut it = f.reserved();
    let mut i = 0;
    while i < bits {
        if let F::Reserved(d) = kind(i) {
            let mut j = i;
            while j + 1 < bits && kind(j + 1) == kind(i) {
                j += 1;
            }
            match next_reserved(&mut it) {
                None => ck(false, "every run of reserved bits is yielded"),
                Some(r) => {
                    cover("reserved");
                    ck(*r.range.start() == i && *r.range.end() == j, "the range of a run of reserved bits");
                    ck(r.description == d, "the purpose of a run of reserved bits");
                }
            }
            i = j;
        }
        i += 1;
    }
    ck(next_reserved(&mut it).is_none(), "no other bits are reserved");
    ck(next_reserved(&mut it).is_none(), "exhausted ranges stay exhausted");
}

/// Any value and any layout of param(0) entries, which may be fewer or more than the bits
#[no_mangle]
pub extern "C" fn c20_any_layout() {
    let n = param(0);
    let l = layout(n, 4);
    views(Field::<u8> { value: u8_(), layout: l }, n, 8);
}

/// The same of the reserved bits only, for layouts without entries of unknown kind
#[no_mangle]
pub extern "C" fn c20_any_reserved() {
    let n = param(0);
    let l = layout(n, 3);
    ranges(Field::<u8> { value: u8_(), layout: l }, n, 8);
}

static FIXED: [F; 20] = [
    F::Reserved("r"),
    F::Significant("a", "A"),
    F::Reserved("r"),
    F::Reserved("s"),
    F::Reserved("r"),
    F::Reserved("r"),
    F::Unknown,
    F::Significant("b", "B"),
    F::Reserved("s"),
    F::Reserved("s"),
    F::Significant("a", "A"),
    F::Unknown,
    F::Reserved("r"),
    F::Significant("c", "C"),
    F::Significant("d", "D"),
    F::Reserved("t"),
    F::Reserved("t"),
    F::Reserved("t"),
    F::Significant("e", "E"),
    F::Reserved("r"),
];
/// The significant flags among the bits from `at` on, at most 8, any of them set; the others are not
fn window(at: usize) -> u128 {
    (u8_() as u128) << at
}
/// 8 bits of any value at bit param(0), under the fixed layout
#[no_mangle]
pub extern "C" fn c20_u16() {
    views(Field::<u16> { value: window(param(0)) as u16, layout: &FIXED }, 20, 16);
}
#[no_mangle]
pub extern "C" fn c20_u32() {
    views(Field::<u32> { value: window(param(0)) as u32, layout: &FIXED }, 20, 32);
}
#[no_mangle]
pub extern "C" fn c20_u64() {
    views(Field::<u64> { value: window(param(0)) as u64, layout: &FIXED }, 20, 64);
}
#[no_mangle]
pub extern "C" fn c20_u128() {
    views(Field::<u128> { value: window(param(0)), layout: &FIXED }, 20, 128);
}

/// A value is the collection of the positions of its set bits
macro_rules! collect {
    ($name:ident, $t:ty) => {
        /// Bits param(0) to param(0) + 5 in any order of any positions
        #[no_mangle]
        pub extern "C" fn $name() {
            let at = param(0);
            let m = u8_();
            let p = [Position(at), Position(at + 1), Position(at + 2), Position(at + 3), Position(at + 4), Position(at + 5)];
            #[inline(never)]
            fn value(p: &[Position; 6], m: u8) -> $t {
                p.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| *p).collect()
            }
            #[inline(never)]
            fn by_ref(p: &[Position; 6], m: u8) -> $t {
                p.iter().rev().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| p).collect()
            }
            let (mut v, mut w): ($t, $t) = (0, 0);
            for i in 0..6 {
                if m >> i & 1 == 1 {
                    v |= 1 << (at + i);
                    w |= 1 << (at + 5 - i);
                }
            }
            ck(value(&p, m) == v, "a number collects its bits");
            ck(by_ref(&p, m) == w, "a number collects its bits");
            let once = [Position(at), Position(at)];
            ck(once.iter().collect::<$t>() == 1 << at, "a bit collected twice is set");
        }
    };
}
collect!(c20_collect_u8, u8);
collect!(c20_collect_u16, u16);
collect!(c20_collect_u32, u32);
collect!(c20_collect_u64, u64);
collect!(c20_collect_u128, u128);
collect!(c20_collect_usize, usize);

/// The text of a flag
#[no_mangle]
pub extern "C" fn c20_flag_text() {
    let t = KINDS[choose(4)];
    let is_set = u8_() & 1 == 1;
    let f = Flag { position: Position(u8_() as usize), is_set, type_: t };
    let (a, b) = match t {
        F::Significant(a, b) => (a, b),
        F::Reserved(a) => (a, a),
        F::Unknown => ("Unknown", "Unknown"),
    };
    ck(text(&f).is(a), "the short text of a flag");
    ck(text_alt(&f).is(b), "the long text of a flag");
    cover("shown");
}

fn pinned<T: BitField<'static>>(f: &T, v: u64, n: usize, want: &'static [F<'static>])
where
    T::Size: Into<u64>,
{
    ck(f.value().into() == v, "the value of the field");
    let mut it = f.iter();
    for i in 0..n {
        match it.next() {
            None => ck(false, "every bit has a flag"),
            Some(x) => {
                cover("flag");
                ck(x.position == Position(i), "flags come in the order of the bits");
                ck(x.is_set == (v >> i & 1 == 1), "a flag is set if its bit is");
                ck(x.type_ == want[i], "the meaning of a flag is that of the specification");
            }
        }
    }
    ck(it.next().is_none(), "flags end with the bits");
}

/// The meaning of the bits of every field of the structures, for any value
#[no_mangle]
pub extern "C" fn c20_bios() {
    let b = table(0, 0x18, STRS);
    for i in 4..9 {
        b[i] = 0;
    }
    let b: &[u8] = b;
    match first(b, 2, 4) {
        Some(Ok(Structure::Bios(s))) => {
            let o = O::new(b, 0x18, (2, 4));
            pinned(&s.bios_characteristics, o.u64(0xA), 64, &CHARACTERISTICS);
            match s.bios_characteristics_exttension_1 {
                Some(x) => pinned(&x, o.u8(0x12) as u64, 8, &EXTENSION_1),
                None => ck(false, "a 2.4 structure has two extension bytes"),
            }
            match s.bios_characteristics_exttension_2 {
                Some(x) => pinned(&x, o.u8(0x13) as u64, 8, &EXTENSION_2),
                None => ck(false, "a 2.4 structure has two extension bytes"),
            }
        }
        _ => ck(false, "a valid structure is decoded"),
    }
}
#[no_mangle]
pub extern "C" fn c20_language() {
    let b: &[u8] = table(13, 0x16, STRS);
    match first(b, 2, 1) {
        Some(Ok(Structure::BiosLanguage(s))) => match s.flags {
            Some(x) => pinned(&x, b[5] as u64, 8, &LANGUAGE),
            None => ck(false, "a 2.1 structure has flags"),
        },
        _ => ck(false, "a valid structure is decoded"),
    }
}
#[no_mangle]
pub extern "C" fn c20_slots() {
    let (a, b) = (u8_(), u8_());
    pinned(&dmidecode::system_slots::SlotCharacteristics1::from(a), a as u64, 8, &SLOT_1);
    pinned(&dmidecode::system_slots::SlotCharacteristics2::from(b), b as u64, 8, &SLOT_2);
}
#[no_mangle]
pub extern "C" fn c20_event_log() {
    let (a, b) = (u8_(), u64_());
    pinned(&dmidecode::system_event_log::LogStatus::from(a), a as u64, 8, &LOG_STATUS);
    pinned(&dmidecode::system_event_log::log_record_format::PostResults::from(b), b, 64, &POST_RESULTS);
}

// The layouts of the specification, reviewed; not regenerated
static CHARACTERISTICS: [F; 64] = [
    F::Significant("Reserved", "Reserved"),
    F::Significant("Reserved", "Reserved"),
    F::Significant("Unknown", "Unknown"),
    F::Significant("BIOS characteristics not supported", "BIOS Characteristics are not supported"),
    F::Significant("ISA is supported", "ISA is supported"),
    F::Significant("MCA is supported", "MCA is supported"),
    F::Significant("EISA is supported", "EISA is supported"),
    F::Significant("PCI is supported", "PCI is supported"),
    F::Significant("PC card (PCMCIA) is supported", "PC card (PCMCIA) is supported"),
    F::Significant("PNP is supported", "Plug and Play is supported"),
    F::Significant("APM is supported", "APM is supported"),
    F::Significant("BIOS is upgradeable", "BIOS is upgradeable (Flash)"),
    F::Significant("BIOS shadowing is allowed", "BIOS shadowing is allowed"),
    F::Significant("VLB is supported", "VL-VESA is supported"),
    F::Significant("ESCD support is available", "ESCD support is available"),
    F::Significant("Boot from CD is supported", "Boot from CD is supported"),
    F::Significant("Selectable boot is supported", "Selectable boot is supported"),
    F::Significant("BIOS ROM is socketed", "BIOS ROM is socketed (e.g. PLCC or SOP socket)"),
    F::Significant("Boot from PC card (PCMCIA) is supported", "Boot from PC card (PCMCIA) is supported"),
    F::Significant("EDD is supported", "EDD specification is supported"),
    F::Significant("Japanese floppy for NEC 9800 1.2 MB is supported (int 13h)", "Int 13h — Japanese floppy for NEC 9800 1.2 MB (3.5”, 1K bytes/sector, 360 RPM) is supported"),
    F::Significant("Japanese floppy for Toshiba 1.2 MB is supported (int 13h)", "Int 13h — Japanese floppy for Toshiba 1.2 MB (3.5”, 360 RPM) is supported"),
    F::Significant("5.25\"/360 kB floppy services are supported (int 13h)", "Int 13h — 5.25” / 360 KB floppy services are supported"),
    F::Significant("5.25\"/1.2 MB floppy services are supported (int 13h)", "Int 13h — 5.25” /1.2 MB floppy services are supported"),
    F::Significant("3.5\"/720 kB floppy services are supported (int 13h)", "Int 13h — 3.5” / 720 KB floppy services are supported"),
    F::Significant("3.5\"/2.88 MB floppy services are supported (int 13h)", "Int 13h — 3.5” / 2.88 MB floppy services are supported"),
    F::Significant("Print screen service is supported (int 5h)", "Int 5h, print screen Service is supported"),
    F::Significant("8042 keyboard services are supported (int 9h)", "Int 9h, 8042 keyboard services are supported"),
    F::Significant("Serial services are supported (int 14h)", "Int 14h, serial services are supported"),
    F::Significant("Printer services are supported (int 17h)", "Int 17h, printer services are supported"),
    F::Significant("CGA/mono video services are supported (int 10h)", "Int 10h, CGA/Mono Video Services are supported"),
    F::Significant("NEC PC-98", "NEC PC-98"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for BIOS vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
    F::Reserved("Reserved for system vendor"),
];
static EXTENSION_1: [F; 8] = [
    F::Significant("ACPI is supported", "ACPI is supported"),
    F::Significant("USB legacy is supported", "USB Legacy is supported"),
    F::Significant("AGP is supported", "AGP is supported"),
    F::Significant("I2O boot is supported", "I2O boot is supported"),
    F::Significant("LS-120 SuperDisk boot is supported", "LS-120 SuperDisk boot is supported"),
    F::Significant("ATAPI ZIP drive boot is supported", "ATAPI ZIP drive boot is supported"),
    F::Significant("IEEE 1394 boot is supported", "1394 boot is supported"),
    F::Significant("Smart battery is supported", "Smart battery is supported"),
];
static EXTENSION_2: [F; 8] = [
    F::Significant("BIOS boot specification is supported", "BIOS Boot specification is supported"),
    F::Significant("Function key-initiated network boot is supported", "Function key-initiated network service boot is supported. When function key-uninitiated network service boot is not supported, a network adapter option ROM may choose to offer this functionality on its own, thus offering this capability to legacy systems. When the function is supported, the network adapter option ROM shall not offer this capability"),
    F::Significant("Targeted content distribution is supported", "Enable targeted content distribution. The manufacturer has ensured that the SMBIOS data is useful in identifying the computer for targeted delivery of model-specific software and firmware content through third-party content distribution services"),
    F::Significant("UEFI is supported", "UEFI is supported"),
    F::Significant("System is a virtual machine", "SMBIOS table describes a virtual machine. (If this bit is not set, no inference can be made about the virtuality of the system.)"),
    F::Reserved("Reserved for future assignment"),
    F::Reserved("Reserved for future assignment"),
    F::Reserved("Reserved for future assignment"),
];
static SLOT_1: [F; 8] = [
    F::Significant("Characteristics unknown", "Characteristics unknown"),
    F::Significant("5.0 V is provided", "Provides 5.0 volts"),
    F::Significant("3.3 V is provided", "Provides 3.3 volts"),
    F::Significant("Opening is shared", "Slot’s opening is shared with another slot (for example, PCI/EISA shared slot)"),
    F::Significant("PC Card-16 is supported", "PC Card slot supports PC Card-16"),
    F::Significant("Cardbus is supported", "PC Card slot supports CardBus"),
    F::Significant("Zoom Video is supported", "PC Card slot supports Zoom Video"),
    F::Significant("Modem ring resume is supported", "PC Card slot supports Modem Ring Resume"),
];
static SLOT_2: [F; 8] = [
    F::Significant("PME signal is supported", "PCI slot supports Power Management Event (PME#) signal"),
    F::Significant("Hot-plug devices are supported", "Slot supports hot-plug devices"),
    F::Significant("SMBus signal is supported", "PCI slot supports SMBus signal"),
    F::Significant("PCIe slot bifurcation is supported", "PCIe slot supports bifurcation. This slot can partition its lanes into two or more PCIe devices plugged into the slot. Note: This field does not indicate complete details on what levels of bifurcation are supported by the slot, but only that the slot supports some level of bifurcation"),
    F::Significant("Async/surprise removal is supported", "Slot supports async/surprise removal (i.e., removal without prior notification to the operating system, device driver, or applications)"),
    F::Significant("Flexbus slot, CXL 1.0 capable", "Flexbus slot, CXL 1.0 capable"),
    F::Significant("Flexbus slot, CXL 2.0 capable", "Flexbus slot, CXL 2.0 capable"),
    F::Reserved("Reserved"),
];
static LANGUAGE: [F; 8] = [
    F::Significant("Current Language strings use the abbreviated format", "If the bit is 0, each language string is in the form “ISO 639-1 Language Name | ISO 3166-1-alpha-2 Territory Name | Encoding Method”.\nIf the bit is 1, each language string consists of the two-character “ISO 639-1 Language Name” directly followed by the two-character “ISO 3166-1-alpha-2 Territory Name”."),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
];
static POST_RESULTS: [F; 64] = [
    F::Significant("Channel 2 Timer error", "Channel 2 Timer error"),
    F::Significant("Primary PIC (8259 #1) error", "Primary PIC (8259 #1) error"),
    F::Significant("Secondary PIC (8259 #2) error", "Secondary PIC (8259 #2) error"),
    F::Significant("CMOS RAM Battery Failure", "CMOS RAM Battery Failure"),
    F::Significant("CMOS RAM System Options Not Set", "CMOS RAM System Options Not Set"),
    F::Significant("CMOS RAM Checksum Error", "CMOS RAM Checksum Error"),
    F::Significant("CMOS RAM Configuration Error", "CMOS RAM Configuration Error"),
    F::Significant("Mouse and Keyboard Swapped", "Mouse and Keyboard Swapped"),
    F::Significant("Keyboard Locked", "Keyboard Locked"),
    F::Significant("Keyboard Not Functional", "Keyboard Not Functional"),
    F::Significant("Keyboard Controller Not Functional", "Keyboard Controller Not Functional"),
    F::Significant("CMOS Memory Size Different", "CMOS Memory Size Different"),
    F::Significant("Memory Decreased in Size", "Memory Decreased in Size"),
    F::Significant("Cache Memory Error", "Cache Memory Error"),
    F::Significant("Floppy Drive 0 Error", "Floppy Drive 0 Error"),
    F::Significant("Floppy Drive 1 Error", "Floppy Drive 1 Error"),
    F::Significant("Floppy Controller Failure", "Floppy Controller Failure"),
    F::Significant("Number of ATA Drives Reduced Error", "Number of ATA Drives Reduced Error"),
    F::Significant("RTC Time Not Set", "RTC Time Not Set"),
    F::Significant("DDC Monitor Configuration Change", "DDC Monitor Configuration Change"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Significant("Second DWORD has valid data", "Second DWORD has valid data"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Reserved("Available for OEM assignment"),
    F::Significant("PCI Memory Conflict", "PCI Memory Conflict"),
    F::Significant("PCI I/O Conflict", "PCI I/O Conflict"),
    F::Significant("PCI IRQ Conflict", "PCI IRQ Conflict"),
    F::Significant("PNP Memory Conflict", "PNP Memory Conflict"),
    F::Significant("PNP 32 bit Memory Conflict", "PNP 32 bit Memory Conflict"),
    F::Significant("PNP I/O Conflict", "PNP I/O Conflict"),
    F::Significant("PNP IRQ Conflict", "PNP IRQ Conflict"),
    F::Significant("PNP DMA Conflict", "PNP DMA Conflict"),
    F::Significant("Bad PNP Serial ID Checksum", "Bad PNP Serial ID Checksum"),
    F::Significant("Bad PNP Resource Data Checksum", "Bad PNP Resource Data Checksum"),
    F::Significant("Static Resource Conflict", "Static Resource Conflict"),
    F::Significant("NVRAM Checksum Error, NVRAM Cleared", "NVRAM Checksum Error, NVRAM Cleared"),
    F::Significant("System Board Device Resource Conflict", "System Board Device Resource Conflict"),
    F::Significant("Primary Output Device Not Found", "Primary Output Device Not Found"),
    F::Significant("Primary Input Device Not Found", "Primary Input Device Not Found"),
    F::Significant("Primary Boot Device Not Found", "Primary Boot Device Not Found"),
    F::Significant("NVRAM Cleared By Jumper", "NVRAM Cleared By Jumper"),
    F::Significant("NVRAM Data Invalid, NVRAM Cleared", "NVRAM Data Invalid, NVRAM Cleared"),
    F::Significant("FDC Resource Conflict", "FDC Resource Conflict"),
    F::Significant("Primary ATA Controller Resource Conflict", "Primary ATA Controller Resource Conflict"),
    F::Significant("Secondary ATA Controller Resource Conflict", "Secondary ATA Controller Resource Conflict"),
    F::Significant("Parallel Port Resource Conflict", "Parallel Port Resource Conflict"),
    F::Significant("Serial Port 1 Resource Conflict", "Serial Port 1 Resource Conflict"),
    F::Significant("Serial Port 2 Resource Conflict", "Serial Port 2 Resource Conflict"),
    F::Significant("Audio Resource Conflict", "Audio Resource Conflict"),
];
static LOG_STATUS: [F; 8] = [
    F::Significant("Valid", "Log area valid"),
    F::Significant("Full", "Log area full"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
    F::Reserved("Reserved"),
];
