//! The codes of the SMBIOS specification's enumerations, and the texts they are displayed as.
//! Written out once and reviewed against the specification (3.4.0); not regenerated.
#![allow(unused_macros, unused_imports)]
use super::common::*;

/// Every value of the field is decoded as the specification assigns it; a value without assignment is
/// kept as it is.
macro_rules! codes {
    ($name:ident, $n:ty, $t:ty, { $($arms:tt)* }) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            type E = $t;
            #[inline(never)]
            fn decode(v: $n) -> E {
                E::from(v)
            }
            let v = <$n as Any>::any();
            let want = match v { $($arms)* };
            ck(decode(v) == want, concat!("the code of ", stringify!($t)));
        }
    };
}

/// Text of a value: literal, or with the code in it
#[cfg(feature = "c22")]
pub enum T {
    Lit(&'static str),
    Dec(&'static str, u32, &'static str),
    Hex(&'static str, u32, &'static str),
    HexBare(&'static str, u32, &'static str),
}
#[cfg(feature = "c22")]
impl T {
    fn is(&self, got: &Text) -> bool {
        let mut w = Text::new();
        match self {
            T::Lit(s) => w.put(s),
            T::Dec(a, v, b) => {
                w.put(a);
                w.num(*v as u64, 10, 1);
                w.put(b);
            }
            T::Hex(a, v, b) => {
                w.put(a);
                w.put("0x");
                w.num(*v as u64, 16, 1);
                w.put(b);
            }
            T::HexBare(a, v, b) => {
                w.put(a);
                w.num(*v as u64, 16, 1);
                w.put(b);
            }
        }
        w.same(got)
    }
}
macro_rules! texts {
    ($name:ident, $n:ty, $t:ty, { $($arms:tt)* }) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            type E = $t;
            #[inline(never)]
            fn decode(v: $n) -> E {
                E::from(v)
            }
            let v = <$n as Any>::any_in(param(0) as u32, param(1) as u32);
            let want = match v { $($arms)* };
            let e = decode(v);
            ck(want.0.is(&text(&e)), concat!("the text of ", stringify!($t)));
            ck(want.1.is(&text_alt(&e)), concat!("the alternate text of ", stringify!($t)));
        }
    };
}

#[cfg(any(feature = "c03", feature = "c19"))]
codes!(codes_info_type, u8, dmidecode::InfoType, {
    0x00 => E::Bios,
    0x01 => E::System,
    0x02 => E::BaseBoard,
    0x03 => E::Enclosure,
    0x04 => E::Processor,
    x @ 0x05..=0x06 => E::Oem(x),
    0x07 => E::Cache,
    0x08 => E::PortConnector,
    0x09 => E::SystemSlots,
    x @ 0x0A => E::Oem(x),
    0x0B => E::OemStrings,
    0x0C => E::SystemConfigurationOptions,
    0x0D => E::BiosLanguage,
    0x0E => E::GroupAssociations,
    0x0F => E::SystemEventLog,
    0x10 => E::PhysicalMemoryArray,
    0x11 => E::MemoryDevice,
    0x12 => E::MemoryError32,
    0x13 => E::MemoryArrayMappedAddress,
    0x14 => E::MemoryDeviceMappedAddress,
    0x15 => E::BuiltInPointingDevice,
    0x16 => E::PortableBattery,
    x @ 0x17..=0x1F => E::Oem(x),
    0x20 => E::SystemBoot,
    x @ 0x21..=0x7E => E::Oem(x),
    0x7F => E::End,
    x @ 0x80..=0xFF => E::Oem(x),
});

#[cfg(feature = "c22")]
texts!(text_info_type, u8, dmidecode::InfoType, {
    0x00 => (T::Lit("BIOS Information"), T::Lit("BIOS Information")),
    0x01 => (T::Lit("System Information"), T::Lit("System Information")),
    0x02 => (T::Lit("Baseboard (or Module) Information"), T::Lit("Baseboard (or Module) Information")),
    0x03 => (T::Lit("System Enclosure or Chassis"), T::Lit("System Enclosure or Chassis")),
    0x04 => (T::Lit("Processor Information"), T::Lit("Processor Information")),
    x @ 0x05..=0x06 => (T::Dec("OEM: ", x as u32, ""), T::Dec("OEM: ", x as u32, "")),
    0x07 => (T::Lit("Cache Information"), T::Lit("Cache Information")),
    0x08 => (T::Lit("Port Connector Information"), T::Lit("Port Connector Information")),
    0x09 => (T::Lit("System Slots"), T::Lit("System Slots")),
    x @ 0x0A => (T::Dec("OEM: ", x as u32, ""), T::Dec("OEM: ", x as u32, "")),
    0x0B => (T::Lit("OEM Strings"), T::Lit("OEM Strings")),
    0x0C => (T::Lit("System Configuration Options"), T::Lit("System Configuration Options")),
    0x0D => (T::Lit("BIOS Language Information"), T::Lit("BIOS Language Information")),
    0x0E => (T::Lit("Group Associations"), T::Lit("Group Associations")),
    0x0F => (T::Lit("System Event Log"), T::Lit("System Event Log")),
    0x10 => (T::Lit("Physical Memory Array"), T::Lit("Physical Memory Array")),
    0x11 => (T::Lit("Memory Device"), T::Lit("Memory Device")),
    0x12 => (T::Lit("32-Bit Memory Error Information"), T::Lit("32-Bit Memory Error Information")),
    0x13 => (T::Lit("Memory Array Mapped Address"), T::Lit("Memory Array Mapped Address")),
    0x14 => (T::Lit("Memory Device Mapped Address"), T::Lit("Memory Device Mapped Address")),
    0x15 => (T::Lit("Built-in Pointing Device"), T::Lit("Built-in Pointing Device")),
    0x16 => (T::Lit("Portable Battery"), T::Lit("Portable Battery")),
    x @ 0x17..=0x1F => (T::Dec("OEM: ", x as u32, ""), T::Dec("OEM: ", x as u32, "")),
    0x20 => (T::Lit("System Boot Information"), T::Lit("System Boot Information")),
    x @ 0x21..=0x7E => (T::Dec("OEM: ", x as u32, ""), T::Dec("OEM: ", x as u32, "")),
    0x7F => (T::Lit("End-of-Table"), T::Lit("End-of-Table")),
    x @ 0x80..=0xFF => (T::Dec("OEM: ", x as u32, ""), T::Dec("OEM: ", x as u32, "")),
});

#[cfg(any(feature = "c09", feature = "c19"))]
codes!(codes_system_wakeup_type, u8, dmidecode::structures::system::WakeupType, {
    0x00 => E::Reserved,
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::APM_Timer,
    0x04 => E::Modem_Ring,
    0x05 => E::LAN_Remote,
    0x06 => E::Power_Switch,
    0x07 => E::PCI_PME,
    0x08 => E::AC_Power_Restored,
    x @ 0x09..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c09", feature = "c19"))]
codes!(codes_baseboard_board_type, u8, dmidecode::structures::baseboard::BoardType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Unknown,
    0x02 => E::Other,
    0x03 => E::ServerBlade,
    0x04 => E::ConnectivitySwitch,
    0x05 => E::SystemManagementModule,
    0x06 => E::ProcessorModule,
    0x07 => E::IoModule,
    0x08 => E::MemoryModule,
    0x09 => E::DaughterBoard,
    0x0A => E::MotherBoard,
    0x0B => E::ProcessorMemoryModule,
    0x0C => E::ProcessorIoModule,
    0x0D => E::InterconnectBoard,
    x @ 0x0E..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_baseboard_board_type, u8, dmidecode::structures::baseboard::BoardType, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x02 => (T::Lit("Other"), T::Lit("Other")),
    0x03 => (T::Lit("Server Blade"), T::Lit("Server Blade")),
    0x04 => (T::Lit("Connectivity Switch"), T::Lit("Connectivity Switch")),
    0x05 => (T::Lit("System Management Module"), T::Lit("System Management Module")),
    0x06 => (T::Lit("Processor Module"), T::Lit("Processor Module")),
    0x07 => (T::Lit("I/O Module"), T::Lit("I/O Module")),
    0x08 => (T::Lit("Memory Module"), T::Lit("Memory Module")),
    0x09 => (T::Lit("Daughter board"), T::Lit("Daughter board")),
    0x0A => (T::Lit("Motherboard (includes processor, memory, and I/O)"), T::Lit("Motherboard (includes processor, memory, and I/O)")),
    0x0B => (T::Lit("Processor/Memory Module"), T::Lit("Processor/Memory Module")),
    0x0C => (T::Lit("Processor/IO Module"), T::Lit("Processor/IO Module")),
    0x0D => (T::Lit("Interconnect board"), T::Lit("Interconnect board")),
    x @ 0x0E..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c10", feature = "c19"))]
codes!(codes_enclosure_enclosure_type, u8, dmidecode::structures::enclosure::EnclosureType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Desktop,
    0x04 => E::LowProfileDesktop,
    0x05 => E::PizzaBox,
    0x06 => E::MiniTower,
    0x07 => E::Tower,
    0x08 => E::Portable,
    0x09 => E::Laptop,
    0x0A => E::Notebook,
    0x0B => E::HandHeld,
    0x0C => E::DockingStation,
    0x0D => E::AllInOne,
    0x0E => E::SubNotebook,
    0x0F => E::SpaceSaving,
    0x10 => E::LunchBox,
    0x11 => E::MainServerChassis,
    0x12 => E::ExpansionChassis,
    0x13 => E::SubChassis,
    0x14 => E::BusExpansionChassis,
    0x15 => E::PeripheralChassis,
    0x16 => E::RaidChassis,
    0x17 => E::RackMountChassis,
    0x18 => E::SealedCasePc,
    0x19 => E::MultiSystemChassis,
    0x1A => E::CompactPci,
    0x1B => E::AdvancedTca,
    0x1C => E::Blade,
    0x1D => E::BladeEnclosure,
    0x1E => E::Tablet,
    0x1F => E::Convertible,
    0x20 => E::Detachable,
    0x21 => E::IotGateway,
    0x22 => E::EmbeddedPc,
    0x23 => E::MiniPc,
    0x24 => E::StickPc,
    x @ 0x25..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_enclosure_enclosure_type, u8, dmidecode::structures::enclosure::EnclosureType, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Desktop"), T::Lit("Desktop")),
    0x04 => (T::Lit("Low Profile Desktop"), T::Lit("Low Profile Desktop")),
    0x05 => (T::Lit("Pizza Box"), T::Lit("Pizza Box")),
    0x06 => (T::Lit("Mini Tower"), T::Lit("Mini Tower")),
    0x07 => (T::Lit("Tower"), T::Lit("Tower")),
    0x08 => (T::Lit("Portable"), T::Lit("Portable")),
    0x09 => (T::Lit("Laptop"), T::Lit("Laptop")),
    0x0A => (T::Lit("Notebook"), T::Lit("Notebook")),
    0x0B => (T::Lit("Hand Held"), T::Lit("Hand Held")),
    0x0C => (T::Lit("Docking Station"), T::Lit("Docking Station")),
    0x0D => (T::Lit("All in One"), T::Lit("All in One")),
    0x0E => (T::Lit("Sub Notebook"), T::Lit("Sub Notebook")),
    0x0F => (T::Lit("Space-saving"), T::Lit("Space-saving")),
    0x10 => (T::Lit("Lunch Box"), T::Lit("Lunch Box")),
    0x11 => (T::Lit("Main Server Chassis"), T::Lit("Main Server Chassis")),
    0x12 => (T::Lit("Expansion Chassis"), T::Lit("Expansion Chassis")),
    0x13 => (T::Lit("SubChassis"), T::Lit("SubChassis")),
    0x14 => (T::Lit("Bus Expansion Chassis"), T::Lit("Bus Expansion Chassis")),
    0x15 => (T::Lit("Peripheral Chassis"), T::Lit("Peripheral Chassis")),
    0x16 => (T::Lit("RAID Chassis"), T::Lit("RAID Chassis")),
    0x17 => (T::Lit("Rack Mount Chassis"), T::Lit("Rack Mount Chassis")),
    0x18 => (T::Lit("Sealed-case PC"), T::Lit("Sealed-case PC")),
    0x19 => (T::Lit("Multi-system chassis"), T::Lit("Multi-system chassis")),
    0x1A => (T::Lit("Compact PCI"), T::Lit("Compact PCI")),
    0x1B => (T::Lit("Advanced TCA"), T::Lit("Advanced TCA")),
    0x1C => (T::Lit("Blade"), T::Lit("Blade")),
    0x1D => (T::Lit("Blade Enclosure"), T::Lit("Blade Enclosure")),
    0x1E => (T::Lit("Tablet"), T::Lit("Tablet")),
    0x1F => (T::Lit("Convertible"), T::Lit("Convertible")),
    0x20 => (T::Lit("Detachable"), T::Lit("Detachable")),
    0x21 => (T::Lit("IoT Gateway"), T::Lit("IoT Gateway")),
    0x22 => (T::Lit("Embedded PC"), T::Lit("Embedded PC")),
    0x23 => (T::Lit("Mini PC"), T::Lit("Mini PC")),
    0x24 => (T::Lit("Stick PC"), T::Lit("Stick PC")),
    x @ 0x25..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c10", feature = "c19"))]
codes!(codes_enclosure_state, u8, dmidecode::structures::enclosure::State, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Safe,
    0x04 => E::Warning,
    0x05 => E::Critical,
    0x06 => E::NonRecoverable,
    x @ 0x07..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_enclosure_state, u8, dmidecode::structures::enclosure::State, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Safe"), T::Lit("Safe")),
    0x04 => (T::Lit("Warning"), T::Lit("Warning")),
    0x05 => (T::Lit("Critical"), T::Lit("Critical")),
    0x06 => (T::Lit("Non-recoverable"), T::Lit("Non-recoverable")),
    x @ 0x07..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c10", feature = "c19"))]
codes!(codes_enclosure_security_status, u8, dmidecode::structures::enclosure::SecurityStatus, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::None,
    0x04 => E::ExternalInterfaceLockedOut,
    0x05 => E::ExternalInterfaceEnabled,
    x @ 0x06..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_enclosure_security_status, u8, dmidecode::structures::enclosure::SecurityStatus, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("None"), T::Lit("None")),
    0x04 => (T::Lit("External interface locked out"), T::Lit("External interface locked out")),
    0x05 => (T::Lit("External interface enabled"), T::Lit("External interface enabled")),
    x @ 0x06..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c11", feature = "c19"))]
codes!(codes_processor_processor_type, u8, dmidecode::structures::processor::ProcessorType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::CentralProcessor,
    0x04 => E::MathProcessor,
    0x05 => E::DspProcessor,
    0x06 => E::VideoProcessor,
    x @ 0x07..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c11", feature = "c19"))]
codes!(codes_processor_processor_family, u16, dmidecode::structures::processor::ProcessorFamily, {
    0x00 => E::OutOfSpec,
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Intel8086,
    0x04 => E::Intel80286,
    0x05 => E::Intel386Processor,
    0x06 => E::Intel486Processor,
    0x07 => E::Intel8087,
    0x08 => E::Intel80287,
    0x09 => E::Intel80387,
    0x0A => E::Intel80487,
    0x0B => E::IntelPentiumProcessor,
    0x0C => E::PentiumProProcessor,
    0x0D => E::PentiumIIProcessor,
    0x0E => E::PentiumProcessorWithMMXTechnology,
    0x0F => E::IntelCeleronProcessor,
    0x10 => E::PentiumIIXeonProcessor,
    0x11 => E::PentiumIIIProcessor,
    0x12 => E::M1Family,
    0x13 => E::M2Family,
    0x14 => E::IntelCeleronMProcessor,
    0x15 => E::IntelPentium4HTProcessor,
    x @ 0x16..=0x17 => E::Available(x),
    0x18 => E::AMDDuronProcessorFamily,
    0x19 => E::K5Family,
    0x1A => E::K6Family,
    0x1B => E::K62,
    0x1C => E::K63,
    0x1D => E::AMDAthlonProcessorFamily,
    0x1E => E::AMD29000Family,
    0x1F => E::K62Plus,
    0x20 => E::PowerPCFamily,
    0x21 => E::PowerPC601,
    0x22 => E::PowerPC603,
    0x23 => E::PowerPC603Plus,
    0x24 => E::PowerPC604,
    0x25 => E::PowerPC620,
    0x26 => E::PowerPCX704,
    0x27 => E::PowerPC750,
    0x28 => E::IntelCoreDuoProcessor,
    0x29 => E::IntelCoreDuoMobileProcessor,
    0x2A => E::IntelCoreSoloMobileProcessor,
    0x2B => E::IntelAtomProcessor,
    0x2C => E::IntelCoreMProcessor,
    0x2D => E::IntelCoreM3Processor,
    0x2E => E::IntelCoreM5Processor,
    0x2F => E::IntelCoreM7Processor,
    0x30 => E::AlphaFamily,
    0x31 => E::Alpha21064,
    0x32 => E::Alpha21066,
    0x33 => E::Alpha21164,
    0x34 => E::Alpha21164PC,
    0x35 => E::Alpha21164a,
    0x36 => E::Alpha21264,
    0x37 => E::Alpha21364,
    0x38 => E::AMDTurionIIUltraDualCoreMobileMProcessorFamily,
    0x39 => E::AMDTurionIIDualCoreMobileMProcessorFamily,
    0x3A => E::AMDAthlonIIDualCoreMProcessorFamily,
    0x3B => E::AMDOpteron6100SeriesProcessor,
    0x3C => E::AMDOpteron4100SeriesProcessor,
    0x3D => E::AMDOpteron6200SeriesProcessor,
    0x3E => E::AMDOpteron4200SeriesProcessor,
    0x3F => E::AMDFXSeriesProcessor,
    0x40 => E::MIPSFamily,
    0x41 => E::MIPSR4000,
    0x42 => E::MIPSR4200,
    0x43 => E::MIPSR4400,
    0x44 => E::MIPSR4600,
    0x45 => E::MIPSR10000,
    0x46 => E::AMDCSeriesProcessor,
    0x47 => E::AMDESeriesProcessor,
    0x48 => E::AMDASeriesProcessor,
    0x49 => E::AMDGSeriesProcessor,
    0x4A => E::AMDZSeriesProcessor,
    0x4B => E::AMDRSeriesProcessor,
    0x4C => E::AMDOpteron4300SeriesProcessor,
    0x4D => E::AMDOpteron6300SeriesProcessor,
    0x4E => E::AMDOpteron3300SeriesProcessor,
    0x4F => E::AMDFireProSeriesProcessor,
    0x50 => E::SPARCFamily,
    0x51 => E::SuperSPARC,
    0x52 => E::MicroSPARCII,
    0x53 => E::MicroSPARCIIep,
    0x54 => E::UltraSPARC,
    0x55 => E::UltraSPARCII,
    0x56 => E::UltraSPARCIii,
    0x57 => E::UltraSPARCIII,
    0x58 => E::UltraSPARCIIIi,
    x @ 0x59..=0x5F => E::Available(x),
    0x60 => E::Motorola68040Family,
    0x61 => E::Motorola68xxx,
    0x62 => E::Motorola68000,
    0x63 => E::Motorola68010,
    0x64 => E::Motorola68020,
    0x65 => E::Motorola68030,
    0x66 => E::AMDAthlonX4QuadCoreProcessorFamily,
    0x67 => E::AMDOpteronX1000SeriesProcessor,
    0x68 => E::AMDOpteronX2000SeriesAPU,
    0x69 => E::AMDOpteronASeriesProcessor,
    0x6A => E::AMDOpteronX3000SeriesAPU,
    0x6B => E::AMDZenProcessorFamily,
    x @ 0x6C..=0x6F => E::Available(x),
    0x70 => E::HobbitFamily,
    x @ 0x71..=0x77 => E::Available(x),
    0x78 => E::CrusoeTM5000Family,
    0x79 => E::CrusoeTM3000Family,
    0x7A => E::EfficeonTM8000Family,
    x @ 0x7B..=0x7F => E::Available(x),
    0x80 => E::Weitek,
    x @ 0x81 => E::Available(x),
    0x82 => E::ItaniumProcessor,
    0x83 => E::AMDAthlon64ProcessorFamily,
    0x84 => E::AMDOpteronProcessorFamily,
    0x85 => E::AMDSempronProcessorFamily,
    0x86 => E::AMDTurion64MobileTechnology,
    0x87 => E::DualCoreAMDOpteronProcessorFamily,
    0x88 => E::AMDAthlon64X2DualCoreProcessorFamily,
    0x89 => E::AMDTurion64X2MobileTechnology,
    0x8A => E::QuadCoreAMDOpteronProcessorFamily,
    0x8B => E::ThirdGenerationAMDOpteronProcessorFamily,
    0x8C => E::AMDPhenomFXQuadCoreProcessorFamily,
    0x8D => E::AMDPhenomX4QuadCoreProcessorFamily,
    0x8E => E::AMDPhenomX2DualCoreProcessorFamily,
    0x8F => E::AMDAthlonX2DualCoreProcessorFamily,
    0x90 => E::PARISCFamily,
    0x91 => E::PARISC8500,
    0x92 => E::PARISC8000,
    0x93 => E::PARISC7300LC,
    0x94 => E::PARISC7200,
    0x95 => E::PARISC7100LC,
    0x96 => E::PARISC7100,
    x @ 0x97..=0x9F => E::Available(x),
    0xA0 => E::V30Family,
    0xA1 => E::QuadCoreIntelXeonProcessor3200Series,
    0xA2 => E::DualCoreIntelXeonProcessor3000Series,
    0xA3 => E::QuadCoreIntelXeonProcessor5300Series,
    0xA4 => E::DualCoreIntelXeonProcessor5100Series,
    0xA5 => E::DualCoreIntelXeonProcessor5000Series,
    0xA6 => E::DualCoreIntelXeonProcessorLV,
    0xA7 => E::DualCoreIntelXeonProcessorULV,
    0xA8 => E::DualCoreIntelXeonProcessor7100Series,
    0xA9 => E::QuadCoreIntelXeonProcessor5400Series,
    0xAA => E::QuadCoreIntelXeonProcessor,
    0xAB => E::DualCoreIntelXeonProcessor5200Series,
    0xAC => E::DualCoreIntelXeonProcessor7200Series,
    0xAD => E::QuadCoreIntelXeonProcessor7300Series,
    0xAE => E::QuadCoreIntelXeonProcessor7400Series,
    0xAF => E::MultiCoreIntelXeonProcessor7400Series,
    0xB0 => E::PentiumIIIXeonProcessor,
    0xB1 => E::PentiumIIIProcessorWithIntelSpeedStepTechnology,
    0xB2 => E::Pentium4Processor,
    0xB3 => E::IntelXeonProcessor,
    0xB4 => E::AS400Family,
    0xB5 => E::IntelXeonProcessorMP,
    0xB6 => E::AMDAthlonXPProcessorFamily,
    0xB7 => E::AMDAthlonMPProcessorFamily,
    0xB8 => E::IntelItanium2Processor,
    0xB9 => E::IntelPentiumMProcessor,
    0xBA => E::IntelCeleronDProcessor,
    0xBB => E::IntelPentiumDProcessor,
    0xBC => E::IntelPentiumProcessorExtremeEdition,
    0xBD => E::IntelCoreSoloProcessor,
    0xBE => E::Ambiguous,
    0xBF => E::IntelCore2DuoProcessor,
    0xC0 => E::IntelCore2SoloProcessor,
    0xC1 => E::IntelCore2ExtremeProcessor,
    0xC2 => E::IntelCore2QuadProcessor,
    0xC3 => E::IntelCore2ExtremeMobileProcessor,
    0xC4 => E::IntelCore2DuoMobileProcessor,
    0xC5 => E::IntelCore2SoloMobileProcessor,
    0xC6 => E::IntelCoreI7Processor,
    0xC7 => E::DualCoreIntelCeleronProcessor,
    0xC8 => E::IBM390Family,
    0xC9 => E::G4,
    0xCA => E::G5,
    0xCB => E::ESA390G6,
    0xCC => E::ZArchitectureBase,
    0xCD => E::IntelCoreI5Processor,
    0xCE => E::IntelCoreI3Processor,
    0xCF => E::IntelCoreI9Processor,
    x @ 0xD0..=0xD1 => E::Available(x),
    0xD2 => E::VIAC7MProcessorFamily,
    0xD3 => E::VIAC7DProcessorFamily,
    0xD4 => E::VIAC7ProcessorFamily,
    0xD5 => E::VIAEdenProcessorFamily,
    0xD6 => E::MultiCoreIntelXeonProcessor,
    0xD7 => E::DualCoreIntelXeonProcessor3xxxSeries,
    0xD8 => E::QuadCoreIntelXeonProcessor3xxxSeries,
    0xD9 => E::VIANanoProcessorFamily,
    0xDA => E::DualCoreIntelXeonProcessor5xxxSeries,
    0xDB => E::QuadCoreIntelXeonProcessor5xxxSeries,
    x @ 0xDC => E::Available(x),
    0xDD => E::DualCoreIntelXeonProcessor7xxxSeries,
    0xDE => E::QuadCoreIntelXeonProcessor7xxxSeries,
    0xDF => E::MultiCoreIntelXeonProcessor7xxxSeries,
    0xE0 => E::MultiCoreIntelXeonProcessor3400Series,
    x @ 0xE1..=0xE3 => E::Available(x),
    0xE4 => E::AMDOpteron3000SeriesProcessor,
    0xE5 => E::AMDSempronIIProcessor,
    0xE6 => E::EmbeddedAMDOpteronQuadCoreProcessorFamily,
    0xE7 => E::AMDPhenomTripleCoreProcessorFamily,
    0xE8 => E::AMDTurionUltraDualCoreMobileProcessorFamily,
    0xE9 => E::AMDTurionDualCoreMobileProcessorFamily,
    0xEA => E::AMDAthlonDualCoreProcessorFamily,
    0xEB => E::AMDSempronSIProcessorFamily,
    0xEC => E::AMDPhenomIIProcessorFamily,
    0xED => E::AMDAthlonIIProcessorFamily,
    0xEE => E::SixCoreAMDOpteronProcessorFamily,
    0xEF => E::AMDSempronMProcessorFamily,
    x @ 0xF0..=0xF9 => E::Available(x),
    0xFA => E::I860,
    0xFB => E::I960,
    x @ 0xFC..=0xFD => E::Available(x),
    0xFE => E::ProcessorFamily2,
    x @ 0xFF => E::NotUsed(x),
    0x100 => E::ARMv7,
    0x101 => E::ARMv8,
    0x102 => E::ARMv9,
    x @ 0x103 => E::Available(x),
    0x104 => E::SH3,
    0x105 => E::SH4,
    x @ 0x106..=0x117 => E::Available(x),
    0x118 => E::ARM,
    0x119 => E::StrongARM,
    x @ 0x11A..=0x12B => E::Available(x),
    0x12C => E::Cyrix6x86,
    0x12D => E::MediaGX,
    0x12E => E::MII,
    x @ 0x12F..=0x13F => E::Available(x),
    0x140 => E::WinChip,
    x @ 0x141..=0x15D => E::Available(x),
    0x15E => E::DSP,
    x @ 0x15F..=0x1F3 => E::Available(x),
    0x1F4 => E::VideoProcessor,
    x @ 0x1F5..=0x1FF => E::Available(x),
    0x200 => E::RISCVRV32,
    0x201 => E::RISCVRV64,
    0x202 => E::RISCVRV128,
    x @ 0x203..=0xFFFD => E::Available(x),
    0xFFFE => E::ForFutureUse,
    x @ 0xFFFF => E::NotUsed(x),
});

#[cfg(feature = "c22")]
texts!(text_processor_processor_family, u16, dmidecode::structures::processor::ProcessorFamily, {
    0x00 => (T::Lit("OUT OF SPEC"), T::Lit("OUT OF SPEC")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("8086"), T::Lit("8086")),
    0x04 => (T::Lit("80286"), T::Lit("80286")),
    0x05 => (T::Lit("Intel386™ processor"), T::Lit("Intel386™ processor")),
    0x06 => (T::Lit("Intel486™ processor"), T::Lit("Intel486™ processor")),
    0x07 => (T::Lit("8087"), T::Lit("8087")),
    0x08 => (T::Lit("80287"), T::Lit("80287")),
    0x09 => (T::Lit("80387"), T::Lit("80387")),
    0x0A => (T::Lit("80487"), T::Lit("80487")),
    0x0B => (T::Lit("Intel® Pentium® processor"), T::Lit("Intel® Pentium® processor")),
    0x0C => (T::Lit("Pentium® Pro processor"), T::Lit("Pentium® Pro processor")),
    0x0D => (T::Lit("Pentium® II processor"), T::Lit("Pentium® II processor")),
    0x0E => (T::Lit("Pentium® processor with MMX™ technology"), T::Lit("Pentium® processor with MMX™ technology")),
    0x0F => (T::Lit("Intel® Celeron® processor"), T::Lit("Intel® Celeron® processor")),
    0x10 => (T::Lit("Pentium® II Xeon™ processor"), T::Lit("Pentium® II Xeon™ processor")),
    0x11 => (T::Lit("Pentium® III processor"), T::Lit("Pentium® III processor")),
    0x12 => (T::Lit("M1 Family"), T::Lit("M1 Family")),
    0x13 => (T::Lit("M2 Family"), T::Lit("M2 Family")),
    0x14 => (T::Lit("Intel® Celeron® M processor"), T::Lit("Intel® Celeron® M processor")),
    0x15 => (T::Lit("Intel® Pentium® 4 HT processor"), T::Lit("Intel® Pentium® 4 HT processor")),
    x @ 0x16..=0x17 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x18 => (T::Lit("AMD Duron™ Processor Family [1]"), T::Lit("AMD Duron™ Processor Family [1]")),
    0x19 => (T::Lit("K5 Family [1]"), T::Lit("K5 Family [1]")),
    0x1A => (T::Lit("K6 Family [1]"), T::Lit("K6 Family [1]")),
    0x1B => (T::Lit("K6-2"), T::Lit("K6-2")),
    0x1C => (T::Lit("K6-3"), T::Lit("K6-3")),
    0x1D => (T::Lit("AMD Athlon™ Processor Family [1]"), T::Lit("AMD Athlon™ Processor Family [1]")),
    0x1E => (T::Lit("AMD29000 Family"), T::Lit("AMD29000 Family")),
    0x1F => (T::Lit("K6-2+"), T::Lit("K6-2+")),
    0x20 => (T::Lit("Power PC Family"), T::Lit("Power PC Family")),
    0x21 => (T::Lit("Power PC 601"), T::Lit("Power PC 601")),
    0x22 => (T::Lit("Power PC 603"), T::Lit("Power PC 603")),
    0x23 => (T::Lit("Power PC 603+"), T::Lit("Power PC 603+")),
    0x24 => (T::Lit("Power PC 604"), T::Lit("Power PC 604")),
    0x25 => (T::Lit("Power PC 620"), T::Lit("Power PC 620")),
    0x26 => (T::Lit("Power PC x704"), T::Lit("Power PC x704")),
    0x27 => (T::Lit("Power PC 750"), T::Lit("Power PC 750")),
    0x28 => (T::Lit("Intel® Core™ Duo processor"), T::Lit("Intel® Core™ Duo processor")),
    0x29 => (T::Lit("Intel® Core™ Duo mobile processor"), T::Lit("Intel® Core™ Duo mobile processor")),
    0x2A => (T::Lit("Intel® Core™ Solo mobile processor"), T::Lit("Intel® Core™ Solo mobile processor")),
    0x2B => (T::Lit("Intel® Atom™ processor"), T::Lit("Intel® Atom™ processor")),
    0x2C => (T::Lit("Intel® Core™ M processor"), T::Lit("Intel® Core™ M processor")),
    0x2D => (T::Lit("Intel(R) Core(TM) m3 processor"), T::Lit("Intel(R) Core(TM) m3 processor")),
    0x2E => (T::Lit("Intel(R) Core(TM) m5 processor"), T::Lit("Intel(R) Core(TM) m5 processor")),
    0x2F => (T::Lit("Intel(R) Core(TM) m7 processor"), T::Lit("Intel(R) Core(TM) m7 processor")),
    0x30 => (T::Lit("Alpha Family [2]"), T::Lit("Alpha Family [2]")),
    0x31 => (T::Lit("Alpha 21064"), T::Lit("Alpha 21064")),
    0x32 => (T::Lit("Alpha 21066"), T::Lit("Alpha 21066")),
    0x33 => (T::Lit("Alpha 21164"), T::Lit("Alpha 21164")),
    0x34 => (T::Lit("Alpha 21164PC"), T::Lit("Alpha 21164PC")),
    0x35 => (T::Lit("Alpha 21164a"), T::Lit("Alpha 21164a")),
    0x36 => (T::Lit("Alpha 21264"), T::Lit("Alpha 21264")),
    0x37 => (T::Lit("Alpha 21364"), T::Lit("Alpha 21364")),
    0x38 => (T::Lit("AMD Turion™ II Ultra Dual-Core Mobile M Processor Family"), T::Lit("AMD Turion™ II Ultra Dual-Core Mobile M Processor Family")),
    0x39 => (T::Lit("AMD Turion™ II Dual-Core Mobile M Processor Family"), T::Lit("AMD Turion™ II Dual-Core Mobile M Processor Family")),
    0x3A => (T::Lit("AMD Athlon™ II Dual-Core M Processor Family"), T::Lit("AMD Athlon™ II Dual-Core M Processor Family")),
    0x3B => (T::Lit("AMD Opteron™ 6100 Series Processor"), T::Lit("AMD Opteron™ 6100 Series Processor")),
    0x3C => (T::Lit("AMD Opteron™ 4100 Series Processor"), T::Lit("AMD Opteron™ 4100 Series Processor")),
    0x3D => (T::Lit("AMD Opteron™ 6200 Series Processor"), T::Lit("AMD Opteron™ 6200 Series Processor")),
    0x3E => (T::Lit("AMD Opteron™ 4200 Series Processor"), T::Lit("AMD Opteron™ 4200 Series Processor")),
    0x3F => (T::Lit("AMD FX™ Series Processor"), T::Lit("AMD FX™ Series Processor")),
    0x40 => (T::Lit("MIPS Family"), T::Lit("MIPS Family")),
    0x41 => (T::Lit("MIPS R4000"), T::Lit("MIPS R4000")),
    0x42 => (T::Lit("MIPS R4200"), T::Lit("MIPS R4200")),
    0x43 => (T::Lit("MIPS R4400"), T::Lit("MIPS R4400")),
    0x44 => (T::Lit("MIPS R4600"), T::Lit("MIPS R4600")),
    0x45 => (T::Lit("MIPS R10000"), T::Lit("MIPS R10000")),
    0x46 => (T::Lit("AMD C-Series Processor"), T::Lit("AMD C-Series Processor")),
    0x47 => (T::Lit("AMD E-Series Processor"), T::Lit("AMD E-Series Processor")),
    0x48 => (T::Lit("AMD A-Series Processor"), T::Lit("AMD A-Series Processor")),
    0x49 => (T::Lit("AMD G-Series Processor"), T::Lit("AMD G-Series Processor")),
    0x4A => (T::Lit("AMD Z-Series Processor"), T::Lit("AMD Z-Series Processor")),
    0x4B => (T::Lit("AMD R-Series Processor"), T::Lit("AMD R-Series Processor")),
    0x4C => (T::Lit("AMD Opteron™ 4300 Series Processor"), T::Lit("AMD Opteron™ 4300 Series Processor")),
    0x4D => (T::Lit("AMD Opteron™ 6300 Series Processor"), T::Lit("AMD Opteron™ 6300 Series Processor")),
    0x4E => (T::Lit("AMD Opteron™ 3300 Series Processor"), T::Lit("AMD Opteron™ 3300 Series Processor")),
    0x4F => (T::Lit("AMD FirePro™ Series Processor"), T::Lit("AMD FirePro™ Series Processor")),
    0x50 => (T::Lit("SPARC Family"), T::Lit("SPARC Family")),
    0x51 => (T::Lit("SuperSPARC"), T::Lit("SuperSPARC")),
    0x52 => (T::Lit("microSPARC II"), T::Lit("microSPARC II")),
    0x53 => (T::Lit("microSPARC IIep"), T::Lit("microSPARC IIep")),
    0x54 => (T::Lit("UltraSPARC"), T::Lit("UltraSPARC")),
    0x55 => (T::Lit("UltraSPARC II"), T::Lit("UltraSPARC II")),
    0x56 => (T::Lit("UltraSPARC Iii"), T::Lit("UltraSPARC Iii")),
    0x57 => (T::Lit("UltraSPARC III"), T::Lit("UltraSPARC III")),
    0x58 => (T::Lit("UltraSPARC IIIi"), T::Lit("UltraSPARC IIIi")),
    x @ 0x59..=0x5F => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x60 => (T::Lit("68040 Family"), T::Lit("68040 Family")),
    0x61 => (T::Lit("68xxx"), T::Lit("68xxx")),
    0x62 => (T::Lit("68000"), T::Lit("68000")),
    0x63 => (T::Lit("68010"), T::Lit("68010")),
    0x64 => (T::Lit("68020"), T::Lit("68020")),
    0x65 => (T::Lit("68030"), T::Lit("68030")),
    0x66 => (T::Lit("AMD Athlon(TM) X4 Quad-Core Processor Family"), T::Lit("AMD Athlon(TM) X4 Quad-Core Processor Family")),
    0x67 => (T::Lit("AMD Opteron(TM) X1000 Series Processor"), T::Lit("AMD Opteron(TM) X1000 Series Processor")),
    0x68 => (T::Lit("AMD Opteron(TM) X2000 Series APU"), T::Lit("AMD Opteron(TM) X2000 Series APU")),
    0x69 => (T::Lit("AMD Opteron(TM) A-Series Processor"), T::Lit("AMD Opteron(TM) A-Series Processor")),
    0x6A => (T::Lit("AMD Opteron(TM) X3000 Series APU"), T::Lit("AMD Opteron(TM) X3000 Series APU")),
    0x6B => (T::Lit("AMD Zen Processor Family"), T::Lit("AMD Zen Processor Family")),
    x @ 0x6C..=0x6F => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x70 => (T::Lit("Hobbit Family"), T::Lit("Hobbit Family")),
    x @ 0x71..=0x77 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x78 => (T::Lit("Crusoe™ TM5000 Family"), T::Lit("Crusoe™ TM5000 Family")),
    0x79 => (T::Lit("Crusoe™ TM3000 Family"), T::Lit("Crusoe™ TM3000 Family")),
    0x7A => (T::Lit("Efficeon™ TM8000 Family"), T::Lit("Efficeon™ TM8000 Family")),
    x @ 0x7B..=0x7F => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x80 => (T::Lit("Weitek"), T::Lit("Weitek")),
    x @ 0x81 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x82 => (T::Lit("Itanium™ processor"), T::Lit("Itanium™ processor")),
    0x83 => (T::Lit("AMD Athlon™ 64 Processor Family"), T::Lit("AMD Athlon™ 64 Processor Family")),
    0x84 => (T::Lit("AMD Opteron™ Processor Family"), T::Lit("AMD Opteron™ Processor Family")),
    0x85 => (T::Lit("AMD Sempron™ Processor Family"), T::Lit("AMD Sempron™ Processor Family")),
    0x86 => (T::Lit("AMD Turion™ 64 Mobile Technology"), T::Lit("AMD Turion™ 64 Mobile Technology")),
    0x87 => (T::Lit("Dual-Core AMD Opteron™ Processor Family"), T::Lit("Dual-Core AMD Opteron™ Processor Family")),
    0x88 => (T::Lit("AMD Athlon™ 64 X2 Dual-Core Processor Family"), T::Lit("AMD Athlon™ 64 X2 Dual-Core Processor Family")),
    0x89 => (T::Lit("AMD Turion™ 64 X2 Mobile Technology"), T::Lit("AMD Turion™ 64 X2 Mobile Technology")),
    0x8A => (T::Lit("Quad-Core AMD Opteron™ Processor Family"), T::Lit("Quad-Core AMD Opteron™ Processor Family")),
    0x8B => (T::Lit("Third-Generation AMD Opteron™ Processor Family"), T::Lit("Third-Generation AMD Opteron™ Processor Family")),
    0x8C => (T::Lit("AMD Phenom™ FX Quad-Core Processor Family"), T::Lit("AMD Phenom™ FX Quad-Core Processor Family")),
    0x8D => (T::Lit("AMD Phenom™ X4 Quad-Core Processor Family"), T::Lit("AMD Phenom™ X4 Quad-Core Processor Family")),
    0x8E => (T::Lit("AMD Phenom™ X2 Dual-Core Processor Family"), T::Lit("AMD Phenom™ X2 Dual-Core Processor Family")),
    0x8F => (T::Lit("AMD Athlon™ X2 Dual-Core Processor Family"), T::Lit("AMD Athlon™ X2 Dual-Core Processor Family")),
    0x90 => (T::Lit("PA-RISC Family"), T::Lit("PA-RISC Family")),
    0x91 => (T::Lit("PA-RISC 8500"), T::Lit("PA-RISC 8500")),
    0x92 => (T::Lit("PA-RISC 8000"), T::Lit("PA-RISC 8000")),
    0x93 => (T::Lit("PA-RISC 7300LC"), T::Lit("PA-RISC 7300LC")),
    0x94 => (T::Lit("PA-RISC 7200"), T::Lit("PA-RISC 7200")),
    0x95 => (T::Lit("PA-RISC 7100LC"), T::Lit("PA-RISC 7100LC")),
    0x96 => (T::Lit("PA-RISC 7100"), T::Lit("PA-RISC 7100")),
    x @ 0x97..=0x9F => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0xA0 => (T::Lit("V30 Family"), T::Lit("V30 Family")),
    0xA1 => (T::Lit("Quad-Core Intel® Xeon® processor 3200 Series"), T::Lit("Quad-Core Intel® Xeon® processor 3200 Series")),
    0xA2 => (T::Lit("Dual-Core Intel® Xeon® processor 3000 Series"), T::Lit("Dual-Core Intel® Xeon® processor 3000 Series")),
    0xA3 => (T::Lit("Quad-Core Intel® Xeon® processor 5300 Series"), T::Lit("Quad-Core Intel® Xeon® processor 5300 Series")),
    0xA4 => (T::Lit("Dual-Core Intel® Xeon® processor 5100 Series"), T::Lit("Dual-Core Intel® Xeon® processor 5100 Series")),
    0xA5 => (T::Lit("Dual-Core Intel® Xeon® processor 5000 Series"), T::Lit("Dual-Core Intel® Xeon® processor 5000 Series")),
    0xA6 => (T::Lit("Dual-Core Intel® Xeon® processor LV"), T::Lit("Dual-Core Intel® Xeon® processor LV")),
    0xA7 => (T::Lit("Dual-Core Intel® Xeon® processor ULV"), T::Lit("Dual-Core Intel® Xeon® processor ULV")),
    0xA8 => (T::Lit("Dual-Core Intel® Xeon® processor 7100 Series"), T::Lit("Dual-Core Intel® Xeon® processor 7100 Series")),
    0xA9 => (T::Lit("Quad-Core Intel® Xeon® processor 5400 Series"), T::Lit("Quad-Core Intel® Xeon® processor 5400 Series")),
    0xAA => (T::Lit("Quad-Core Intel® Xeon® processor"), T::Lit("Quad-Core Intel® Xeon® processor")),
    0xAB => (T::Lit("Dual-Core Intel® Xeon® processor 5200 Series"), T::Lit("Dual-Core Intel® Xeon® processor 5200 Series")),
    0xAC => (T::Lit("Dual-Core Intel® Xeon® processor 7200 Series"), T::Lit("Dual-Core Intel® Xeon® processor 7200 Series")),
    0xAD => (T::Lit("Quad-Core Intel® Xeon® processor 7300 Series"), T::Lit("Quad-Core Intel® Xeon® processor 7300 Series")),
    0xAE => (T::Lit("Quad-Core Intel® Xeon® processor 7400 Series"), T::Lit("Quad-Core Intel® Xeon® processor 7400 Series")),
    0xAF => (T::Lit("Multi-Core Intel® Xeon® processor 7400 Series"), T::Lit("Multi-Core Intel® Xeon® processor 7400 Series")),
    0xB0 => (T::Lit("Pentium® III Xeon™ processor"), T::Lit("Pentium® III Xeon™ processor")),
    0xB1 => (T::Lit("Pentium® III Processor with Intel® SpeedStep™ Technology"), T::Lit("Pentium® III Processor with Intel® SpeedStep™ Technology")),
    0xB2 => (T::Lit("Pentium® 4 Processor"), T::Lit("Pentium® 4 Processor")),
    0xB3 => (T::Lit("Intel® Xeon® processor"), T::Lit("Intel® Xeon® processor")),
    0xB4 => (T::Lit("AS400 Family"), T::Lit("AS400 Family")),
    0xB5 => (T::Lit("Intel® Xeon™ processor MP"), T::Lit("Intel® Xeon™ processor MP")),
    0xB6 => (T::Lit("AMD Athlon™ XP Processor Family"), T::Lit("AMD Athlon™ XP Processor Family")),
    0xB7 => (T::Lit("AMD Athlon™ MP Processor Family"), T::Lit("AMD Athlon™ MP Processor Family")),
    0xB8 => (T::Lit("Intel® Itanium® 2 processor"), T::Lit("Intel® Itanium® 2 processor")),
    0xB9 => (T::Lit("Intel® Pentium® M processor"), T::Lit("Intel® Pentium® M processor")),
    0xBA => (T::Lit("Intel® Celeron® D processor"), T::Lit("Intel® Celeron® D processor")),
    0xBB => (T::Lit("Intel® Pentium® D processor"), T::Lit("Intel® Pentium® D processor")),
    0xBC => (T::Lit("Intel® Pentium® Processor Extreme Edition"), T::Lit("Intel® Pentium® Processor Extreme Edition")),
    0xBD => (T::Lit("Intel® Core™ Solo Processor"), T::Lit("Intel® Core™ Solo Processor")),
    0xBE => (T::Lit("Ambiguous"), T::Lit("Ambiguous")),
    0xBF => (T::Lit("Intel® Core™ 2 Duo Processor"), T::Lit("Intel® Core™ 2 Duo Processor")),
    0xC0 => (T::Lit("Intel® Core™ 2 Solo processor"), T::Lit("Intel® Core™ 2 Solo processor")),
    0xC1 => (T::Lit("Intel® Core™ 2 Extreme processor"), T::Lit("Intel® Core™ 2 Extreme processor")),
    0xC2 => (T::Lit("Intel® Core™ 2 Quad processor"), T::Lit("Intel® Core™ 2 Quad processor")),
    0xC3 => (T::Lit("Intel® Core™ 2 Extreme mobile processor"), T::Lit("Intel® Core™ 2 Extreme mobile processor")),
    0xC4 => (T::Lit("Intel® Core™ 2 Duo mobile processor"), T::Lit("Intel® Core™ 2 Duo mobile processor")),
    0xC5 => (T::Lit("Intel® Core™ 2 Solo mobile processor"), T::Lit("Intel® Core™ 2 Solo mobile processor")),
    0xC6 => (T::Lit("Intel® Core™ i7 processor"), T::Lit("Intel® Core™ i7 processor")),
    0xC7 => (T::Lit("Dual-Core Intel® Celeron® processor"), T::Lit("Dual-Core Intel® Celeron® processor")),
    0xC8 => (T::Lit("IBM390 Family"), T::Lit("IBM390 Family")),
    0xC9 => (T::Lit("G4"), T::Lit("G4")),
    0xCA => (T::Lit("G5"), T::Lit("G5")),
    0xCB => (T::Lit("ESA/390 G6"), T::Lit("ESA/390 G6")),
    0xCC => (T::Lit("z/Architecture base"), T::Lit("z/Architecture base")),
    0xCD => (T::Lit("Intel® Core™ i5 processor"), T::Lit("Intel® Core™ i5 processor")),
    0xCE => (T::Lit("Intel® Core™ i3 processor"), T::Lit("Intel® Core™ i3 processor")),
    0xCF => (T::Lit("Intel® Core™ i9 processor"), T::Lit("Intel® Core™ i9 processor")),
    x @ 0xD0..=0xD1 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0xD2 => (T::Lit("VIA C7™-M Processor Family"), T::Lit("VIA C7™-M Processor Family")),
    0xD3 => (T::Lit("VIA C7™-D Processor Family"), T::Lit("VIA C7™-D Processor Family")),
    0xD4 => (T::Lit("VIA C7™ Processor Family"), T::Lit("VIA C7™ Processor Family")),
    0xD5 => (T::Lit("VIA Eden™ Processor Family"), T::Lit("VIA Eden™ Processor Family")),
    0xD6 => (T::Lit("Multi-Core Intel® Xeon® processor"), T::Lit("Multi-Core Intel® Xeon® processor")),
    0xD7 => (T::Lit("Dual-Core Intel® Xeon® processor 3xxx Series"), T::Lit("Dual-Core Intel® Xeon® processor 3xxx Series")),
    0xD8 => (T::Lit("Quad-Core Intel® Xeon® processor 3xxx Series"), T::Lit("Quad-Core Intel® Xeon® processor 3xxx Series")),
    0xD9 => (T::Lit("VIA Nano™ Processor Family"), T::Lit("VIA Nano™ Processor Family")),
    0xDA => (T::Lit("Dual-Core Intel® Xeon® processor 5xxx Series"), T::Lit("Dual-Core Intel® Xeon® processor 5xxx Series")),
    0xDB => (T::Lit("Quad-Core Intel® Xeon® processor 5xxx Series"), T::Lit("Quad-Core Intel® Xeon® processor 5xxx Series")),
    x @ 0xDC => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0xDD => (T::Lit("Dual-Core Intel® Xeon® processor 7xxx Series"), T::Lit("Dual-Core Intel® Xeon® processor 7xxx Series")),
    0xDE => (T::Lit("Quad-Core Intel® Xeon® processor 7xxx Series"), T::Lit("Quad-Core Intel® Xeon® processor 7xxx Series")),
    0xDF => (T::Lit("Multi-Core Intel® Xeon® processor 7xxx Series"), T::Lit("Multi-Core Intel® Xeon® processor 7xxx Series")),
    0xE0 => (T::Lit("Multi-Core Intel® Xeon® processor 3400 Series"), T::Lit("Multi-Core Intel® Xeon® processor 3400 Series")),
    x @ 0xE1..=0xE3 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0xE4 => (T::Lit("AMD Opteron™ 3000 Series Processor"), T::Lit("AMD Opteron™ 3000 Series Processor")),
    0xE5 => (T::Lit("AMD Sempron™ II Processor"), T::Lit("AMD Sempron™ II Processor")),
    0xE6 => (T::Lit("Embedded AMD Opteron™ Quad-Core Processor Family"), T::Lit("Embedded AMD Opteron™ Quad-Core Processor Family")),
    0xE7 => (T::Lit("AMD Phenom™ Triple-Core Processor Family"), T::Lit("AMD Phenom™ Triple-Core Processor Family")),
    0xE8 => (T::Lit("AMD Turion™ Ultra Dual-Core Mobile Processor Family"), T::Lit("AMD Turion™ Ultra Dual-Core Mobile Processor Family")),
    0xE9 => (T::Lit("AMD Turion™ Dual-Core Mobile Processor Family"), T::Lit("AMD Turion™ Dual-Core Mobile Processor Family")),
    0xEA => (T::Lit("AMD Athlon™ Dual-Core Processor Family"), T::Lit("AMD Athlon™ Dual-Core Processor Family")),
    0xEB => (T::Lit("AMD Sempron™ SI Processor Family"), T::Lit("AMD Sempron™ SI Processor Family")),
    0xEC => (T::Lit("AMD Phenom™ II Processor Family"), T::Lit("AMD Phenom™ II Processor Family")),
    0xED => (T::Lit("AMD Athlon™ II Processor Family"), T::Lit("AMD Athlon™ II Processor Family")),
    0xEE => (T::Lit("Six-Core AMD Opteron™ Processor Family"), T::Lit("Six-Core AMD Opteron™ Processor Family")),
    0xEF => (T::Lit("AMD Sempron™ M Processor Family"), T::Lit("AMD Sempron™ M Processor Family")),
    x @ 0xF0..=0xF9 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0xFA => (T::Lit("i860"), T::Lit("i860")),
    0xFB => (T::Lit("i960"), T::Lit("i960")),
    x @ 0xFC..=0xFD => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0xFE => (T::Lit("Processor Family 2 has the enumerated value"), T::Lit("Processor Family 2 has the enumerated value")),
    x @ 0xFF => (T::HexBare("Not used. ", x as u32, "h is the un-initialized value of Flash memory."), T::HexBare("Not used. ", x as u32, "h is the un-initialized value of Flash memory.")),
    0x100 => (T::Lit("ARMv7"), T::Lit("ARMv7")),
    0x101 => (T::Lit("ARMv8"), T::Lit("ARMv8")),
    0x102 => (T::Lit("ARMv9"), T::Lit("ARMv9")),
    x @ 0x103 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x104 => (T::Lit("SH-3"), T::Lit("SH-3")),
    0x105 => (T::Lit("SH-4"), T::Lit("SH-4")),
    x @ 0x106..=0x117 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x118 => (T::Lit("ARM"), T::Lit("ARM")),
    0x119 => (T::Lit("StrongARM"), T::Lit("StrongARM")),
    x @ 0x11A..=0x12B => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x12C => (T::Lit("6x86"), T::Lit("6x86")),
    0x12D => (T::Lit("MediaGX"), T::Lit("MediaGX")),
    0x12E => (T::Lit("MII"), T::Lit("MII")),
    x @ 0x12F..=0x13F => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x140 => (T::Lit("WinChip"), T::Lit("WinChip")),
    x @ 0x141..=0x15D => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x15E => (T::Lit("DSP"), T::Lit("DSP")),
    x @ 0x15F..=0x1F3 => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x1F4 => (T::Lit("Video Processor"), T::Lit("Video Processor")),
    x @ 0x1F5..=0x1FF => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0x200 => (T::Lit("RISC-V RV32"), T::Lit("RISC-V RV32")),
    0x201 => (T::Lit("RISC-V RV64"), T::Lit("RISC-V RV64")),
    0x202 => (T::Lit("RISC-V RV128"), T::Lit("RISC-V RV128")),
    x @ 0x203..=0xFFFD => (T::Hex("Available ", x as u32, ""), T::Hex("Available ", x as u32, "")),
    0xFFFE => (T::Lit("For special use in the future"), T::Lit("For special use in the future")),
    x @ 0xFFFF => (T::HexBare("Not used. ", x as u32, "h is the un-initialized value of Flash memory."), T::HexBare("Not used. ", x as u32, "h is the un-initialized value of Flash memory.")),
});

#[cfg(any(feature = "c11", feature = "c19"))]
codes!(codes_processor_processor_upgrade, u8, dmidecode::structures::processor::ProcessorUpgrade, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::DaughterBoard,
    0x04 => E::ZIFSocket,
    0x05 => E::ReplaceablePiggyBack,
    0x06 => E::None,
    0x07 => E::LIFSocket,
    0x08 => E::Slot1,
    0x09 => E::Slot2,
    0x0A => E::Socket370,
    0x0B => E::SlotA,
    0x0C => E::SlotM,
    0x0D => E::Socket423,
    0x0E => E::SocketA,
    0x0F => E::Socket478,
    0x10 => E::Socket754,
    0x11 => E::Socket940,
    0x12 => E::Socket939,
    0x13 => E::SocketmPGA604,
    0x14 => E::SocketLGA771,
    0x15 => E::SocketLGA775,
    0x16 => E::SocketS1,
    0x17 => E::SocketAM2,
    0x18 => E::SocketF,
    0x19 => E::SocketLGA1366,
    0x1A => E::SocketG34,
    0x1B => E::SocketAM3,
    0x1C => E::SocketC32,
    0x1D => E::SocketLGA1156,
    0x1E => E::SocketLGA1567,
    0x1F => E::SocketPGA988A,
    0x20 => E::SocketBGA1288,
    0x21 => E::SocketrPGA988B,
    0x22 => E::SocketBGA1023,
    0x23 => E::SocketBGA1224,
    0x24 => E::SocketLGA1155,
    0x25 => E::SocketLGA1356,
    0x26 => E::SocketLGA2011,
    0x27 => E::SocketFS1,
    0x28 => E::SocketFS2,
    0x29 => E::SocketFM1,
    0x2A => E::SocketFM2,
    0x2B => E::SocketLGA2011Three,
    0x2C => E::SocketLGA1356Three,
    0x2D => E::SocketLGA1150,
    0x2E => E::SocketBGA1168,
    0x2F => E::SocketBGA1234,
    0x30 => E::SocketBGA1364,
    0x31 => E::SocketAM4,
    0x32 => E::SocketLGA1151,
    0x33 => E::SocketBGA1356,
    0x34 => E::SocketBGA1440,
    0x35 => E::SocketBGA1515,
    0x36 => E::SocketLGA3647,
    0x37 => E::SocketSP3,
    0x38 => E::SocketSP3r2,
    0x39 => E::SocketLGA2066,
    0x3A => E::SocketBGA1392,
    0x3B => E::SocketBGA1510,
    0x3C => E::SocketBGA1528,
    0x3D => E::SocketLGA4189,
    0x3E => E::SocketLGA1200,
    x @ 0x3F..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_processor_processor_upgrade, u8, dmidecode::structures::processor::ProcessorUpgrade, {
    x @ 0x00 => (T::Dec("Undefined ", x as u32, ""), T::Dec("Undefined ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Daughter Board"), T::Lit("Daughter Board")),
    0x04 => (T::Lit("ZIF Socket"), T::Lit("ZIF Socket")),
    0x05 => (T::Lit("Replaceable Piggy Back"), T::Lit("Replaceable Piggy Back")),
    0x06 => (T::Lit("None"), T::Lit("None")),
    0x07 => (T::Lit("LIF Socket"), T::Lit("LIF Socket")),
    0x08 => (T::Lit("Slot 1"), T::Lit("Slot 1")),
    0x09 => (T::Lit("Slot 2"), T::Lit("Slot 2")),
    0x0A => (T::Lit("370-pin socket"), T::Lit("370-pin socket")),
    0x0B => (T::Lit("Slot A"), T::Lit("Slot A")),
    0x0C => (T::Lit("Slot M"), T::Lit("Slot M")),
    0x0D => (T::Lit("Socket 423"), T::Lit("Socket 423")),
    0x0E => (T::Lit("Socket A (Socket 462)"), T::Lit("Socket A (Socket 462)")),
    0x0F => (T::Lit("Socket 478"), T::Lit("Socket 478")),
    0x10 => (T::Lit("Socket 754"), T::Lit("Socket 754")),
    0x11 => (T::Lit("Socket 940"), T::Lit("Socket 940")),
    0x12 => (T::Lit("Socket 939"), T::Lit("Socket 939")),
    0x13 => (T::Lit("Socket mPGA604"), T::Lit("Socket mPGA604")),
    0x14 => (T::Lit("Socket LGA771"), T::Lit("Socket LGA771")),
    0x15 => (T::Lit("Socket LGA775"), T::Lit("Socket LGA775")),
    0x16 => (T::Lit("Socket S1"), T::Lit("Socket S1")),
    0x17 => (T::Lit("Socket AM2"), T::Lit("Socket AM2")),
    0x18 => (T::Lit("Socket F (1207)"), T::Lit("Socket F (1207)")),
    0x19 => (T::Lit("Socket LGA1366"), T::Lit("Socket LGA1366")),
    0x1A => (T::Lit("Socket G34"), T::Lit("Socket G34")),
    0x1B => (T::Lit("Socket AM3"), T::Lit("Socket AM3")),
    0x1C => (T::Lit("Socket C32"), T::Lit("Socket C32")),
    0x1D => (T::Lit("Socket LGA1156"), T::Lit("Socket LGA1156")),
    0x1E => (T::Lit("Socket LGA1567"), T::Lit("Socket LGA1567")),
    0x1F => (T::Lit("Socket PGA988A"), T::Lit("Socket PGA988A")),
    0x20 => (T::Lit("Socket BGA1288"), T::Lit("Socket BGA1288")),
    0x21 => (T::Lit("Socket rPGA988B"), T::Lit("Socket rPGA988B")),
    0x22 => (T::Lit("Socket BGA1023"), T::Lit("Socket BGA1023")),
    0x23 => (T::Lit("Socket BGA1224"), T::Lit("Socket BGA1224")),
    0x24 => (T::Lit("Socket LGA1155"), T::Lit("Socket LGA1155")),
    0x25 => (T::Lit("Socket LGA1356"), T::Lit("Socket LGA1356")),
    0x26 => (T::Lit("Socket LGA2011"), T::Lit("Socket LGA2011")),
    0x27 => (T::Lit("Socket FS1"), T::Lit("Socket FS1")),
    0x28 => (T::Lit("Socket FS2"), T::Lit("Socket FS2")),
    0x29 => (T::Lit("Socket FM1"), T::Lit("Socket FM1")),
    0x2A => (T::Lit("Socket FM2"), T::Lit("Socket FM2")),
    0x2B => (T::Lit("Socket LGA2011-3"), T::Lit("Socket LGA2011-3")),
    0x2C => (T::Lit("Socket LGA1356-3"), T::Lit("Socket LGA1356-3")),
    0x2D => (T::Lit("Socket LGA1150"), T::Lit("Socket LGA1150")),
    0x2E => (T::Lit("Socket BGA1168"), T::Lit("Socket BGA1168")),
    0x2F => (T::Lit("Socket BGA1234"), T::Lit("Socket BGA1234")),
    0x30 => (T::Lit("Socket BGA1364"), T::Lit("Socket BGA1364")),
    0x31 => (T::Lit("Socket AM4"), T::Lit("Socket AM4")),
    0x32 => (T::Lit("Socket LGA1151"), T::Lit("Socket LGA1151")),
    0x33 => (T::Lit("Socket BGA1356"), T::Lit("Socket BGA1356")),
    0x34 => (T::Lit("Socket BGA1440"), T::Lit("Socket BGA1440")),
    0x35 => (T::Lit("Socket BGA1515"), T::Lit("Socket BGA1515")),
    0x36 => (T::Lit("Socket LGA3647-1"), T::Lit("Socket LGA3647-1")),
    0x37 => (T::Lit("Socket SP3"), T::Lit("Socket SP3")),
    0x38 => (T::Lit("Socket SP3r2"), T::Lit("Socket SP3r2")),
    0x39 => (T::Lit("Socket LGA2066"), T::Lit("Socket LGA2066")),
    0x3A => (T::Lit("Socket BGA1392"), T::Lit("Socket BGA1392")),
    0x3B => (T::Lit("Socket BGA1510"), T::Lit("Socket BGA1510")),
    0x3C => (T::Lit("Socket BGA1528"), T::Lit("Socket BGA1528")),
    0x3D => (T::Lit("Socket LGA4189"), T::Lit("Socket LGA4189")),
    0x3E => (T::Lit("Socket LGA1200"), T::Lit("Socket LGA1200")),
    x @ 0x3F..=0xFF => (T::Dec("Undefined ", x as u32, ""), T::Dec("Undefined ", x as u32, "")),
});

#[cfg(any(feature = "c12", feature = "c19"))]
codes!(codes_cache_cache_level, u16, dmidecode::structures::cache::CacheLevel, {
    0x00 => E::L1,
    0x01 => E::L2,
    0x02 => E::L3,
    0x03 => E::L4,
    0x04 => E::L5,
    0x05 => E::L6,
    0x06 => E::L7,
    0x07 => E::L8,
    _ => return,
});

#[cfg(feature = "c22")]
texts!(text_cache_cache_level, u16, dmidecode::structures::cache::CacheLevel, {
    0x00 => (T::Lit("L1"), T::Lit("L1")),
    0x01 => (T::Lit("L2"), T::Lit("L2")),
    0x02 => (T::Lit("L3"), T::Lit("L3")),
    0x03 => (T::Lit("L4"), T::Lit("L4")),
    0x04 => (T::Lit("L5"), T::Lit("L5")),
    0x05 => (T::Lit("L6"), T::Lit("L6")),
    0x06 => (T::Lit("L7"), T::Lit("L7")),
    0x07 => (T::Lit("L8"), T::Lit("L8")),
    _ => return,
});

#[cfg(any(feature = "c12", feature = "c19"))]
codes!(codes_cache_cache_location, u16, dmidecode::structures::cache::CacheLocation, {
    0x00 => E::Internal,
    0x01 => E::External,
    0x02 => E::Reserved,
    0x03 => E::Unknown,
    _ => return,
});

#[cfg(feature = "c22")]
texts!(text_cache_cache_location, u16, dmidecode::structures::cache::CacheLocation, {
    0x00 => (T::Lit("Internal"), T::Lit("Internal")),
    0x01 => (T::Lit("External"), T::Lit("External")),
    0x02 => (T::Lit("Reserved"), T::Lit("Reserved")),
    0x03 => (T::Lit("Unknown"), T::Lit("Unknown")),
    _ => return,
});

#[cfg(any(feature = "c12", feature = "c19"))]
codes!(codes_cache_cache_operational_mode, u16, dmidecode::structures::cache::CacheOperationalMode, {
    0x00 => E::WriteThrough,
    0x01 => E::WriteBack,
    0x02 => E::ValuesWithMemoryAddress,
    0x03 => E::Unknown,
    _ => return,
});

#[cfg(feature = "c22")]
texts!(text_cache_cache_operational_mode, u16, dmidecode::structures::cache::CacheOperationalMode, {
    0x00 => (T::Lit("Write Through"), T::Lit("Write Through")),
    0x01 => (T::Lit("Write Back"), T::Lit("Write Back")),
    0x02 => (T::Lit("Values with Memory Address"), T::Lit("Values with Memory Address")),
    0x03 => (T::Lit("Unknown"), T::Lit("Unknown")),
    _ => return,
});

#[cfg(any(feature = "c12", feature = "c19"))]
codes!(codes_cache_cache_error_correction_type, u8, dmidecode::structures::cache::CacheErrorCorrectionType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::None,
    0x04 => E::Parity,
    0x05 => E::SingleBitEcc,
    0x06 => E::MultiBitEcc,
    x @ 0x07..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_cache_cache_error_correction_type, u8, dmidecode::structures::cache::CacheErrorCorrectionType, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("None"), T::Lit("None")),
    0x04 => (T::Lit("Parity"), T::Lit("Parity")),
    0x05 => (T::Lit("Single-bit ECC"), T::Lit("Single-bit ECC")),
    0x06 => (T::Lit("Multi-bit ECC"), T::Lit("Multi-bit ECC")),
    x @ 0x07..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c12", feature = "c19"))]
codes!(codes_cache_system_cache_type, u8, dmidecode::structures::cache::SystemCacheType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Instruction,
    0x04 => E::Data,
    0x05 => E::Unified,
    x @ 0x06..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_cache_system_cache_type, u8, dmidecode::structures::cache::SystemCacheType, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Instruction"), T::Lit("Instruction")),
    0x04 => (T::Lit("Data"), T::Lit("Data")),
    0x05 => (T::Lit("Unified"), T::Lit("Unified")),
    x @ 0x06..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c12", feature = "c19"))]
codes!(codes_cache_cache_associativity, u8, dmidecode::structures::cache::CacheAssociativity, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::DirectMapped,
    0x04 => E::TwowaySetAssociative,
    0x05 => E::FourWaySetAssociative,
    0x06 => E::FullyAssociative,
    0x07 => E::EightWaySetAssociative,
    0x08 => E::SixteenWaySetAssociative,
    0x09 => E::TwelveWaySetAssociative,
    0x0A => E::TwentyFourWaySetAssociative,
    0x0B => E::ThirtyTwoWaySetAssociative,
    0x0C => E::FourtyEightWaySetAssociative,
    0x0D => E::SixtyFourWaySetAssociative,
    0x0E => E::TwentyWaySetAssociative,
    x @ 0x0F..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_cache_cache_associativity, u8, dmidecode::structures::cache::CacheAssociativity, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Direct Mapped"), T::Lit("Direct Mapped")),
    0x04 => (T::Lit("2-way Set-Associative"), T::Lit("2-way Set-Associative")),
    0x05 => (T::Lit("4-way Set-Associative"), T::Lit("4-way Set-Associative")),
    0x06 => (T::Lit("Fully Associative"), T::Lit("Fully Associative")),
    0x07 => (T::Lit("8-way Set-Associative"), T::Lit("8-way Set-Associative")),
    0x08 => (T::Lit("16-way Set-Associative"), T::Lit("16-way Set-Associative")),
    0x09 => (T::Lit("12-way Set-Associative"), T::Lit("12-way Set-Associative")),
    0x0A => (T::Lit("24-way Set-Associative"), T::Lit("24-way Set-Associative")),
    0x0B => (T::Lit("32-way Set-Associative"), T::Lit("32-way Set-Associative")),
    0x0C => (T::Lit("48-way Set-Associative"), T::Lit("48-way Set-Associative")),
    0x0D => (T::Lit("64-way Set-Associative"), T::Lit("64-way Set-Associative")),
    0x0E => (T::Lit("20-way Set-Associative"), T::Lit("20-way Set-Associative")),
    x @ 0x0F..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c13", feature = "c19"))]
codes!(codes_port_connector_connector_type, u8, dmidecode::structures::port_connector::ConnectorType, {
    0x00 => E::None,
    0x01 => E::Centronics,
    0x02 => E::MiniCentronics,
    0x03 => E::Proprietary,
    0x04 => E::Db25PinMale,
    0x05 => E::Db25PinFemale,
    0x06 => E::Db15PinMale,
    0x07 => E::Db15PinFemale,
    0x08 => E::Db9PinMale,
    0x09 => E::Db9PinFemale,
    0x0A => E::Rj11,
    0x0B => E::Rj45,
    0x0C => E::MiniScsi,
    0x0D => E::MiniDin,
    0x0E => E::MicroDin,
    0x0F => E::Ps2,
    0x10 => E::Infrared,
    0x11 => E::HpHil,
    0x12 => E::AccessBus,
    0x13 => E::SsaScsi,
    0x14 => E::CircularDin8Male,
    0x15 => E::CircularDin8Female,
    0x16 => E::OnBoardIde,
    0x17 => E::OnBoardFloppy,
    0x18 => E::DualInline9,
    0x19 => E::DualInline25,
    0x1A => E::DualInline50,
    0x1B => E::DualInline68,
    0x1C => E::OnBoardSoundInputFromCdRom,
    0x1D => E::MiniCentronicsType14,
    0x1E => E::MiniCentronicsType26,
    0x1F => E::MiniJack,
    0x20 => E::Bnc,
    0x21 => E::Ieee1394,
    0x22 => E::SasSataPlugReceptacle,
    0x23 => E::UsbTypeCReceptacle,
    x @ 0x24..=0x9F => E::Undefined(x),
    0xA0 => E::Pc98,
    0xA1 => E::Pc98Hireso,
    0xA2 => E::PcH98,
    0xA3 => E::Pc98Note,
    0xA4 => E::Pc98Full,
    x @ 0xA5..=0xFE => E::Undefined(x),
    0xFF => E::Other,
});

#[cfg(feature = "c22")]
texts!(text_port_connector_connector_type, u8, dmidecode::structures::port_connector::ConnectorType, {
    0x00 => (T::Lit("None"), T::Lit("None")),
    0x01 => (T::Lit("Centronics"), T::Lit("Centronics")),
    0x02 => (T::Lit("Mini Centronics"), T::Lit("Mini Centronics")),
    0x03 => (T::Lit("Proprietary"), T::Lit("Proprietary")),
    0x04 => (T::Lit("DB-25 pin male"), T::Lit("DB-25 pin male")),
    0x05 => (T::Lit("DB-25 pin female"), T::Lit("DB-25 pin female")),
    0x06 => (T::Lit("DB-15 pin male"), T::Lit("DB-15 pin male")),
    0x07 => (T::Lit("DB-15 pin female"), T::Lit("DB-15 pin female")),
    0x08 => (T::Lit("DB-9 pin male"), T::Lit("DB-9 pin male")),
    0x09 => (T::Lit("DB-9 pin female"), T::Lit("DB-9 pin female")),
    0x0A => (T::Lit("RJ-11"), T::Lit("RJ-11")),
    0x0B => (T::Lit("RJ-45"), T::Lit("RJ-45")),
    0x0C => (T::Lit("50-pin MiniSCSI"), T::Lit("50-pin MiniSCSI")),
    0x0D => (T::Lit("Mini-DIN"), T::Lit("Mini-DIN")),
    0x0E => (T::Lit("Micro-DIN"), T::Lit("Micro-DIN")),
    0x0F => (T::Lit("PS/2"), T::Lit("PS/2")),
    0x10 => (T::Lit("Infrared"), T::Lit("Infrared")),
    0x11 => (T::Lit("HP-HIL"), T::Lit("HP-HIL")),
    0x12 => (T::Lit("Access Bus (USB)"), T::Lit("Access Bus (USB)")),
    0x13 => (T::Lit("SSA SCSI"), T::Lit("SSA SCSI")),
    0x14 => (T::Lit("Circular DIN-8 male"), T::Lit("Circular DIN-8 male")),
    0x15 => (T::Lit("Circular DIN-8 female"), T::Lit("Circular DIN-8 female")),
    0x16 => (T::Lit("On Board IDE"), T::Lit("On Board IDE")),
    0x17 => (T::Lit("On Board Floppy"), T::Lit("On Board Floppy")),
    0x18 => (T::Lit("9-pin Dual Inline (pin 10 cut)"), T::Lit("9-pin Dual Inline (pin 10 cut)")),
    0x19 => (T::Lit("25-pin Dual Inline (pin 26 cut)"), T::Lit("25-pin Dual Inline (pin 26 cut)")),
    0x1A => (T::Lit("50-pin Dual Inline"), T::Lit("50-pin Dual Inline")),
    0x1B => (T::Lit("68-pin Dual Inline"), T::Lit("68-pin Dual Inline")),
    0x1C => (T::Lit("On Board Sound Input from CD-ROM"), T::Lit("On Board Sound Input from CD-ROM")),
    0x1D => (T::Lit("Mini-Centronics Type-14"), T::Lit("Mini-Centronics Type-14")),
    0x1E => (T::Lit("Mini-Centronics Type-26"), T::Lit("Mini-Centronics Type-26")),
    0x1F => (T::Lit("Mini-jack (headphones)"), T::Lit("Mini-jack (headphones)")),
    0x20 => (T::Lit("BNC"), T::Lit("BNC")),
    0x21 => (T::Lit("1394"), T::Lit("1394")),
    0x22 => (T::Lit("SAS/SATA Plug Receptacle"), T::Lit("SAS/SATA Plug Receptacle")),
    0x23 => (T::Lit("USB Type-C Receptacle"), T::Lit("USB Type-C Receptacle")),
    x @ 0x24..=0x9F => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xA0 => (T::Lit("PC-98"), T::Lit("PC-98")),
    0xA1 => (T::Lit("PC-98Hireso"), T::Lit("PC-98Hireso")),
    0xA2 => (T::Lit("PC-H98"), T::Lit("PC-H98")),
    0xA3 => (T::Lit("PC-98Note"), T::Lit("PC-98Note")),
    0xA4 => (T::Lit("PC-98Full"), T::Lit("PC-98Full")),
    x @ 0xA5..=0xFE => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xFF => (T::Lit("Other – Use Reference Designator Strings to supply information."), T::Lit("Other – Use Reference Designator Strings to supply information.")),
});

#[cfg(any(feature = "c13", feature = "c19"))]
codes!(codes_port_connector_port_type, u8, dmidecode::structures::port_connector::PortType, {
    0x00 => E::None,
    0x01 => E::ParallelPortXtAtCompatible,
    0x02 => E::ParallelPortPs2,
    0x03 => E::ParallelPortEcp,
    0x04 => E::ParallelPortEpp,
    0x05 => E::ParallelPortEcpEpp,
    0x06 => E::SerialPortXtAtCompatible,
    0x07 => E::SerialPort16450Compatible,
    0x08 => E::SerialPort16550Compatible,
    0x09 => E::SerialPort16550ACompatible,
    0x0A => E::ScsiPort,
    0x0B => E::MidiPort,
    0x0C => E::JoyStickPort,
    0x0D => E::KeyboardPort,
    0x0E => E::MousePort,
    0x0F => E::SsaScsi,
    0x10 => E::Usb,
    0x11 => E::FireWire,
    0x12 => E::PcmciaType1,
    0x13 => E::PcmciaType2,
    0x14 => E::PcmciaType3,
    0x15 => E::Cardbus,
    0x16 => E::AccessBusPort,
    0x17 => E::Scsi2,
    0x18 => E::ScsiWide,
    0x19 => E::Pc98,
    0x1A => E::Pc98Hireso,
    0x1B => E::PcH98,
    0x1C => E::VideoPort,
    0x1D => E::AudioPort,
    0x1E => E::ModemPort,
    0x1F => E::NetworkPort,
    0x20 => E::Sata,
    0x21 => E::Sas,
    0x22 => E::MultiFunctionDisplayPort,
    0x23 => E::Thunderbolt,
    x @ 0x24..=0x9F => E::Undefined(x),
    0xA0 => E::Intel8251Compatible,
    0xA1 => E::Intel8251FifoCompatible,
    x @ 0xA2..=0xFE => E::Undefined(x),
    0xFF => E::Other,
});

#[cfg(feature = "c22")]
texts!(text_port_connector_port_type, u8, dmidecode::structures::port_connector::PortType, {
    0x00 => (T::Lit("None"), T::Lit("None")),
    0x01 => (T::Lit("Parallel Port XT/AT Compatible"), T::Lit("Parallel Port XT/AT Compatible")),
    0x02 => (T::Lit("Parallel Port PS/2"), T::Lit("Parallel Port PS/2")),
    0x03 => (T::Lit("Parallel Port ECP"), T::Lit("Parallel Port ECP")),
    0x04 => (T::Lit("Parallel Port EPP"), T::Lit("Parallel Port EPP")),
    0x05 => (T::Lit("Parallel Port ECP/EPP"), T::Lit("Parallel Port ECP/EPP")),
    0x06 => (T::Lit("Serial Port XT/AT Compatible"), T::Lit("Serial Port XT/AT Compatible")),
    0x07 => (T::Lit("Serial Port 16450 Compatible"), T::Lit("Serial Port 16450 Compatible")),
    0x08 => (T::Lit("Serial Port 16550 Compatible"), T::Lit("Serial Port 16550 Compatible")),
    0x09 => (T::Lit("Serial Port 16550A Compatible"), T::Lit("Serial Port 16550A Compatible")),
    0x0A => (T::Lit("SCSI Port"), T::Lit("SCSI Port")),
    0x0B => (T::Lit("MIDI Port"), T::Lit("MIDI Port")),
    0x0C => (T::Lit("Joy Stick Port"), T::Lit("Joy Stick Port")),
    0x0D => (T::Lit("Keyboard Port"), T::Lit("Keyboard Port")),
    0x0E => (T::Lit("Mouse Port"), T::Lit("Mouse Port")),
    0x0F => (T::Lit("SSA SCSI"), T::Lit("SSA SCSI")),
    0x10 => (T::Lit("USB"), T::Lit("USB")),
    0x11 => (T::Lit("FireWire (IEEE P1394)"), T::Lit("FireWire (IEEE P1394)")),
    0x12 => (T::Lit("PCMCIA Type I2"), T::Lit("PCMCIA Type I2")),
    0x13 => (T::Lit("PCMCIA Type II"), T::Lit("PCMCIA Type II")),
    0x14 => (T::Lit("PCMCIA Type III"), T::Lit("PCMCIA Type III")),
    0x15 => (T::Lit("Cardbus"), T::Lit("Cardbus")),
    0x16 => (T::Lit("Access Bus Port"), T::Lit("Access Bus Port")),
    0x17 => (T::Lit("SCSI II"), T::Lit("SCSI II")),
    0x18 => (T::Lit("SCSI Wide"), T::Lit("SCSI Wide")),
    0x19 => (T::Lit("PC-98"), T::Lit("PC-98")),
    0x1A => (T::Lit("PC-98-Hireso"), T::Lit("PC-98-Hireso")),
    0x1B => (T::Lit("PC-H98"), T::Lit("PC-H98")),
    0x1C => (T::Lit("Video Port"), T::Lit("Video Port")),
    0x1D => (T::Lit("Audio Port"), T::Lit("Audio Port")),
    0x1E => (T::Lit("Modem Port"), T::Lit("Modem Port")),
    0x1F => (T::Lit("Network Port"), T::Lit("Network Port")),
    0x20 => (T::Lit("SATA"), T::Lit("SATA")),
    0x21 => (T::Lit("SAS"), T::Lit("SAS")),
    0x22 => (T::Lit("MFDP (Multi-Function Display Port)"), T::Lit("MFDP (Multi-Function Display Port)")),
    0x23 => (T::Lit("Thunderbolt"), T::Lit("Thunderbolt")),
    x @ 0x24..=0x9F => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xA0 => (T::Lit("8251 Compatible"), T::Lit("8251 Compatible")),
    0xA1 => (T::Lit("8251 FIFO Compatible"), T::Lit("8251 FIFO Compatible")),
    x @ 0xA2..=0xFE => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xFF => (T::Lit("Other"), T::Lit("Other")),
});

#[cfg(any(feature = "c13", feature = "c19"))]
codes!(codes_system_slots_slot_type, u8, dmidecode::structures::system_slots::SlotType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Isa,
    0x04 => E::Mca,
    0x05 => E::Eisa,
    0x06 => E::Pci,
    0x07 => E::PcCard,
    0x08 => E::VlVesa,
    0x09 => E::Proprietary,
    0x0A => E::ProcessorCardSlot,
    0x0B => E::ProprietaryMemoryCardSlot,
    0x0C => E::IoRiserCardSlot,
    0x0D => E::Nubus,
    0x0E => E::Pci66Mhz,
    0x0F => E::Agp,
    0x10 => E::Agp2x,
    0x11 => E::Agp4x,
    0x12 => E::PciX,
    0x13 => E::Agp8x,
    0x14 => E::M2Socket1DP,
    0x15 => E::M2Socket1SD,
    0x16 => E::M2Socket2,
    0x17 => E::M2Socket3,
    0x18 => E::MxmType1,
    0x19 => E::MxmType2,
    0x1A => E::MxmType3,
    0x1B => E::MxmType3He,
    0x1C => E::MxmType4,
    0x1D => E::Mxm3TypeA,
    0x1E => E::Mxm3TypeB,
    0x1F => E::U2PciExpressGen2,
    0x20 => E::U2PciExpressGen3,
    0x21 => E::PciExpressMini52pin1,
    0x22 => E::PciExpressMini52pin2,
    0x23 => E::PciExpressMini76pin,
    0x24 => E::U2PciExpressGen4,
    0x25 => E::U2PciExpressGen5,
    0x26 => E::OcpNic3Small,
    0x27 => E::OcpNic3Large,
    0x28 => E::OcpNicPriorTo3,
    x @ 0x29..=0x2F => E::Undefined(x),
    0x30 => E::CxlFlexbus1,
    x @ 0x31..=0x9F => E::Undefined(x),
    0xA0 => E::Pc98C20,
    0xA1 => E::Pc98C24,
    0xA2 => E::Pc98E,
    0xA3 => E::Pc98LocalBus,
    0xA4 => E::Pc98Card,
    0xA5 => E::PciExpress,
    0xA6 => E::PciExpressX1,
    0xA7 => E::PciExpressX2,
    0xA8 => E::PciExpressX4,
    0xA9 => E::PciExpressX8,
    0xAA => E::PciExpressX16,
    0xAB => E::PciExpressGen2,
    0xAC => E::PciExpressGen2x1,
    0xAD => E::PciExpressGen2x2,
    0xAE => E::PciExpressGen2x4,
    0xAF => E::PciExpressGen2x8,
    0xB0 => E::PciExpressGen2x16,
    0xB1 => E::PciExpressGen3,
    0xB2 => E::PciExpressGen3x1,
    0xB3 => E::PciExpressGen3x2,
    0xB4 => E::PciExpressGen3x4,
    0xB5 => E::PciExpressGen3x8,
    0xB6 => E::PciExpressGen3x16,
    x @ 0xB7 => E::Undefined(x),
    0xB8 => E::PciExpressGen4,
    0xB9 => E::PciExpressGen4x1,
    0xBA => E::PciExpressGen4x2,
    0xBB => E::PciExpressGen4x4,
    0xBC => E::PciExpressGen4x8,
    0xBD => E::PciExpressGen4x16,
    0xBE => E::PciExpressGen5,
    0xBF => E::PciExpressGen5x1,
    0xC0 => E::PciExpressGen5x2,
    0xC1 => E::PciExpressGen5x4,
    0xC2 => E::PciExpressGen5x8,
    0xC3 => E::PciExpressGen5x16,
    0xC4 => E::PciExpressGen6,
    0xC5 => E::E1FormFactorSlot,
    0xC6 => E::E3FormFactorSlot,
    x @ 0xC7..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_system_slots_slot_type, u8, dmidecode::structures::system_slots::SlotType, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("ISA"), T::Lit("ISA")),
    0x04 => (T::Lit("MCA"), T::Lit("MCA")),
    0x05 => (T::Lit("EISA"), T::Lit("EISA")),
    0x06 => (T::Lit("PCI"), T::Lit("PCI")),
    0x07 => (T::Lit("PC Card (PCMCIA)"), T::Lit("PC Card (PCMCIA)")),
    0x08 => (T::Lit("VL-VESA"), T::Lit("VL-VESA")),
    0x09 => (T::Lit("Proprietary"), T::Lit("Proprietary")),
    0x0A => (T::Lit("Processor Card Slot"), T::Lit("Processor Card Slot")),
    0x0B => (T::Lit("Proprietary Memory Card Slot"), T::Lit("Proprietary Memory Card Slot")),
    0x0C => (T::Lit("I/O Riser Card Slot"), T::Lit("I/O Riser Card Slot")),
    0x0D => (T::Lit("NuBus"), T::Lit("NuBus")),
    0x0E => (T::Lit("PCI – 66MHz Capable"), T::Lit("PCI – 66MHz Capable")),
    0x0F => (T::Lit("AGP"), T::Lit("AGP")),
    0x10 => (T::Lit("AGP 2X"), T::Lit("AGP 2X")),
    0x11 => (T::Lit("AGP 4X"), T::Lit("AGP 4X")),
    0x12 => (T::Lit("PCI-X"), T::Lit("PCI-X")),
    0x13 => (T::Lit("AGP 8X"), T::Lit("AGP 8X")),
    0x14 => (T::Lit("M.2 Socket 1-DP (Mechanical Key A)"), T::Lit("M.2 Socket 1-DP (Mechanical Key A)")),
    0x15 => (T::Lit("M.2 Socket 1-SD (Mechanical Key E)"), T::Lit("M.2 Socket 1-SD (Mechanical Key E)")),
    0x16 => (T::Lit("M.2 Socket 2 (Mechanical Key B)"), T::Lit("M.2 Socket 2 (Mechanical Key B)")),
    0x17 => (T::Lit("M.2 Socket 3 (Mechanical Key M)"), T::Lit("M.2 Socket 3 (Mechanical Key M)")),
    0x18 => (T::Lit("MXM Type I"), T::Lit("MXM Type I")),
    0x19 => (T::Lit("MXM Type II"), T::Lit("MXM Type II")),
    0x1A => (T::Lit("MXM Type III (standard connector)"), T::Lit("MXM Type III (standard connector)")),
    0x1B => (T::Lit("MXM Type III (HE connector)"), T::Lit("MXM Type III (HE connector)")),
    0x1C => (T::Lit("MXM Type IV"), T::Lit("MXM Type IV")),
    0x1D => (T::Lit("MXM 3.0 Type A"), T::Lit("MXM 3.0 Type A")),
    0x1E => (T::Lit("MXM 3.0 Type B"), T::Lit("MXM 3.0 Type B")),
    0x1F => (T::Lit("PCI Express Gen 2 SFF-8639 (U.2)"), T::Lit("PCI Express Gen 2 SFF-8639 (U.2)")),
    0x20 => (T::Lit("PCI Express Gen 3 SFF-8639 (U.2)"), T::Lit("PCI Express Gen 3 SFF-8639 (U.2)")),
    0x21 => (T::Lit("PCI Express Mini 52-pin with bottom-side keep-outs"), T::Lit("PCI Express Mini 52-pin (CEM spec. 2.0) with bottom-side keep-outs. Use Slot Length field value 03h (short length) for \"half-Mini card\" -only support, 04h (long length) for \"full-Mini card\" or dual support.")),
    0x22 => (T::Lit("PCI Express Mini 52-pin without bottom-side keep-outs"), T::Lit("PCI Express Mini 52-pin (CEM spec. 2.0) without bottom-side keep-outs. Use Slot Length field value 03h (short length) for \"half-Mini card\" -only support, 04h (long length) for \"full-Mini card\" or dual support.")),
    0x23 => (T::Lit("PCI Express Mini 76-pin"), T::Lit("PCI Express Mini 76-pin (CEM spec. 2.0) Corresponds to Display-Mini card.")),
    0x24 => (T::Lit("PCI Express Gen 4 SFF-8639 (U.2)"), T::Lit("PCI Express Gen 4 SFF-8639 (U.2)")),
    0x25 => (T::Lit("PCI Express Gen 5 SFF-8639 (U.2)"), T::Lit("PCI Express Gen 5 SFF-8639 (U.2)")),
    0x26 => (T::Lit("OCP NIC 3.0 Small Form Factor (SFF)"), T::Lit("OCP NIC 3.0 Small Form Factor (SFF)")),
    0x27 => (T::Lit("OCP NIC 3.0 Large Form Factor (LFF)"), T::Lit("OCP NIC 3.0 Large Form Factor (LFF)")),
    0x28 => (T::Lit("OCP NIC Prior to 3.0"), T::Lit("OCP NIC Prior to 3.0")),
    x @ 0x29..=0x2F => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x30 => (T::Lit("CXL Flexbus 1.0 (deprecated)"), T::Lit("CXL Flexbus 1.0 (deprecated)")),
    x @ 0x31..=0x9F => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xA0 => (T::Lit("PC-98/C20"), T::Lit("PC-98/C20")),
    0xA1 => (T::Lit("PC-98/C24"), T::Lit("PC-98/C24")),
    0xA2 => (T::Lit("PC-98/E"), T::Lit("PC-98/E")),
    0xA3 => (T::Lit("PC-98/Local Bus"), T::Lit("PC-98/Local Bus")),
    0xA4 => (T::Lit("PC-98/Card"), T::Lit("PC-98/Card")),
    0xA5 => (T::Lit("PCI Express"), T::Lit("PCI Express")),
    0xA6 => (T::Lit("PCI Express x1"), T::Lit("PCI Express x1")),
    0xA7 => (T::Lit("PCI Express x2"), T::Lit("PCI Express x2")),
    0xA8 => (T::Lit("PCI Express x4"), T::Lit("PCI Express x4")),
    0xA9 => (T::Lit("PCI Express x8"), T::Lit("PCI Express x8")),
    0xAA => (T::Lit("PCI Express x16"), T::Lit("PCI Express x16")),
    0xAB => (T::Lit("PCI Express Gen 2"), T::Lit("PCI Express Gen 2")),
    0xAC => (T::Lit("PCI Express Gen 2 x1"), T::Lit("PCI Express Gen 2 x1")),
    0xAD => (T::Lit("PCI Express Gen 2 x2"), T::Lit("PCI Express Gen 2 x2")),
    0xAE => (T::Lit("PCI Express Gen 2 x4"), T::Lit("PCI Express Gen 2 x4")),
    0xAF => (T::Lit("PCI Express Gen 2 x8"), T::Lit("PCI Express Gen 2 x8")),
    0xB0 => (T::Lit("PCI Express Gen 2 x16"), T::Lit("PCI Express Gen 2 x16")),
    0xB1 => (T::Lit("PCI Express Gen 3"), T::Lit("PCI Express Gen 3")),
    0xB2 => (T::Lit("PCI Express Gen 3 x1"), T::Lit("PCI Express Gen 3 x1")),
    0xB3 => (T::Lit("PCI Express Gen 3 x2"), T::Lit("PCI Express Gen 3 x2")),
    0xB4 => (T::Lit("PCI Express Gen 3 x4"), T::Lit("PCI Express Gen 3 x4")),
    0xB5 => (T::Lit("PCI Express Gen 3 x8"), T::Lit("PCI Express Gen 3 x8")),
    0xB6 => (T::Lit("PCI Express Gen 3 x16"), T::Lit("PCI Express Gen 3 x16")),
    x @ 0xB7 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xB8 => (T::Lit("PCI Express Gen 4"), T::Lit("PCI Express Gen 4")),
    0xB9 => (T::Lit("PCI Express Gen 4 x1"), T::Lit("PCI Express Gen 4 x1")),
    0xBA => (T::Lit("PCI Express Gen 4 x2"), T::Lit("PCI Express Gen 4 x2")),
    0xBB => (T::Lit("PCI Express Gen 4 x4"), T::Lit("PCI Express Gen 4 x4")),
    0xBC => (T::Lit("PCI Express Gen 4 x8"), T::Lit("PCI Express Gen 4 x8")),
    0xBD => (T::Lit("PCI Express Gen 4 x16"), T::Lit("PCI Express Gen 4 x16")),
    0xBE => (T::Lit("PCI Express Gen 5"), T::Lit("PCI Express Gen 5")),
    0xBF => (T::Lit("PCI Express Gen 5 x1"), T::Lit("PCI Express Gen 5 x1")),
    0xC0 => (T::Lit("PCI Express Gen 5 x2"), T::Lit("PCI Express Gen 5 x2")),
    0xC1 => (T::Lit("PCI Express Gen 5 x4"), T::Lit("PCI Express Gen 5 x4")),
    0xC2 => (T::Lit("PCI Express Gen 5 x8"), T::Lit("PCI Express Gen 5 x8")),
    0xC3 => (T::Lit("PCI Express Gen 5 x16"), T::Lit("PCI Express Gen 5 x16")),
    0xC4 => (T::Lit("PCI Express Gen 6 and Beyond"), T::Lit("PCI Express Gen 6 and Beyond")),
    0xC5 => (T::Lit("EDSFF E1"), T::Lit("Enterprise and Datacenter 1U E1 Form Factor Slot (EDSFF E1.S, E1.L). See specifications SFF-TA-1006 and SFF-TA-1007 for more details on values for slot length and pitch.")),
    0xC6 => (T::Lit("EDSFF E3"), T::Lit("Enterprise and Datacenter 3\" E3 Form Factor Slot (EDSFF E3.S, E3.L). See specification SFF-TA-1008 for details on values for slot length and pitch.")),
    x @ 0xC7..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c13", feature = "c19"))]
codes!(codes_system_slots_slot_width, u8, dmidecode::structures::system_slots::SlotWidth, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Byte,
    0x04 => E::Word,
    0x05 => E::Dword,
    0x06 => E::Qword,
    0x07 => E::Dqword,
    0x08 => E::X1,
    0x09 => E::X2,
    0x0A => E::X4,
    0x0B => E::X8,
    0x0C => E::X12,
    0x0D => E::X16,
    0x0E => E::X32,
    x @ 0x0F..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_system_slots_slot_width, u8, dmidecode::structures::system_slots::SlotWidth, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("8 bit"), T::Lit("8 bit")),
    0x04 => (T::Lit("16 bit"), T::Lit("16 bit")),
    0x05 => (T::Lit("32 bit"), T::Lit("32 bit")),
    0x06 => (T::Lit("64 bit"), T::Lit("64 bit")),
    0x07 => (T::Lit("128 bit"), T::Lit("128 bit")),
    0x08 => (T::Lit("1x or x1"), T::Lit("1x or x1")),
    0x09 => (T::Lit("2x or x2"), T::Lit("2x or x2")),
    0x0A => (T::Lit("4x or x4"), T::Lit("4x or x4")),
    0x0B => (T::Lit("8x or x8"), T::Lit("8x or x8")),
    0x0C => (T::Lit("12x or x12"), T::Lit("12x or x12")),
    0x0D => (T::Lit("16x or x16"), T::Lit("16x or x16")),
    0x0E => (T::Lit("32x or x32"), T::Lit("32x or x32")),
    x @ 0x0F..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c13", feature = "c19"))]
codes!(codes_system_slots_current_usage, u8, dmidecode::structures::system_slots::CurrentUsage, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Available,
    0x04 => E::InUse,
    0x05 => E::Unavailable,
    x @ 0x06..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_system_slots_current_usage, u8, dmidecode::structures::system_slots::CurrentUsage, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Available"), T::Lit("Available")),
    0x04 => (T::Lit("In use"), T::Lit("In use")),
    0x05 => (T::Lit("Unavailable"), T::Lit("Unavailable (e.g., connected to a processor that is not installed)")),
    x @ 0x06..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c13", feature = "c19"))]
codes!(codes_system_slots_slot_length, u8, dmidecode::structures::system_slots::SlotLength, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::ShortLength,
    0x04 => E::LongLength,
    0x05 => E::DriveFormFactor2_5,
    0x06 => E::DriveFormFactor3_5,
    x @ 0x07..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_system_slots_slot_length, u8, dmidecode::structures::system_slots::SlotLength, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Short Length"), T::Lit("Short Length")),
    0x04 => (T::Lit("Long Length"), T::Lit("Long Length")),
    0x05 => (T::Lit("2.5\" drive form factor"), T::Lit("2.5\" drive form factor")),
    0x06 => (T::Lit("3.5\" drive form factor"), T::Lit("3.5\" drive form factor")),
    x @ 0x07..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c15", feature = "c19"))]
codes!(codes_system_event_log_event_log_type, u8, dmidecode::structures::system_event_log::EventLogType, {
    x @ 0x00 => E::Reserved(x),
    0x01 => E::SingleBitEccMemoryError,
    0x02 => E::MultiBitEccMemoryError,
    0x03 => E::ParityMemoryError,
    0x04 => E::BusTimeOut,
    0x05 => E::IoChannelCheck,
    0x06 => E::SoftwareNmi,
    0x07 => E::PostMemoryResize,
    0x08 => E::PostError,
    0x09 => E::PciParityError,
    0x0A => E::PciSystemError,
    0x0B => E::CpuFailure,
    0x0C => E::EisaFailSafeTimerTimeOut,
    0x0D => E::CorrectableMemoryLogDisabled,
    0x0E => E::LoggingDisabledForSpecificEventType,
    x @ 0x0F => E::Reserved(x),
    0x10 => E::SystemLimitExceeded,
    0x11 => E::AsynchronousHardwareTimerExpired,
    0x12 => E::SystemConfigurationInformation,
    0x13 => E::HardDiskInformation,
    0x14 => E::SystemReconfigured,
    0x15 => E::UncorrectableCpuComplexError,
    0x16 => E::LogAreaReset,
    0x17 => E::SystemBoot,
    x @ 0x18..=0x7F => E::Unused(x),
    x @ 0x80..=0xFE => E::Available(x),
    0xFF => E::EndOfLog,
});

#[cfg(feature = "c22")]
texts!(text_system_event_log_event_log_type, u8, dmidecode::structures::system_event_log::EventLogType, {
    x @ 0x00 => (T::Lit("Reserved"), T::Dec("Reserved: ", x as u32, "")),
    0x01 => (T::Lit("Single-bit ECC memory error"), T::Lit("Single-bit ECC memory error")),
    0x02 => (T::Lit("Multi-bit ECC memory error"), T::Lit("Multi-bit ECC memory error")),
    0x03 => (T::Lit("Parity memory error"), T::Lit("Parity memory error")),
    0x04 => (T::Lit("Bus timeout"), T::Lit("Bus time-out")),
    0x05 => (T::Lit("I/O channel block"), T::Lit("I/O Channel Check")),
    0x06 => (T::Lit("Software NMI"), T::Lit("Software NMI")),
    0x07 => (T::Lit("POST memory resize"), T::Lit("POST Memory Resize")),
    0x08 => (T::Lit("POST error"), T::Lit("POST Error")),
    0x09 => (T::Lit("PCI parity error"), T::Lit("PCI Parity Error")),
    0x0A => (T::Lit("PCI system error"), T::Lit("PCI System Error")),
    0x0B => (T::Lit("CPU failure"), T::Lit("CPU Failure")),
    0x0C => (T::Lit("EISA failsafe timer timeout"), T::Lit("EISA FailSafe Timer time-out")),
    0x0D => (T::Lit("Correctable memory log disabled"), T::Lit("Correctable memory log disabled")),
    0x0E => (T::Lit("Logging disabled"), T::Lit("Logging disabled for a specific Event Type")),
    x @ 0x0F => (T::Lit("Reserved"), T::Dec("Reserved: ", x as u32, "")),
    0x10 => (T::Lit("System limit exceeded"), T::Lit("System Limit Exceeded")),
    0x11 => (T::Lit("Asynchronous hardware timer expired"), T::Lit("Asynchronous hardware timer expired and issued a system reset")),
    0x12 => (T::Lit("System configuration information"), T::Lit("System configuration information")),
    0x13 => (T::Lit("Hard disk information"), T::Lit("Hard-disk information")),
    0x14 => (T::Lit("System reconfigured"), T::Lit("System reconfigured")),
    0x15 => (T::Lit("Uncorrectable CPU-complex error"), T::Lit("Uncorrectable CPU-complex error")),
    0x16 => (T::Lit("Log area reset/cleared"), T::Lit("Log Area Reset/Cleared")),
    0x17 => (T::Lit("System boot"), T::Lit("System boot")),
    x @ 0x18..=0x7F => (T::Dec("Unused: ", x as u32, ""), T::Dec("Unused: ", x as u32, "")),
    x @ 0x80..=0xFE => (T::Lit("OEM-specific"), T::Dec("Available for system- and OEM-specific assignments: ", x as u32, "")),
    0xFF => (T::Lit("End of log"), T::Lit("End of log")),
});

#[cfg(any(feature = "c15", feature = "c19"))]
codes!(codes_system_event_log_log_header_format, u8, dmidecode::structures::system_event_log::LogHeaderFormat, {
    0x00 => E::NoHeader,
    0x01 => E::LogHeaderType1,
    x @ 0x02..=0x7F => E::Available(x),
    x @ 0x80..=0xFF => E::OemSpecific(x),
});

#[cfg(feature = "c22")]
texts!(text_system_event_log_log_header_format, u8, dmidecode::structures::system_event_log::LogHeaderFormat, {
    0x00 => (T::Lit("No Header"), T::Lit("No Header")),
    0x01 => (T::Lit("Type 1"), T::Lit("Type 1 log header")),
    x @ 0x02..=0x7F => (T::Dec("Available: ", x as u32, ""), T::Dec("Available: ", x as u32, "")),
    x @ 0x80..=0xFF => (T::Lit("OEM-specific"), T::Dec("BIOS vendor or OEM-specific format: ", x as u32, "")),
});

#[cfg(any(feature = "c16", feature = "c19"))]
codes!(codes_physical_memory_array_memory_array_location, u8, dmidecode::structures::physical_memory_array::MemoryArrayLocation, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::SystemBoardOrMotherboard,
    0x04 => E::IsaAddOnCard,
    0x05 => E::EisaAddOnCard,
    0x06 => E::PciAddOnCard,
    0x07 => E::McaAddOnCard,
    0x08 => E::PcmciaAddOnCard,
    0x09 => E::ProprietaryAddOnCard,
    0x0A => E::NuBus,
    x @ 0x0B..=0x9F => E::Undefined(x),
    0xA0 => E::Pc98c20AddOnCard,
    0xA1 => E::Pc98c24AddOnCard,
    0xA2 => E::Pc98eAddOnCard,
    0xA3 => E::Pc98LocalBusAddOnCard,
    0xA4 => E::CxlAddOnCard,
    x @ 0xA5..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_physical_memory_array_memory_array_location, u8, dmidecode::structures::physical_memory_array::MemoryArrayLocation, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("System board or motherboard"), T::Lit("System board or motherboard")),
    0x04 => (T::Lit("ISA add-on card"), T::Lit("ISA add-on card")),
    0x05 => (T::Lit("EISA add-on card"), T::Lit("EISA add-on card")),
    0x06 => (T::Lit("PCI add-on card"), T::Lit("PCI add-on card")),
    0x07 => (T::Lit("MCA add-on card"), T::Lit("MCA add-on card")),
    0x08 => (T::Lit("PCMCIA add-on card"), T::Lit("PCMCIA add-on card")),
    0x09 => (T::Lit("Proprietary add-on card"), T::Lit("Proprietary add-on card")),
    0x0A => (T::Lit("NuBus"), T::Lit("NuBus")),
    x @ 0x0B..=0x9F => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xA0 => (T::Lit("PC-98/C20 add-on card"), T::Lit("PC-98/C20 add-on card")),
    0xA1 => (T::Lit("PC-98/C24 add-on card"), T::Lit("PC-98/C24 add-on card")),
    0xA2 => (T::Lit("PC-98/E add-on card"), T::Lit("PC-98/E add-on card")),
    0xA3 => (T::Lit("PC-98/Local bus add-on card"), T::Lit("PC-98/Local bus add-on card")),
    0xA4 => (T::Lit("CXL add-on card"), T::Lit("CXL add-on card")),
    x @ 0xA5..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c16", feature = "c19"))]
codes!(codes_physical_memory_array_memory_array_use, u8, dmidecode::structures::physical_memory_array::MemoryArrayUse, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::SystemMemory,
    0x04 => E::VideoMemory,
    0x05 => E::FlashMemory,
    0x06 => E::NonVolatileRam,
    0x07 => E::CacheMemory,
    x @ 0x08..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_physical_memory_array_memory_array_use, u8, dmidecode::structures::physical_memory_array::MemoryArrayUse, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("System memory"), T::Lit("System memory")),
    0x04 => (T::Lit("Video memory"), T::Lit("Video memory")),
    0x05 => (T::Lit("Flash memory"), T::Lit("Flash memory")),
    0x06 => (T::Lit("Non-volatile RAM"), T::Lit("Non-volatile RAM")),
    0x07 => (T::Lit("Cache memory"), T::Lit("Cache memory")),
    x @ 0x08..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c16", feature = "c19"))]
codes!(codes_physical_memory_array_memory_array_error_correction_types, u8, dmidecode::structures::physical_memory_array::MemoryArrayErrorCorrectionTypes, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::None,
    0x04 => E::Parity,
    0x05 => E::SingleBitEcc,
    0x06 => E::MultiBitEcc,
    0x07 => E::CRC,
    x @ 0x08..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_physical_memory_array_memory_array_error_correction_types, u8, dmidecode::structures::physical_memory_array::MemoryArrayErrorCorrectionTypes, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("None"), T::Lit("None")),
    0x04 => (T::Lit("Parity"), T::Lit("Parity")),
    0x05 => (T::Lit("Single-bit ECC"), T::Lit("Single-bit ECC")),
    0x06 => (T::Lit("Multi-bit ECC"), T::Lit("Multi-bit ECC")),
    0x07 => (T::Lit("CRC"), T::Lit("CRC")),
    x @ 0x08..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c17", feature = "c19"))]
codes!(codes_memory_device_error_granularity, u8, dmidecode::structures::memory_device::ErrorGranularity, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::DeviceLevel,
    0x04 => E::MemoryLevel,
    x @ 0x05..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c17", feature = "c19"))]
codes!(codes_memory_device_error_operation, u8, dmidecode::structures::memory_device::ErrorOperation, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Read,
    0x04 => E::Write,
    0x05 => E::PartialWrite,
    x @ 0x06..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c17", feature = "c19"))]
codes!(codes_memory_device_error_type, u8, dmidecode::structures::memory_device::ErrorType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Ok,
    0x04 => E::BadRead,
    0x05 => E::Parity,
    0x06 => E::SingleBit,
    0x07 => E::DoubleBit,
    0x08 => E::MultiBit,
    0x09 => E::Nibble,
    0x0A => E::Checksum,
    0x0B => E::Crc,
    0x0C => E::CorrectedSingleBit,
    0x0D => E::Corrected,
    0x0E => E::Uncorrectable,
    x @ 0x0F..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c17", feature = "c19"))]
codes!(codes_memory_device_form_factor, u8, dmidecode::structures::memory_device::FormFactor, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Simm,
    0x04 => E::Sip,
    0x05 => E::Chip,
    0x06 => E::Dip,
    0x07 => E::Zip,
    0x08 => E::ProprietaryCard,
    0x09 => E::Dimm,
    0x0A => E::Tsop,
    0x0B => E::RowOfChips,
    0x0C => E::Rimm,
    0x0D => E::SoDimm,
    0x0E => E::Srimm,
    0x0F => E::FbDimm,
    x @ 0x10..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c17", feature = "c19"))]
codes!(codes_memory_device_memory_technology, u8, dmidecode::structures::memory_device::MemoryTechnology, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Dram,
    0x04 => E::NvDimmN,
    0x05 => E::NvDimmF,
    0x06 => E::NvDimmP,
    0x07 => E::IntelOptane,
    x @ 0x08..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c17", feature = "c19"))]
codes!(codes_memory_device_type, u8, dmidecode::structures::memory_device::Type, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Dram,
    0x04 => E::Edram,
    0x05 => E::Vram,
    0x06 => E::Sram,
    0x07 => E::Ram,
    0x08 => E::Rom,
    0x09 => E::Flash,
    0x0A => E::Eeprom,
    0x0B => E::Feprom,
    0x0C => E::Eprom,
    0x0D => E::Cdram,
    0x0E => E::ThreeDram,
    0x0F => E::Sdram,
    0x10 => E::Sgram,
    0x11 => E::Rdram,
    0x12 => E::Ddr,
    0x13 => E::Ddr2,
    0x14 => E::Ddr2FbDimm,
    0x15 => E::Reserved,
    0x16 => E::Reserved,
    0x17 => E::Reserved,
    0x18 => E::Ddr3,
    0x19 => E::Fbd2,
    0x1A => E::Ddr4,
    0x1B => E::LpDdr,
    0x1C => E::LpDdr2,
    0x1D => E::LpDdr3,
    0x1E => E::LpDdr4,
    0x1F => E::LogicalNonVolatileDevice,
    0x20 => E::Hbm,
    0x21 => E::Hbm2,
    0x22 => E::Ddr5,
    0x23 => E::LpDdr5,
    x @ 0x24..=0xFF => E::Undefined(x),
});

#[cfg(any(feature = "c18", feature = "c19"))]
codes!(codes_memory_error_32_error_type, u8, dmidecode::structures::memory_error_32::ErrorType, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Ok,
    0x04 => E::BadRead,
    0x05 => E::ParityError,
    0x06 => E::SingleBitError,
    0x07 => E::DoubleBitError,
    0x08 => E::MultiBitError,
    0x09 => E::NibbleError,
    0x0A => E::ChecksumError,
    0x0B => E::CrcError,
    0x0C => E::CorrectedSingleBitError,
    0x0D => E::CorrectedError,
    0x0E => E::UncorrectableError,
    x @ 0x0F..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_memory_error_32_error_type, u8, dmidecode::structures::memory_error_32::ErrorType, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("OK"), T::Lit("OK")),
    0x04 => (T::Lit("Bad read"), T::Lit("Bad read")),
    0x05 => (T::Lit("Parity error"), T::Lit("Parity error")),
    0x06 => (T::Lit("Single-bit error"), T::Lit("Single-bit error")),
    0x07 => (T::Lit("Double-bit error"), T::Lit("Double-bit error")),
    0x08 => (T::Lit("Multi-bit error"), T::Lit("Multi-bit error")),
    0x09 => (T::Lit("Nibble error"), T::Lit("Nibble error")),
    0x0A => (T::Lit("Checksum error"), T::Lit("Checksum error")),
    0x0B => (T::Lit("CRC error"), T::Lit("CRC error")),
    0x0C => (T::Lit("Corrected single-bit error"), T::Lit("Corrected single-bit error")),
    0x0D => (T::Lit("Corrected error"), T::Lit("Corrected error")),
    0x0E => (T::Lit("Uncorrectable error"), T::Lit("Uncorrectable error")),
    x @ 0x0F..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c18", feature = "c19"))]
codes!(codes_memory_error_32_error_granularity, u8, dmidecode::structures::memory_error_32::ErrorGranularity, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::DeviceLevel,
    0x04 => E::MemoryPartitionLevel,
    x @ 0x05..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_memory_error_32_error_granularity, u8, dmidecode::structures::memory_error_32::ErrorGranularity, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Device level"), T::Lit("Device level")),
    0x04 => (T::Lit("Memory partition level"), T::Lit("Memory partition level")),
    x @ 0x05..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c18", feature = "c19"))]
codes!(codes_memory_error_32_error_operation, u8, dmidecode::structures::memory_error_32::ErrorOperation, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Read,
    0x04 => E::Write,
    0x05 => E::PartialWrite,
    x @ 0x06..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_memory_error_32_error_operation, u8, dmidecode::structures::memory_error_32::ErrorOperation, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Read"), T::Lit("Read")),
    0x04 => (T::Lit("Write"), T::Lit("Write")),
    0x05 => (T::Lit("Partial write"), T::Lit("Partial write")),
    x @ 0x06..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c18", feature = "c19"))]
codes!(codes_built_in_pointing_device_type, u8, dmidecode::structures::built_in_pointing_device::Type, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Mouse,
    0x04 => E::TrackBall,
    0x05 => E::TrackPoint,
    0x06 => E::GlidePoint,
    0x07 => E::TouchPad,
    0x08 => E::TouchScreen,
    0x09 => E::OpticalSensor,
    x @ 0x0A..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_built_in_pointing_device_type, u8, dmidecode::structures::built_in_pointing_device::Type, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Mouse"), T::Lit("Mouse")),
    0x04 => (T::Lit("Track Ball"), T::Lit("Track Ball")),
    0x05 => (T::Lit("Track Point"), T::Lit("Track Point")),
    0x06 => (T::Lit("Glide Point"), T::Lit("Glide Point")),
    0x07 => (T::Lit("Touch Pad"), T::Lit("Touch Pad")),
    0x08 => (T::Lit("Touch Screen"), T::Lit("Touch Screen")),
    0x09 => (T::Lit("Optical Sensor"), T::Lit("Optical Sensor")),
    x @ 0x0A..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});

#[cfg(any(feature = "c18", feature = "c19"))]
codes!(codes_built_in_pointing_device_interface, u8, dmidecode::structures::built_in_pointing_device::Interface, {
    x @ 0x00 => E::Undefined(x),
    0x01 => E::Other,
    0x02 => E::Unknown,
    0x03 => E::Serial,
    0x04 => E::Ps2,
    0x05 => E::Infrared,
    0x06 => E::HpHil,
    0x07 => E::BusMouse,
    0x08 => E::Adb,
    x @ 0x09..=0x9F => E::Undefined(x),
    0xA0 => E::BusMouseDb9,
    0xA1 => E::BusMouseMicroDin,
    0xA2 => E::Usb,
    x @ 0xA3..=0xFF => E::Undefined(x),
});

#[cfg(feature = "c22")]
texts!(text_built_in_pointing_device_interface, u8, dmidecode::structures::built_in_pointing_device::Interface, {
    x @ 0x00 => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0x01 => (T::Lit("Other"), T::Lit("Other")),
    0x02 => (T::Lit("Unknown"), T::Lit("Unknown")),
    0x03 => (T::Lit("Serial"), T::Lit("Serial")),
    0x04 => (T::Lit("PS/2"), T::Lit("PS/2")),
    0x05 => (T::Lit("Infrared"), T::Lit("Infrared")),
    0x06 => (T::Lit("HP-HIL"), T::Lit("HP-HIL")),
    0x07 => (T::Lit("Bus mouse"), T::Lit("Bus mouse")),
    0x08 => (T::Lit("ADB (Apple Desktop Bus)"), T::Lit("ADB (Apple Desktop Bus)")),
    x @ 0x09..=0x9F => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
    0xA0 => (T::Lit("Bus mouse DB-9"), T::Lit("Bus mouse DB-9")),
    0xA1 => (T::Lit("Bus mouse micro-DIN"), T::Lit("Bus mouse micro-DIN")),
    0xA2 => (T::Lit("USB"), T::Lit("USB")),
    x @ 0xA3..=0xFF => (T::Dec("Undefined: ", x as u32, ""), T::Dec("Undefined: ", x as u32, "")),
});
