//! Structure types and what every decoded structure has in common
use super::common::*;

pub fn supported(k: u8) -> bool {
    matches!(k, 0..=4 | 7 | 8 | 9 | 11..=22)
}
pub fn kind_of(s: &Structure) -> Option<u8> {
    Some(match s {
        Structure::Bios(_) => 0,
        Structure::System(_) => 1,
        Structure::BaseBoard(_) => 2,
        Structure::Enclosure(_) => 3,
        Structure::Processor(_) => 4,
        Structure::Cache(_) => 7,
        Structure::PortConnector(_) => 8,
        Structure::SystemSlots(_) => 9,
        Structure::OemStrings(_) => 11,
        Structure::SystemConfigurationOptions(_) => 12,
        Structure::BiosLanguage(_) => 13,
        Structure::GroupAssociations(_) => 14,
        Structure::SystemEventLog(_) => 15,
        Structure::PhysicalMemoryArray(_) => 16,
        Structure::MemoryDevice(_) => 17,
        Structure::MemoryError32(_) => 18,
        Structure::MemoryArrayMappedAddress(_) => 19,
        Structure::MemoryDeviceMappedAddress(_) => 20,
        Structure::BuiltInPointingDevice(_) => 21,
        Structure::PortableBattery(_) => 22,
        Structure::Other(_) => return None,
    })
}
pub fn handle_of(s: &Structure) -> u16 {
    match s {
        Structure::Bios(x) => x.handle,
        Structure::System(x) => x.handle,
        Structure::BaseBoard(x) => x.handle,
        Structure::Enclosure(x) => x.handle,
        Structure::Processor(x) => x.handle,
        Structure::Cache(x) => x.handle,
        Structure::PortConnector(x) => x.handle,
        Structure::SystemSlots(x) => x.handle,
        Structure::OemStrings(x) => x.handle,
        Structure::SystemConfigurationOptions(x) => x.handle,
        Structure::BiosLanguage(x) => x.handle,
        Structure::GroupAssociations(x) => x.handle,
        Structure::SystemEventLog(x) => x.handle,
        Structure::PhysicalMemoryArray(x) => x.handle,
        Structure::MemoryDevice(x) => x.handle,
        Structure::MemoryError32(x) => x.handle,
        Structure::MemoryArrayMappedAddress(x) => x.handle,
        Structure::MemoryDeviceMappedAddress(x) => x.handle,
        Structure::BuiltInPointingDevice(x) => x.handle,
        Structure::PortableBattery(x) => x.handle,
        Structure::Other(x) => x.handle,
    }
}
