//! C23: equality and hashing of what is decoded
use super::common::*;
use core::hash::{Hash, Hasher};

/// What is hashed, in order
struct Rec {
    n: usize,
    v: [u64; 512],
}
impl Rec {
    fn add(&mut self, v: u64) {
        if self.n < 512 {
            self.v[self.n] = v;
        }
        self.n += 1;
    }
}
impl PartialEq for Rec {
    fn eq(&self, o: &Rec) -> bool {
        let mut e = self.n == o.n;
        for i in 0..self.n.min(512) {
            e &= self.v[i] == o.v[i];
        }
        e
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.n as u64
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.add(x as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.add(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.add(v as u64)
    }
}
#[inline(never)]
fn hash<T: Hash>(t: &T) -> Rec {
    let mut r = Rec { n: 0, v: [0; 512] };
    t.hash(&mut r);
    r
}
#[inline(never)]
fn equal<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

/// Every field of the two, one by one
#[inline(never)]
fn same_fields(x: &Structure, y: &Structure) -> bool {
    match (x, y) {
        (Structure::Bios(a), Structure::Bios(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.vendor, &b.vendor)
                & eq(&a.bios_version, &b.bios_version)
                & eq(&a.bios_starting_address_segment, &b.bios_starting_address_segment)
                & eq(&a.bios_release_date, &b.bios_release_date)
                & eq(&a.rom_size, &b.rom_size)
                & eq(&a.bios_characteristics, &b.bios_characteristics)
                & eq(&a.bios_characteristics_exttension_1, &b.bios_characteristics_exttension_1)
                & eq(&a.bios_characteristics_exttension_2, &b.bios_characteristics_exttension_2)
                & eq(&a.bios_revision, &b.bios_revision)
                & eq(&a.firmware_revision, &b.firmware_revision)
        }
        (Structure::System(a), Structure::System(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.manufacturer, &b.manufacturer)
                & eq(&a.product, &b.product)
                & eq(&a.version, &b.version)
                & eq(&a.serial, &b.serial)
                & eq(&a.uuid, &b.uuid)
                & eq(&a.wakeup, &b.wakeup)
                & eq(&a.sku, &b.sku)
                & eq(&a.family, &b.family)
        }
        (Structure::BaseBoard(a), Structure::BaseBoard(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.manufacturer, &b.manufacturer)
                & eq(&a.product, &b.product)
                & eq(&a.version, &b.version)
                & eq(&a.serial, &b.serial)
                & eq(&a.asset, &b.asset)
                & eq(&a.feature_flags, &b.feature_flags)
                & eq(&a.location_in_chassis, &b.location_in_chassis)
                & eq(&a.chassis_handle, &b.chassis_handle)
                & eq(&a.board_type, &b.board_type)
        }
        (Structure::Enclosure(a), Structure::Enclosure(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.manufacturer, &b.manufacturer)
                & eq(&a.chassis_lock, &b.chassis_lock)
                & eq(&a.enclosure_type, &b.enclosure_type)
                & eq(&a.version, &b.version)
                & eq(&a.serial_number, &b.serial_number)
                & eq(&a.asset_tag_number, &b.asset_tag_number)
                & eq(&a.boot_up_state, &b.boot_up_state)
                & eq(&a.power_supply_state, &b.power_supply_state)
                & eq(&a.thermal_state, &b.thermal_state)
                & eq(&a.security_status, &b.security_status)
                & eq(&a.oem_defined, &b.oem_defined)
                & eq(&a.height, &b.height)
                & eq(&a.power_cords_number, &b.power_cords_number)
                & eq(&a.contained_elements, &b.contained_elements)
                & eq(&a.sku_number, &b.sku_number)
        }
        (Structure::Processor(a), Structure::Processor(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.socket_designation, &b.socket_designation)
                & eq(&a.processor_type, &b.processor_type)
                & eq(&a.processor_family, &b.processor_family)
                & eq(&a.processor_manufacturer, &b.processor_manufacturer)
                & eq(&a.processor_id, &b.processor_id)
                & eq(&a.processor_version, &b.processor_version)
                & eq(&a.voltage, &b.voltage)
                & eq(&a.external_clock, &b.external_clock)
                & eq(&a.max_speed, &b.max_speed)
                & eq(&a.current_speed, &b.current_speed)
                & eq(&a.status, &b.status)
                & eq(&a.processor_upgrade, &b.processor_upgrade)
                & eq(&a.l1_cache_handle, &b.l1_cache_handle)
                & eq(&a.l2_cache_handle, &b.l2_cache_handle)
                & eq(&a.l3_cache_handle, &b.l3_cache_handle)
                & eq(&a.serial_number, &b.serial_number)
                & eq(&a.asset_tag, &b.asset_tag)
                & eq(&a.part_number, &b.part_number)
                & eq(&a.core_count, &b.core_count)
                & eq(&a.core_enabled, &b.core_enabled)
                & eq(&a.thread_count, &b.thread_count)
                & eq(&a.processor_characteristics, &b.processor_characteristics)
        }
        (Structure::Cache(a), Structure::Cache(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.socket_designation, &b.socket_designation)
                & eq(&a.cache_configuration, &b.cache_configuration)
                & eq(&a.maximum_cache_size, &b.maximum_cache_size)
                & eq(&a.installed_size, &b.installed_size)
                & eq(&a.supported_sram_type, &b.supported_sram_type)
                & eq(&a.current_sram_type, &b.current_sram_type)
                & eq(&a.cache_speed, &b.cache_speed)
                & eq(&a.error_correction_type, &b.error_correction_type)
                & eq(&a.system_cache_type, &b.system_cache_type)
                & eq(&a.associativity, &b.associativity)
                & eq(&a.maximum_cache_size_2, &b.maximum_cache_size_2)
                & eq(&a.installed_size_2, &b.installed_size_2)
        }
        (Structure::PortConnector(a), Structure::PortConnector(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.internal_reference_designator, &b.internal_reference_designator)
                & eq(&a.internal_connector_type, &b.internal_connector_type)
                & eq(&a.external_reference_designator, &b.external_reference_designator)
                & eq(&a.external_connector_type, &b.external_connector_type)
                & eq(&a.port_type, &b.port_type)
        }
        (Structure::SystemSlots(a), Structure::SystemSlots(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.slot_designation, &b.slot_designation)
                & eq(&a.slot_type, &b.slot_type)
                & eq(&a.slot_data_bus_width, &b.slot_data_bus_width)
                & eq(&a.current_usage, &b.current_usage)
                & eq(&a.slot_length, &b.slot_length)
                & eq(&a.slot_id, &b.slot_id)
                & eq(&a.slot_characteristics_1, &b.slot_characteristics_1)
                & eq(&a.slot_characteristics_2, &b.slot_characteristics_2)
                & eq(&a.segment_group_number, &b.segment_group_number)
                & eq(&a.bus_number, &b.bus_number)
                & eq(&a.device_and_function_number, &b.device_and_function_number)
                & eq(&a.data_bus_width, &b.data_bus_width)
                & eq(&a.peer_devices, &b.peer_devices)
                & eq(&a.slot_information, &b.slot_information)
                & eq(&a.slot_physical_width, &b.slot_physical_width)
                & eq(&a.slot_pitch, &b.slot_pitch)
        }
        (Structure::OemStrings(a), Structure::OemStrings(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.strings, &b.strings)
        }
        (Structure::SystemConfigurationOptions(a), Structure::SystemConfigurationOptions(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.strings, &b.strings)
        }
        (Structure::BiosLanguage(a), Structure::BiosLanguage(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.installable_languages, &b.installable_languages)
                & eq(&a.flags, &b.flags)
                & eq(&a.current_language, &b.current_language)
        }
        (Structure::GroupAssociations(a), Structure::GroupAssociations(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.group_name, &b.group_name)
                & eq(&a.items, &b.items)
        }
        (Structure::SystemEventLog(a), Structure::SystemEventLog(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.log_area_length, &b.log_area_length)
                & eq(&a.log_header_start_offset, &b.log_header_start_offset)
                & eq(&a.log_data_start_offset, &b.log_data_start_offset)
                & eq(&a.access_method, &b.access_method)
                & eq(&a.log_status, &b.log_status)
                & eq(&a.log_change_token, &b.log_change_token)
                & eq(&a.log_header_format, &b.log_header_format)
                & eq(&a.supported_event_log_type_descriptors, &b.supported_event_log_type_descriptors)
        }
        (Structure::MemoryDevice(a), Structure::MemoryDevice(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.physical_memory_handle, &b.physical_memory_handle)
                & eq(&a.memory_error_handle, &b.memory_error_handle)
                & eq(&a.total_width, &b.total_width)
                & eq(&a.data_width, &b.data_width)
                & eq(&a.size, &b.size)
                & eq(&a.form_factor, &b.form_factor)
                & eq(&a.device_set, &b.device_set)
                & eq(&a.device_locator, &b.device_locator)
                & eq(&a.bank_locator, &b.bank_locator)
                & eq(&a.memory_type, &b.memory_type)
                & eq(&a.type_detail, &b.type_detail)
                & eq(&a.speed, &b.speed)
                & eq(&a.manufacturer, &b.manufacturer)
                & eq(&a.serial, &b.serial)
                & eq(&a.asset_tag, &b.asset_tag)
                & eq(&a.part_number, &b.part_number)
                & eq(&a.attributes, &b.attributes)
                & eq(&a.extended_size, &b.extended_size)
                & eq(&a.configured_memory_speed, &b.configured_memory_speed)
                & eq(&a.minimum_voltage, &b.minimum_voltage)
                & eq(&a.maximum_voltage, &b.maximum_voltage)
                & eq(&a.configured_voltage, &b.configured_voltage)
                & eq(&a.memory_technology, &b.memory_technology)
                & eq(&a.operating_mode_capability, &b.operating_mode_capability)
                & eq(&a.firmware_version, &b.firmware_version)
                & eq(&a.module_manufacturer, &b.module_manufacturer)
                & eq(&a.module_product_id, &b.module_product_id)
                & eq(&a.memory_subsystem_controller_manufacturer_id, &b.memory_subsystem_controller_manufacturer_id)
                & eq(&a.memory_subsystem_controller_product_id, &b.memory_subsystem_controller_product_id)
                & eq(&a.non_volatile_size, &b.non_volatile_size)
                & eq(&a.volatile_size, &b.volatile_size)
                & eq(&a.cache_size, &b.cache_size)
                & eq(&a.logical_size, &b.logical_size)
                & eq(&a.extended_speed, &b.extended_speed)
                & eq(&a.extended_configured_memory_speed, &b.extended_configured_memory_speed)
        }
        (Structure::MemoryError32(a), Structure::MemoryError32(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.error_type, &b.error_type)
                & eq(&a.error_granularity, &b.error_granularity)
                & eq(&a.error_operation, &b.error_operation)
                & eq(&a.vendor_syndrome, &b.vendor_syndrome)
                & eq(&a.memory_array_error_address, &b.memory_array_error_address)
                & eq(&a.device_error_address, &b.device_error_address)
                & eq(&a.error_resolution, &b.error_resolution)
        }
        (Structure::MemoryArrayMappedAddress(a), Structure::MemoryArrayMappedAddress(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.starting_address, &b.starting_address)
                & eq(&a.ending_address, &b.ending_address)
                & eq(&a.memory_array_handle, &b.memory_array_handle)
                & eq(&a.partition_width, &b.partition_width)
                & eq(&a.extended_starting_address, &b.extended_starting_address)
                & eq(&a.extended_ending_address, &b.extended_ending_address)
        }
        (Structure::MemoryDeviceMappedAddress(a), Structure::MemoryDeviceMappedAddress(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.starting_address, &b.starting_address)
                & eq(&a.ending_address, &b.ending_address)
                & eq(&a.memory_device_handle, &b.memory_device_handle)
                & eq(&a.memory_array_mapped_address_handle, &b.memory_array_mapped_address_handle)
                & eq(&a.partition_row_position, &b.partition_row_position)
                & eq(&a.interleave_position, &b.interleave_position)
                & eq(&a.interleaved_data_depth, &b.interleaved_data_depth)
                & eq(&a.extended_starting_address, &b.extended_starting_address)
                & eq(&a.extended_ending_address, &b.extended_ending_address)
        }
        (Structure::BuiltInPointingDevice(a), Structure::BuiltInPointingDevice(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.type_, &b.type_)
                & eq(&a.interface, &b.interface)
                & eq(&a.number_of_buttons, &b.number_of_buttons)
        }
        (Structure::PortableBattery(a), Structure::PortableBattery(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.location, &b.location)
                & eq(&a.manufacturer, &b.manufacturer)
                & eq(&a.manufacture_date, &b.manufacture_date)
                & eq(&a.serial_number, &b.serial_number)
                & eq(&a.device_name, &b.device_name)
                & eq(&a.device_chemistry, &b.device_chemistry)
                & eq(&a.design_capacity, &b.design_capacity)
                & eq(&a.design_voltage, &b.design_voltage)
                & eq(&a.sbds_version_number, &b.sbds_version_number)
                & eq(&a.maximum_error_in_battery_data, &b.maximum_error_in_battery_data)
                & eq(&a.oem_specific, &b.oem_specific)
        }
        (Structure::PhysicalMemoryArray(a), Structure::PhysicalMemoryArray(b)) => {
            eq(&a.handle, &b.handle)
                & eq(&a.location, &b.location)
                & eq(&a.r#use, &b.r#use)
                & eq(&a.memory_error_correction, &b.memory_error_correction)
                & eq(&a.maximum_capacity, &b.maximum_capacity)
                & eq(&a.memory_error_information_handle, &b.memory_error_information_handle)
                & eq(&a.number_of_memory_devices, &b.number_of_memory_devices)
                & eq(&a.extended_maximum_capacity, &b.extended_maximum_capacity)
        }
        (Structure::Other(a), Structure::Other(b)) => {
            eq(&a.version, &b.version)
                & eq(&a.info, &b.info)
                & eq(&a.length, &b.length)
                & eq(&a.handle, &b.handle)
                & eq(&a.data, &b.data)
        }
        _ => false,
    }
}
#[inline(never)]
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

/// Two structures of type param(0) and formatted lengths param(1) and param(2), any contents, no strings, version param(3).param(4); with hashes
/// if param(5) is 1
#[no_mangle]
pub extern "C" fn c23_structures() {
    let (kind, la, lb) = (param(0), param(1), param(2));
    let a: &[u8] = table(kind as u8, la, b"\0\0");
    let b: &[u8] = table(kind as u8, lb, b"\0\0");
    let v = (param(3) as u8, param(4) as u8);
    let (x, y) = (first(a, v.0, v.1), first(b, v.0, v.1));
    if let (Some(Ok(x)), Some(Ok(y))) = (&x, &y) {
        cover("decoded");
        let e = equal(x, y);
        ck(e == same_fields(x, y), "structures are equal exactly if all their fields are");
        if e {
            cover("equal");
            ck(a[2] == b[2] && a[3] == b[3], "structures of different handles are not equal");
            if param(5) == 1 {
                ck(hash(x) == hash(y), "equal structures have equal hashes");
            }
        } else {
            cover("different");
            ck(a != b, "structures of the same bytes are equal");
        }
    }
}

/// Structures of type param(0) that differ in their strings only, two of one letter each
#[no_mangle]
pub extern "C" fn c23_texts() {
    let (kind, l) = (param(0), param(1));
    let a = table(kind as u8, l, b"\x01\0\x01\0\0");
    let b = zero_buf(l + 5);
    b.copy_from_slice(a);
    for i in [l, l + 2] {
        let (x, y) = (u8_(), u8_());
        assume(x != 0 && x < 128 && y != 0 && y < 128);
        a[i] = x;
        b[i] = y;
    }
    let (a, b): (&[u8], &[u8]) = (a, b);
    let (x, y) = (first(a, 3, 4), first(b, 3, 4));
    if let (Some(Ok(x)), Some(Ok(y))) = (&x, &y) {
        cover("decoded");
        let e = equal(x, y);
        ck(e == same_fields(x, y), "structures are equal exactly if all their fields are");
        if e {
            cover("equal");
            if param(2) == 1 {
                ck(hash(x) == hash(y), "equal structures have equal hashes");
            }
        } else {
            cover("different");
            ck(a[l] != b[l] || a[l + 2] != b[l + 2], "structures of the same bytes are equal");
        }
    }
}

macro_rules! pair {
    ($x:expr, $y:expr, $v:ident, $f:ident) => {
        match ($x, $y) {
            (Some(Ok(Structure::$v(x))), Some(Ok(Structure::$v(y)))) => Some((x.$f, y.$f)),
            _ => None,
        }
    };
}

fn items<I: Iterator + Clone + PartialEq + Hash>(mut a: I, mut b: I, same: bool, i: usize, j: usize)
where
    I::Item: PartialEq,
{
    for _ in 0..i {
        a.next();
    }
    for _ in 0..j {
        b.next();
    }
    let (a, b) = (&a, &b);
    let e = equal(a, b);
    ck(e || !same, "iterators over the same content are equal");
    if e {
        cover("equal");
        ck(hash(a) == hash(b), "equal iterators have equal hashes");
        let (mut i, mut j) = (a.clone(), b.clone());
        let mut n = 0;
        loop {
            let (p, q) = (i.next(), j.next());
            ck(p == q, "equal iterators yield the same");
            n += 1;
            if p.is_none() || n > 8 {
                break;
            }
            cover("item");
        }
    } else {
        cover("different");
    }
}

/// The iterators of two structures of type param(0) and formatted lengths param(1) and param(2)
#[no_mangle]
pub extern "C" fn c23_iterators() {
    let (kind, la, lb) = (param(0), param(1), param(2));
    let strs: &[u8] = if kind == 3 || kind == 9 || kind == 14 { b"\0\0" } else { STRS };
    let a: &[u8] = table(kind as u8, la, strs);
    let b: &[u8] = table(kind as u8, lb, strs);
    iterators(kind, a, b, 0, 0)
}
/// The same after param(3) and param(4) items
#[no_mangle]
pub extern "C" fn c23_positions() {
    let (kind, la, lb) = (param(0), param(1), param(2));
    let strs: &[u8] = if kind == 3 || kind == 9 || kind == 14 { b"\0\0" } else { STRS };
    let a: &[u8] = table(kind as u8, la, strs);
    let b: &[u8] = table(kind as u8, lb, strs);
    iterators(kind, a, b, param(3), param(4))
}
/// The strings of two structures of type param(0) with string sets of param(1) and param(2) bytes of any content, the
/// double zero at their end only, after param(3) and param(4) items
#[no_mangle]
pub extern "C" fn c23_strings() {
    let (kind, na, nb) = (param(0), param(1), param(2));
    let l = if kind == 13 { 22 } else { 5 };
    let (a, b) = (strings(kind, l, na), strings(kind, l, nb));
    iterators(kind, a, b, param(3), param(4))
}
fn strings(kind: usize, l: usize, n: usize) -> &'static [u8] {
    let b = zero_buf(l + n + 2);
    b[0] = kind as u8;
    b[1] = l as u8;
    if kind == 12 {
        b[4] = u8_();
    }
    unsafe { vp_any(b.as_mut_ptr().add(l), n) };
    for i in l..l + n {
        assume(b[i] < 128);
        assume(b[i] != 0 || b[i + 1] != 0);
    }
    b
}

fn iterators(kind: usize, a: &[u8], b: &[u8], i: usize, j: usize) {
    let v = (3, u8_());
    let (x, y) = (first(a, v.0, v.1), first(b, v.0, v.1));
    let same = i == j && a == b;
    match kind {
        3 => {
            if let Some((Some(p), Some(q))) = pair!(x, y, Enclosure, contained_elements) {
                items(p, q, same, i, j)
            }
        }
        9 => {
            if let Some((Some(p), Some(q))) = pair!(x, y, SystemSlots, peer_devices) {
                items(p, q, same, i, j)
            }
        }
        11 => {
            if let Some((p, q)) = pair!(x, y, OemStrings, strings) {
                items(p, q, same, i, j)
            }
        }
        12 => {
            if let Some((p, q)) = pair!(x, y, SystemConfigurationOptions, strings) {
                items(p, q, same, i, j)
            }
        }
        13 => {
            if let Some((p, q)) = pair!(x, y, BiosLanguage, installable_languages) {
                items(p, q, same, i, j)
            }
        }
        14 => {
            if let Some((p, q)) = pair!(x, y, GroupAssociations, items) {
                items(p, q, same, i, j)
            }
        }
        _ => {
            if let Some((Some(p), Some(q))) = pair!(x, y, SystemEventLog, supported_event_log_type_descriptors) {
                items(p, q, same, i, j)
            }
        }
    }
}
