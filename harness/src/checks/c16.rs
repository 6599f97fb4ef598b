//! C16: physical memory arrays (type 16) and mapped addresses (types 19 and 20)
use super::common::*;
use dmidecode::physical_memory_array::PhysicalMemoryArray;

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c16_array() {
    let l = param(0);
    let b: &[u8] = table(16, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let known = o.since(2, 1);
    let large = o.has(0, 0xF) && known && o.u32(7) == 0x8000_0000;
    let extended = o.since(2, 7) && large;
    let want = if known && (!o.has(0, 0xF) || (extended && !o.has(0xF, 8))) {
        Want::Slice
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::PhysicalMemoryArray, &[]), PhysicalMemoryArray) {
        ck(s.handle == o.handle(), "array handle");
        if known {
            cover("fields");
            ck(s.location == o.u8(4).into(), "location");
            ck(s.r#use == o.u8(5).into(), "use");
            ck(s.memory_error_correction == o.u8(6).into(), "error correction");
            ck(s.maximum_capacity == if large { None } else { Some(o.u32(7)) }, "maximum capacity");
            let h = o.u16(0xB);
            ck(
                s.memory_error_information_handle == if h == 0xFFFE { None } else { Some(h) },
                "error information handle",
            );
            ck(s.number_of_memory_devices == o.u16(0xD), "number of memory devices");
            if extended {
                cover("extended capacity");
                let x = o.u64(0xF);
                ck(
                    s.extended_maximum_capacity == if x == 0 { None } else { Some(x) },
                    "extended maximum capacity",
                );
            } else {
                ck(s.extended_maximum_capacity.is_none(), "extended maximum capacity presence");
            }
        } else {
            let mut d = PhysicalMemoryArray::default();
            d.handle = s.handle;
            ck(s == d, "a version without memory arrays has no fields");
        }
    }
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c16_array_address() {
    let l = param(0);
    let b: &[u8] = table(19, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let want = want(&o, l, 0x0F, 0x1F);
    let info = InfoType::MemoryArrayMappedAddress;
    if let Some(s) = variant!(outcome(&o, got, want, info, &[]), MemoryArrayMappedAddress) {
        ck(s.handle == o.handle(), "array address handle");
        ck(s.starting_address == o.u32(4), "array starting address");
        ck(s.ending_address == o.u32(8), "array ending address");
        ck(s.memory_array_handle == o.u16(0xC), "array handle of the address");
        ck(s.partition_width == o.u8(0xE), "partition width");
        ck(s.extended_starting_address == o.o64(0xF), "array extended starting address");
        ck(s.extended_ending_address == o.o64(0x17), "array extended ending address");
    }
}
fn want(o: &O, l: usize, old: usize, new: usize) -> Want {
    let length = if o.since(2, 7) {
        l == new
    } else if o.since(2, 1) {
        l == old
    } else {
        true
    };
    if !length {
        Want::Length
    } else if l < old {
        Want::Slice
    } else {
        Want::Fields
    }
}

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c16_device_address() {
    let l = param(0);
    let b: &[u8] = table(20, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let want = want(&o, l, 0x13, 0x23);
    let info = InfoType::MemoryDeviceMappedAddress;
    if let Some(s) = variant!(outcome(&o, got, want, info, &[]), MemoryDeviceMappedAddress) {
        ck(s.handle == o.handle(), "device address handle");
        ck(s.starting_address == o.u32(4), "device starting address");
        ck(s.ending_address == o.u32(8), "device ending address");
        ck(s.memory_device_handle == o.u16(0xC), "device handle of the address");
        ck(s.memory_array_mapped_address_handle == o.u16(0xE), "array address handle of the address");
        ck(s.partition_row_position == o.u8(0x10), "partition row position");
        ck(s.interleave_position == o.u8(0x11), "interleave position");
        ck(s.interleaved_data_depth == o.u8(0x12), "interleaved data depth");
        ck(s.extended_starting_address == o.o64(0x13), "device extended starting address");
        ck(s.extended_ending_address == o.o64(0x1B), "device extended ending address");
    }
}
