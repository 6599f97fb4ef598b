//! C12: cache information (type 7)
use super::common::*;
use core::fmt::Write;
use dmidecode::cache::{CacheConfiguration, CacheSize, CacheSize2};

/// Formatted length param(0), any version, any content
#[no_mangle]
pub extern "C" fn c12_cache() {
    let l = param(0);
    let b: &[u8] = table(7, l, STRS);
    let v = (u8_(), u8_());
    let got = first(b, v.0, v.1);
    let o = O::new(b, l, v);
    let v21 = o.since(2, 1) && o.has(0, 0x13);
    let v31 = o.since(3, 1) && o.has(0, 0x1B);
    let strs = [4];
    let want = if !o.has(0, 0x0F) {
        Want::Length
    } else if o.any_bad(&strs) {
        Want::BadString
    } else {
        Want::Fields
    };
    if let Some(s) = variant!(outcome(&o, got, want, InfoType::Cache, &strs), Cache) {
        ck(s.handle == o.handle(), "handle");
        o.ck_str(s.socket_designation, 4, "socket designation");
        ck(s.cache_configuration == CacheConfiguration::from(o.u16(5)), "configuration");
        ck_size(s.maximum_cache_size, o.u16(7), "maximum size");
        ck_size(s.installed_size, o.u16(9), "installed size");
        ck(s.supported_sram_type.bits() == o.u16(0xB) & 0x7F, "supported SRAM type");
        ck(s.current_sram_type.bits() == o.u16(0xD) & 0x7F, "current SRAM type");
        ck(s.cache_speed == if v21 { o.o8(0xF) } else { None }, "speed");
        match s.error_correction_type {
            None => ck(!v21, "error correction type presence"),
            Some(x) => {
                ck(v21, "error correction type presence");
                ck(x == o.u8(0x10).into(), "error correction type");
            }
        }
        match s.system_cache_type {
            None => ck(!v21, "system cache type presence"),
            Some(x) => {
                ck(v21, "system cache type presence");
                ck(x == o.u8(0x11).into(), "system cache type");
            }
        }
        match s.associativity {
            None => ck(!v21, "associativity presence"),
            Some(x) => {
                cover("2.1 fields");
                ck(v21, "associativity presence");
                ck(x == o.u8(0x12).into(), "associativity");
            }
        }
        match s.maximum_cache_size_2 {
            None => ck(!v31, "maximum size 2 presence"),
            Some(x) => {
                ck(v31, "maximum size 2 presence");
                ck_size2(x, o.u32(0x13), "maximum size 2");
            }
        }
        match s.installed_size_2 {
            None => ck(!v31, "installed size 2 presence"),
            Some(x) => {
                cover("3.1 fields");
                ck(v31, "installed size 2 presence");
                ck_size2(x, o.u32(0x17), "installed size 2");
            }
        }
    }
}
fn ck_size(s: CacheSize, w: u16, m: &'static str) {
    let n = (w & 0x7FFF) as u64;
    match s {
        CacheSize::Granularity1K(x) => {
            ck(w & 0x8000 == 0 && x as u64 == n, m);
            ck(s.bytes() == n * 1024, m);
        }
        CacheSize::Granularity64K(x) => {
            ck(w & 0x8000 != 0 && x as u64 == n, m);
            ck(s.bytes() == n * 65536, m);
        }
    }
}
fn ck_size2(s: CacheSize2, w: u32, m: &'static str) {
    let n = (w & 0x7FFF_FFFF) as u64;
    match s {
        CacheSize2::Granularity1K(x) => {
            ck(w & 0x8000_0000 == 0 && x as u64 == n, m);
            ck(s.bytes() == n * 1024, m);
        }
        CacheSize2::Granularity64K(x) => {
            ck(w & 0x8000_0000 != 0 && x as u64 == n, m);
            ck(s.bytes() == n * 65536, m);
        }
    }
}

/// Two cache configurations are equal exactly when their defined bits are
#[no_mangle]
pub extern "C" fn c12_configuration_eq() {
    let (x, y) = (u16_(), u16_());
    let same = (x ^ y) & 0x3EF == 0;
    let eq = CacheConfiguration::from(x) == CacheConfiguration::from(y);
    if same {
        cover("equal");
    } else {
        cover("different");
    }
    ck(eq == same, "cache configurations differ exactly if their defined bits do");
}

/// The debug text of a decoded cache configuration shows what its bits say
#[no_mangle]
pub extern "C" fn c12_configuration_text() {
    let w = (choose(1024)) as u16;
    let b = zero_buf(0x0F + STRS.len());
    b[0] = 7;
    b[1] = 0x0F;
    b[5] = w as u8;
    b[6] = (w >> 8) as u8;
    b[0x0F..].copy_from_slice(STRS);
    if let Some(Ok(Structure::Cache(s))) = first(b, 2, 0) {
        let mut t = Text::new();
        let _ = write!(t, "{:?}", s.cache_configuration);
        let t = t.bytes();
        const LEVEL: [&str; 8] = ["L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8"];
        const LOCATION: [&str; 4] = ["Internal", "External", "Reserved", "Unknown"];
        const MODE: [&str; 4] = ["WriteThrough", "WriteBack", "ValuesWithMemoryAddress", "Unknown"];
        const BOOL: [&str; 2] = ["false", "true"];
        field(t, "level: ", LEVEL[(w & 7) as usize], "cache level");
        field(t, "socketed: ", BOOL[(w >> 3 & 1) as usize], "cache socketed");
        field(t, "location: ", LOCATION[(w >> 5 & 3) as usize], "cache location");
        field(t, "enabled_at_boot_time: ", BOOL[(w >> 7 & 1) as usize], "cache enabled");
        field(t, "operational_mode: ", MODE[(w >> 8 & 3) as usize], "cache mode");
    } else {
        ck(false, "a valid structure is decoded");
    }
}
/// If the text has the field, its value is `want`
fn field(t: &[u8], name: &str, want: &str, m: &'static str) {
    let (n, w) = (name.as_bytes(), want.as_bytes());
    let mut i = 0;
    while i + n.len() <= t.len() {
        if &t[i..i + n.len()] == n {
            cover(m);
            let r = &t[i + n.len()..];
            ck(r.len() > w.len() && &r[..w.len()] == w && matches!(r[w.len()], b' ' | b','), m);
            return;
        }
        i += 1;
    }
}
