//! C01: entry point search
use super::common::*;

#[inline(never)]
fn search(b: &[u8]) -> Result<EntryPoint, InvalidEntryPointError> {
    EntryPoint::search(b)
}

fn le16(b: &[u8], o: usize) -> u16 {
    b[o] as u16 | (b[o + 1] as u16) << 8
}
fn le32(b: &[u8], o: usize) -> u32 {
    le16(b, o) as u32 | (le16(b, o + 2) as u32) << 16
}

/// Every buffer of param(0) bytes; param(1) > 0: the bytes before that anchor position are zero,
/// i.e. the anchor, if any, is at that or a later position.
#[no_mangle]
pub extern "C" fn c01_search() {
    let n = param(0);
    let skip = param(1);
    let b: &[u8] = {
        let b = zero_buf(n);
        if skip < n {
            unsafe { vp_any(b.as_mut_ptr().add(skip), n - skip) };
        }
        b
    };
    judge(b);
}

/// A buffer of param(0) bytes with an anchor of version param(2) at param(1), whose entry point is of any length up to
/// 255 and reaches up to, or past, the end: its fields and the last param(3) bytes are symbolic, the ones in between are
/// param(4)
#[no_mangle]
pub extern "C" fn c01_long() {
    let (n, at, tail) = (param(0), param(1), param(3));
    let b = zero_buf(n);
    for x in b[at..].iter_mut() {
        *x = param(4) as u8;
    }
    unsafe { vp_any(b.as_mut_ptr().add(at), 31) };
    unsafe { vp_any(b.as_mut_ptr().add(n - tail), tail) };
    let a: &[u8] = if param(2) == 3 { b"_SM3_" } else { b"_SM_" };
    b[at..at + a.len()].copy_from_slice(a);
    judge(b);
}

fn judge(b: &[u8]) {
    let n = b.len();
    let got = search(b);

    // the oracle: the first anchor on a 16-byte boundary
    let mut at = n;
    let mut v3 = false;
    let mut i = 0;
    while i < n {
        if n - i >= 4 && b[i] == b'_' && b[i + 1] == b'S' && b[i + 2] == b'M' {
            if b[i + 3] == b'_' {
                at = i;
                break;
            }
            if n - i >= 5 && b[i + 3] == b'3' && b[i + 4] == b'_' {
                at = i;
                v3 = true;
                break;
            }
        }
        i += 16;
    }
    if at == n {
        cover("no anchor");
        ck(
            matches!(got, Err(InvalidEntryPointError::NotFound)),
            "without an anchor the search reports NotFound",
        );
        return;
    }
    let rem = n - at;
    let e = &b[at..];
    let min = if v3 { 24 } else { 31 };
    if rem < min {
        cover("truncated");
        ck(
            matches!(got, Err(InvalidEntryPointError::BadSize(x)) if x as usize == rem),
            "a truncated entry point is BadSize with the bytes available",
        );
        return;
    }
    let len = if v3 { e[6] } else { e[5] };
    let (major, minor) = if v3 { (e[7], e[8]) } else { (e[6], e[7]) };
    let short = (len as usize) < min;
    let beyond = len as usize > rem;
    let old = major < 2;
    match got {
        Err(InvalidEntryPointError::NotFound) => ck(false, "an entry point is not NotFound if there is an anchor"),
        Err(InvalidEntryPointError::BadSize(x)) => {
            cover("bad size");
            ck(
                (short & (x == len)) | (beyond & (x as usize == rem)),
                "BadSize is reported for a length below the minimum or past the buffer",
            );
        }
        Err(InvalidEntryPointError::TooOldVersion(v)) => {
            cover("too old");
            ck(old & (v == major), "TooOldVersion is reported for a major version below 2");
        }
        Err(InvalidEntryPointError::BadChecksum(s)) => {
            cover("bad checksum");
            ck(!short & !beyond, "the checksum is taken over the declared length");
            let len = conc8(len) as usize;
            let mut sum = 0u8;
            for x in &e[..len.min(rem)] {
                sum = sum.wrapping_add(*x);
            }
            ck(sum == s && s != 0, "BadChecksum reports a non-zero sum of the entry point");
        }
        Ok(ep) => {
            cover("accepted");
            ck(!short & !beyond & !old, "an invalid entry point is rejected");
            let len = conc8(len) as usize;
            let mut sum = 0u8;
            for x in &e[..len.min(rem)] {
                sum = sum.wrapping_add(*x);
            }
            ck(sum == 0, "the bytes of an accepted entry point sum to zero");
            ck(ep.len() as usize == len, "len");
            ck(ep.major() == major, "major");
            ck(ep.minor() == minor, "minor");
            let v = ep.to_version();
            ck(v.major == major && v.minor == minor, "version");
            match ep {
                EntryPoint::V2(p) => {
                    cover("accepted v2");
                    ck(!v3, "a 32-bit anchor gives a 32-bit entry point");
                    ck(ep.revision() == e[10], "v2 revision");
                    ck(ep.smbios_len() == le16(e, 22) as u32, "v2 table length");
                    ck(ep.smbios_address() == le32(e, 24) as u64, "v2 table address");
                    let (sig, smax, slen, addr, cnt) =
                        (p.signature, p.struct_max, p.smbios_len, p.smbios_address, p.smbios_count);
                    ck(sig == le32(e, 0), "v2 anchor");
                    ck(p.checksum == e[4] && p.len == e[5], "v2 checksum and length fields");
                    ck(p.major == e[6] && p.minor == e[7], "v2 version fields");
                    ck(smax == le16(e, 8) && p.revision == e[10], "v2 maximum structure size and revision");
                    ck(p.formatted == e[11..16], "v2 formatted area");
                    ck(p.dmi_signature == e[16..21] && p.dmi_checksum == e[21], "v2 intermediate anchor");
                    ck(slen == le16(e, 22) && addr == le32(e, 24), "v2 table fields");
                    ck(cnt == le16(e, 28) && p.bcd_revision == e[30], "v2 structure count and BCD revision");
                }
                EntryPoint::V3(p) => {
                    cover("accepted v3");
                    ck(v3, "a 64-bit anchor gives a 64-bit entry point");
                    let addr = le32(e, 16) as u64 | (le32(e, 20) as u64) << 32;
                    ck(ep.revision() == e[10], "v3 revision");
                    ck(ep.smbios_len() == le32(e, 12), "v3 table length");
                    ck(ep.smbios_address() == addr, "v3 table address");
                    let (l, a) = (p.smbios_len_max, p.smbios_address);
                    ck(p.signature == e[..5], "v3 anchor");
                    ck(p.checksum == e[5] && p.len == e[6], "v3 checksum and length fields");
                    ck(p.major == e[7] && p.minor == e[8], "v3 version fields");
                    ck(p.docrev == e[9] && p.revision == e[10], "v3 revision fields");
                    ck(l == le32(e, 12) && a == addr, "v3 table fields");
                }
            }
        }
    }
    // completeness of the rejection: nothing above rejects a valid one, as each reason is checked
}
