"""The checks: harnesses, jobs (parameters of the engine's instances) and bounds per property.

check(ID, quick=[(harness, [parameters, ...])], thorough=[...], covers=[(harness, point that must be
reachable)], cost=estimate to order the jobs by, bounds=..., outside=...)
"""

ASSUMPTIONS = [
    "the LLVM IR rustc 1.90.0 emits (opt-level 2, overflow checks and debug assertions on, panic=abort, fat LTO) for the "
    "crate represents the crate; counterexamples are replayed on native dev and release builds",
    "64-bit little-endian target",
    "the crate is built without its std feature, which only adds std::error::Error implementations",
]

CHECKS = {}


def check(pid, **kw):
    kw.setdefault("feature", pid.lower())
    kw.setdefault("level", "model_checking")
    kw.setdefault("thorough", [])
    CHECKS[pid] = kw


def one(*vals):
    return [(v,) for v in vals]


def upto(a, b):
    return [(v,) for v in range(a, b + 1)]


def codes(*names):
    return [("codes_" + n, [()]) for n in names]


def shown(harness, *names):
    return [(harness, n) for n in names]


DECODE = ("For each formatted length listed, every value of every byte of the formatted area (handle, numeric fields, codes, "
          "string references) and every SMBIOS version (major, minor) at once, with a string set of three strings, so that "
          "references 0-3 are satisfied and 4-255 are not. ")
DECODE_OUT = ("Other string sets (decided in C05), formatted lengths not listed, and the framing around the structure (decided "
              "in C03 and C04)")

check("C01",
      quick=[("c01_search", [(n, 0) for n in list(range(0, 50)) + [64]] + [(n, 256) for n in (261, 287, 300)] + [(65536 + 33, 65536)]),
             ("c01_long", [(300, 0, 2, 8, 0), (300, 0, 3, 8, 0), (255, 0, 2, 8, 0), (320, 64, 3, 8, 255), (200, 0, 3, 8, 7)])],
      thorough=[("c01_long", [(n, a, v, 16, 1) for n in range(100, 300, 7) for a in (0, 48) for v in (2, 3)]), ("c01_search", [(n, 0) for n in range(50, 81)] + [(n, 256) for n in range(256, 337)])],
      covers=shown("c01_search", "no anchor", "truncated", "bad size", "too old", "bad checksum", "accepted v2", "accepted v3"),
      cost=lambda h, p: p[0] - p[1] if h == "c01_search" else 60,
      bounds="every buffer of 0-49 and 64 bytes (all bytes symbolic), entry points of any announced length up to 255 (fields and the last bytes "
             "of the buffer symbolic), and every buffer of 261, 287 and 300 bytes whose first 256 "
             "bytes are zero, and of 65569 bytes whose first 65536 are; thorough: 0-80 bytes, and 256-336 bytes after 256 zero bytes",
      outside="longer buffers and buffers in which an anchor string starts behind a longer prefix")

check("C03",
      quick=[("c03_raw", upto(0, 13)), ("c03_all", one(6, 8, 9, 10)), ("codes_info_type", [()]),
             ("c03_raw3", one(8, 10)), ("c03_far", [(250, 8, 2), (300, 8, 2), (300, 9, 3), (65530, 8, 2), (66000, 8, 3)]),
             ("c03_many", [(10, 8, 2), (300, 8, 2), (300, 9, 3), (2000, 8, 3), (11000, 8, 3)]),
             ("c03_long", [(255, 254), (255, 255), (255, 256), (255, 258), (255, 264), (128, 136), (20, 28)])],
      thorough=[("c03_raw", one(14, 15)), ("c03_all", one(11, 12)), ("c03_raw3", one(11, 12, 13)), ("c03_far", [(p, 10, 3) for p in (256, 512, 32768, 65536, 131072)]),
                ("c03_long", [(l, l + d) for l in range(5, 256, 10) for d in (-1, 0, 1, 2, 3, 8)])],
      covers=shown("c03_raw", "bad size", "unterminated", "raw structure", "second structure", "end of table") +
      shown("c03_all", "decoded structure", "decode error"),
      cost=lambda h, p: p[0] + (2 if h == "c03_all" else 0) if h in ("c03_raw", "c03_all", "c03_raw3") else 10,
      bounds="every buffer of 0-13 bytes (structure types without decoder) and of up to 10 bytes (all structure types), with every "
             "announced table length (16 bits, shorter and longer than the buffer) and every version, walked to exhaustion in "
             "lockstep with an independent framing oracle; also with 32-bit lengths of version 3 entry points, 8-9 symbolic bytes at "
             "offsets 250-66000 and behind 10-11000 structures, and formatted lengths up to 255 around the end of the buffer; thorough: 15 and 12 bytes, more offsets",
      outside="larger tables, except for the shapes of C02, C04 and the decoding checks")

check("C04",
      quick=[("c04_stop", [(1, 4), (1, 6), (1, 9), (2, 4), (2, 5), (2, 8)]), ("c04_error", upto(4, 11))],
      thorough=[("c04_stop", [(3, 4), (2, 12), (2, 22)]), ("c04_error", one(12, 13))],
      covers=shown("c04_stop", "structure", "decode error", "decode error before other structures", "end of table marker",
                   "end of table marker of version 2") + shown("c04_error", "framing error"),
      cost=lambda h, p: p[0] * p[1] * 2 if h == "c04_stop" else p[0],
      bounds="tables of one structure of 4, 6 or 9 bytes and of two structures of 4, 5 or 8 bytes with every type, handle, content and "
             "version; every table of 4-11 bytes with every announced length; thorough: three structures, two of 22 bytes, tables of 13 bytes",
      outside="longer sequences of structures")

check("C08",
      quick=[("c08_bios", upto(4, 255)), ("c08_language", upto(4, 255)),
             ("c08_language_many", one(0, 1, 2, 3, 17, 127, 128, 254, 255, 256, 258))],
      thorough=[("c08_language_many", upto(4, 300))],
      covers=shown("c08_bios", "decoded", "missing string rejected", "invalid length rejected", "extension byte 1", "BIOS revision",
                   "extended ROM size") + shown("c08_language", "decoded", "flags") +
      shown("c08_language_many", "languages exhausted"),
      bounds=DECODE + "All formatted lengths, 4-255 bytes; BIOS language also with string sets of 0-258 one-letter strings "
      "(letters symbolic) under every count and current language",
      outside=DECODE_OUT)

check("C09",
      quick=[("c09_system", upto(4, 28) + one(64, 128, 255)), ("c09_baseboard", upto(4, 26) + one(32, 64, 128, 255))] + codes("system_wakeup_type", "baseboard_board_type"),
      thorough=[("c09_system", upto(29, 255)), ("c09_baseboard", upto(27, 255))],
      covers=shown("c09_system", "decoded", "missing string rejected", "uuid", "uuid with little-endian fields", "sku and family") +
      shown("c09_baseboard", "decoded", "missing string rejected", "board type"),
      bounds=DECODE + "System information: 4-28, 64, 128 and 255 bytes; baseboard: 4-26, 32, 64, 128 and 255 bytes (thorough: 4-255); every wake-up and board type code",
      outside=DECODE_OUT)

check("C10",
      quick=[("c10_enclosure", upto(4, 31)), ("c10_element", [()]),
             ("c10_records", [(60, 3, 210), (78, 3, 255), (86, 3, 255), (16, 16, 255), (3, 70, 232), (255, 1, 255), (1, 200, 255)])] +
      codes("enclosure_enclosure_type", "enclosure_state", "enclosure_security_status"),
      thorough=[("c10_enclosure", upto(32, 38)),
                ("c10_records", [(n, s, 255) for n in (1, 2, 7, 77, 128) for s in (0, 1, 2, 3, 4, 5, 17, 128, 255)])],
      covers=shown("c10_enclosure", "decoded", "missing string rejected", "contained elements", "contained element", "sku") +
      shown("c10_element", "board", "structure"),
      cost=lambda h, p: (p[0] if h == "c10_enclosure" else 5),
      bounds=DECODE + "4-31 bytes (thorough 38) with every count and length of contained element records; larger record arrays for "
      "the (count, record length, formatted length) triples listed in spec.py, one record at any position symbolic",
      outside=DECODE_OUT)

check("C11",
      quick=[("c11_processor", [(l, m) for l in list(range(4, 55)) + [64, 128, 255] for m in (0, 1, 2)])] +
      codes("processor_processor_type", "processor_processor_family", "processor_processor_upgrade"),
      thorough=[("c11_processor", [(l, 3) for l in range(25, 40)] + [(l, m) for l in range(55, 256) for m in (0, 1, 2)])],
      covers=shown("c11_processor", "decoded", "missing string rejected", "current voltage", "legacy voltage", "processor family 2",
                   "count of more than 255"),
      cost=lambda h, p: sum(p) + (100 if p[1:] == (3,) else 0),
      bounds="For each formatted length 4-54, 64, 128 and 255 (thorough: 4-255), every byte symbolic and every version; the string references are symbolic in three "
             "groups, the others satisfied (thorough: all at once up to 39 bytes); every type, family and upgrade code",
      outside=DECODE_OUT)

check("C12",
      quick=[("c12_cache", upto(4, 255)), ("c12_configuration_eq", [()]), ("c12_configuration_text", [()])] +
      codes("cache_cache_level", "cache_cache_location", "cache_cache_operational_mode", "cache_cache_error_correction_type",
            "cache_system_cache_type", "cache_cache_associativity"),
      covers=shown("c12_cache", "decoded", "missing string rejected", "2.1 fields", "3.1 fields") +
      shown("c12_configuration_eq", "equal", "different"),
      bounds=DECODE + "4-255 bytes, i.e. all lengths; every pair of configuration words; every code",
      outside=DECODE_OUT)

check("C13",
      quick=[("c13_port", upto(4, 255)), ("c13_slot", upto(4, 64) + one(100, 128)),
             ("c13_peers", [(34, 2), (255, 46), (255, 47), (255, 48), (255, 255), (240, 255), (29, 1)]),
             ("c13_device_text", [()])] +
      codes("port_connector_connector_type", "port_connector_port_type", "system_slots_slot_type", "system_slots_slot_width",
            "system_slots_current_usage", "system_slots_slot_length"),
      thorough=[("c13_slot", upto(65, 255)), ("c13_peers", [(19 + 5 * n + 6, n) for n in range(0, 46)])],
      covers=shown("c13_port", "decoded", "missing string rejected") +
      shown("c13_slot", "decoded", "peer devices", "peer device", "slot pitch"),
      bounds=DECODE + "Port connector: 4-255 bytes; system slots: 4-64, 100 and 128 bytes (thorough: 4-255); peer group counts up to 255 in formatted lengths up to "
      "255 with one group at any position symbolic; every code",
      outside=DECODE_OUT)

check("C14",
      quick=[("c14_oem", upto(4, 255)), ("c14_options", upto(4, 255)), ("c14_options_count", one(0, 1, 2, 3, 17, 254, 255, 256, 257, 511)),
             ("c14_group", upto(4, 255))],
      thorough=[("c14_options_count", upto(4, 300))],
      covers=shown("c14_oem", "decoded") + shown("c14_options", "decoded", "wrong count rejected") +
      shown("c14_options_count", "decoded", "wrong count rejected") + shown("c14_group", "decoded", "group item"),
      bounds=DECODE + "All formatted lengths, 4-255 bytes; configuration options also with string sets of 0-511 one-letter strings under "
      "every count",
      outside=DECODE_OUT)

check("C15",
      quick=[("c15_event_log", upto(4, 34)), ("c15_access_method", [()]),
             ("c15_descriptors", [(0, 0, 23), (0, 2, 23), (1, 2, 25), (116, 2, 255), (77, 3, 254), (77, 3, 255), (29, 8, 255), (1, 200, 255), (232, 1, 255),
                                  (255, 2, 255), (128, 2, 255)])] +
      codes("system_event_log_event_log_type", "system_event_log_log_header_format"),
      thorough=[("c15_event_log", upto(35, 38)), ("c15_descriptors", [(n, s, 255) for n in (1, 2, 3, 50, 115, 116, 117) for s in (0, 1, 2, 3, 4, 58, 255)])],
      covers=shown("c15_event_log", "decoded", "log header format") + shown("c15_descriptors", "descriptor") +
      shown("c15_access_method", "address"),
      bounds=DECODE + "4-34 bytes (thorough: 38) with every count and length of descriptors; larger descriptor arrays for the (count, descriptor "
      "length, formatted length) triples listed in spec.py, one descriptor at any position symbolic; every access method",
      outside=DECODE_OUT)

check("C16",
      quick=[("c16_array", upto(4, 255)), ("c16_array_address", upto(4, 255)), ("c16_device_address", upto(4, 255))] +
      codes("physical_memory_array_memory_array_location", "physical_memory_array_memory_array_use",
            "physical_memory_array_memory_array_error_correction_types"),
      covers=shown("c16_array", "decoded", "fields", "extended capacity") + shown("c16_array_address", "decoded") +
      shown("c16_device_address", "decoded"),
      bounds=DECODE + "All formatted lengths, 4-255 bytes; every code",
      outside=DECODE_OUT)

check("C17",
      quick=[("c17_device", [(l, m) for l in range(4, 256) for m in (0, 1, 2)] + [(27, 3), (92, 3)])] +
      codes("memory_device_error_granularity", "memory_device_error_operation", "memory_device_error_type", "memory_device_form_factor",
            "memory_device_memory_technology", "memory_device_type"),
      thorough=[("c17_device", [(l, 3) for l in range(21, 256)])],
      cost=lambda h, p: sum(p) + (100 if p[1:] == (3,) else 0),
      covers=shown("c17_device", "decoded", "missing string rejected", "all fields"),
      bounds=DECODE + "All formatted lengths, 4-255 bytes, the string references symbolic in groups (thorough: all at once); every code",
      outside=DECODE_OUT)

check("C18",
      quick=[("c18_memory_error", upto(4, 255)), ("c18_pointing", upto(4, 255)),
             ("c18_battery", [(l, m) for l in list(range(4, 33)) + [64, 128, 255] for m in (0, 1)])] +
      codes("memory_error_32_error_type", "memory_error_32_error_granularity", "memory_error_32_error_operation",
            "built_in_pointing_device_type", "built_in_pointing_device_interface"),
      thorough=[("c18_battery", [(l, 3) for l in range(16, 29)] + [(l, m) for l in range(33, 256) for m in (0, 1)])],
      cost=lambda h, p: sum(p) + (100 if p[1:] == (3,) else 0),
      covers=shown("c18_memory_error", "decoded") + shown("c18_pointing", "decoded") +
      shown("c18_battery", "decoded", "basic date", "smart battery date"),
      bounds=DECODE + "Memory error and pointing device: all formatted lengths, 4-255 bytes; portable battery: 4-32, 64, 128 and 255 bytes (thorough: 4-255); every code",
      outside=DECODE_OUT)


TYPES = [0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]


def c02_quick():
    jobs = []
    for t in TYPES + [5, 32, 127, 200]:
        top = {4: 30, 3: 28, 15: 31, 17: 50, 22: 28}.get(t, 36)
        for l in range(4, top + 1):
            jobs.append((t, l, 1 if t == 4 else 2 if t == 22 else 3, 0))
        for l in (top + 1, 40, 64, 92, 255):
            if not (t == 3 and l > 60 or t == 15 and l > 36 or t == 9 and l > 64):
                jobs.append((t, l, 2, 1))
    jobs += [(t, l, 4, 0) for t in TYPES if t not in (4, 22) for l in range(4, 31)]
    jobs += [(t, l, 8, 0) for t in (0, 11, 12, 13, 5) for l in (4, 5, 18, 22, 24)] + [(t, l, 3, 0) for t in (4, 22) for l in range(20, 31)]
    return sorted(set(jobs))


def c02_thorough():
    light = [t for t in TYPES + [5, 32, 127, 200] if t not in (3, 9, 15)]
    return ([(t, l, 5, 0) for t in TYPES if t not in (4, 22) for l in range(4, 31)] + [(t, l, 9, 0) for t in (11, 12, 13, 5) for l in (4, 5, 22)] +
            [(t, l, 4, 0) for t in (4, 22) for l in range(20, 31)] + [(t, l, 2, 1) for t in light for l in range(37, 256)])


C02_MANY = ([(t, l, k, k & 255, k & 255) for t, l in ((11, 5), (12, 5), (13, 22)) for k in (17, 127, 128, 254, 255, 256, 257, 300)] +
            [(14, l, 1, 0, 0) for l in (64, 128, 254, 255)] + [(9, 255, 0, n, n) for n in (1, 46, 47, 48, 127, 128, 255)] +
            [(3, 255, 0, n, m) for n, m in ((77, 3), (78, 3), (255, 3), (255, 1), (1, 255), (255, 255), (16, 16), (3, 0), (2, 117), (128, 2), (2, 128))] +
            [(15, 255, 0, n, m) for n, m in ((116, 2), (255, 2), (77, 3), (255, 255), (1, 200), (255, 1), (2, 116), (128, 2), (2, 128))])

check("C02",
      quick=[("c02_type", c02_quick()), ("c02_any", upto(0, 11)), ("c02_many", C02_MANY), ("c02_table", [(300, 8), (3000, 7)]),
             ("c02_flags", [(0, 18), (0, 19), (0, 20), (0, 26), (9, 13), (9, 17), (13, 22), (15, 23)])],
      thorough=[("c02_type", c02_thorough()), ("c02_any", one(12, 13))],
      covers=shown("c02_type", "structure", "error") + shown("c02_any", "structure", "error"),
      cost=lambda h, p: p[0] * 10 if h == "c02_any" else 50 if h != "c02_type" else p[1] + (60 if p[0] in (4, 22) else 0),
      bounds="every supported structure type and four others, each of formatted length 4 to about 36 (50 for memory devices; the "
             "list is in spec.py) with every content, every version, any announced length and 1-4 bytes (8 for some types) of any content behind the formatted "
             "area, and of lengths up to 255 with an empty string set; every buffer of 0-11 bytes; every iterator is run past its end and "
             "raw fields are accessed at any offset; up to 300 strings, arrays of records that fill or exceed 255 bytes, 8 bytes behind 300 and 3000 structures; "
             "the flags of BIOS, slots, languages and event logs; thorough: string areas of up to 9 bytes, buffers of 13 bytes, all lengths up to 255",
      outside="longer tables and string areas; the conversion of a BIOS ROM size (C21) and texts (C22)")

check("C05",
      quick=[("c05_reference", [(n, h) for n in range(2, 9) for h in (0, 1)]), ("c05_strings", upto(2, 10)),
             ("c05_long", one(1, 2, 3, 63, 64, 127, 128, 254, 255, 256, 257, 300)),
             ("c05_long_strings", one(1, 2, 3, 63, 64, 127, 128, 254, 255, 256, 257, 300)), ("c05_many_strings", [(3, 2), (255, 100), (300, 300)]),
             ("c05_many", [(1, 1), (2, 2), (3, 2), (100, 57), (127, 127), (128, 128), (254, 254), (255, 255), (255, 1), (300, 255), (300, 128)])],
      thorough=[("c05_reference", [(9, 0), (9, 1)]), ("c05_strings", one(11, 12)), ("c05_long", upto(4, 300)),
                ("c05_many", [(k, i) for k in (5, 130, 255, 256, 270) for i in range(1, min(k, 255) + 1, 7)])],
      covers=shown("c05_reference", "reference zero", "missing string", "string", "second string", "not UTF-8", "behind a string that is not UTF-8") +
      shown("c05_strings", "string", "end"),
      bounds="every string set of 2-8 bytes of any content (10 of UTF-8 content for the iteration), every reference 0-255 given as an "
             "argument or as a field; strings of up to 300 equal bytes and sets of up to 300 strings, one of them symbolic, referenced and iterated; thorough: 9 and 12 bytes",
      outside="larger sets of mixed content; what the iteration yields behind a string that is not UTF-8")

check("C06",
      quick=[(h, upto(4, 24) + one(40, 64, 65, 100, 127, 128, 129, 200, 254, 255)) for h in ("c06_u8", "c06_u16", "c06_u32", "c06_u64", "c06_u128", "c06_string")] +
      [("c06_slice", upto(4, 24) + one(40, 64)), ("c06_bytes", upto(4, 255))],
      thorough=[("c06_slice", upto(25, 64) + one(128, 255))] +
      [(h, upto(25, 255)) for h in ("c06_u8", "c06_u16", "c06_u32", "c06_u64", "c06_u128")],
      covers=shown("c06_u8", "absent", "value") + shown("c06_u64", "absent", "value") + shown("c06_u128", "absent", "value") +
      shown("c06_slice", "absent", "bytes") + shown("c06_string", "absent", "string", "missing string"),
      bounds="structures of formatted length 4-24, 40, 64, 65, 100, 127-129, 200, 254 and 255 with every content; every offset and every size over the full range of "
             "the machine word; reads of 1, 2, 4, 8 and 16 bytes, slices (up to 64 bytes) and string references",
      outside="other formatted lengths (thorough: all up to 255, slices up to 64, 128 and 255)")

check("C07",
      quick=[("c07_isolated", [(t, l, s) for t, ls in (
          (0, (18, 24, 26)), (1, (8, 25, 27)), (2, (8, 15, 17)), (3, (13, 21, 24)), (4, (26, 32, 40, 48)), (7, (15, 19, 27)), (8, (9,)),
          (9, (12, 17, 24)), (11, (5,)), (12, (5,)), (13, (22,)), (14, (11, 14)), (15, (20, 27)), (16, (15, 23)), (17, (21, 34, 40)),
          (18, (23,)), (19, (15, 31)), (20, (19, 35)), (21, (7,)), (22, (22, 26)), (200, (4, 9))) for l in ls
          for s in ((0, 1) if t == 22 else (0,) if t == 4 else (0, 2))]),
             ("c07_iterators", [(3, 24), (9, 24), (9, 30), (11, 5), (12, 5), (13, 22), (14, 12), (14, 14), (15, 27)]),
             ("c07_isolated", [(t, l, 3) for t in TYPES if t not in (4, 22) for l in (8, 16, 24, 32)] + [(22, 26, 2), (4, 26, 2)])],
      thorough=[("c07_isolated", [(t, l, 3) for t in TYPES if t not in (4, 22) for l in range(4, 36)] + [(t, l, 4) for t in TYPES if t not in (4, 22) for l in (8, 24)] +
                 [(22, l, 2) for l in range(16, 30)] + [(4, l, 1) for l in range(26, 50)])],
      covers=shown("c07_isolated", "decoded", "rejected") + shown("c07_iterators", "item"),
      cost=lambda h, p: p[1] + (100 if p[0] in (4, 22) else 0),
      bounds="every supported structure type and one other at the formatted lengths listed in spec.py, with every content, 0-3 bytes of "
             "strings of any content and every version: once alone behind a version 3 entry point, once behind a structure of any content and "
             "before 3 bytes of any content behind a version 2 entry point, with every announced length that holds it; copies of iterators at "
             "every position",
      outside="other lengths and longer surroundings")

check("C19",
      quick=codes("baseboard_board_type", "built_in_pointing_device_interface", "built_in_pointing_device_type", "cache_cache_associativity",
                  "cache_cache_error_correction_type", "cache_cache_level", "cache_cache_location", "cache_cache_operational_mode",
                  "cache_system_cache_type", "enclosure_enclosure_type", "enclosure_security_status", "enclosure_state", "info_type",
                  "memory_device_error_granularity", "memory_device_error_operation", "memory_device_error_type", "memory_device_form_factor",
                  "memory_device_memory_technology", "memory_device_type", "memory_error_32_error_granularity",
                  "memory_error_32_error_operation", "memory_error_32_error_type",
                  "physical_memory_array_memory_array_error_correction_types", "physical_memory_array_memory_array_location",
                  "physical_memory_array_memory_array_use", "port_connector_connector_type", "port_connector_port_type",
                  "processor_processor_family", "processor_processor_type", "processor_processor_upgrade",
                  "system_event_log_event_log_type", "system_event_log_log_header_format", "system_slots_current_usage",
                  "system_slots_slot_length", "system_slots_slot_type", "system_slots_slot_width", "system_wakeup_type") +
      [(h, [()]) for h in ("c19_system_management", "c19_variable_data", "c19_access_method", "c19_contained_element", "c19_voltage")],
      covers=shown("c19_contained_element", "board", "structure"),
      cost=lambda h, p: 0,
      bounds="every value of the code's field: 8 bits (16 for processor families, 32 for system management types, 40 for access methods "
             "with their address); no bound within that",
      outside="the values of the three fields of the cache configuration that do not fit their bits, which no structure has")

check("C20",
      quick=[("c20_any_layout", one(0, 1, 2, 3, 4)), ("c20_any_reserved", upto(1, 9)), ("c20_u16", upto(0, 15)), ("c20_u32", upto(0, 31)),
             ("c20_u64", upto(0, 63)), ("c20_u128", one(0, 31, 32, 63, 64, 65, 96, 126, 127)), *[("c20_collect_u%s" % t, [(a,) for a in sorted(set(list(range(0, n - 5, 6)) + [n - 6]))])
               for t, n in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64))], ("c20_flag_text", [()]), ("c20_bios", [()]), ("c20_language", [()]), ("c20_slots", [()]),
             ("c20_event_log", [()])],
      thorough=[("c20_any_layout", one(5, 6)), ("c20_any_reserved", one(10, 11)), ("c20_u128", upto(0, 127))],
      const_eval=True,
      covers=shown("c20_any_layout", "significant", "reserved") + shown("c20_bios", "flag"),
      cost=lambda h, p: (100 if h == "c20_any_layout" else 50 if h == "c20_any_reserved" else 0) + sum(p),
      bounds="every value under every layout of up to 4 entries (significant or reserved, any widths) of an 8-bit field, every layout of "
             "reserved and significant single bits of up to 9 entries; fields of 16, 32, 64 and 128 bits with a flag at any bit (of 128: nine bits listed in "
             "spec.py) and any value; the crate's own bit fields (BIOS characteristics and extension bytes, language flags, slot "
             "characteristics, event log status, POST results) with every value; thorough: 6 and 11 entries, all bit positions",
      outside="larger layouts than those of the crate")

check("C21",
      quick=[(h, [()]) for h in ("c21_rom_size", "c21_rom_size_reserved", "c21_cache_size", "c21_capacity", "c21_event_log", "c21_slots",
                                 "c21_access_method", "c21_version", "c21_entry_point", "c21_flags", "c21_voltage")],
      covers=shown("c21_rom_size", "basic", "extended"),
      cost=lambda h, p: 0,
      bounds="every value of the fields converted (8 to 64 bits), every entry point of 31 bytes, every pair of versions; no bound within that",
      outside="nothing within these conversions")

TEXTS = ["info_type", "baseboard_board_type", "enclosure_enclosure_type", "enclosure_state", "enclosure_security_status",
         "processor_processor_upgrade", "cache_cache_level", "cache_cache_location", "cache_cache_operational_mode",
         "cache_cache_error_correction_type", "cache_system_cache_type", "cache_cache_associativity", "port_connector_connector_type",
         "port_connector_port_type", "system_slots_slot_type", "system_slots_slot_width", "system_slots_current_usage",
         "system_slots_slot_length", "system_event_log_event_log_type", "system_event_log_log_header_format",
         "physical_memory_array_memory_array_location", "physical_memory_array_memory_array_use",
         "physical_memory_array_memory_array_error_correction_types", "memory_error_32_error_type", "memory_error_32_error_granularity",
         "memory_error_32_error_operation", "built_in_pointing_device_type", "built_in_pointing_device_interface"]

check("C22",
      quick=[("text_" + t, [(0, 255)]) for t in TEXTS] +
      [("text_processor_processor_family", [(0, 63), (64, 127), (128, 159), (160, 191), (192, 223), (224, 255), (256, 271), (272, 65535)]),
       ("c22_revision", one(0, 1)), ("c22_date", [()]), ("c22_serial", [()]), ("c22_chemistry", [()]), ("c22_element", one(0, 1)),
       ("c22_entry_point_error", [()]), ("c22_structure_error", one(1000, 10000)), ("c22_access_method", [(m, a) for m in range(7) for a in (0, 1)]),
       ("c22_system_management", [()]), ("c22_variable_data", [()]), ("c22_voltage", [()]), ("c22_pitch", one(0, 1, 39, 255)),
       ("c22_device", [()])],
      thorough=[("c22_structure_error", one(65536)), ("c22_pitch", upto(0, 255))],
      covers=shown("c22_revision", "shown") + shown("c22_device", "shown") + shown("c22_structure_error", "shown") + shown("c22_date", "shown"),
      cost=lambda h, p: 100 if "family" in h or "slot_type" in h or "structure_error" in h else 0,
      bounds="every value of every enumerated code in both text forms (processor families: all 65536); every release, packed date, serial "
             "number, access method with address, peer device, entry point error; structure errors with offsets and handles below 10000 "
             "(thorough: 65536); slot pitches of the ranges listed in spec.py (thorough: all) and processor voltages case by case, since "
             "they are formatted through floating point",
      outside="how 5 V is shown as a legacy voltage; string contents other than the sample ones")

check("C23",
      quick=[("c23_structures", [(t, l, l, 3, 4, h) for t, l, h in (
          (0, 18, 1), (0, 26, 1), (1, 27, 1), (2, 15, 1), (3, 22, 1), (3, 25, 1), (4, 26, 0), (7, 19, 1), (7, 27, 1), (8, 9, 1), (9, 17, 1), (9, 19, 0),
          (9, 30, 0), (11, 5, 1), (12, 5, 1), (13, 22, 1), (14, 11, 1), (14, 14, 1), (15, 25, 1), (16, 15, 1), (16, 23, 1), (17, 21, 1), (17, 40, 1),
          (18, 23, 1), (19, 15, 1), (19, 31, 1), (20, 19, 1), (20, 35, 1), (21, 7, 1), (22, 26, 1), (200, 8, 1))] +
              [(0, 18, 18, 2, 0, 1), (1, 27, 27, 2, 4, 1), (1, 25, 27, 3, 4, 1), (14, 11, 14, 3, 4, 1)]),
             ("c23_texts", [(0, 18, 1), (0, 26, 1), (1, 27, 1), (2, 15, 1), (3, 22, 1), (4, 26, 0), (7, 19, 1), (8, 9, 1), (9, 19, 1), (11, 5, 1), (12, 5, 1),
                            (13, 22, 1), (14, 11, 1), (17, 21, 1)]),
             ("c23_iterators", [(3, 21, 21), (3, 24, 24), (3, 27, 27), (3, 24, 27), (9, 24, 24), (9, 29, 29), (9, 24, 29), (11, 5, 5), (12, 5, 5),
                                (13, 22, 22), (14, 14, 14), (14, 11, 14), (15, 27, 27), (15, 25, 27)]),
             ("c23_strings", [(t, n, m, i, j) for t in (11, 12, 13) for n, m in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (3, 4), (4, 5))
                              for i, j in ((0, 0), (0, 1), (1, 1), (2, 1), (2, 2), (3, 2))]),
             ("c23_positions", [(3, 24, 24, 1, 0), (3, 27, 27, 1, 0), (9, 24, 24, 1, 0), (9, 29, 29, 1, 0), (9, 29, 29, 1, 1), (14, 14, 14, 1, 0),
                                (14, 14, 11, 1, 0), (14, 17, 14, 1, 0), (15, 25, 25, 1, 0), (15, 27, 27, 1, 1), (15, 27, 27, 1, 0), (15, 27, 27, 2, 1),
                                (11, 5, 5, 1, 0), (12, 5, 5, 1, 2), (13, 22, 22, 3, 2), (13, 22, 22, 4, 3)])],
      thorough=[("c23_structures", [(4, 40, 40, 3, 4, 1), (9, 19, 19, 3, 4, 1), (9, 24, 24, 3, 4, 1), (9, 30, 30, 3, 4, 1), (17, 34, 34, 3, 4, 1), (17, 84, 84, 3, 4, 1)]),
                ("c23_iterators", [(3, 30, 30)]), ("c23_texts", [(4, 26, 1), (17, 27, 1), (17, 34, 0), (22, 26, 0), (22, 26, 1)]),
                ("c23_strings", [(t, n, n, i, j) for t in (11, 12, 13) for n in (6, 7, 8) for i in range(4) for j in range(i + 1)])],
      covers=shown("c23_structures", "equal", "different") + shown("c23_iterators", "equal", "different", "item") +
      shown("c23_texts", "equal", "different") + shown("c23_strings", "equal", "different", "item") + shown("c23_positions", "equal", "different", "item"),
      cost=lambda h, p: 100 if p[0] == 4 or p[0] == 9 and p[2] in (24, 29) else p[0] == 22,
      bounds="every pair of structures of the type and length listed in spec.py, without strings, in version 3.4; every pair that differs in the letters of "
             "two strings; every pair of the iterators over contained elements, peer devices, strings, languages, groups and log descriptors of the lengths "
             "listed, and of string sets of up to 5 letters, after 0-3 items",
      outside="other lengths; hashes of slots with peer devices (thorough)")

# Lengths around those the specification names
C24_LENGTHS = {0: (4, 17, 18, 19, 23, 24, 25, 26, 27), 1: (4, 7, 8, 24, 25, 26, 27, 28), 2: (4, 7, 8, 9, 14, 15, 16), 3: (4, 8, 9, 13, 17, 21, 22, 24),
               4: (4, 25, 26, 27, 32), 7: (4, 14, 15, 16, 19, 27), 8: (4, 8, 9, 10), 9: (4, 11, 12, 13, 14, 16, 17, 18, 24), 11: (4, 5), 12: (4, 5, 6),
               13: (4, 20, 21, 22, 23), 14: (4, 5, 6, 8), 15: (4, 19, 20, 21, 22, 23, 24, 25, 27), 16: (4, 14, 15, 16, 22, 23, 24),
               17: (4, 20, 21, 22), 18: (4, 22, 23, 24), 19: (4, 14, 15, 16, 30, 31, 32), 20: (4, 18, 19, 20, 34, 35, 36), 21: (4, 6, 7, 8),
               22: (4, 15, 16, 17, 25, 26, 27)}

check("C24",
      quick=[("c24_reject", sorted(set([(t, l) for t in C24_LENGTHS for l in C24_LENGTHS[t]] +
                                       [(t, l) for t in C24_LENGTHS for l in range(4, 30) if not (t in (4, 22) and l > 26)] +
                                       [(t, l) for t in C24_LENGTHS if t not in (3, 4, 9, 15, 17, 22) for l in (64, 128, 255)])))],
      thorough=[("c24_reject", [(t, l) for t in C24_LENGTHS for l in range(30, 256) if t not in (3, 4, 9, 15, 17, 22)] +
                 [(t, l) for t in (3, 4, 9, 15, 17, 22) for l in range(30, 35)])],
      covers=shown("c24_reject", "length", "string", "slice"),
      cost=lambda h, p: p[1] + (100 if p[0] in (4, 17, 22) else 0),
      bounds="every structure type with a decoder, at the formatted lengths up to 29 and, for types without arrays, 64, 128 and 255 (spec.py), every content and "
             "every version, with a string set of three strings; thorough: all lengths up to 255, 34 for types with arrays",
      outside="other lengths; which of several defects of a structure is reported; event logs whose announced descriptors need more than 255 bytes")

check("C25",
      quick=[("c25_content", [(3, 21), (3, 22), (3, 24), (3, 25), (9, 17), (9, 19), (9, 24), (9, 29), (11, 5), (12, 5), (13, 22), (15, 23), (15, 25), (9, 34), (9, 39)] +
              [(14, n) for n in (5, 7, 8, 9, 11, 14, 20, 32)]),
             ("c25_strings", [(t, n) for t in (11, 12, 13) for n in range(2, 11)]), ("c25_walk", upto(0, 14)),
             ("c25_types", [(1, 4), (1, 5), (1, 9), (2, 4), (2, 5)]), ("c25_bits", one(0, 1, 2)),
             ("c25_many", [(11, 5, k, k, k) for k in (17, 255, 256, 257, 300)] + [(12, 5, k, k, k) for k in (17, 127, 128, 255)] +
              [(13, 22, k, k, k) for k in (17, 128, 130)] + [(14, l, 1, 0, 0) for l in (64, 128, 253, 254, 255)] +
              [(3, 255, 0, n, m) for n, m in ((77, 3), (78, 3), (16, 14), (2, 117))] + [(9, 255, 0, n, n) for n in (1, 46, 47)] +
              [(15, 255, 0, 116, 2), (15, 254, 0, 77, 3), (15, 255, 0, 2, 116), (15, 255, 0, 1, 232)])],
      thorough=[("c25_content", [(3, 27), (15, 27), (3, 28), (9, 44), (14, 38)]), ("c25_strings", [(t, n) for t in (11, 12, 13) for n in (11, 12)]),
                ("c25_walk", one(15, 16)), ("c25_types", [(2, 8), (2, 9)])],
      covers=shown("c25_content", "item", "end", "skipped") + shown("c25_strings", "item", "end", "skipped") + shown("c25_walk", "item", "end", "skipped") +
      shown("c25_types", "item", "end", "skipped") + shown("c25_bits", "item", "end", "skipped") + shown("c25_many", "items", "end"),
      cost=lambda h, p: p[1] if h == "c25_content" else p[0],
      bounds="the walk over every buffer of 0-14 bytes (types without decoder) and over one structure of any type and 4, 5 or 9 bytes, or two of 4 or 5; the contained "
             "elements, peer devices, group items, event log descriptors and strings of structures of the lengths in spec.py with any content, and string "
             "sets of 2-10 bytes; the three views of an 8-bit field of any value; every starting position and number of items skipped, up to 9 items; up to 300 items of "
             "fixed content at the positions and skips around 16, 128 and 256",
      outside="longer iterators, and the adapters of the standard library built on next, nth, fold and size_hint")
