#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and ../spec.py."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import spec

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), note=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                                hook_needed=None)), note))


S = "src/structures/"
SAMPLE = ("The tests decode a few captured dumps and hand-written structures; a defect at another length, version, code or "
          "string reference passes them all.")
IN = ["inputs"]


def decoder(pid, title, what, files, mech, extra=""):
    prop(pid, title,
         what, IN,
         "every content of the structure's bytes, every formatted length a structure can have, every SMBIOS version" + extra,
         SAMPLE, [S + f for f in files], mech, ["Structures::next", "the public fields of the decoded structure"])


prop("C01", "Entry point search finds exactly the first valid anchor",
     "Searching a buffer for an entry point returns the first version 2 or version 3 anchor that lies at a multiple of 16 bytes, "
     "decoded from the bytes there, if and only if that entry point fits into the buffer, announces an admissible size and version, and its bytes "
     "add up to zero. Otherwise it reports which of these failed: no anchor, a truncated entry point, an inadmissible size, an "
     "unsupported version, or a wrong checksum. It neither panics nor reads outside the buffer.",
     IN, "every buffer: any length, any bytes, the anchor at any multiple of 16",
     "The tests search a handful of buffers with one anchor each; the position, size, version and checksum bytes have far more "
     "values than tests can sample.",
     ["src/lib.rs"], [("EntryPoint::search, find_signature, checksum verification", "src/lib.rs")], ["EntryPoint::search"])

prop("C02", "Arbitrary tables never cause a panic, an out-of-bounds read or an endless loop",
     "Walking a table of arbitrary bytes, decoding every structure in it, iterating everything a decoded structure offers "
     "ends without a panic, without arithmetic overflow and without reading outside the table. This also holds when "
     "the entry point announces a table longer or shorter than the buffer.",
     IN, "every table content, every announced length, every version, every structure type and formatted length",
     "Tests sample well-formed dumps; a malformed length or count byte needs one value in 256 at one offset of one type.",
     ["src/lib.rs", S], [("bounds checks of the table walk and of the decoders", "src/lib.rs: Structures::next_raw, RawStructure; " + S + "*.rs")],
     ["Structures", "the iterators of the decoded structures"])

prop("C03", "The table walk yields exactly the structures of the table, in order",
     "Iterating a table yields one item per structure, in table order, each framed by its header length and the double zero that "
     "ends its strings: the decoded structure for a supported type, the raw bytes with type, length, handle and version for any "
     "other. A structure whose formatted area does not fit into the table is reported as of bad size, one whose strings do not end "
     "as unterminated, both with the structure's offset. No structure starts beyond the announced table length, and none reaches beyond the buffer.",
     IN, "every table content, announced length and version",
     "Tests walk captured tables whose framing is correct; malformed framing has unboundedly many shapes.",
     ["src/lib.rs"], [("Structures::next, Structures::next_raw, find_nulnul", "src/lib.rs")], ["Structures::next"])

prop("C04", "The table walk stops where it has to and nowhere else",
     "A walk ends at the end of the announced table, after an end-of-table structure when the version is 3 or later, and after the "
     "first framing error, which is reported once; a structure that cannot be decoded is reported and the walk goes on with the "
     "next one. Once ended, it stays ended however often it is asked.",
     ["inputs", "histories"], "every sequence of structures and errors, every version, any number of further calls",
     "No test iterates past an error or past an end-of-table structure for both major versions.",
     ["src/lib.rs"], [("Iterator for Structures", "src/lib.rs")], ["Structures::next"])

prop("C05", "A string reference yields exactly the string it names",
     "A string reference of a structure yields the string of that number in the structure's own string set, without its "
     "terminator; reference zero yields the empty string; a reference beyond the set is an error that names the structure's type, "
     "its handle and the reference. Iterating the strings of a structure yields the set in order, once, up to a "
     "string that is not UTF-8.",
     IN, "every string set (any lengths, any bytes, also not UTF-8), every reference",
     "Tests reference strings of captured dumps only.",
     ["src/lib.rs"], [("StructureStrings, RawStructure::find_string, get_string", "src/lib.rs")], ["RawStructure::find_string", "RawStructure::get_string"])

prop("C06", "Raw field access reads the addressed bytes or reports their absence",
     "Reading a value, a byte range or a string reference at an offset of a raw structure gives exactly the little-endian bytes at "
     "that offset of the structure (counted from its header) if all of them lie in the formatted area behind the header, and "
     "reports an absence or error otherwise. No offset or size, however large, makes it panic or read elsewhere.",
     IN, "every structure content, every offset and size",
     "Tests read a few offsets that exist.",
     ["src/lib.rs"], [("RawStructure::get, get_slice, get_string", "src/lib.rs")], ["RawStructure::get", "RawStructure::get_slice", "RawStructure::get_string"])

prop("C07", "Decoding a structure depends only on that structure and the version",
     "The result for a structure does not depend on what precedes or follows it in the table, on where the table lies in memory, on "
     "the announced table length beyond the structure, or on which kind of entry point describes the table. Decoding the same table "
     "twice gives equal results, and a copy of an iterator continues like the original.",
     ["inputs", "histories"], "every pair of tables that agree on one structure",
     "It relates two runs; tests look at one.",
     ["src/lib.rs", S], [("RawStructure holds the structure's own slices", "src/lib.rs")], ["Structures::next"])

decoder("C08", "BIOS information and BIOS language are decoded as SMBIOS defines them",
        "For a BIOS information structure (type 0) or BIOS language structure (type 13), each reported field has exactly the value "
        "the SMBIOS specification gives it for the structure's bytes, length and version, and a field is absent if the structure is too short or too "
        "old to carry it. Characteristics and extension bytes, ROM size and releases come from their own bytes only, and the installable languages are the structure's "
        "strings in order. Structures too short for their version and references to missing strings are reported as errors.",
        ["000_bios.rs", "013_bios_language.rs"], [("Bios::try_from, BiosLanguage::try_from", S)])
decoder("C09", "System and baseboard information are decoded as SMBIOS defines them",
        "For a system (type 1) or baseboard (type 2) structure, each reported field has exactly the value the SMBIOS specification gives it for "
        "the structure's bytes, length and version, and a field is absent if the structure is too short or too old to carry it. The UUID's byte order "
        "follows the version. Structures too short for their version and references to missing strings are reported as errors.",
        ["001_system.rs", "002_baseboard.rs"], [("System::try_from, BaseBoard::try_from", S)])
decoder("C10", "System enclosure information is decoded as SMBIOS defines it",
        "For an enclosure structure (type 3), each reported field has exactly the value the specification gives it for the "
        "structure's bytes and length, absent if the structure is too short. Its contained elements are exactly the announced records that lie in the "
        "formatted area, in order, each with its own type, minimum and maximum, and the fields behind them follow at the right place. References to missing "
        "strings are reported as errors.",
        ["003_enclosure.rs"], [("Enclosure::try_from, ContainedElements", S + "003_enclosure.rs")])
decoder("C11", "Processor information is decoded as SMBIOS defines it",
        "For a processor structure (type 4), each reported field has exactly the value the specification gives it for the "
        "structure's bytes, length and version, including the fields that replace an older one when the older one overflows (family, core, enabled "
        "core and thread counts), and is absent if the structure is too short or too old to carry it. Missing strings and too short structures are errors.",
        ["004_processor.rs"], [("Processor::try_from, ProcessorFamily, Voltage", S + "004_processor.rs")])
decoder("C12", "Cache information is decoded as SMBIOS defines it",
        "For a cache structure (type 7), each reported field has exactly the value the specification gives it for the structure's "
        "bytes, length and version, absent if the structure is too short or too old to carry it. Every part of the configuration word is read from its "
        "own bits, and sizes carry the announced granularity. Missing strings and too short structures are errors.",
        ["007_cache.rs"], [("Cache::try_from, CacheConfiguration, CacheSize", S + "007_cache.rs")])
decoder("C13", "Port connectors and system slots are decoded as SMBIOS defines them",
        "For a port connector (type 8) or system slot (type 9) structure, each reported field has exactly the value the "
        "specification gives it for the structure's bytes and length, absent if the structure is too short. The peer devices of a slot are exactly the announced "
        "groups that lie in the formatted area, in order, and the fields behind them follow at the right place. References to missing strings are errors.",
        ["008_port_connector.rs", "009_system_slots.rs"], [("PortConnector::try_from, SystemSlots::try_from", S)])
decoder("C14", "OEM strings, configuration options and groups are decoded as SMBIOS defines them",
        "OEM strings (type 11) report the structure's strings in order; configuration options (type 12) report them, too, if their "
        "number is the announced count, and an error otherwise. Group associations (type 14) report their name and exactly the items (type and handle) that the formatted "
        "length has room for, in order.",
        ["011_oem_strings.rs", "012_system_configuration_options.rs", "014_group_associations.rs"],
        [("OemStrings::try_from, SystemConfigurationOptions::try_from, GroupAssociations::try_from", S)])
decoder("C15", "The system event log is decoded as SMBIOS defines it",
        "For a system event log structure (type 15), each reported field has exactly the value the specification gives it for the "
        "structure's bytes, length and version, absent if the structure does not carry it. Its log type descriptors are exactly the announced ones "
        "that lie in the formatted area, in order, whatever descriptor length is announced.",
        ["015_system_event_log"], [("SystemEventLog::try_from, TypeDescriptors, AccessMethod", S + "015_system_event_log")])
decoder("C16", "Memory arrays and mapped addresses are decoded as SMBIOS defines them",
        "For a physical memory array (16), array mapped address (19) or device mapped address (20) structure, each reported field has "
        "exactly the value the specification gives it for the structure's bytes, length and version; extended capacities and addresses are reported when "
        "the structure carries them, and absent values as absent.",
        ["016_physical_memory_array.rs", "019_memory_array_mapped_address.rs", "020_memory_device_mapped_address.rs"],
        [("PhysicalMemoryArray, MemoryArrayMappedAddress, MemoryDeviceMappedAddress: try_from", S)])
decoder("C17", "Memory devices are decoded as SMBIOS defines them",
        "For a memory device structure (type 17), each reported field has exactly the value the specification gives it for the "
        "structure's bytes and length, absent if the structure is too short to carry it or the value means unknown. References to missing strings and too short structures are "
        "errors.",
        ["017_memory_device.rs"], [("MemoryDevice::try_from", S + "017_memory_device.rs")])
decoder("C18", "Memory errors, pointing devices and batteries are decoded as SMBIOS defines them",
        "For a 32-bit memory error (18), built-in pointing device (21) or portable battery (22) structure, each reported field has "
        "exactly the value the specification gives it for the structure's bytes, with unknown values reported as absent. A battery's manufacture date, "
        "serial number and chemistry come from the basic fields or, if those are void, from the smart battery fields. Lengths that the version "
        "does not allow are errors.",
        ["018_memory_error_32.rs", "021_built_in_pointing_device.rs", "022_portable_battery.rs"],
        [("MemoryError32, BuiltInPointingDevice, PortableBattery: try_from", S)])

prop("C19", "Every code is decoded as the value SMBIOS assigns to it, and none is lost",
     "Every enumerated code (types, states, families, sockets, connectors, slots, event types, access methods and the like) is "
     "decoded as the value the SMBIOS specification assigns to it. A code without an assignment is reported as such together with the code itself. "
     "No code of a field a structure can have makes decoding fail.",
     IN, "every value of every code's field: 8, 16 or 32 bits", "Tests try a few codes of each enumeration; a wrong, swapped or missing entry elsewhere "
     "in hundreds of table lines passes them.",
     [S], [("the From<u8>, From<u16> and From<u32> implementations of the enumerations", S + "*.rs; src/lib.rs: InfoType")], ["From conversions of the public enumerations"])
prop("C20", "Bit fields report exactly their set bits under the names of those bits",
     "For every value and layout of a bit field, iterating it yields each bit in order with its position, its name and whether it is set; the significant and the "
     "reserved views yield exactly the bits and ranges of their kind, and never fail or run past the field. Collecting the positions of set bits gives the value back. "
     "The characteristics of BIOS, slots, languages and event logs name each bit as the SMBIOS specification does.",
     IN, "every value, every layout, every width from 8 to 128 bits", "Tests show a few values of a few fixed layouts; ranges of reserved bits and bits at "
     "the end of a field depend on the layout.",
     ["src/bitfield.rs", S], [("Iter, Significants, Reserved, Layout, FlagType", "src/bitfield.rs"), ("layout! uses", S)],
     ["BitField::iter, significants, reserved"])
prop("C21", "Sizes, versions and conversions give the number SMBIOS defines, without overflow",
     "ROM, cache and battery sizes convert to the exact number of bytes or milliwatt-hours their encoding denotes, in every unit, without overflow or panic. "
     "Values that convert from and to a code or bytes give back what they were made from, and flags have the bits the specification gives them. Versions are ordered "
     "by major, then minor number, and an entry point's length, version, revision, table length and address are those of its bytes.",
     IN, "every value of the fields converted", "Overflow and wrong units show for large values only, which no captured dump contains.",
     ["src/lib.rs", S + "000_bios.rs", S + "007_cache.rs", S + "022_portable_battery.rs", S + "009_system_slots.rs", S + "015_system_event_log"],
     [("From<RomSize> for u64, CacheSize::bytes, CacheSize2::bytes, From<DesignCapacity> for u64", S), ("EntryPoint accessors, SmbiosVersion", "src/lib.rs")],
     ["conversions and accessors"])
prop("C22", "Every value is displayed as its own text, with its own numbers",
     "Displaying a decoded value gives the text of that value and no other, in the plain and the alternate form, with every number it carries in it. "
     "This includes codes without assignment, releases, dates, serial numbers, addresses of devices and access methods, and errors, "
     "which show their offset, handle and length. Displaying never fails.",
     IN, "every value", "Tests compare a few texts per type; a swapped line or operand shows for one value only.",
     ["src/lib.rs", S], [("fmt::Display implementations", "src/lib.rs; " + S + "*.rs")], ["Display"])
prop("C23", "Equality and hashing of decoded values follow their content",
     "Structures and iterators decoded from the same bytes are equal; structures are equal exactly if all their fields are; equal ones hash alike and yield the same items. "
     "Iterators with different remaining items are never equal.",
     IN, "every pair of structures of a type", "It relates two values; the tests compare a value with an expected one, which a wrong comparison accepts.",
     ["src/lib.rs", S + "003_enclosure.rs", S + "009_system_slots.rs", S + "015_system_event_log"],
     [("PartialEq and Hash of ContainedElements, PeerDevices, SupportedEventLogTypeDescriptors and the derived ones", S)], ["==, Hash"])

prop("C24", "The error of a rejected structure names it and what it should have been",
     "A structure that is rejected for its length is reported with its own type and handle and with the length, or the minimum length, that the SMBIOS "
     "specification gives structures of that type and version; the length is counted with the header and is never the one that is being rejected. "
     "A structure that is rejected for a string reference is reported with its type, its handle and that reference.",
     IN, "every structure type with a decoder, every formatted length, content and version that is rejected",
     "Tests that decode valid structures never see these errors; the few that do compare one of them.",
     ["src/lib.rs", S], [("MalformedStructureError::InvalidFormattedSectionLength, InvalidStringIndex", S + "*.rs")], ["Structures::next", "MalformedStructureError"])

prop("C25", "However its iterators are advanced, the same items come out of them",
     "For every iterator of the crate (the walk over structures, the strings of a structure, contained elements, peer devices, group items, event log "
     "descriptors, and the flag views of bit fields), the number of items lies within what size_hint says at every position, and nth, skip, count, last and "
     "for_each give the items that repeated next gives; an iterator that has ended gives nothing more (strings: as long as they are UTF-8).",
     IN, "every iterator content, starting position and number of items skipped",
     "Tests call next or collect on a few fixed tables; a wrong override of another iterator method, or an iterator that starts again, escapes them.",
     ["src/lib.rs", "src/bitfield.rs", S], [("Iterator implementations", S + "*.rs")], ["Iterator"])

NOTE = ("For every value within the bounds given in the evidence file, each path of the compiled crate is covered and Z3 decides every branch and assertion; "
        "panics, out-of-bounds accesses, overflows and non-termination within the step bound count as violations. Trusts rustc 1.90's LLVM "
        "IR, the engine (engine/), Z3 and the oracle in harness/. Counterexamples count only if they reproduce on a native build.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in sorted(P, key=lambda x: x[0]["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p, _ in P]
assert sorted(ids) == sorted(spec.CHECKS), set(ids) ^ set(spec.CHECKS)
m = dict(version=1, setup_cmd="python3 vp.py setup", checks=[
    dict(property=i, quick_cmd="python3 vp.py check %s quick" % i, thorough_cmd="python3 vp.py check %s thorough" % i,
         technique="bounded symbolic execution of the crate's LLVM IR, decided by Z3, with native replay", level="model_checking",
         level_note=NOTE) for i in sorted(ids)], not_applicable=[],
    notes="No hooks in /repo: the harnesses use the public interface only. known_findings.json lists the recorded and the repaired defects.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
