#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one call each)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["LnkParse3/" + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": "LnkParse3/" + b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

API = ["lnk_file(indata=..., fhandle=..., cp=..., allow_terminal_blocks=...)", "get_json(get_all)"]

prop("C01", "Any byte string is reported or cleanly refused; parsing never crashes or hangs",
 "For every byte string, every supported code page and both terminal-block settings, parsing it and then producing every output (dictionary, JSON, readable text, shortcut target) terminates and raises nothing, whatever the content after the header is. The only permitted exception is the package's LnkParserError, raised while parsing and only when the input does not hold a complete 76-byte header (empty, shorter than 76 bytes, or declaring a header size below 76). Damage is signalled through Python warnings, never through exceptions.",
 ["inputs", "configurations"], "all byte strings (random, structured, mutated well-formed files, files with hostile sizes/offsets/counts), x code page x allow_terminal_blocks x all/not-all outputs",
 "The suite parses 34 fixed samples that were each fixed after a report; malformed input is an unbounded space and each offset, size and count field is a separate way to fail.",
 ["lnk_file.py", "lnk_header.py", "lnk_targets.py", "target_factory.py", "info_factory.py", "lnk_info.py", "string_data.py", "extra_data.py", "extra_factory.py", "exceptions.py"],
 [("except/warn guards", "extra_data.py:as_dict, string_data.py:__init__, lnk_targets.py:as_list, info_factory.py:info_class"), ("LnkParserError", "exceptions.py"), ("strictly advancing item and block loops", "lnk_targets.py, extra_data.py")],
 API + ["print_json", "print_lnk_file", "print_shortcut_target", "warnings"])

prop("C02", "Every ShellLinkHeader field is reported exactly as stored",
 "For every 76-byte header, the report gives the stored class identifier, link flags and file attributes (raw value, and exactly the names of the set bits in ascending bit order, undefined bits naming nothing), unsigned file size, signed icon index, raw hot key and reserved fields. The window style is SW_SHOWMAXIMIZED for 3, SW_SHOWMINNOACTIVE for 7 and SW_SHOWNORMAL for every other value. The hot key text is 'MODIFIER - KEY {0xLLHH}' when the high byte is 0, 1, 2 or 4 and the low byte is 0 or a key of MS-SHLLINK 2.1.3, and otherwise the two stored bytes in hexadecimal.",
 ["inputs"], "all values of all header fields (all 65536 hot keys and all single flag bits enumerated)",
 "The samples hold a few dozen headers, almost all with hot key 0, window style 1 and a handful of flag combinations.",
 ["lnk_header.py", "lnk_file.py"], [("field offsets and unpack formats", "lnk_header.py:LnkHeader"), ("flag, hot key and window style tables", "lnk_header.py")],
 ["get_json(True)['header']"])

prop("C03", "FILETIME and DOS timestamps denote the stored instant, or None if invalid",
 "A stored FILETIME of 100 ns ticks since 1601-01-01 UTC is reported as the UTC instant it denotes (to within floating-point rounding: 2 microseconds for dates up to 2300, 20 microseconds beyond) for every value a datetime can express, zero is reported as None without a warning, and a value outside the datetime range as None with a warning. A DOS date-time of a file entry is reported as the exact UTC instant its bit fields denote, zero as None without a warning, and impossible field combinations as None with a warning.",
 ["inputs"], "all 64-bit FILETIME values and all 32-bit DOS date-time values, in each of the three header times and in file entries",
 "The samples hold about a hundred recent dates; ranges, leap days, rounding, sign and invalid fields are hardly reached.",
 ["utils.py", "decorators.py", "lnk_header.py", "target/shell_fs_folder.py"], [("parse_filetime, parse_dostime", "utils.py"), ("filetime, dostime", "decorators.py")],
 ["get_json(True)['header']['creation_time'|'accessed_time'|'modified_time']", "target items' modification_time", "warnings"])

prop("C04", "The target ID list is reported item by item, in order, with the right class",
 "For every well-framed ID list (in the link target and in the Vista ID-list extra block) the report has exactly one entry per item, in stored order, up to the terminal item, and the list's stored size. An item's class depends only on its type byte: after masking with 0x70, 0x20/0x30/0x40 are Volume Item, File entry and Network location; 0x00, 0x01, 0x1E/0x1F, 0x52, 0x61, 0x70/0x71, 0x72, 0x73 and 0x74 are the control panel CPL file, control panel category, root folder, compressed folder, internet, control panel, printers, common places and users files classes; every other type is 'Unknown' with the stored item size and a warning. An item whose content cannot be interpreted is still listed by its class and does not disturb the entries around it.",
 ["inputs"], "all 256 type bytes x item sizes x list lengths x positions, interpretable or not",
 "The samples use seven item types in a few fixed orders; no sample has an unknown, damaged or repeated item between good ones.",
 ["lnk_targets.py", "target_factory.py", "target/lnk_target_base.py", "target/unknown.py", "extra/shell_item.py"], [("type dispatch and 0x70 mask", "target_factory.py:target_class"), ("item iteration", "lnk_targets.py:_id_lists, extra/shell_item.py:_id_list")],
 ["get_json(True)['target']", "get_json()['extra']['SHELL_ITEM_IDENTIFIER_BLOCK']['id_list']"])

prop("C05", "Shell item fields are reported exactly as stored, within the item's own bytes",
 "For every well-formed shell item each reported field equals the stored one: root folder (sort index value and name, GUID), volume (flags; name, or GUID when unnamed), file entry (kind, size, DOS time, attributes, ANSI or UTF-16 primary name), network location (kind, content flags, location, and description and comments exactly when flagged), control panel (GUID), category (identifier and name), CPL file in both the ANSI and the Unicode layout (signature, path, name, comments) and users files (signature, nested file entry, both GUIDs). The report of an item depends on no byte outside it, in the target list as well as in the Vista ID-list block.",
 ["inputs"], "all field values of all implemented item classes, both string encodings, with and without terminators and trailing extension data, followed by arbitrary bytes",
 "Only a few items of seven classes are sampled; layouts such as unnamed volumes, ANSI CPL items, categories or unterminated names are not reached.",
 ["target/root_folder.py", "target/my_computer.py", "target/shell_fs_folder.py", "target/network_location.py", "target/control_panel.py", "target/control_panel_category.py", "target/control_panel_cpl.py", "target/users_files_folder.py", "target/lnk_target_base.py"],
 [("field offsets", "target/*.py"), ("item slicing by ItemIDSize", "target/lnk_target_base.py:__init__")],
 ["get_json(True)['target']['items']", "get_json()['extra']['SHELL_ITEM_IDENTIFIER_BLOCK']"])

prop("C06", "Local LinkInfo (volume and base path) is reported exactly as stored",
 "For every well-formed LinkInfo whose VolumeIDAndLocalBasePath flag is set, the report says location 'Local' and gives the stored sizes, flags and offsets, the drive type (raw, and its name for 0-6, else None), the serial number in hexadecimal, the volume label from the ANSI or, when the label offset is 0x14, the Unicode location, and the base path and common path suffix in ANSI and, when the header is at least 0x24 bytes and the offset is non-zero, in Unicode. Each string is the one that starts at its stored offset from the structure's beginning and ends at its terminator. It does not matter in which order or with what gaps the parts are laid out.",
 ["inputs"], "all layouts, sizes, flags, drive types, serials and strings of a local LinkInfo",
 "All local samples have a 28-byte header, an ANSI label at offset 16 and drive types 2 or 3; the Unicode fields are never exercised.",
 ["lnk_info.py", "info/local.py", "info_factory.py", "lnk_file.py"], [("offset-based field access", "lnk_info.py, info/local.py"), ("class selection by flags", "info_factory.py"), ("report assembly", "lnk_file.py:get_json")],
 ["get_json(True)['link_info']"])

prop("C07", "Network LinkInfo is reported exactly as stored",
 "For every well-formed LinkInfo with only the CommonNetworkRelativeLink flag set, the report says location 'Network' and gives the stored sizes, flags and offsets, the raw provider type in hexadecimal and, when the ValidNetType flag is set, the MS-SHLLINK name of every listed provider type. It gives the net name, and the device name exactly when one is stored (non-zero offset), from the ANSI location when the net name offset is 0x14 and from the Unicode locations when it is larger, and the common path suffix. Each string is the one that starts at its stored offset.",
 ["inputs"], "all provider types, flag combinations, layouts and strings of a network LinkInfo",
 "One sample has a network LinkInfo (provider 0x20000, ANSI, with device name).",
 ["info/network.py", "lnk_info.py", "info_factory.py", "lnk_file.py"], [("provider table", "info/network.py:NETWORK_PROVIDER_TYPES"), ("offset-based field access", "info/network.py")],
 ["get_json(True)['link_info']"])

prop("C08", "StringData strings are recovered exactly, in order, with the 260-character limit",
 "For every combination of the five string flags, exactly the flagged strings are reported, each under its own name and equal to the stored text up to its first NUL, decoded as UTF-16LE when IsUnicode is set and by the code page otherwise. Name, relative path and working directory are cut at 260 characters, and the next structure is read immediately after those 260 characters, as Windows does; arguments and icon location are never cut, up to the maximum count of 65535.",
 ["inputs", "configurations"], "all flag combinations x encodings x counts 0..65535 (0, 1, 259, 260, 261 and large counts enumerated) x contents",
 "Samples hold about thirty short Unicode strings and a single over-long one; ANSI string data and limits on the other fields are not reached.",
 ["string_data.py", "text_processor.py", "lnk_file.py"], [("fixed reading order and length limit", "string_data.py:StringData")],
 ["get_json()['data']", "lnk_file.string_data getters"])

prop("C09", "Fixed-layout extra data blocks are reported exactly as stored, in any order",
 "For every sequence of extra data blocks, each recognised signature 0xA0000001-0xA000000C except 0xA000000A yields one entry under its block name with its stored size, and every field of the environment, console, tracker, code page, special folder, Darwin, icon, shim layer and known folder blocks equals the stored value: widths and signs as in MS-SHLLINK, GUIDs in canonical text, fixed-width strings up to their terminator only (of the console colour table, its first entry). The entries do not depend on the order of the blocks or on which other blocks are present.",
 ["inputs"], "all sequences of distinct blocks x all field values (signed and unsigned extremes, full-width strings, garbage after terminators)",
 "Several block types (shim layer, code page, Vista ID list) occur in no sample and the others in a few with everyday values.",
 ["extra_data.py", "extra_factory.py", "extra/environment.py", "extra/console.py", "extra/distributed_tracker.py", "extra/code_page.py", "extra/special_folder.py", "extra/darwin.py", "extra/icon.py", "extra/shim_layer.py", "extra/known_folder.py"],
 [("signature dispatch", "extra_factory.py:EXTRA_SIGS"), ("field offsets", "extra/*.py")], ["get_json()['extra']"])

prop("C10", "The metadata property store is reported exactly as stored",
 "For every well-formed property store block, the report lists every storage (size, version, format GUID) and in it every property value, in stored order and with nothing lost or invented: integer-named properties by identifier and, for format D5CDD505-2E9C-101B-9397-08002B2CF9AE, string-named ones by name and name size, with the value size and the MS-OLEPS type name. A VT_LPWSTR value is the stored text, a VT_I2 value the stored signed 16-bit integer, and a value of any other type or with non-zero padding is None.",
 ["inputs"], "all numbers and mixes of storages and properties, all property types of MS-OLEPS, all values and names",
 "The samples contain five of the seventy-odd types and one string-named storage, none with VT_I2.",
 ["extra/metadata.py"], [("storage and value iteration", "extra/metadata.py:property_store, serialized_property_values"), ("typed values", "extra/metadata.py:TypedPropertyValue")],
 ["get_json()['extra']['METADATA_PROPERTIES_BLOCK']"])

prop("C11", "GUIDs and packed Darwin identifiers are decoded faithfully",
 "Every GUID in a report (link class, shell items, tracker, known folder, property format) is the canonical upper-case text of its 16 stored bytes, so that distinct stored GUIDs are always reported as distinct text. A Darwin descriptor made of a packed product code, an optional feature name and '>' with a packed component code or '<' is reported as exactly that product code, that feature name (None if empty) and that component code (None after '<'). A product or component code that is not the packed form of 16 bytes (shorter than 20 characters, a character that is no base-85 digit, or a group above 2^32-1) is reported as None with a warning, and the rest of the descriptor as stored.",
 ["inputs"], "all 128-bit GUID values in every place one occurs; all packings of product code, feature name and component code",
 "Two Darwin descriptors and a few dozen GUIDs are sampled; digit order and base-85 carries are visible only on other values.",
 ["utils.py", "decorators.py", "extra/darwin.py"], [("parse_uuid, parse_packed_uuid", "utils.py"), ("descriptor splitting", "extra/darwin.py")],
 ["get_json()['header']['guid']", "get_json()['extra']['DARWIN_BLOCK']", "target items' guid fields"])

prop("C12", "Unknown blocks and appended data are never lost and are fingerprinted exactly",
 "Every extra block with an unrecognised signature is listed in stored order under UNKNOWN_BLOCK with its stored size and the SHA-256 of its bytes after the size field, however many there are and wherever they stand among known blocks; so is one of 4 to 7 bytes, which has no room for a signature. A last block that claims more bytes than the file has is reported, with the claimed size, from the bytes there are. When the terminal block (any value below 4) is followed by data, and terminal blocks are allowed, TERMINAL_BLOCK gives the SHA-256 of exactly the bytes after the four terminal bytes; without following data, or with terminal blocks disallowed, there is no TERMINAL_BLOCK.",
 ["inputs", "configurations"], "all signatures, sizes, counts and positions of unknown blocks; all terminal values 0-3; all appended data; both settings",
 "One sample has an unknown block and one has appended data.",
 ["extra_data.py", "extra_factory.py", "extra/unknown.py", "extra/terminal.py"], [("Unknown fallback and list", "extra_factory.py:extra_class, extra_data.py:as_dict"), ("Terminal detection", "extra_data.py:process")],
 ["get_json()['extra']"])

prop("C13", "The reported structure size is exact, so concatenated links can be walked",
 "For every well-formed link file the size attribute (and the 'size' entry of the report) equals the number of bytes of the structure including its terminal block (or what there is of it, if the file ends within it), and appended data counts exactly when terminal blocks are allowed. Hence, with terminal blocks disallowed, walking a concatenation of links by their reported sizes reproduces for each link the report that the link gives on its own.",
 ["inputs", "histories"], "all well-formed files, all concatenations of them with separators (as in customDestinations-ms), both settings",
 "One concatenation of nine similar links is tested, with an offset given by that file.",
 ["lnk_file.py", "extra_data.py", "string_data.py", "lnk_targets.py", "lnk_info.py"], [("index accounting in process()", "lnk_file.py:process"), ("size() of every section", "*.py")],
 ["lnk_file.size", "get_json()['size']"])

prop("C14", "ANSI text follows the chosen code page, then UTF-8, then replacement",
 "Every non-Unicode string of a report (string data, shell items, LinkInfo, extra blocks) is the bytes before the first NUL decoded with the code page given (Windows-1252 if none), or as UTF-8 if that code page cannot decode them, or with the code page and replacement characters plus a warning if neither can. Unicode strings are the UTF-16LE code units before the first NUL unit, with replacement characters and a warning for invalid sequences (half a unit at the end included) only, and do not depend on the code page.",
 ["inputs", "configurations"], "all byte contents x all single- and multi-byte Python code pages for Windows x every string location",
 "Samples cover four decoding cases at the default code page; no test sets a code page.",
 ["text_processor.py", "string_data.py", "target/lnk_target_base.py", "lnk_info.py", "extra/lnk_extra_base.py", "lnk_file.py"], [("decode with fallback", "text_processor.py:TextProcessor"), ("cp passed down to every section", "lnk_file.py:process")],
 ["get_json(True)", "warnings"])

prop("C15", "Truncation loses only what was cut off",
 "For every prefix of a well-formed link file that contains the whole header, the report is produced, its header equals that of the full file, and every target item, string, LinkInfo structure and extra block that lies entirely inside the prefix is reported exactly as in the full file.",
 ["inputs", "fault_sequences"], "all well-formed files x all cut points from 76 to the full length",
 "No sample is a systematic truncation; each cut point is a different malformed file.",
 ["lnk_file.py", "lnk_targets.py", "lnk_info.py", "string_data.py", "extra_data.py"], [("forward-only parsing with per-section guards", "lnk_file.py:process, get_json")],
 ["get_json(True)", "print_json", "print_lnk_file"])

prop("C16", "Damage inside one section leaves every other section's report unchanged",
 "If bytes are overwritten inside one section of a well-formed file without touching its framing (sizes, counts, block signatures, header link flags), every other section is reported exactly as before: other target items, LinkInfo, other strings, other extra blocks, other header fields and the total size. Damaged parts may be reported differently, reduced to their class, or dropped with a warning, but nothing else is.",
 ["inputs", "fault_sequences"], "all well-formed files x all overwrites confined to one target item, the LinkInfo body, one string, one extra block or the non-flag header fields",
 "Requires comparing pairs of related files; the tests compare single files with recorded output.",
 ["lnk_file.py", "lnk_targets.py", "extra_data.py", "string_data.py", "target/lnk_target_base.py"], [("framing by sizes only", "lnk_file.py:process, lnk_targets.py:_id_lists, extra_data.py:process"), ("per-item and per-block guards", "lnk_targets.py:as_list, extra_data.py:as_dict")],
 ["get_json(True)"])

prop("C17", "Parsing and reporting are pure: no call changes any later result",
 "For every sequence of constructions and output calls over several links in one process, each output equals the one a fresh parse of the same bytes and options gives as its first call: it does not depend on earlier calls, on other link objects, or on whether the bytes came as a file handle or a buffer. The input buffer is never modified, and modifying a returned dictionary does not affect later outputs.",
 ["histories", "inputs"], "all interleavings of parse/get_json/print_json/print_lnk_file/print_shortcut_target calls over several inputs and options",
 "Each test makes one output call on one object.",
 ["lnk_file.py", "text_processor.py", "lnk_targets.py", "extra_data.py"], [("no shared mutable state; dictionaries rebuilt on each call", "lnk_file.py:get_json")],
 ["all outputs of lnk_file"], [("LnkFile and section objects", "parsed views over the immutable input", "LnkParse3/lnk_file.py")])

prop("C18", "The default report is the full report minus the offset and size fields only",
 "For every file, get_json(False) equals get_json(True) with exactly these removed: the header size and reserved fields, the LinkInfo size, header size and four offsets, the volume ID size and label offset (local) or relative-link size and name offsets (network), the target list's size and index, and the modification time of top-level target items. No other entry is missing, added or changed. The reduced report is what the calls without an argument give (get_json(), print_json(), print_lnk_file()).",
 ["inputs", "configurations"], "all files, well-formed or damaged, local, network or without LinkInfo",
 "One recorded sample compares the reduced output, for a local link only.",
 ["lnk_file.py"], [("pop list of get_json", "lnk_file.py:get_json")], ["get_json(True)", "get_json(False)", "print_json"])

prop("C19", "JSON, readable and command-line output carry the same data as the API report",
 "For every file, print_json emits one valid JSON document equal to get_json with datetimes as ISO 8601 text without microseconds, with keys sorted. The readable output starts with the title line and is, after removal of the indentation, a YAML document with the same values under the readable key names (header fields at top level, flags as text with the raw value, item classes as keys), whatever characters the strings contain (except U+0085, a line break in YAML). The JSON forms use ASCII only, so that they can be written to a standard output of any encoding; the readable forms show the same text through every encoding that has its characters. The command line prints the same text as the corresponding API call for every combination of -t, -j, -a and -c.",
 ["inputs", "configurations"], "all files and string contents (control, YAML-significant, multi-line, non-BMP characters) x all option combinations",
 "The readable output is compared for four samples, the command line is not tested at all.",
 ["lnk_file.py"], [("print_json, print_lnk_file, main", "lnk_file.py"), ("yaml.dump, json.dumps", "lnk_file.py")], ["stdout of print_json, print_lnk_file, lnkparse"])

prop("C20", "The shortcut target is the quoted relative path followed by the exact arguments",
 "For every file, the shortcut target is the relative path, quoted so that the Windows command-line rules read it back as that single argument (in double quotes only if it is empty or holds a space or a tab), followed after one space by the command-line arguments verbatim, when both are present; one of them alone when only one is present; and empty when neither is. The JSON form is an object with that text under 'shortcut_target'.",
 ["inputs"], "all relative paths (spaces, quotes, backslashes, tabs) and arguments, each present, absent or cut off by truncation",
 "One sample, without spaces, quotes or arguments, is tested.",
 ["lnk_file.py", "string_data.py"], [("lnk_command", "lnk_file.py"), ("subprocess.list2cmdline", "lnk_file.py")], ["lnk_command", "print_shortcut_target"])

prop("C21", "Deviations are reported by warnings, and clean files raise none",
 "Parsing and reporting a well-formed file whose mandated fields have their mandated values and whose text, dates and identifiers are all interpretable emits no warning. Each of these deviations emits at least one warning: header size, class identifier or reserved fields (in the full report) or tracker length or version differing from the mandated value; an unrepresentable time; undecodable text; an unknown item type, root folder sort index, file entry kind or control panel category; an ID list (target list or Vista block) that ends within the size or type of an item (one or two bytes left over); an item or extra block whose size leaves out part of its fixed fields; a file that ends within the size or signature of an extra block; a LinkInfo whose volume ID or network relative link lies beyond the end of the file; and a flagged section that is missing altogether because the file ends before it (fewer than 2 bytes of an ID list or of a string, fewer than 12 of a LinkInfo).",
 ["inputs"], "all well-formed files; all single and combined deviations of the listed kinds",
 "The tests silence warnings.",
 ["decorators.py", "utils.py", "text_processor.py", "lnk_header.py", "extra/distributed_tracker.py", "target_factory.py", "target/root_folder.py", "target/control_panel_category.py", "string_data.py", "extra_data.py"], [("must_be and warnings.warn sites", "decorators.py, utils.py, text_processor.py, target/*.py")], ["warnings module"])

prop("C22", "Section presence and position follow the header flags and the stored sizes",
 "For every combination of the link flags, exactly the flagged sections are reported, and each section is read at the offset given by the sizes of the flagged sections before it. A LinkInfo that is marked to be ignored (ForceNoLinkInfo), or that holds neither a volume nor a network location, is reported as empty but still occupies its stored size, so that the strings and blocks after it are read correctly. A section whose stored size reaches beyond the end of the file is the last one: nothing is reported from after it.",
 ["inputs"], "all 512 combinations of HasTargetIDList..IsUnicode and ForceNoLinkInfo x LinkInfo flags x section sizes, including padding inside the ID list and LinkInfo",
 "Samples use about fifteen flag combinations, none with ForceNoLinkInfo or an empty LinkInfo.",
 ["lnk_file.py", "info_factory.py", "lnk_header.py"], [("process()", "lnk_file.py:process"), ("info_class", "info_factory.py")], ["get_json(True)"])

prop("C23", "Outputs do not depend on the environment, the clock or where the file lies",
 "For the same bytes, code page and settings, every output (dictionary, JSON, readable text, shortcut target, command line) and the warnings are identical whatever the time zone, locale, UTF-8 mode, hash seed, interpreter optimisation (-O, -OO, -X dev), environment variables, terminal size, current date and working directory, and whatever the name, path (absolute or relative), modification time and permissions of the file the bytes are read from. Times are always reported in UTC, and text that looks like a variable or a home folder is not expanded.",
 ["configurations", "inputs"], "all files x process environments (time zones, hash seeds, locales, interpreter options, clock, variables, working directories, file names)",
 "The suite runs in one process with one environment, and compares against fixed results.",
 ["lnk_file.py", "utils.py", "text_processor.py", "lnk_header.py"], [("UTC times", "utils.py:parse_filetime, parse_dostime"), ("insertion-ordered or sorted entries", "lnk_file.py:get_json, print_json"), ("default code page of the constructor and command line", "lnk_file.py, text_processor.py")],
 ["all outputs of lnk_file", "stdout of lnkparse", "warnings"])

prop("C24", "Concurrent parses and reports do not affect each other",
 "When several threads parse files and produce outputs at the same time, each on link objects of its own or reading from a common object that was made before, every result, printed text and the collected warnings are the same as if the same calls were made one after another, for every interleaving, whatever files, code pages and settings the other threads use.",
 ["schedules", "inputs"], "all interleavings of 2-3 threads' parses and outputs (switches at every line or bytecode operation of the package) x files x code pages",
 "The tests use one thread.",
 ["lnk_file.py", "text_processor.py", "lnk_targets.py", "extra_data.py", "string_data.py", "target_factory.py"], [("no state shared between link objects: every parser holds its own views", "lnk_file.py:process"), ("text processor of each section", "text_processor.py:TextProcessor")],
 ["all outputs of lnk_file", "warnings"], [("LnkFile and section objects", "parsed views over the immutable input, not written after construction", "LnkParse3/lnk_file.py")])

prop("C25", "Every report has one fixed shape, plain typed values, and agrees with itself",
 "For every input that is not refused, well-formed, damaged or arbitrary, the full report consists of exactly the known entries: each header field; a target with size, index and items, each item complete with the fields of its class or, if it is too short for them, reduced to its class; a LinkInfo that is empty, or has its seven sizes, flags and offsets and only the texts and location entries of its kind; the five optional strings; and for each reported block all fields of its kind. Every value is a plain integer within the range of its field, text without NUL that can be encoded, a UTC time or None, an upper-case GUID, a lower-case SHA-256, or None where a value may be invalid (never a malformed identifier or a bytes object). Values reported both raw and decoded agree: names of link flags, file flags, hot key, drive type, network provider, sort index and category, the presence of volume name, description, comments, Unicode paths and labels, the location kind and the sections with their flags and offsets.",
 ["inputs"], "all byte strings (random, structured, damaged files, hostile sizes and offsets, arbitrary Darwin descriptors) x code pages x terminal-block settings",
 "The suite compares fixed samples; a value of a wrong type or an inconsistent entry needs a file whose fields contradict each other.",
 ["lnk_file.py", "lnk_header.py", "lnk_targets.py", "lnk_info.py", "info/local.py", "info/network.py", "extra_data.py", "extra/darwin.py", "extra/metadata.py", "utils.py", "target/lnk_target_base.py"], [("as_item and as_dict of every structure", "target/*.py, extra/*.py"), ("all-or-nothing guards", "lnk_targets.py:as_list, extra_data.py:as_dict, lnk_file.py:_add_link_info"), ("parse_uuid, parse_packed_uuid", "utils.py")],
 ["get_json(True)"])

prop("C26", "Analysing a file touches nothing but the input and the output",
 "For every file, importing the package, parsing and reporting open, look up, write, execute or contact nothing that the file names or that exists around it: the only thing opened is the given file, once, for reading; no other process, thread, network connection or file is used or left behind, and the settings of the process (working directory, environment, locale, warning filters and hooks, signal handlers, random state, logging, registries and defaults of json, yaml and codecs, recursion limit, open descriptors) are the same afterwards. Only the print functions write to standard output, and nothing is written to standard error beyond warnings. A file handle needs only read(), is read from its current position, is not closed or changed, and gives the report of the bytes it delivers.",
 ["inputs", "histories"], "all files, among them texts that name local paths, hosts, URLs, commands, templates or code x kinds of handles (memory, file, unbuffered, pipe, compressed, read-only object) x positions x outputs x command lines",
 "The tests compare what is returned; a look at the file system or a changed global setting leaves the result as it is.",
 ["lnk_file.py", "text_processor.py", "extra/environment.py", "extra/icon.py", "string_data.py", "decorators.py"], [("fhandle.read()", "lnk_file.py:LnkFile.__init__"), ("output by print and yaml.dump with default dumper", "lnk_file.py:print_lnk_file, print_json"), ("warnings.warn", "all modules")],
 ["audit events of the interpreter", "os look-ups", "process settings", "stdout and stderr", "the handle"])

prop("C27", "Working through any number of links leaves nothing behind",
 "However many different links a process parses, reports and drops, the memory in use does not keep growing, no file descriptor, thread or uncollectable object is left, and no text, identifier or link object is kept for longer than a bounded cache would.",
 ["histories"], "batches of 200 different links derived from well-formed, damaged and sample files x outputs x buffer or handle",
 "The tests parse each file once and end.",
 ["lnk_file.py", "text_processor.py", "utils.py", "lnk_targets.py", "extra_data.py"], [("objects refer to their input only", "lnk_file.py:process"), ("no module-level caches", "utils.py, text_processor.py")],
 ["memory in use (tracemalloc)", "open descriptors", "threads"], [("retained memory", "constant in the number of links processed", "LnkParse3/lnk_file.py")])

prop("C28", "The Python interface agrees with the report, however the link object is made",
 "For every file that is not refused: has_target_id_list, has_link_info, has_name, has_relative_path, has_working_dir, has_arguments, has_icon_location, is_unicode and force_no_link_info are exactly the stored flag bits; format_linkFlags and format_fileFlags give the names of the set bits and the raw value; the accessors of header, strings, target items, LinkInfo and extra blocks return the values of the full report, before and after any output. The object is the same whether it is made from a handle or from bytes, by position (handle, bytes, code page, terminal blocks) or by keyword; the defaults are Windows-1252 and terminal blocks allowed.",
 ["inputs", "configurations"], "all files x 12 ways to construct x orders of accessor and output calls; all 512 combinations of the nine flags",
 "The suite calls print_json and print_lnk_file of one object per file, made in one way.",
 ["lnk_file.py", "lnk_header.py", "string_data.py", "lnk_targets.py", "extra_data.py", "lnk_info.py"], [("has_*, is_unicode, format_*", "lnk_file.py:LnkFile"), ("constructor", "lnk_file.py:LnkFile.__init__")],
 ["methods of the link object", "get_json(True)"])

prop("C29", "A file that was cut off reports nothing that the whole file does not hold",
 "For every well-formed file and every cut at or behind the end of the header, every value in the report of the remaining bytes is the value that the report of the whole file has at the same place, or, for a text in a code page that defines every byte, the beginning of it (an incomplete last character may be shown as one replacement character); what cannot be read completely is left out, null or (for a text) empty. Excepted: the hashes of the terminal block and of blocks that are cut, which are those of the bytes present; the total size; the size shown for the terminal block; and control panel items in Unicode form, whose type is told from bytes that the cut may remove.",
 ["crash_points", "inputs"], "every cut point x every section, item and block kind; swept for whole files, sampled next to section borders",
 "No test file is cut off.",
 ["lnk_file.py", "string_data.py", "lnk_info.py", "lnk_targets.py", "extra_data.py", "info/*.py", "target/*.py", "extra/*.py", "utils.py", "structure.py"],
 [("StructError handlers", "lnk_file.py:LnkFile.process"), ("length of slices", "structure.py, utils.py"), ("partial text", "text_processor.py")],
 ["get_json(True)"])

prop("C30", "Command line: status, standard output and standard error tell the truth",
 "For every file and every combination, order, spelling (-t/--target, -j/--json, -a/--all, -c X, -cX, --codepage X, --codepage=X), grouping and repetition of the documented options, before or behind the file name, with or without --, and for every way to name the file (any characters, relative, symbolic link, named pipe, /dev/stdin), lnkparse exits with status 0 and writes on standard output exactly what the API call prints (print_shortcut_target(json) with -t, else print_json(all) with -j, else print_lnk_file(all); Windows-1252 unless -c says otherwise, the last -c counting), and standard error is empty exactly when that call gives no warning. If the file is missing, is no readable file, is refused as a link, or the arguments are wrong, the status is not 0, standard error says something and standard output is empty; if the output cannot be written, the status is not 0. -h and --help exit with status 0 and name every option.",
 ["inputs", "configurations", "fault_sequences"], "all files x all option lists x file names and kinds x output faults",
 "The suite never runs the command line.",
 ["lnk_file.py"], [("main", "lnk_file.py:main")],
 ["lnkparse (main())", "python -m LnkParse3.lnk_file", "exit status, stdout, stderr"])

prop("C31", "Inside LinkInfo and the Vista ID list, damage stays in its part",
 "For every well-formed file: when bytes of a part of the LinkInfo (volume ID, network relative link, the four paths) or the header offset that leads to it are overwritten with anything, or the file is cut behind the LinkInfo header, the location, the header entries and every part whose bytes and offset are intact are reported as in the undamaged file; when bytes of an item of the Vista ID list block behind the item's size are overwritten, or the file is cut behind the block header, every other complete item is still reported, at its place and as before. All outputs still work.",
 ["inputs", "fault_sequences", "crash_points"], "all LinkInfo layouts and Vista lists x each part, offset or item x arbitrary bytes x cut points",
 "No test file is damaged inside a LinkInfo or ID list block.",
 ["lnk_file.py", "lnk_info.py", "info/*.py", "extra/shell_item.py", "lnk_targets.py", "structure.py"],
 [("independent handlers per part", "lnk_file.py:LnkFile._add_link_info"), ("ID list items", "extra/shell_item.py")],
 ["get_json(True) link_info", "get_json(True) extra id_list"])

prop("C32", "Memory and output stay in proportion to the file",
 "For every byte sequence as a file: the memory in use at any time while it is parsed and reported, and the length of the report, of each printed output and of all warnings together, are bounded by a constant times the length of the file (plus a constant). In particular nothing is allocated, padded or repeated because of a size, count or offset that the file merely claims, and a file of many small items, blocks, property storages, properties or overlapping strings does not need memory or output that grows with the square of their number.",
 ["inputs"], "all files; structures x their contents x number of repetitions x claimed sizes",
 "The largest sample has 4 kB and every size in it is true; nothing measures memory.",
 ["lnk_targets.py", "extra_data.py", "extra/shell_item.py", "extra/metadata.py", "extra/lnk_extra_base.py", "lnk_info.py", "info/*.py", "string_data.py"],
 [("generators and slices instead of kept copies", "lnk_targets.py:_id_lists, extra_data.py:process, extra/metadata.py"), ("values limited to their own size", "extra/metadata.py")],
 ["get_json", "print_json", "print_lnk_file", "warnings"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
