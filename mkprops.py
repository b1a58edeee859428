#!/usr/bin/env python3
"""writes properties.jsonl (single place where titles and statements live)"""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state="", hook=False):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": [observe], "hook_needed": None}})

p("P01", "Version comparison is a total order by major then minor",
  "Comparing two version numbers returns a negative, zero or positive result exactly as the first is older than, equal to or newer than the second, ordering by major number first and minor number second, over the whole unsigned 32-bit range of both components.",
  ["inputs"], "every pair (and triple) of versions with 32-bit components",
  "the test-suite compares a handful of small versions; wrap-around and large gaps need the full 2^128 input space",
  ["lib/util.c"], [("dc_version_compare", "lib/util.c"), ("dc_version_set", "lib/util.c")], "return value of dc_version_compare")
p("P02", "Version text form round-trips and never overruns its buffer",
  "Writing a version as text yields its decimal major number, a dot and its decimal minor number, always NUL-terminated inside the caller's buffer, and parsing such text gives back exactly the same version. Text that does not begin with a number, a dot and a number is rejected as an invalid argument.",
  ["inputs"], "every version (decimal text up to 10 digits per component), every buffer size, every input text up to the bound",
  "tests parse fixed strings; the guarantee is over all texts, buffer sizes and component values",
  ["lib/util.c"], [("dc_version_string", "lib/util.c"), ("dc_version_convert", "lib/util.c")], "output buffer / parsed version")
p("P03", "A keyval returns exactly the typed value last stored in it",
  "After a value of the keyval's own type is stored successfully, reading it back returns that value unchanged (strings and enums byte for byte at the given length); storing or reading through an accessor of another type fails with a wrong-value-type status and leaves the stored value and the caller's output untouched (the enum reader also serves string keyvals). This holds for any sequence of stores.",
  ["inputs", "histories"], "all 64-bit integers, all doubles, booleans, bounded strings, every accessor type, sequences of stores",
  "tests store a few literals; extreme values, empty or shrinking strings and mixed accessor sequences are not sampled",
  ["lib/context_value.c"], [("dc_set_value_*", "lib/context_value.c"), ("dc_get_value_*", "lib/context_value.c"), ("dx_value_set_string", "lib/context_value.c")],
  "dc_get_value_* after dc_set_value_*")
p("P04", "Storing a value from text parses by the declared value type",
  "Setting a keyval from text stores the decimal integer or floating point number the text begins with, the string or enum text itself, or the boolean whose text starts with 0/f/F (false) or 1/t/T (true), according to the declared value type; other text is rejected as an invalid argument and the stored value is unchanged. A default is added from text in the same way for string, integer and float keyvals and refused for the other types.",
  ["inputs"], "every text up to the bound, each value type",
  "tests use a couple of literal texts per type",
  ["lib/context_value.c", "lib/context_default.c"], [("dc_set_value", "lib/context_value.c"), ("dc_add_default", "lib/context_default.c")], "dc_set_value then dc_get_value_*")
p("P05", "Textual value output stays inside the caller's buffer and is terminated",
  "Reading a keyval's value or a default as text never writes outside the caller's buffer, always NUL-terminates it, yields the longest prefix of the full text that fits, and reports the full text's size. A buffer size that cannot hold anything is rejected as an invalid argument.",
  ["inputs"], "every buffer size up to the bound, every value type, string values up to the bound",
  "tests use ample buffers; truncation happens only at the exact boundary sizes",
  ["lib/util.c", "lib/context_value.c", "lib/context_default.c"], [("dx_value_stringify", "lib/util.c"), ("dc_get_value", "lib/context_value.c"), ("dc_get_default", "lib/context_default.c")],
  "bytes of the caller's buffer and around it")
p("P06", "Numeric and range restrictions admit exactly the permitted values",
  "A keyval of a numeric type accepts a value if and only if no value restriction is active at the configuration's version, or at least one active one admits it: a range admits everything between its bounds inclusive, a numeric restriction exactly its number. A restriction is active from the version it was introduced in until, if it has one, its deprecation version.",
  ["inputs", "configurations"], "all values and bounds of magnitude up to 2^53 (integers) and finite doubles (floats), all introduced/deprecated/config versions, up to three restrictions",
  "tests probe a few fixed values against fixed restrictions at one version",
  ["lib/context_restriction.c", "lib/context_value.c"], [("dx_restriction_exclusive_value_check", "lib/context_restriction.c"), ("dc_set_value_integer/float", "lib/context_value.c")],
  "status of setting a value on a configuration keyval and validity of the configuration")
p("P07", "Enum keyvals accept exactly the enumerators active at their version",
  "An enum keyval of a configuration accepts a text if and only if it equals, over its full given length, an enumerator that is active (introduced and not yet deprecated) at the configuration's version; with no active enumerator nothing is accepted, and an enum keyval without a value is invalid.",
  ["inputs", "configurations"], "every text up to the bound with explicit length, all introduced/deprecated/config versions, up to three enumerators",
  "tests use two literal enumerators at one version; prefix lengths and version windows are not sampled",
  ["lib/context_restriction.c", "lib/context_value.c"], [("dc_set_value_enum", "lib/context_value.c"), ("dx_restriction_exclusive_value_check", "lib/context_restriction.c")],
  "status of dc_set_value_enum and stored value")
p("P08", "A finalized keyval keeps its last valid value when a store is refused",
  "Storing a restricted or wrongly typed value into a finalized configuration keyval is refused (restriction-violated or wrong-value-type) and the previous value remains readable; storing it while the keyval is still under construction is remembered as invalid and prevents a valid finalization until a permitted value is stored.",
  ["histories"], "any sequence of up to four stores around finalization, with arbitrary values",
  "tests follow one fixed sequence; the interplay of state and value needs all orders",
  ["lib/context_value.c", "lib/context.c", "lib/validate.c"], [("dc_set_value_*", "lib/context_value.c"), ("dc_finalize", "lib/context.c"), ("dx_validate_context", "lib/validate.c")],
  "status codes and value read back, dc_context_valid")
p("P09", "The effective default is the newest one introduced at or before a version",
  "Asking for a keyval's default at a version yields the default with the greatest introduction version not newer than that version (the oldest default if all are newer; the newest of all when no version is given), whatever order the defaults were added in. A second default with an introduction version already used is reported as an error and makes the keyval and its mold invalid.",
  ["inputs", "configurations"], "up to four defaults with arbitrary versions in every order of insertion, every queried version",
  "tests add two or three defaults in ascending order",
  ["lib/context_default.c"], [("dx_default_get_active", "lib/context_default.c"), ("dx_default_finalize", "lib/context_default.c")], "dc_get_default, dc_keyval_set_default, generated configurations")
p("P10", "The effective documentation is the newest introduced at or before a version",
  "Asking for a context's documentation at a version yields the documentation with the greatest introduction version not newer than it (the newest of all when no version is given), the oldest when all are newer, whatever order they were finalized in. Finalizing documentation with an already used introduction version is refused as conflicting, adding one once a finalized one exists is refused as existing, and a configuration answers with its mold's documentation.",
  ["inputs", "configurations"], "up to three documentations with arbitrary versions in every order, every queried version",
  "tests add at most two documents in one order",
  ["lib/context_documentation.c"], [("dc_get_documentation", "lib/context_documentation.c"), ("dx_documentation_finalize", "lib/context_documentation.c")], "dc_get_documentation")
p("P11", "Minimum and maximum entries follow the restriction active at the version",
  "The allowed number of entries of a keyval or section in a configuration is given by the minimum and maximum restrictions with the greatest introduction version not newer than the configuration's version, defaulting to exactly one when none applies, unlimited when the maximum is zero, a maximum below the minimum counting as the minimum; an element not yet introduced or already deprecated at that version requires and allows none. A configuration is valid only if every element's number of entries lies within these limits.",
  ["inputs", "configurations"], "arbitrary min/max values and versions, entry counts up to the bound, keyvals and sections, root and nested",
  "tests use fixed limits at one version",
  ["lib/context_restriction.c", "lib/validate.c"], [("dx_restriction_entries_value", "lib/context_restriction.c"), ("validate_inclusive_restrictions", "lib/validate.c")],
  "dc_restriction_entries_minimum/maximum, disir_config_valid")
p("P12", "A configuration only contains elements its mold defines",
  "A keyval or section in a configuration can only take a name that the mold defines at the same place and with the same kind of element, and a keyval's value type is always the one the mold declares. A configuration holding an unnamed, unknown, wrongly valued or over-counted element is reported as invalid, and the report lists every offending context, besides them at most sections enclosing one, and never a valid element.",
  ["inputs", "configurations"], "every name up to the bound, both kinds of element, nested and root parents",
  "tests use a few literal names",
  ["lib/context.c", "lib/context_keyval.c", "lib/context_section.c", "lib/validate.c"], [("dc_set_name", "lib/context.c"), ("dx_validate_context", "lib/validate.c"), ("dx_invalid_elements", "lib/validate.c")],
  "dc_set_name status, dc_finalize, disir_config_valid collection")
p("P13", "A mold's version is the greatest version mentioned by its contents",
  "The version of a finalized mold equals the greatest introduction or deprecation version given to any default, restriction, documentation, keyval or section before it was finalized in it, at any depth, and is never less than 1.0. A configuration begun from it starts at version 1.0 and can be set to any version not newer than its mold's, a newer one being refused as conflicting.",
  ["inputs", "configurations"], "arbitrary versions on up to four versioned parts placed at any level and in any order",
  "tests use fixed ascending versions",
  ["lib/context_mold.c", "lib/context_util.c", "lib/context_default.c"], [("dx_mold_update_version", "lib/context_util.c"), ("dc_mold_finalize", "lib/context_mold.c")], "dc_mold_get_version, dc_config_get_version")
p("P14", "Mold construction refuses inconsistent definitions",
  "While building a mold, a keyval without name, value type or default, a section without a name, a restriction whose kind does not fit its parent's value type and a default of another type than its keyval are refused with an error and never become part of a usable mold.",
  ["inputs", "histories"], "every combination of value type, restriction kind, parent kind and missing part",
  "tests cover selected combinations only",
  ["lib/validate.c", "lib/context_restriction.c", "lib/context_default.c", "lib/context_keyval.c"], [("dx_validate_context", "lib/validate.c"), ("dc_set_restriction_type", "lib/context_restriction.c"), ("dc_add_default_*", "lib/context_default.c")],
  "status of set/finalize calls and content of the mold")
p("P15", "Generating a configuration yields a valid one holding the effective defaults",
  "Generating a configuration from a valid mold at a version not newer than the mold's yields a configuration at that version (the mold's when none is given) in which every keyval and section is present in exactly its minimum number of entries at that version, every keyval holding the default effective at that version, and nothing else; it is valid whenever those defaults satisfy the restrictions active then. A newer version is refused as conflicting without leaving anything allocated, and generating below an existing configuration or section adds exactly the minimum entries of what its mold defines there.",
  ["inputs", "configurations"], "arbitrary versions of defaults, introductions, deprecations and entry restrictions in a bounded mold, every target version",
  "tests generate from a few molds at one or two versions",
  ["lib/generate.c", "lib/context_restriction.c", "lib/context_default.c"], [("disir_generate_config_from_mold", "lib/generate.c"), ("dc_generate_from_config_root", "lib/generate.c")], "the generated configuration read through queries; disir_config_valid")
p("P16", "Updating a configuration keeps user changes and adopts new defaults",
  "Finishing an update to a newer version (the mold's when none is given) yields a valid configuration at that version with the elements it requires and every former entry it still permits, in which a keyval keeps its value if no newer default has been introduced since the configuration's version and adopts the new default if it still held the old one. A value the user changed although a newer default came, or that the target version's restrictions refuse, is reported as a conflict that only a resolution the target permits settles. Updating to an older version, or one newer than the mold's, is refused as conflicting and to the same version reports that there is nothing to do.",
  ["inputs", "histories"], "arbitrary values, defaults and versions of a bounded mold, every resolution order",
  "tests walk two scripted updates",
  ["lib/update.c"], [("disir_update_config", "lib/update.c"), ("disir_update_continue", "lib/update.c"), ("disir_update_resolve", "lib/update.c"), ("disir_update_finished", "lib/update.c")],
  "configuration returned when the update is finished")
p("P17", "Comparing two trees reports a difference exactly when they differ",
  "Comparing two contexts of the same kind succeeds with no difference reported when they are identical, and reports a conflict whenever they differ in element names, number of elements, value type, any value, defaults, restrictions or documentation at any depth, regardless of argument order; a tree always equals itself.",
  ["inputs", "configurations"], "arbitrary values, names and versions in two bounded trees",
  "tests compare a few hand-made pairs; near-miss differences (values far apart, fractional, last element) are not sampled",
  ["lib/compare.c", "lib/util.c"], [("dc_compare", "lib/compare.c"), ("dx_value_compare", "lib/util.c")], "status of dc_compare and report entries")
p("P18", "Queries resolve to exactly the element they name",
  "A query of names separated by dots, each optionally followed by '@' and an index, resolves to the element reached by descending through the named section of that index at each step (first entry when no index is given), and otherwise fails without a context: not-exist for a missing element, invalid argument for malformed text, insufficient resources for a query too long. A step through a keyval always fails, and memory outside the query is never touched.",
  ["inputs"], "every query text up to the bound over a small tree with repeated names",
  "tests use a few well-formed queries",
  ["lib/query.c"], [("dc_query_resolve_context", "lib/query.c"), ("dx_query_resolve_name", "lib/query.c")], "returned context and status")
p("P19", "Setting a value by query creates what is missing and nothing else",
  "Setting a configuration value through a query stores exactly that value at that place, creating the missing sections and keyval entries on the way within the mold's limits; if it is refused (unknown name, wrong type, restricted value, malformed index) the configuration is left as it was.",
  ["inputs", "histories"], "every query text up to the bound and arbitrary values on a small mold",
  "tests set a few fixed queries and do not compare the whole tree after a refusal",
  ["lib/disir_config_query.c", "lib/query.c"], [("dc_config_set_keyval_*", "lib/disir_config_query.c"), ("dx_query_ensure_ancestors", "lib/query.c")], "configuration before and after the call")
p("P20", "Elements are kept and listed in insertion order, by name and in total",
  "Listing all elements of a context gives every live child once in the order it was added; looking up a name gives exactly the children with that name in the order they were added and indexing picks that entry; an index past the last is not found. This holds after any sequence of additions and removals.",
  ["inputs", "histories"], "all sequences of up to the bound of additions and removals over a small set of names",
  "tests use one or two fixed sequences",
  ["lib/element_storage.c", "3rdparty/void-multimap/multimap.c", "3rdparty/void-list/list.c", "lib/context.c"],
  [("dx_element_storage_*", "lib/element_storage.c"), ("multimap_*", "3rdparty/void-multimap/multimap.c"), ("dc_find_element", "lib/context.c")], "dc_get_elements, dc_find_element(s)")
p("P21", "A collection yields each live context once, in order, under any interleaving",
  "Iterating a collection yields each pushed context exactly once in push order and then reports exhaustion; contexts destroyed meanwhile are skipped without skipping or repeating a live one, the size counts live contexts only, and a reset starts over.",
  ["histories"], "all interleavings of pushes, next, reset, size and destruction of up to the bound of contexts",
  "tests destroy one element at one position",
  ["lib/collection.c"], [("dc_collection_next", "lib/collection.c"), ("dx_collection_coalesce", "lib/collection.c")], "dc_collection_next/size")
p("P22", "Handles stay memory-safe and everything is released at the end",
  "For any order of begin, finalize, put, destroy and lookup on contexts, no freed memory is ever accessed, an operation on a destroyed context is reported as such, a refused operation does not change reference ownership, and once every handle is released no memory remains allocated.",
  ["histories"], "all sequences up to the bound of lifecycle operations on a small tree",
  "use-after-free and leaks depend on the order of releases, which tests fix",
  ["lib/context.c", "lib/context_util.c", "lib/context_config.c", "lib/context_mold.c"], [("dc_destroy", "lib/context.c"), ("dc_putcontext", "lib/context.c"), ("dx_context_decref", "lib/context_util.c")], "memory model of the executor, status codes")
p("P23", "Operations on the wrong kind of context or a missing argument are refused",
  "Every public context operation called with a required argument missing, on a destroyed context, or on a kind of context it does not apply to, returns an error status (invalid argument, wrong context or wrong state), changes nothing and does not crash.",
  ["inputs"], "every context kind and state × every operation × every missing argument",
  "tests cover selected wrong-kind calls",
  ["lib/context.c", "lib/context_value.c", "lib/context_default.c", "lib/context_restriction.c", "lib/context_util.c"], [("dx_context_type_is_*", "lib/context_util.c"), ("CONTEXT_NULL_INVALID_TYPE_CHECK", "lib/include/context_private.h")], "return status")
p("P24", "Copying an error message never overruns and is always terminated",
  "Copying an instance's error message writes at most the given number of bytes including a terminating NUL and reports the length of the whole message; a message that does not fit is cut, ends in an ellipsis and is reported as insufficient resources, and a buffer below four bytes is refused untouched. The stored text is always the last non-empty formatted message, and none after it was cleared.",
  ["inputs", "histories"], "every message length and buffer size up to the bound, sequences of set/clear/copy",
  "tests copy one message into one short buffer",
  ["lib/error.c", "lib/log.c"], [("disir_error_copy", "lib/error.c"), ("disir_error_set", "lib/error.c"), ("dx_internal_log_to_storage", "lib/log.c")], "caller's buffer, disir_error")
p("P25", "Entries of a group are merged across plugins without duplicates",
  "Listing a group's configuration or mold entries yields each entry name exactly once, from the plugins registered for that group in registration order, the first plugin naming it winning; other groups' plugins are never consulted, and the listing always terminates and releases what it drops.",
  ["configurations"], "up to three plugins over two groups, each returning up to three entries with arbitrary names from a small set",
  "tests have one or two plugins with disjoint entries",
  ["lib/disir_config.c", "lib/disir_mold.c", "lib/disir_entry.c"], [("disir_config_entries", "lib/disir_config.c"), ("disir_mold_entries", "lib/disir_mold.c")], "list returned by disir_config_entries / disir_mold_entries")
p("P26", "Entry operations reach the right plugin of the group",
  "Reading or querying an entry is served by the first registered plugin of the group that has the entry, writing and removing by the first plugin of that group, and the plugin's status is returned; no plugin of another group is ever called. A group without plugins is reported as missing or not existing, an entry no plugin has as not existing, an operation the plugin lacks as not supported, and writing or removing a configuration with an empty or directory-like entry name is refused before any plugin is called.",
  ["configurations", "fault_sequences"], "up to three plugins over two groups with arbitrary answers and missing operations, entry names up to the bound",
  "tests use the bundled plugin with one group",
  ["lib/disir_config.c", "lib/disir_mold.c", "lib/disir_plugin.c"], [("disir_config_read/write/remove/query", "lib/disir_config.c"), ("disir_mold_read/write/query", "lib/disir_mold.c")], "which plugin callback was called, status")
p("P27", "Import resolutions only commit what was explicitly and safely resolved",
  "An import entry that cannot be imported or is invalid can never be resolved for writing, a conflicting entry needs a force or a version update, an already resolved entry can only be discarded, and finishing an import writes exactly the entries resolved for import and nothing when the import is discarded.",
  ["inputs", "histories"], "every entry status × conflict × option, sequences of resolutions",
  "tests exercise a few scripted archives",
  ["lib/disir_import.c"], [("disir_import_resolve_entry", "lib/disir_import.c"), ("disir_import_finalize", "lib/disir_import.c")], "status and writes performed")
p("P28", "File paths of entries are exactly base directory, name and suffix, and bounded",
  "The file path built for an entry is exactly base directory, '/', entry name and the plugin's file suffix, is refused with insufficient resources when it does not fit the caller's buffer, and never writes outside that buffer; directories are created for every path component and success is reported exactly when all of them exist as directories afterwards.",
  ["inputs", "fault_sequences"], "arbitrary lengths around the buffer limit, path texts up to the bound, every outcome of each file system call",
  "tests use short paths and a cooperative file system",
  ["lib/fslib/filepath.c", "lib/fslib/mkdir.c"], [("fslib_config_resolve_filepath", "lib/fslib/filepath.c"), ("fslib_mkdir_p", "lib/fslib/mkdir.c")], "buffer contents, calls made to the file system")
p("P29", "The storage backend only writes entries that have a mold and reports failures",
  "Writing or removing a configuration through the file backend first requires that a mold exists for the entry, creates the parent directories, refuses to write over anything that is not a regular file, and reports success only if every file system step succeeded.",
  ["fault_sequences"], "every outcome of each file system and callback step",
  "tests run on a healthy file system",
  ["lib/fslib/write.c", "lib/fslib/read.c"], [("fslib_plugin_config_write", "lib/fslib/write.c"), ("fslib_plugin_config_remove", "lib/fslib/write.c")], "status versus recorded file system calls")
p("P30", "Restriction, version and documentation attributes read back as set",
  "The kind, bounds, text, introduction and deprecation version given to a restriction, default, section or documentation are read back unchanged through the introspection calls, the kind's textual names map back to the same kind, and setting an attribute the kind does not have is refused.",
  ["inputs"], "all doubles, all versions, all restriction kinds and context kinds",
  "tests read back a few literals",
  ["lib/context_restriction.c", "lib/context_util.c", "lib/context.c"], [("dc_restriction_get_*", "lib/context_restriction.c"), ("dc_get_introduced", "lib/context.c"), ("dc_restriction_string_to_enum", "lib/context_restriction.c")], "getter output")
p("P31", "The path rendering of a context names exactly its place",
  "Rendering the full name of a context in a configuration yields a text that, used as a query on the same configuration, resolves to that very context, at any nesting depth and for any entry index; rendering never loops forever or accesses invalid memory, also for contexts not attached or being destroyed.",
  ["configurations"], "nesting depth and sibling index up to the bound, any names",
  "tests render one or two shallow paths",
  ["lib/query.c", "lib/context.c"], [("dc_resolve_root_name", "lib/query.c")], "output string resolved again")
p("P32", "Configurations written to JSON or TOML read back identically",
  "Writing any valid configuration to a file as JSON or TOML and reading that file back with the same mold yields a valid configuration of the same version with the same sections and values: for every name the same number of elements, in the same order, with equal values (every string byte, every 64 bit integer, every finite double exactly). A write the file does not take completely is reported as a failure. Reading a truncated or damaged text is either refused or yields a configuration, and never crashes, accesses invalid memory or leaves memory behind.",
  ["inputs", "fault_sequences"], "every valid configuration within the bound, every piecewise reading, every failing write, every truncation and every single changed byte of a text", "tests round-trip fixed fixtures with small values",
  ["lib/fslib/json", "lib/fslib/toml", "3rdparty/jsoncpp", "3rdparty/tinytoml"], [("dio_json_serialize_config", "lib/fslib/json/json_serialize.cc"), ("dio_json_unserialize_config", "lib/fslib/json/json_unserialize.cc"), ("dio_toml_serialize_config", "lib/fslib/toml/toml_serialize.cc"), ("dio_toml_unserialize_config", "lib/fslib/toml/toml_unserialize.cc")], "elements of the original and of the configuration read back, status, memory left")
p("P33", "Archives reproduce exactly the entries they were created from",
  "Every configuration appended to an archive and extracted again equals the original, and a truncated or corrupted archive is rejected without modifying any entry.",
  ["inputs", "crash_points"], "every archive content", "tests use fixed archives",
  ["lib/disir_archive.cc", "lib/disir_archive_util.cc"], [("disir_archive_*", "lib/disir_archive.cc")], "imported entries")
p("P34", "The command line tools leave entries untouched unless asked",
  "Listing, verifying and exporting never modify any entry; generate and remove touch only the entries named.",
  ["inputs"], "every command line", "tests run fixed command lines",
  ["cli"], [("command_*.cc", "cli")], "entries before and after")
p("P35", "Entries resolve to their own mold, else to their directory's namespace mold",
  "Looking up an entry's mold yields the entry's own mold file when it is there and otherwise the namespace mold of the directory the entry lies in, together with the entry's override file exactly when that is there; an entry covered by neither does not exist, names with other characters than a-z, 0-9, '_' and '/' and paths that do not fit are refused, and a configuration entry exists exactly when its file is there and a mold covers it. Reading a mold by entry, or resolving it from the path of a mold or override file, names exactly those files. Listing mold entries names every entry with a mold of its own, every override below a namespace mold and every namespace mold (as its directory's name ending in a slash) exactly once, and listing configuration entries exactly the configuration files covered by a mold.",
  ["configurations", "inputs"], "every subset of own, override and namespace molds in a directory and one below it, every entry name and path up to the bound", "tests use one fixture tree",
  ["lib/fslib/query.cc", "lib/fslib/namespace.cc", "lib/fslib/json.cc", "lib/fslib/toml.cc", "lib/fslib/read.c"], [("fslib_mold_resolve_entry_id", "lib/fslib/query.cc"), ("fslib_mold_query_entries", "lib/fslib/query.cc"), ("fslib_config_query_entries", "lib/fslib/query.cc"), ("fslib_mold_resolve_entry_filepath", "lib/fslib/query.cc")], "files named, status and flags of the entry, entries listed")
p("P36", "Registered plugins are owned by the instance",
  "Registering a plugin keeps deep copies of all its texts, so the caller may change or release its own; registered plugins are listed once each in registration order with their groups. A plugin named by the instance's configuration is opened, given its configured base directories in full, and offers exactly the operations it registered; if any of them cannot be loaded the instance is refused. Destroying the instance, or refusing it, calls each registered plugin's finish callback exactly once with that plugin, closes everything opened exactly once and releases everything.",
  ["histories", "fault_sequences"], "up to three plugins over three groups, any of the required texts missing, any texts up to the bound; every failure of loading each plugin",
  "tests use the bundled plugins loaded from disk and never release the caller's structure",
  ["lib/disir_plugin.c", "lib/disir.c"], [("disir_plugin_register", "lib/disir_plugin.c"), ("disir_plugin_registered", "lib/disir_plugin.c"), ("disir_instance_destroy", "lib/disir.c")], "plugin structure handed to callbacks, list of registered plugins, allocations left")
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
