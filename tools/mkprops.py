#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is maintained here)."""
import json, os
G = "bitfields_impl/src/generating/bitfield/features/"
PA = "bitfields_impl/src/parsing/"
H = G + "common/generator_helper.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("P01", "Fields tile the backing storage in declaration order",
 "The non-ignored fields occupy consecutive, disjoint bit ranges that together cover the whole backing value, the first field in the least significant bits under order=lsb and in the most significant bits under order=msb. The public <FIELD>_BITS and <FIELD>_OFFSET constants state exactly the range that the field's accessors read and write.",
 ["inputs", "programs", "configurations"], "every declaration (backing type, order, field widths and types) and every stored value",
 "The tests read the constants of a few fixed layouts; a wrong offset for another width, order or backing length is not reached.",
 [PA + "bitfields/bitfield_parser.rs", G + "field_constants_feature.rs", H],
 [("calculate_field_offset", PA + "bitfields/bitfield_parser.rs"), ("field constants", G + "field_constants_feature.rs")],
 ["generated constants", "getters after injecting a raw value", "raw value after a setter"])
prop("P02", "Setting a field reads back and changes nothing else",
 "After a field is set to a value, its getter returns that value truncated to the field's width (and reinterpreted in the field's type), every other bit of the bitfield is unchanged, and a getter never changes anything. This holds for every sequence of sets, on integer-, array- and heap-backed bitfields alike.",
 ["inputs", "histories", "programs"], "every declaration, every prior stored value, every value of the field's type and every sequence of field sets",
 "The tests set a few values from a fresh bitfield; leaks into a neighbour need a particular prior value, width and offset.",
 [G + "field_setters_feature.rs", G + "field_getters_feature.rs", H],
 [("setter bit insertion", H), ("getter bit extraction", H)], ["getters", "raw value"])
prop("P03", "Signed fields are two's complement at any width",
 "A signed field of n bits stores the low n bits of the value it is given and reads back as the n-bit two's complement number, sign-extended to its type, so that every value from -2^(n-1) to 2^(n-1)-1 survives a set followed by a get. This holds for every width from 1 bit to the full type and at every offset.",
 ["inputs", "programs"], "every signed type, width, offset, backing and value",
 "The tests use a few widths and values; widths such as 1, 31, 63, 127 or a field that straddles bytes at an odd offset are not swept.",
 [G + "field_getters_feature.rs", H], [("sign extension", H + " generate_sign_extend_bit_operation_tokens")], ["getters", "raw value"])
prop("P04", "Checked setters accept exactly the representable values",
 "A checked field setter, and the checked builder setter, succeeds exactly when the value fits the field's width (unsigned, custom and array values within n bits, signed values within the n-bit two's complement range, booleans always). On success it has the effect of the plain setter; on error the bitfield is unchanged.",
 ["inputs", "programs"], "every declaration, prior value and value of the field's type, in particular the boundary values and values wider than the backing type",
 "The tests try one value above the limit; values that only differ above the backing width, or exactly at a signed boundary, are missed.",
 [G + "field_setters_feature.rs", G + "builder_feature.rs", H],
 [("unsigned check", H + " generate_bit_size_check_tokens"), ("signed check", H + " generate_signed_bit_size_check_tokens"), ("array check", H + " generate_array_bit_size_check_tokens")],
 ["Result of checked setters", "raw value afterwards"])
prop("P05", "Operations never write or reveal protected bits",
 "Once a bitfield exists, the single-bit, range, whole-value write (without defaults) and invert operations never change a bit of a read-only, no-access or reserved field, and the bit and range readers never reveal a bit of a write-only or no-access field, nor of a reserved field declared without a bits attribute. Unprotected bits named by the same call are still written or read by the unchecked operations, and the checked ones report an error and change nothing.",
 ["inputs", "histories", "programs"], "every mix of accesses, every stored value, every offset, length and value, and every sequence of operations",
 "Tests protect one aligned field; a range that covers part of a protected field at an odd offset, or an array-backed mask across bytes, is not enumerated.",
 [G + "set_get_bit_ops_feature.rs", G + "write_bit_ops_feature.rs", G + "invert_bit_ops_feature.rs", H, PA + "bitfields/bitfield.rs"],
 [("protected mask", H + " generate_protected_bits_mask_tokens"), ("access guards", G + "set_get_bit_ops_feature.rs"), ("access rules", PA + "bitfields/bitfield.rs")],
 ["raw value", "results of bit readers"])
prop("P06", "Construction yields exactly the declared defaults",
 "A new bitfield (and the Default trait) has every field with a declared default at that default, truncated to its width, and every other field at zero; construction without defaults yields zero everywhere except that reserved fields keep their defaults. This holds for literal, constant and const-function defaults of any sign, width and access.",
 ["inputs", "programs"], "every declaration and every default expression accepted by the macro",
 "Tests use defaults that fit in 32 bits and mostly on read-write fields; wide, negative or constant defaults on fields without a setter are not swept.",
 [G + "new_functions_feature.rs", G + "default_trait_feature.rs", H, PA + "common/const_expr.rs"],
 [("default emission", H + " generate_setting_field_to_default_tokens"), ("zeroing", H + " generate_setting_fields_to_zero_tokens_list")], ["raw value after construction"])
prop("P07", "The builder builds what construction and setters would",
 "A builder starts from the same value as construction (with or without defaults), each builder setter has exactly the effect of assigning that field (read-only fields included) with truncation, checked builder setters fail exactly for values that do not fit, and building returns that value with nothing else changed.",
 ["inputs", "histories", "programs"], "every declaration and every sequence of builder calls with every value",
 "Tests chain one call per field in declaration order with fitting values.",
 [G + "builder_feature.rs", H], [("builder setters", G + "builder_feature.rs"), ("builder direct call", H + " generate_builder_direct_setter_call_tokens")], ["raw value of the built bitfield"])
prop("P08", "Integer conversions are exact and obey the endian choice",
 "For integer-backed bitfields, converting from an integer loads every field (whatever its access) through its type's conversion and converting back returns the stored value, hence the same integer whenever the field types are lossless; the little-endian variants swap the byte order and the big-endian variants do not, the plain variants and the From/Into traits follow from_endian and into_endian, and the variants with defaults then overlay every declared default.",
 ["inputs", "programs", "configurations"], "every integer backing, endian configuration, declaration and value",
 "Tests convert a few constants; byte order against a particular mix of endian arguments and field straddling is not covered.",
 [G + "from_into_bits_feature.rs", G + "from_traits_feature.rs", "bitfields_impl/src/generating/common/endian_conversion.rs", H],
 [("from/into bits", G + "from_into_bits_feature.rs"), ("trait impls", G + "from_traits_feature.rs")], ["raw value", "converted integers"])
prop("P09", "Byte and slice conversions of array bitfields are exact",
 "For array-backed bitfields (heap or not), converting from bytes or a slice loads every field through its type's conversion and converting back returns the stored bytes; big-endian reverses the byte order and little-endian keeps it, a slice that is too long contributes only its first bytes, one that is too short is padded at its end with zero bytes, and writing into a slice fills as many bytes as fit. The checked slice variants instead fail for a slice that is too short, leaving it untouched, and never panic.",
 ["inputs", "programs", "configurations"], "every array length, endian configuration, slice length and content",
 "Tests use a few lengths; odd lengths, empty slices and the combination of padding with byte order are not enumerated.",
 [G + "from_into_bits_feature.rs", G + "from_traits_feature.rs"],
 [("from/into bytes and slices", G + "from_into_bits_feature.rs")], ["raw bytes", "output slices"])
prop("P10", "Whole-value writes update exactly the writable fields",
 "Writing a whole value replaces exactly the bits of fields that have a setter with the corresponding bits of the value in the selected byte order and leaves all other bits alone; the variants with defaults then set every field that has a default (whatever its access) to it, and writing defaults does only that.",
 ["inputs", "histories", "programs", "configurations"], "every declaration, write_endian, prior value and written value",
 "Tests write one value over a fresh bitfield.",
 [G + "write_bit_ops_feature.rs", H], [("write operations", G + "write_bit_ops_feature.rs")], ["raw value"])
prop("P11", "Single-bit operations act on exactly the named bit",
 "Setting a bit changes exactly that bit when it lies in a writable field and nothing otherwise, and reading a bit returns its stored value when it lies in a readable field and false otherwise, for every offset including those beyond the bitfield. The checked variants return an error exactly in the cases where the plain ones do nothing or return false for protection or range, and nothing ever panics.",
 ["inputs", "programs"], "every declaration, stored value and 32-bit offset",
 "Tests probe a handful of offsets on one layout.",
 [G + "set_get_bit_ops_feature.rs"], [("bit guards", G + "set_get_bit_ops_feature.rs")], ["raw value", "results"])
prop("P12", "Bit ranges are exact and never panic",
 "Writing a range stores the low bits of the value at the writable positions of the range and reading a range returns its readable bits shifted to bit zero, for every offset and length; a range that does not lie inside the bitfield is ignored (plain variants) or an error (checked variants), including empty ranges and offsets or lengths near the 32-bit maximum, and nothing ever panics.",
 ["inputs", "programs"], "every declaration, stored value, offset, length and value",
 "Tests use aligned, in-range lengths; full-width, empty and overflowing ranges are not reached.",
 [G + "set_get_bit_ops_feature.rs"], [("range guards and masks", G + "set_get_bit_ops_feature.rs")], ["raw value", "results"])
prop("P13", "Clearing resets exactly what it names",
 "Clearing the bitfield zeroes every field except that reserved fields take their defaults, clearing with defaults makes it equal to a new bitfield, clearing one field zeroes only that field, and clearing one field to its default sets only that field to its default. None of them depends on the prior value.",
 ["inputs", "histories", "programs"], "every declaration and prior value",
 "Tests clear from one value.", [G + "clear_bit_ops_feature.rs", H], [("clear operations", G + "clear_bit_ops_feature.rs")], ["raw value"])
prop("P14", "Inverting flips exactly the named writable bits",
 "Inverting the bitfield flips every bit of the writable fields and no other, inverting one field flips exactly that field's bits, and the inverted getter of a field returns the complement of the field's bits within its width without changing anything; fields of custom types are flipped through their type's conversion, and otherwise inverting twice restores the value.",
 ["inputs", "histories", "programs"], "every declaration, access mix and stored value",
 "Tests invert one or two values.", [G + "invert_bit_ops_feature.rs", H], [("invert operations", G + "invert_bit_ops_feature.rs")], ["raw value", "results"])
prop("P15", "Array fields keep every bit, first byte lowest",
 "A byte-array field of n bits holds its first byte in its lowest 8 bits and so on, keeps exactly the low n bits of what is assigned (also when n is not a multiple of 8 or smaller than the array), reads the rest as zero, and behaves the same in integer- and array-backed bitfields for getters, setters, defaults, builders, inversion and conversions.",
 ["inputs", "programs"], "every array length, width, offset, backing, prior value and assigned array",
 "Tests use byte-aligned widths.", [H, G + "field_getters_feature.rs", G + "invert_bit_ops_feature.rs"],
 [("array packing", H), ("array unpacking", G + "field_getters_feature.rs")], ["getters", "raw value"])
prop("P16", "Array and heap backing behave like the integer of that size",
 "A declaration backed by a byte array of 1, 2, 4, 8 or 16 bytes, on the stack or on the heap, behaves exactly like the same declaration backed by the integer of that size: same layout, same field and bit and range operations, same defaults and protections, with the array being the little-endian bytes of the integer.",
 ["inputs", "histories", "programs"], "every declaration expressible on both backings and every sequence of operations",
 "The two backings have separate tests with separate examples; nothing compares them.", [H, G + "set_get_bit_ops_feature.rs", G + "clear_bit_ops_feature.rs"],
 [("two code paths per operation", H)], ["raw value", "results"])
prop("P17", "Custom, nested and flag-typed fields convert at every access",
 "A field of a custom type, nested bitfield or flag enum stores the low n bits of the value's bits conversion and reads back as the type's from-bits conversion of the stored n bits (enum fields are wide enough for their variants and a type's two conversions use the same byte order), in getters, setters, builders, defaults, whole-value conversions and writes, clears and inversions, whatever the type's bits width relative to the backing, and without disturbing neighbouring fields.",
 ["inputs", "programs"], "every custom type, width, offset, backing, prior value and value",
 "Tests embed small enums in aligned positions.", [H, G + "field_getters_feature.rs"], [("custom conversions", H)], ["getters", "raw value"])
prop("P18", "Flag enums convert totally and injectively",
 "For a flag enum, converting a variant to bits and back yields the same variant (when both directions use the same byte order), every variant's bits are its declared value, and every other integer converts to the base variant, or to the default variant when there is no base; the configured little-endian directions swap byte order and nothing else. No input panics. Variants configured out with #[cfg] are as if they had not been written.",
 ["inputs", "programs", "configurations"], "every enum declaration, backing width, endian argument and integer",
 "Tests try a few integers on small enums.", ["bitfields_impl/src/generating/bitflag/bitflag_generator.rs", PA + "bitflags/bitflag_parser.rs", PA + "bitflags/bitflag.rs"],
 [("match generation", "bitfields_impl/src/generating/bitflag/bitflag_generator.rs")], ["from/into bits results"])
prop("P19", "Debug output shows every field's stored bits",
 "Debug formatting prints the bitfield's name and each non-ignored field exactly once, in declaration order under lsb and msb alike, with the unsigned number (or, for array fields of array-backed bitfields, the bytes) held by exactly that field's bits, and does not change the bitfield.",
 ["inputs", "programs"], "every declaration and stored value",
 "Tests compare a few literal strings.", [G + "debug_trait_feature.rs", H], [("debug generation", G + "debug_trait_feature.rs")], ["formatted string"])
prop("P20", "Only coherent declarations compile, and all of them do",
 "A declaration is rejected at compile time when its field widths do not add up to the backing size, a width is zero or larger than the field's type, a literal integer or boolean default does not fit its integer or boolean field, a flag value does not fit the enum's type, a type, argument, access, enum shape or generic parameter is unsupported, a field carries two bits attributes, or names are duplicated; and every declaration that satisfies the documented rules compiles.",
 ["programs", "configurations"], "every declaration of bitfields and flag enums",
 "The compile-fail tests pin a list of examples; acceptance and rejection just at the boundaries (one bit too many, minimum signed default) are not swept.",
 [PA + "bitfields/bitfield_parser.rs", PA + "common/const_expr.rs", PA + "common/spanned_data_type.rs", PA + "bitflags/bitflag_parser.rs", PA + "bitfields/bits_attribute/bits_arguments.rs", PA + "bitfields/bitfield_attribute/bitfield_arguments.rs"],
 [("validation", PA + "bitfields/bitfield_parser.rs"), ("literal parsing", PA + "common/const_expr.rs")], ["rustc accepts or rejects"])
prop("P21", "Attribute arguments select exactly the API they name",
 "Each boolean argument of the bitfield attribute adds or removes exactly its own functions and trait implementations and nothing else; with bit_ops=false a bit-operation group exists only if its own argument is explicitly true, and with bit_ops=true (the default) unless its own argument is false.",
 ["configurations", "programs"], "every combination of the boolean arguments, on integer-, array- and heap-backed bitfields",
 "Tests switch single arguments and cannot observe absence of an item except by a compile failure.",
 [PA + "bitfields/bitfield_attribute/bitfield_arguments.rs", "bitfields_impl/src/generating/bitfield/feature.rs", "bitfields_impl/src/generating/bitfield/bitfield_generator.rs", G + "write_bit_ops_feature.rs"],
 [("feature gates", "bitfields_impl/src/generating/bitfield/feature.rs"), ("argument parsing", PA + "bitfields/bitfield_attribute/bitfield_arguments.rs")], ["rustc resolves or fails to resolve each item"])
prop("P22", "Cargo features set the defaults that arguments override",
 "The macro crate's Cargo features determine the default of every attribute argument, an explicit argument always overrides them, enabling wins over disabling for generated items, lsb wins over msb and big wins over little when contradictory features are unified.",
 ["configurations"], "every subset of the Cargo features combined with every argument",
 "CI builds three feature sets.", [PA + "bitfields/bitfield_attribute/bitfield_arguments.rs", "bitfields_impl/Cargo.toml"],
 [("feature resolution", PA + "bitfields/bitfield_attribute/bitfield_arguments.rs")], ["API and behaviour under each feature set"])
prop("P23", "Access and visibility decide each field's API",
 "A field has a getter exactly if it is readable, setters exactly if it is writable, builder setters if it is readable or writable, constants if it has a getter or setter, and nothing at all if it is no-access or reserved; those accessors are visible exactly where the field's declared visibility, or else the bitfield's, allows, and the functions of the whole bitfield exactly where the bitfield is. Ignored fields are visible as they are declared, and the stored bits are private to the declaring module.",
 ["programs", "configurations"], "every access, visibility, reservation and backing",
 "Absence and invisibility of an item cannot be asserted by a unit test.", [PA + "bitfields/bitfield.rs", PA + "bitfields/bitfield_parser.rs", PA + "common/visibility.rs", G + "builder_feature.rs", G + "field_setters_feature.rs", G + "field_getters_feature.rs"],
 [("access rules", PA + "bitfields/bitfield.rs"), ("visibility", PA + "common/visibility.rs")], ["rustc resolves or fails to resolve each item"])
prop("P24", "Ignored fields are plain fields outside the layout",
 "An ignored field may have any type with a default value, takes no bits, starts at its type's default in every way of constructing the bitfield, and is never changed by any operation on the bits, nor do assignments to it change the bits; the other fields behave as if it were not there.",
 ["inputs", "histories", "programs"], "every declaration with ignored fields and every sequence of operations",
 "Tests read an ignored field once.", [PA + "bitfields/bitfield_parser.rs", G + "bitfield_struct_feature.rs", H],
 [("ignored fields", PA + "bitfields/bitfield_parser.rs")], ["ignored fields' values", "raw value"])
prop("P25", "Generated types are const, no_std, transparent and Copy as declared",
 "Without ignored fields or heap storage every generated function can be evaluated in constants with the result it has at run time, the type has the size and alignment of its backing and holds only it, generated code compiles in no_std crates, and the type is Copy and Clone exactly when copy is left on (only Clone for heap storage); user attributes are kept.",
 ["programs", "configurations", "inputs"], "every declaration and every generated function",
 "Tests evaluate a few functions in constants and none in a no_std crate.", [H, G + "bitfield_struct_feature.rs", "bitfields_impl/src/generating/bitflag/bitflag_generator.rs"],
 [("const modifier", H + " get_function_modifier_tokens"), ("struct attributes", G + "bitfield_struct_feature.rs")], ["const items", "size_of", "trait bounds", "no_std crate builds"])
prop("P26", "A declaration means the same wherever it stands",
 "A declaration that is accepted in one place is accepted, with the same behaviour, in every other: in a module, a function body or the expansion of a declarative macro, in every Rust edition, next to modules, types, traits, constants and functions of the user that are named like those of the standard library (core, std, Box, Result, Option, Default, Clone, From ...), in crates that forbid unsafe code or deny compiler warnings, and, unless it uses heap storage, in crates without std.",
 ["programs", "configurations"], "every declaration in every surrounding scope, edition and lint setting",
 "Tests declare bitfields in one module of one edition with the standard prelude in scope.", [G + "bitfield_struct_feature.rs", G + "from_traits_feature.rs", G + "default_trait_feature.rs", G + "builder_feature.rs", H, "bitfields_impl/src/generating/bitflag/bitflag_generator.rs", PA + "common/spanned_data_type.rs"],
 [("paths in generated code", G + "bitfield_struct_feature.rs")], ["rustc accepts or rejects", "results of calls"])

prop("P27", "Errors point at what is wrong in a declaration",
 "When a bitfield or flag enum is rejected, the error is placed at a part of the declaration that is wrong (the field or variant at fault, or the attribute and the name for faults of the attribute, the kind of item, the backing or the total of the bits, and for what only the compiler can judge), never at an innocent field or variant, and the macro itself never panics, whether it is built with or without overflow checks.",
 ["programs"], "every wrong declaration, with any number of faults",
 "The repository's compile-fail cases pin the messages of some hundred declarations.", [PA + "bitfields/bitfield_parser.rs", PA + "bitfields/bits_attribute", PA + "common/const_expr.rs", PA + "common/attribute_argument_parser.rs", PA + "bitflags/bitflag_parser.rs", "bitfields_impl/src/lib.rs"],
 [("spans of errors", PA + "common/compiler_error.rs"), ("validation", PA + "bitfields/bitfield_parser.rs")], ["position of the compiler's error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
