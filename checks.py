"""Which harnesses decide which property.

Each group is (crate, jobs, patterns); a pattern is a harness name prefix, matched
against the last path component of the harness (the module is given as `mod::`).
`THOROUGH` groups are added by the thorough tier.
"""

# (crate, jobs, [patterns])
# A trailing `$` makes a pattern exact. A fourth component holds more Kani arguments.
KISSAT = ["--solver", "kissat"]
PROPS = {
    "C01": [
        ("leaf", 8, ["dib_block", "vib_special", "vib_10_6", "vib_12_7", "vib_13_0", "vib_14_7", "vib_chain_t3", "vib_text$", "vib_text_ext_cut",
                     "date_", "cp1252_1", "cp1252_2", "utf8_1", "utf8_2", "text_0", "text_3_short", "latin_8_short",
                     "bcd_0", "bcd_1", "bcd_2", "invalid_bcd_1", "numbers::signed_", "numbers::unsigned_", "real_", "maker_code", "product_"]),
        ("link", 8, ["link_short", "link_any14", "long_9", "long_2$", "big_64"]),
        ("hdr", 8, ["hdr_long"]),
        ("app", 8, ["app_"]),
        ("rec", 8, ["rec_datetime_4", "rec_datetime_0", "rec_signed_12", "rec_signed_0", "rec_date_0", "rec_dst", "rec_short",
                    "rec_lvar_00", "rec_lvar_b0", "rec_lvar_c", "rec_lvar_d", "rec_lvar_e0$", "rec_lvar_f", "rec_giant_e9$", "rec_giant_f3$", "rec_giant_f5$"]),
        ("ci", 8, ["ci_empty", "ci_50", "ci_60", "ci_70", "ci_80", "ci_b0", "ci_f0", "ci_rest_3"]),
        ("frame", 8, ["frame_s00", "frame_s05", "frame_s06", "frame_first_xf", "frame_many_", "frame_long_"]),
    ],
    "C02": [("link", 8, ["link_any14", "long_2$", "long_3$", "long_9", "big_64", "big_130"])],
    "C03": [("link", 8, ["link_short", "link_other"])],
    "C04": [("link", 8, ["link_short", "long_2$", "long_3$"])],
    "C05": [("ci", 8, ["ci_"])],
    "C06": [("hdr", 8, ["hdr_"])],
    "C07": [("leaf", 8, ["manufacturers::"]), ("hdr", 8, ["hdr_long"])],
    "C08": [("app", 8, ["app_"])],
    "C09": [("leaf", 8, ["dib_", "takes::"])],
    "C10": [("leaf", 8, ["vib_10", "vib_12", "vib_14", "vib_13_0", "vib_13_48", "vib_13_78", "vib_special", "vib_chain", "vibs::plain_text"])],
    "C11": [("rec", 8, ["rec_signed", "rec_unsigned", "rec_date", "rec_dst", "rec_short"])],
    "C12": [("rec", 8, ["rec_lvar_", "rec_giant_"])],
    "C13": [("frame", 8, ["frame_s", "frame_first_", "frame_many_", "frame_long_"])],
    "C14": [("leaf", 8, ["bcd_0", "bcd_1", "bcd_2", "bcd_3", "bcd_4", "bcd_5", "bcd_6", "bcd_9", "invalid_bcd_1", "invalid_bcd_2", "invalid_bcd_3", "invalid_bcd_4"], KISSAT)],
    "C15": [("leaf", 8, ["numbers::signed_", "numbers::unsigned_", "numbers::real"])],
    "C16": [("leaf", 8, ["dates::"])],
    "C17": [("leaf", 8, ["text_0", "text_1_", "text_3", "text_4", "text_5", "text_8", "latin_", "utf8_1", "utf8_2", "utf8_3", "utf8_4", "cp1252_"])],
}

# Added by the thorough tier.
THOROUGH = {
    "C02": [("link", 8, ["long_20"], KISSAT), ("link", 8, ["big_"])],
    "C10": [("leaf", 8, ["vibs::"])],
    "C13": [("frame", 8, ["frame_other_"])],
    "C14": [("leaf", 8, ["numbers::bcd_", "invalid_bcd_"], KISSAT)],
    "C17": [("leaf", 8, ["utf8_", "strings::"])],
}
TIMEOUT = 420

# harness pattern (crate::module::name) -> stated bound. Every other harness is
# complete: fully symbolic input of the width the function looks at, every loop
# bounded by that width, unwinding assertions discharged.
BOUNDED = [
    ("link::link_any14", "inputs of at most 14 bytes"),
    ("link::long_20", "one frame length (26 bytes)"),
    ("link::long_*", "one frame length (8 to 16 bytes)"),
    ("link::big_*", "fixed payload, arbitrary checksum byte"),
    ("ci::*", "payloads of 2 bytes (0 and 3 in ci_rest_*)"),
    ("app::app_errors_*", "2 bytes behind the error code"),
    ("app::app_select_*", "blocks of 0, 1, 2, 3 and 11 bytes"),
    ("frame::*frame_s*", "every frame structure of at most 4 bytes (payload bytes of 5)"),
    ("frame::*frame_first_*", "one record of 2 bytes, every first byte"),
    ("frame::*frame_long*", "one long record and 30 bytes of trailing data"),
    ("rec::*rec_lvar_*", "texts: up to 24 bytes available behind the length byte"),
    ("leaf::vibs::*vib_text*", "text lengths 0 and 3 (the text decoder itself: strings)"),
    ("leaf::vibs::vib_chain_*", "at most 3 extension bytes"),
    ("leaf::vibs::*", "two bytes behind the code"),
    ("leaf::utf8::utf8_*", "text of that length, every byte string"),
    ("leaf::utf8::cp1252_*", "text of that length"),
    ("leaf::strings::text_*", "text of that length, every byte ASCII or 0xFF"),
    ("leaf::strings::latin_*", "text of that length"),
    ("leaf::dibs::dib_block", None),
]
BOUNDED = [b for b in BOUNDED if b[1]]

TRUSTED = [
    "Kani 0.68 (MIR to goto translation), CBMC 6.11, CaDiCaL",
    "Rust core/alloc are compiled in and verified through, except the stubs listed here",
    "std::fmt::format returns an arbitrary (here: empty) String",
    "winnow ContextError reduced to a unit (kani/winnow-error.patch): error contexts are dropped",
    "winnow::binary::bits::take replaced by take_contract, itself proved equal to winnow's body for the widths used (leaf::takes, run by C09)",
]
ASSUMPTIONS = [
    "the allocator does not fail",
    "pointer-validity checks are left to rustc: the code is safe Rust (no unsafe in /repo/src)",
    "the text of error messages is not specified",
    "termination within the stated input widths follows from the discharged unwinding assertions; nothing is claimed about time",
]
P = "libmbus::parse::"
INFO = {
    "C01": dict(functions=["every function listed under C02 to C17"], callees=["as in C02 to C17"]),
    "C02": dict(functions=["link_layer::Packet::parse", "link_layer::parse_long_frame", "link_layer checksum / frame header functions"],
                callees=["transport_layer::MBusMessage::parse: any outcome (decided by C05)"]),
    "C03": dict(functions=["link_layer::Packet::parse", "link_layer short frame and acknowledgement parsers"], callees=["MBusMessage::parse: not called"]),
    "C04": dict(functions=["link_layer::Control and its message types"], callees=["MBusMessage::parse: any outcome"]),
    "C05": dict(functions=["transport_layer::control_info::MBusMessage::parse", "control_info header/CI tables"],
                callees=["ShortHeader::parse (C06)", "LongHeader::parse (C06)", "Frame::parse (C13)", "ApplicationMessage::parse (C08)", "ApplicationErrorMessage::parse (C08)"]),
    "C06": dict(functions=["transport_layer::header::ShortHeader::parse", "LongHeader::parse", "MeterStatus::parse", "SecurityMode::parse"],
                callees=["parse_bcd (C14)", "unpack_manufacturer_code (C07)", "device_name (C07)"],
                trusted=["core::str next_code_point on ASCII"]),
    "C07": dict(functions=["transport_layer::manufacturer::unpack_manufacturer_code", "pack/is-valid helpers", "device_name", "header::DeviceType"], callees=[]),
    "C08": dict(functions=["application_layer::application::ApplicationErrorMessage::parse", "ApplicationMessage::parse", "MessageApplication"],
                callees=["Record::parse: any outcome (C11)"],
                assumptions=["a read accessor for two private fields is appended to the verified text of application.rs"]),
    "C09": dict(functions=["application_layer::dib::DataInfoBlock::parse", "DataFunction::parse", "RawDataType::parse", "winnow::binary::bits::take"], callees=[]),
    "C10": dict(functions=["application_layer::vib::ValueInfoBlock::parse", "parse_vif_byte", "dump_remaining_vifes", "parse_table_10/12/13/14", "ValueType::is_unsigned"],
                callees=["parse_length_prefix_ascii (C17), in the plain text harnesses"]),
    "C11": dict(functions=["application_layer::record::Record::parse", "handle_date_types", "parse_binary", "with the real DIB and VIB decoders"],
                callees=["parse_bcd, parse_invalid_bcd (C14)", "parse_binary_signed/unsigned, parse_real (C15)", "date types (C16)", "parse_latin1 (C17)"]),
    "C12": dict(functions=["application_layer::record::Record::parse (variable length data)", "parse_giant_number"],
                callees=["parse_bcd (C14)", "parse_binary_* (C15)", "parse_latin1 (C17)", "DataInfoBlock::parse (C09) and ValueInfoBlock::parse (C10) on fixed blocks"]),
    "C13": dict(functions=["application_layer::frame::Frame::parse"], callees=["Record::parse: fails or consumes at least one byte, fixed per position (C11)"]),
    "C14": dict(functions=["types::number::parse_bcd", "parse_nibble", "parse_bcd_nibble", "parse_invalid_bcd"],
                trusted=["String::push and str::to_uppercase on ASCII (asserted to be ASCII), in the invalid-BCD harnesses"]),
    "C15": dict(functions=["types::number::parse_binary_signed", "parse_binary_unsigned", "parse_real"]),
    "C16": dict(functions=["types::date::TypeFDateTime::parse", "TypeGDate::parse", "TypeIDateTime::parse", "TypeJTime::parse", "TypeKDST::parse", "parse_dmy"]),
    "C17": dict(functions=["types::string::parse_length_prefix_ascii", "convert_ascii_string", "parse_latin1", "core::str::from_utf8 and Chars (in utf8_*)"],
                trusted=["encoding_rs WINDOWS_1252 decodes every byte to one character, as tabulated in utf8.rs (checked natively for all 256 bytes)",
                         "String::push and String::reserve: real contract of push, but one buffer of fixed capacity (utf8_*, cp1252_*)",
                         "in strings::* (longer texts): core::str::from_utf8 accepts ASCII and rejects 0xFF; String::push, char iteration: one abstract byte per character"]),
}
