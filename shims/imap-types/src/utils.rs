/// Converts bytes into a ready-to-be-printed form.
pub fn escape_byte_string<B: AsRef<[u8]>>(bytes: B) -> String {
    bytes
        .as_ref()
        .iter()
        .map(|byte| match byte {
            0x00..=0x08 => format!("\\x{byte:02x}"),
            0x09 => String::from("\\t"),
            0x0A => String::from("\\n"),
            0x0B => String::from("\\x0b"),
            0x0C => String::from("\\x0c"),
            0x0D => String::from("\\r"),
            0x0e..=0x1f => format!("\\x{byte:02x}"),
            0x22 => String::from("\\\""),
            0x20..=0x21 | 0x23..=0x5B | 0x5D..=0x7E => format!("{}", *byte as char),
            0x5C => String::from("\\\\"),
            0x7f => String::from("\\x7f"),
            0x80..=0xff => format!("\\x{byte:02x}"),
        })
        .collect::<Vec<String>>()
        .join("")
}

pub fn escape_quoted(unescaped: &str) -> String {
    unescaped.replace('\\', "\\\\").replace('"', "\\\"")
}
