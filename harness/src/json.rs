//! Minimal JSON output: everything is logged as integers, integer arrays and short strings.
use nt_hive::{HiveMinorVersion, KeyValueDataType, NtHiveError, NtHiveNameString};

pub fn bytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        num(&mut s, *x as u64);
    }
    s.push(']');
    s
}

fn num(s: &mut String, n: u64) {
    if n >= 10 {
        num(s, n / 10);
    }
    s.push((b'0' + (n % 10) as u8) as char);
}

/// A number as four little-endian 16-bit limbs (TLC integers are 32-bit).
pub fn limbs(n: u64) -> String {
    let mut s = String::with_capacity(24);
    for i in 0..4 {
        s.push(if i == 0 { '[' } else { ',' });
        num(&mut s, (n >> (16 * i)) & 0xffff);
    }
    s.push(']');
    s
}

pub fn chars(s: &str) -> String {
    let mut o = String::from("[");
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        num(&mut o, c as u64);
    }
    o.push(']');
    o
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    if s.bytes().all(|c| (0x20..0x7f).contains(&c) && c != b'"' && c != b'\\') {
        o.push_str(s);
        o.push('"');
        return o;
    }
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The documented code of a data type, by its name: not what the enumeration stores.
#[allow(unreachable_patterns)]
pub fn dtype(t: KeyValueDataType) -> u32 {
    use KeyValueDataType::*;
    match t {
        RegNone => 0,
        RegSZ => 1,
        RegExpandSZ => 2,
        RegBinary => 3,
        RegDWord => 4,
        RegDWordBigEndian => 5,
        RegLink => 6,
        RegMultiSZ => 7,
        RegResourceList => 8,
        RegFullResourceDescriptor => 9,
        RegResourceRequirementsList => 10,
        RegQWord => 11,
        _ => t as u32,
    }
}

/// The version numbers of a hive, and the known minor version they stand for: its number by its
/// name, or 9 for an unknown one.
#[allow(unreachable_patterns)]
pub fn version(major: u32, minor: u32) -> String {
    use HiveMinorVersion::*;
    let known = match HiveMinorVersion::n(minor) {
        Some(WindowsNT3_1Beta) => 0,
        Some(WindowsNT3_1) => 1,
        Some(WindowsNT3_5) => 2,
        Some(WindowsNT4) => 3,
        Some(WindowsXPBeta) => 4,
        Some(WindowsXP) => 5,
        Some(WindowsVista) => 6,
        Some(_) => 8,
        None => 9,
    };
    format!(
        "\"maj\":{},\"min\":{},\"known\":{known}",
        limbs(major as u64),
        limbs(minor as u64)
    )
}

pub fn err(e: &NtHiveError) -> String {
    let l = |n: usize| limbs(n as u64);
    let l32 = |n: u32| limbs(n as u64);
    let (k, f): (&str, Vec<String>) = match e {
        NtHiveError::InvalidChecksum { expected, actual } => {
            ("InvalidChecksum", vec![l32(*expected), l32(*actual)])
        }
        NtHiveError::InvalidDataSize {
            offset,
            expected,
            actual,
        } => ("InvalidDataSize", vec![l(*offset), l(*expected), l(*actual)]),
        NtHiveError::InvalidFourByteSignature {
            offset,
            expected,
            actual,
        } => (
            "InvalidFourByteSignature",
            vec![l(*offset), bytes(expected), bytes(actual)],
        ),
        NtHiveError::InvalidHeaderSize {
            offset,
            expected,
            actual,
        } => (
            "InvalidHeaderSize",
            vec![l(*offset), l(*expected), l(*actual)],
        ),
        NtHiveError::InvalidKeyValueDataType { expected, actual } => {
            let exp: Vec<String> = expected.iter().map(|t| dtype(*t).to_string()).collect();
            (
                "InvalidKeyValueDataType",
                vec![
                    format!("[{}]", exp.join(",")),
                    format!("[{}]", dtype(*actual)),
                ],
            )
        }
        NtHiveError::InvalidSizeField {
            offset,
            expected,
            actual,
        } => (
            "InvalidSizeField",
            vec![l(*offset), l(*expected), l(*actual)],
        ),
        NtHiveError::InvalidSizeFieldAlignment {
            offset,
            size,
            expected_alignment,
        } => (
            "InvalidSizeFieldAlignment",
            vec![l(*offset), l(*size), l(*expected_alignment)],
        ),
        NtHiveError::InvalidTwoByteSignature {
            offset,
            expected,
            actual,
        } => (
            "InvalidTwoByteSignature",
            vec![l(*offset), bytes(expected), bytes(actual)],
        ),
        NtHiveError::SequenceNumberMismatch { primary, secondary } => (
            "SequenceNumberMismatch",
            vec![l32(*primary), l32(*secondary)],
        ),
        NtHiveError::UnallocatedCell { offset, size } => (
            "UnallocatedCell",
            vec![l(*offset), limbs(*size as i64 as u64)],
        ),
        NtHiveError::UnsupportedClusteringFactor { expected, actual } => (
            "UnsupportedClusteringFactor",
            vec![l32(*expected), l32(*actual)],
        ),
        NtHiveError::UnsupportedFileFormat { expected, actual } => {
            ("UnsupportedFileFormat", vec![l32(*expected), l32(*actual)])
        }
        NtHiveError::UnsupportedFileType { expected, actual } => {
            ("UnsupportedFileType", vec![l32(*expected), l32(*actual)])
        }
        NtHiveError::UnsupportedKeyValueDataType { offset, actual } => (
            "UnsupportedKeyValueDataType",
            vec![l(*offset), l32(*actual)],
        ),
        NtHiveError::UnsupportedVersion { major, minor } => {
            ("UnsupportedVersion", vec![l32(*major), l32(*minor)])
        }
        #[allow(unreachable_patterns)]
        _ => ("Other", vec![]),
    };
    format!(
        "{{\"t\":\"err\",\"k\":\"{}\",\"f\":[{}],\"m\":{}}}",
        k,
        f.join(","),
        quote(&e.to_string())
    )
}

/// A borrowed slice: its position in the file (-1 when empty) and length, and its bytes when short.
pub fn slice(b: &[u8], base: usize) -> String {
    let off = if b.is_empty() {
        -1
    } else {
        (b.as_ptr() as usize).wrapping_sub(base) as i64
    };
    if !(-1..=0x7fff_ffff).contains(&off) {
        // Not inside the buffer at all.
        return format!("\"off\":-2,\"len\":{},\"b\":{}", b.len(), bytes(&b[..b.len().min(64)]));
    }
    format!(
        "\"off\":{},\"len\":{},\"b\":{}",
        off,
        b.len(),
        bytes(&b[..b.len().min(64)])
    )
}

pub fn name(n: &NtHiveNameString, base: usize) -> String {
    let (enc, b) = match n {
        NtHiveNameString::Latin1(b) => ("L", b),
        NtHiveNameString::Utf16LE(b) => ("U", b),
    };
    format!("{{\"t\":\"ok\",\"enc\":\"{}\",{}}}", enc, slice(b, base))
}
