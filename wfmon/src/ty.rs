//! The parameter types the generated configurations use, and what the Rust
//! standard library says about a text in each of them.

use crate::rng::Rng;
#[path = "support.rs"]
pub mod support;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Str,
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I64,
    Usize,
    Bool,
    Char,
    Ip,
    Tok,
    I32,
    Isize,
    U128,
    I128,
    Nz,
}
use Kind::*;

/// (as written in the configuration, header it needs, full Rust type, kind)
pub const TYPES: [(&str, &str, &str, Kind); 26] = [
    ("String", "", "String", Str),
    ("u32", "", "u32", U32),
    ("u8", "", "u8", U8),
    ("u16", "", "u16", U16),
    ("u64", "", "u64", U64),
    ("i8", "", "i8", I8),
    ("i16", "", "i16", I16),
    ("i64", "", "i64", I64),
    ("usize", "", "usize", Usize),
    ("bool", "", "bool", Bool),
    ("char", "", "char", Char),
    ("Tok", "use crate::support::Tok;", "crate::support::Tok", Tok),
    ("Ticket", "use crate::support::Tok as Ticket;", "crate::support::Tok", Tok),
    ("Ipv4Addr", "use std::net::Ipv4Addr;", "std::net::Ipv4Addr", Ip),
    ("Id", "type Id = u32;", "u32", U32),
    ("Slug", "type Slug = String;", "String", Str),
    ("a_kind", "#[allow(non_camel_case_types)] type a_kind = i64;", "i64", I64),
    ("i32", "", "i32", I32),
    ("isize", "", "isize", Isize),
    ("u128", "", "u128", U128),
    ("i128", "", "i128", I128),
    ("NonZeroU8", "use std::num::NonZeroU8;", "std::num::NonZeroU8", Nz),
    // only for configurations built in code: a route file takes plain names
    ("std::net::Ipv4Addr", "", "std::net::Ipv4Addr", Ip),
    ("crate::support::Tok", "", "crate::support::Tok", Tok),
    ("std::string::String", "", "String", Str),
    ("std::primitive::u8", "", "u8", U8),
];
pub const NTEXT: usize = 22;

pub fn row(ty: &str) -> &'static (&'static str, &'static str, &'static str, Kind) {
    TYPES.iter().find(|t| t.0 == ty).unwrap_or(&TYPES[0])
}

/// What a correct capture of `text` as `ty` looks like:
/// Ok((Debug, Display)) or Err(Debug of the error)
pub fn parse(ty: &str, text: &str) -> Result<(String, String), String> {
    fn p<T>(text: &str) -> Result<(String, String), String>
    where
        T: std::str::FromStr + std::fmt::Debug + std::fmt::Display,
        T::Err: std::fmt::Debug,
    {
        match text.parse::<T>() {
            Ok(v) => Ok((format!("{:?}", v), format!("{}", v))),
            Err(e) => Err(format!("{:?}", e)),
        }
    }
    match row(ty).3 {
        Str => p::<String>(text),
        U8 => p::<u8>(text),
        U16 => p::<u16>(text),
        U32 => p::<u32>(text),
        U64 => p::<u64>(text),
        I8 => p::<i8>(text),
        I16 => p::<i16>(text),
        I64 => p::<i64>(text),
        Usize => p::<usize>(text),
        I32 => p::<i32>(text),
        Isize => p::<isize>(text),
        U128 => p::<u128>(text),
        I128 => p::<i128>(text),
        Nz => p::<std::num::NonZeroU8>(text),
        Bool => p::<bool>(text),
        Char => p::<char>(text),
        Ip => p::<std::net::Ipv4Addr>(text),
        Tok => p::<support::Tok>(text),
    }
}

/// A text that is a value of the type (and could stand in a path).
pub fn valid(ty: &str, r: &mut Rng) -> String {
    let num = |r: &mut Rng, max: u64, min: i64| -> String {
        match r.below(9) {
            0 => "0".into(),
            1 => max.to_string(),
            2 => (max - 1).to_string(),
            3 => min.to_string(),
            4 => format!("+{}", r.next() % (max / 2 + 1)),
            5 => format!("00{}", r.next() % (max / 2 + 1)),
            6 => (r.next() % 10).to_string(),
            _ => (r.next() % (max / 2 + 1)).to_string(),
        }
    };
    match row(ty).3 {
        Str => {
            let fixed = [
                "a", "z9", "hello", "hello-world", "x.y", "~me", "50%25", "a b", "p&q=1", "caf\u{e9}",
                "\u{65e5}\u{672c}", "\u{1f600}", "..", ".", "-", "_", "A", "0", "?", "#frag", "new", "newer",
                "GET", "{id}", "{}", "\"q\"", "'", "\\", "\u{0}", "a\nb", " ", "%2F", "+", ":", "null",
                "\u{7f}", "\u{10ffff}", "\u{800}", "index.html", "a,b;c", "[x]", "//",
                "a%20b", "%20", "%00", "%C3%A9", "%e9", "%zz", "a+b", "%7Bid%7D", "%0A", "&amp;", "\u{fffd}", "a\rb", "\t", "a ", " a",
                "%25", "%2f", "%2e%2e"
            ];
            if r.pct(70) {
                let s = *r.pick(&fixed);
                s.replace('/', "|")
            } else {
                let n = match r.below(100) {
                    0..=4 => *r.pick(&[127, 128, 255, 256, 257, 512, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 9000]),
                    5..=12 => r.range(50, 300),
                    _ => r.range(1, 12),
                };
                (0..n).map(|_| *r.pick(&['a', 'b', 'n', 'e', 'w', 'Z', '0', '2', '-', '.', '\u{e9}', '%', '+'])).collect()
            }
        }
        U8 => num(r, u8::MAX as u64, 0),
        U16 => num(r, u16::MAX as u64, 0),
        U32 => num(r, u32::MAX as u64, 0),
        U64 => num(r, u64::MAX, 0),
        Usize => num(r, usize::MAX as u64, 0),
        I8 => num(r, i8::MAX as u64, i8::MIN as i64),
        I16 => num(r, i16::MAX as u64, i16::MIN as i64),
        I64 => num(r, i64::MAX as u64, i64::MIN),
        I32 => num(r, i32::MAX as u64, i32::MIN as i64),
        Isize => num(r, isize::MAX as u64, isize::MIN as i64),
        U128 => match r.below(3) {
            0 => u128::MAX.to_string(),
            _ => num(r, u64::MAX, 0),
        },
        I128 => match r.below(4) {
            0 => i128::MAX.to_string(),
            1 => i128::MIN.to_string(),
            _ => num(r, u64::MAX, i64::MIN),
        },
        Nz => r.range(1, 255).to_string(),
        Bool => r.pick(&["true", "false"]).to_string(),
        Char => r.pick(&["a", "Z", "0", "\u{e9}", "\u{1f600}", "-", "%"]).to_string(),
        Ip => r.pick(&["127.0.0.1", "0.0.0.0", "255.255.255.255", "10.1.2.3"]).to_string(),
        Tok => r.pick(&["t", "t1", "token", "tt", "t0a9", "new0t"]).replace("new0t", "tnew"),
    }
}

/// A text that is (almost always) not a value of the type; the caller asks `parse`.
pub fn hostile(ty: &str, r: &mut Rng) -> String {
    let any = [
        "x", "-1", "-0", "256", "65536", "4294967296", "18446744073709551616", "-129", "128", "1.5", "1e3", "0x10",
        "1_000", " 1", "1 ", "\u{661}", "true ", "True", "1", "TRUE", "ab", "\u{e9}\u{301}", "1.2.3", "1.2.3.4.5",
        "256.1.1.1", "01.1.1.1", "T1", "t-", "t\u{e9}", "s1", "+", "-", "--1", "++1", "99999999999999999999999999",
        "9223372036854775808", "-9223372036854775809", "32768", "-32769", "\u{0}", "null", "true1", "false0",
    ];
    if r.pct(80) {
        r.pick(&any).to_string()
    } else {
        let mut s = valid(ty, r);
        s.push(*r.pick(&['x', '-', '.', '\u{e9}', ' ', '9']));
        s
    }
}
