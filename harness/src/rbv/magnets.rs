//! Magnet links and what they mean, for C21, C22 and C23.
use proptest::collection::vec;
use proptest::prelude::*;

pub const PREFIX: &str = "xt=urn:btih:";

pub fn hex(b: &[u8], case: u64) -> String {
    b.iter()
        .flat_map(|x| [x >> 4, x & 15])
        .enumerate()
        .map(|(i, d)| {
            let c = char::from_digit(d as u32, 16).unwrap();
            if case >> (i % 64) & 1 == 1 {
                c.to_ascii_uppercase()
            } else {
                c
            }
        })
        .collect()
}

pub fn base32(b: &[u8]) -> String {
    let mut out = String::new();
    let (mut acc, mut bits) = (0u32, 0);
    for x in b {
        acc = acc << 8 | *x as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[(acc >> bits & 31) as usize] as char);
        }
        acc &= (1 << bits) - 1;
    }
    out
}

/// Other parameters, some of them easily mistaken for the info hash.
pub fn param() -> BoxedStrategy<String> {
    let val = prop_oneof![
        3 => "[A-Za-z0-9%.+_-]{0,20}",
        1 => "[A-Za-z0-9%.+_=:/?#-]{0,40}",
        1 => "[a-f0-9]{40}",
        1 => "[A-Z2-7]{32}",
        1 => Just("xt=urn:btih:0123456789012345678901234567890123456789".to_string()),
        1 => "[é日Ω😀 ]{1,6}",
    ];
    prop_oneof![
        3 => ("[a-z]{2}", val.clone()).prop_map(|(k, v)| format!("{}={v}", if k == "xt" { "xs".to_string() } else { k })),
        2 => (prop::sample::select(vec!["dn", "tr", "xl", "ws", "as", "xs", "kt", "mt", "so", "x.pe", "tr.1"]), val.clone()).prop_map(|(k, v)| format!("{k}={v}")),
        1 => prop::sample::select(vec![
            "xt=urn:sha1:YNCKHTQCWBTRNJIV4WNAE52SJUQCZO5C",
            "xt=urn:btmh:1220caf1e1c30e81cb361b9ee167c4aa64228a7fa4fa9f6105232b28ad099f3a302e",
            "xt=urn:md5:0123456789abcdef0123456789abcdef",
            "xt=urn:tree:tiger:0123456789012345678901234567890123456789",
            "", "=", "dn", "&",
        ]).prop_map(String::from),
        1 => val,
    ]
    .prop_map(|s| s.replace('&', ""))
    .prop_map(|s| if s.starts_with(PREFIX) { format!("dn={s}") } else { s })
    .boxed()
}

pub fn params() -> BoxedStrategy<Vec<String>> {
    let long = (prop::sample::select(vec!["dn", "tr", "xs", "x.pe"]), prop_oneof![200usize..3_000, 3_000usize..40_000]).prop_map(|(k, n)| vec![format!("{k}={}", "y".repeat(n))]);
    prop_oneof![30 => Just(vec![]), 90 => vec(param(), 0..3), 60 => vec(param(), 0..8), 1 => vec(param(), 8..150), 1 => long].boxed()
}

// ---- the reference classification ---------------------------------------------------------------------------------

#[derive(Debug, PartialEq)]
pub enum Class {
    Reject(&'static str),
    Hex(Vec<u8>),
    /// left open by the statement
    Open,
}

pub fn class(l: &[u8]) -> Class {
    let s = b"magnet:?";
    if !l.starts_with(s) {
        if l.len() >= 8 && l[..8].eq_ignore_ascii_case(s) {
            return Class::Open; // schemes are case-insensitive by RFC 3986
        }
        return Class::Reject("scheme");
    }
    let pre = PREFIX.as_bytes();
    let lower: Vec<Vec<u8>> = l[8..].split(|b| *b == b'&').map(|p| p.to_vec()).collect();
    // a parameter that some reading could take for the info hash
    let odd = lower.iter().any(|p| {
        !p.starts_with(pre) && {
            let t = String::from_utf8_lossy(p).to_ascii_lowercase();
            let t = t.replace("%3a", ":").replace("%3d", "=").replace("%78", "x").replace("%74", "t");
            t.trim_start().starts_with("xt") && t.contains("btih")
        }
    });
    let found: Vec<&[u8]> = lower.iter().filter_map(|p| p.strip_prefix(pre)).collect();
    if odd {
        return Class::Open;
    }
    match found.len() {
        0 => Class::Reject("no btih info hash"),
        1 => {
            let h = found[0];
            if h.len() == 40 && h.iter().all(|b| b.is_ascii_hexdigit()) {
                let n = |b: u8| (b as char).to_digit(16).unwrap() as u8;
                Class::Hex(h.chunks(2).map(|c| n(c[0]) << 4 | n(c[1])).collect())
            } else if h.len() == 32 && h.iter().all(|b| b.is_ascii_alphabetic() || (b'2'..=b'7').contains(b)) {
                Class::Open // C21
            } else if h.contains(&b'%') {
                Class::Open // percent-encoded digits
            } else {
                Class::Reject("wrong length or digit")
            }
        }
        _ => Class::Open,
    }
}
