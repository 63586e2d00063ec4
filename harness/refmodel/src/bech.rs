//! bech32m (BIP350) as used for silent payment codes (BIP352).
use bitcoin::secp256k1::PublicKey;

pub const CHARSET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub const BECH32M: u32 = 0x2bc8_30a3;
/// BIP352 lets codes have up to 1023 characters.
pub const MAX_LEN: usize = 1023;

fn polymod(values: impl Iterator<Item = u8>) -> u32 {
    let mut chk = 1u32;
    for v in values {
        let top = chk >> 25;
        chk = (chk & 0x1ff_ffff) << 5 ^ v as u32;
        for (i, g) in [0x3b6a_57b2u32, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3].iter().enumerate() {
            if top >> i & 1 == 1 {
                chk ^= g;
            }
        }
    }
    chk
}

fn expand(hrp: &str) -> Vec<u8> {
    let mut v: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(hrp.bytes().map(|b| b & 31));
    v
}

/// The string with these 5-bit groups and a correct checksum for the constant.
pub fn encode_groups(hrp: &str, groups: &[u8], constant: u32) -> String {
    let values = expand(hrp).into_iter().chain(groups.iter().copied()).chain([0; 6]);
    let p = polymod(values) ^ constant;
    let mut s = format!("{hrp}1");
    for g in groups {
        s.push(CHARSET[*g as usize] as char);
    }
    for i in 0..6 {
        s.push(CHARSET[(p >> (5 * (5 - i)) & 31) as usize] as char);
    }
    s
}

/// 8-bit to 5-bit groups, the last one filled with zero bits.
pub fn to_groups(bytes: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in bytes {
        acc = acc << 8 | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push((acc >> bits & 31) as u8);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        out.push((acc << (5 - bits) & 31) as u8);
    }
    out
}

/// 5-bit groups to bytes; the rest must be less than a group and zero.
pub fn from_groups(groups: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for g in groups {
        acc = acc << 5 | *g as u32;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits & 255) as u8);
        }
        acc &= (1 << bits) - 1;
    }
    (bits < 5 && acc == 0).then_some(out)
}

pub fn encode_code(hrp: &str, version: u8, payload: &[u8]) -> String {
    let mut g = vec![version];
    g.extend(to_groups(payload));
    encode_groups(hrp, &g, BECH32M)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Parsed {
    pub hrp: String,
    pub version: u8,
    pub scan: PublicKey,
    pub spend: PublicKey,
}

/// A code as BIP352 lets it be parsed, or the reason for refusing it.
pub fn parse_code(s: &str) -> Result<Parsed, &'static str> {
    if s.len() > MAX_LEN {
        return Err("too long");
    }
    if !s.bytes().all(|b| (33..=126).contains(&b)) {
        return Err("character out of range");
    }
    if s.bytes().any(|b| b.is_ascii_lowercase()) && s.bytes().any(|b| b.is_ascii_uppercase()) {
        return Err("mixed case");
    }
    let s = s.to_ascii_lowercase();
    let pos = s.rfind('1').ok_or("no separator")?;
    let (hrp, data) = (&s[..pos], &s[pos + 1..]);
    if hrp.is_empty() || hrp.len() > 83 {
        return Err("prefix length");
    }
    let mut groups = vec![];
    for b in data.bytes() {
        groups.push(CHARSET.iter().position(|c| *c == b).ok_or("character outside the charset")? as u8);
    }
    if groups.len() < 6 {
        return Err("no room for a checksum");
    }
    if polymod(expand(hrp).into_iter().chain(groups.iter().copied())) != BECH32M {
        return Err("checksum");
    }
    if !["sp", "tsp", "sprt"].contains(&hrp) {
        return Err("unknown prefix");
    }
    groups.truncate(groups.len() - 6);
    let version = *groups.first().ok_or("no version")?;
    let payload = from_groups(&groups[1..]).ok_or("padding")?;
    match version {
        0 if payload.len() != 66 => return Err("length of version 0"),
        1..=30 if payload.len() < 66 => return Err("length"),
        31 => return Err("version 31"),
        _ => {}
    }
    let scan = PublicKey::from_slice(&payload[..33]).map_err(|_| "scan key")?;
    let spend = PublicKey::from_slice(&payload[33..66]).map_err(|_| "spend key")?;
    Ok(Parsed { hrp: hrp.to_string(), version, scan, spend })
}
