//! Stand-in for encoding 0.2: strict UTF-8 decoding with BOM detection.
use std::borrow::Cow;
pub enum DecoderTrap {
    Strict,
    Replace,
}
pub struct Utf8;
pub type EncodingRef = &'static Utf8;
pub mod all {
    pub const UTF_8: super::EncodingRef = &super::Utf8;
}
fn utf16(b: &[u8], be: bool, strict: bool) -> Result<String, Cow<'static, str>> {
    if b.len() % 2 != 0 && strict {
        return Err("incomplete sequence".into());
    }
    let u = b.chunks_exact(2).map(|c| if be { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) });
    char::decode_utf16(u)
        .map(|r| match r {
            Ok(c) => Ok(c),
            Err(_) if !strict => Ok('\u{FFFD}'),
            Err(_) => Err("invalid sequence".into()),
        })
        .collect()
}
pub fn decode(input: &[u8], trap: DecoderTrap, fallback: EncodingRef) -> (Result<String, Cow<'static, str>>, EncodingRef) {
    let strict = matches!(trap, DecoderTrap::Strict);
    let r = match input {
        [0xEF, 0xBB, 0xBF, r @ ..] => utf8(r, strict),
        [0xFE, 0xFF, r @ ..] => utf16(r, true, strict),
        [0xFF, 0xFE, r @ ..] => utf16(r, false, strict),
        r => utf8(r, strict),
    };
    (r, fallback)
}
fn utf8(b: &[u8], strict: bool) -> Result<String, Cow<'static, str>> {
    if strict {
        String::from_utf8(b.to_vec()).map_err(|_| "invalid sequence".into())
    } else {
        Ok(String::from_utf8_lossy(b).into_owned())
    }
}
