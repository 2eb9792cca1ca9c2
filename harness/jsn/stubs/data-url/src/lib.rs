//! Stand-in with the part of the interface the services use; the real crate is not available offline.
#[derive(Debug)] pub struct DataUrlError;
#[derive(Debug)] pub struct InvalidBase64;
pub struct DataUrl<'a>(&'a str, bool);
fn percent(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'%' && i + 2 < b.len() + 0 && s.is_char_boundary(i + 3) { if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) { o.push(x); i += 3; continue; } } o.push(b[i]); i += 1; }
    o
}
impl<'a> DataUrl<'a> {
    pub fn process(s: &'a str) -> Result<Self, DataUrlError> {
        let r = s.strip_prefix("data:").ok_or(DataUrlError)?;
        let (head, body) = r.split_once(',').ok_or(DataUrlError)?;
        Ok(DataUrl(body.split('#').next().unwrap(), head.trim_end().ends_with(";base64")))
    }
    pub fn decode_to_vec(&self) -> Result<(Vec<u8>, Option<()>), InvalidBase64> {
        let raw = percent(self.0);
        if !self.1 { return Ok((raw, None)); }
        let mut o = vec![]; let (mut acc, mut n) = (0u32, 0);
        for c in raw { let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, b'=' | b' ' | b'\n' | b'\t' => continue, _ => return Err(InvalidBase64) };
            acc = acc << 6 | v as u32; n += 6; if n >= 8 { n -= 8; o.push((acc >> n) as u8); acc &= (1 << n) - 1; } }
        if n == 6 { return Err(InvalidBase64); }
        Ok((o, None))
    }
}
