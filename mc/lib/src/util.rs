//! Small independent implementations of the formats the oracle needs.

pub fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98,
        0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
        0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8,
        0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
        0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
        0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
        0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
        0xc67178f2,
    ];
    let mut h: [u32; 8] =
        [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
/// Unpadded URL-safe base64.
pub fn b64url(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}
pub fn pct_decode(s: &str, plus: bool) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("zz"), 16) {
                o.push(x);
                i += 3;
                continue;
            }
        }
        o.push(if plus && b[i] == b'+' { b' ' } else { b[i] });
        i += 1;
    }
    o
}
pub fn pct_encode(s: &str) -> String {
    let mut o = String::new();
    for c in s.bytes() {
        if c.is_ascii_alphanumeric() || b"-._~".contains(&c) {
            o.push(c as char);
        } else {
            o.push_str(&format!("%{c:02X}"));
        }
    }
    o
}
pub type Form = Vec<(String, String)>;
pub fn form(s: &str) -> Form {
    s.split('&')
        .filter(|x| !x.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            (
                String::from_utf8_lossy(&pct_decode(k, true)).into_owned(),
                String::from_utf8_lossy(&pct_decode(v, true)).into_owned(),
            )
        })
        .collect()
}
pub fn get<'a>(f: &'a Form, k: &str) -> Option<&'a str> {
    f.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
}
/// (scheme, host, port, path, query) of an absolute URL.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Url {
    pub scheme: String,
    pub host: String,
    pub port: Option<u16>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
}
pub fn url(s: &str) -> Option<Url> {
    let (scheme, rest) = s.split_once("://")?;
    let (rest, fragment) = match rest.split_once('#') {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (rest, None),
    };
    let (rest, query) = match rest.split_once('?') {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (rest, None),
    };
    let (auth, path) = match rest.find('/') {
        Some(i) => (&rest[..i], &rest[i..]),
        None => (rest, "/"),
    };
    let auth = auth.rsplit('@').next().unwrap();
    let (host, port) = match auth.rfind(':') {
        Some(i) if !auth[i..].contains(']') => (&auth[..i], auth[i + 1..].parse().ok()),
        _ => (auth, None),
    };
    let scheme = scheme.to_ascii_lowercase();
    let port = port.filter(|p| (scheme.as_str(), *p) != ("http", 80) && (scheme.as_str(), *p) != ("https", 443));
    Some(Url {
        scheme,
        host: host.to_ascii_lowercase(),
        port,
        path: path.to_string(),
        query,
        fragment,
    })
}
impl Url {
    pub fn params(&self) -> Form {
        form(self.query.as_deref().unwrap_or(""))
    }
}
pub struct HttpMsg {
    pub line: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
/// Parse a message once it is complete (bodies by Content-Length only).
pub fn http(b: &[u8]) -> Option<HttpMsg> {
    let i = b.windows(4).position(|x| x == b"\r\n\r\n")?;
    let head = String::from_utf8_lossy(&b[..i]).into_owned();
    let mut ls = head.split("\r\n");
    let line = ls.next()?.to_string();
    let headers: Vec<(String, String)> =
        ls.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
    let n = headers.iter().find(|x| x.0 == "content-length").and_then(|x| x.1.parse::<usize>().ok()).unwrap_or(0);
    if b.len() < i + 4 + n {
        return None;
    }
    Some(HttpMsg { line, headers, body: b[i + 4..i + 4 + n].to_vec() })
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    if needle.is_empty() || hay.len() < needle.len() {
        return false;
    }
    // SAFETY: both are valid for their lengths.
    unsafe { !libc::memmem(hay.as_ptr().cast(), hay.len(), needle.as_ptr().cast(), needle.len()).is_null() }
}
/// The first URL in a piece of text.
pub fn find_url(s: &str) -> Option<String> {
    let i = ["http://", "https://", "HTTP://", "HTTPS://"].iter().filter_map(|p| s.find(p)).min()?;
    Some(s[i..].split(|c: char| c.is_whitespace() || c == '"').next().unwrap().to_string())
}
/// Seconds since the epoch of an RFC 2822 date such as "Tue, 14 Nov 2023 22:13:20 +0000".
pub fn rfc2822(s: &str) -> Option<i64> {
    let p: Vec<&str> = s.split_whitespace().collect();
    if p.len() < 6 {
        return None;
    }
    let d: i64 = p[1].parse().ok()?;
    let m = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
        .iter()
        .position(|x| *x == p[2])? as i64
        + 1;
    let y: i64 = p[3].parse().ok()?;
    let t: Vec<i64> = p[4].split(':').filter_map(|x| x.parse().ok()).collect();
    if t.len() != 3 {
        return None;
    }
    let off = p[5];
    let sign = if off.starts_with('-') { -1 } else { 1 };
    let oh: i64 = off.get(1..3)?.parse().ok()?;
    let om: i64 = off.get(3..5)?.parse().ok()?;
    let (yy, mm) = if m <= 2 { (y - 1, m + 12) } else { (y, m) };
    let days = 365 * yy + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) + (153 * (mm - 3) + 2) / 5 + d - 719469;
    Some(days * 86400 + t[0] * 3600 + t[1] * 60 + t[2] - sign * (oh * 3600 + om * 60))
}

#[cfg(test)]
mod t {
    #[test]
    fn t() {
        assert_eq!(super::b64url(&super::sha256(b"abc")), "ungWv48Bz-pBQUDeXa4iI7ADYaOWF3qctBD_YfIAFa0");
        assert_eq!(super::rfc2822("Tue, 14 Nov 2023 22:13:20 +0000"), Some(1_700_000_000));
    }
}
