//! Small helpers shared by the properties.

pub type Entries = Vec<(Vec<u8>, Vec<u8>)>;

/// Short printable form of a byte string.
pub fn hx(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b.iter().take(24) {
        if (0x20..0x7f).contains(&c) && c != b'\\' && c != b'"' {
            s.push(c as char);
        } else {
            s.push_str(&format!("\\x{c:02x}"));
        }
    }
    s.push('"');
    if b.len() > 24 {
        s.push_str(&format!("..({} bytes,#{:08x})", b.len(), fnv(b) as u32));
    }
    s
}

pub fn hkv(e: Option<(&[u8], &[u8])>) -> String {
    match e {
        None => "None".into(),
        Some((k, v)) => format!("({}, {})", hx(k), hx(v)),
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub fn entry(e: &Entries, i: Option<usize>) -> Option<(&[u8], &[u8])> {
    i.and_then(|i| e.get(i)).map(|(k, v)| (k.as_slice(), v.as_slice()))
}

/// Index of the smallest key >= q.
pub fn ceil_idx(e: &Entries, q: &[u8]) -> Option<usize> {
    let i = e.partition_point(|(k, _)| k.as_slice() < q);
    (i < e.len()).then_some(i)
}

/// Index of the largest key <= q.
pub fn floor_idx(e: &Entries, q: &[u8]) -> Option<usize> {
    e.partition_point(|(k, _)| k.as_slice() <= q).checked_sub(1)
}

pub fn eq_idx(e: &Entries, q: &[u8]) -> Option<usize> {
    e.binary_search_by(|(k, _)| k.as_slice().cmp(q)).ok()
}

/// First difference between two entry lists, or None.
pub fn diff(got: &[(Vec<u8>, Vec<u8>)], want: &[(Vec<u8>, Vec<u8>)]) -> Option<String> {
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        if g != w {
            return Some(format!("entry {i}: got {}, want {}", hkv(Some((&g.0, &g.1))), hkv(Some((&w.0, &w.1)))));
        }
    }
    if got.len() != want.len() {
        return Some(format!("got {} entries, want {}", got.len(), want.len()));
    }
    None
}

pub fn describe(e: &[(Vec<u8>, Vec<u8>)]) -> String {
    let total: usize = e.iter().map(|(k, v)| k.len() + v.len()).sum();
    let head: Vec<String> = e.iter().take(4).map(|(k, v)| format!("{}=>{}", hx(k), hx(v))).collect();
    format!("{} entries, {} bytes [{}{}]", e.len(), total, head.join(", "), if e.len() > 4 { ", .." } else { "" })
}
