//! Builds ULog bytes. Independent of the encoder under test.
pub const MAGIC: [u8; 7] = [0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35];

pub fn header() -> Vec<u8> {
    header_v(1, 0x0102_0304_0506_0708)
}
pub fn header_v(version: u8, ts: u64) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.push(version);
    v.extend_from_slice(&ts.to_le_bytes());
    v
}
pub fn msg(t: u8, payload: &[u8]) -> Vec<u8> {
    assert!(payload.len() <= 65535, "payload {}", payload.len());
    let mut v = (payload.len() as u16).to_le_bytes().to_vec();
    v.push(t);
    v.extend_from_slice(payload);
    v
}
pub fn fmt(text: &str) -> Vec<u8> {
    msg(b'F', text.as_bytes())
}
pub fn sub(multi: u8, id: u16, name: &str) -> Vec<u8> {
    let mut p = vec![multi];
    p.extend_from_slice(&id.to_le_bytes());
    p.extend_from_slice(name.as_bytes());
    msg(b'A', &p)
}
pub fn unsub(id: u16) -> Vec<u8> {
    msg(b'R', &id.to_le_bytes())
}
pub fn data(id: u16, body: &[u8]) -> Vec<u8> {
    let mut p = id.to_le_bytes().to_vec();
    p.extend_from_slice(body);
    msg(b'D', &p)
}
pub fn flags(compat: [u8; 8], incompat: [u8; 8], off: [u64; 3]) -> Vec<u8> {
    let mut p = compat.to_vec();
    p.extend_from_slice(&incompat);
    for o in off {
        p.extend_from_slice(&o.to_le_bytes());
    }
    msg(b'B', &p)
}
fn keyed(pre: &[u8], key: &[u8], val: &[u8]) -> Vec<u8> {
    let mut p = pre.to_vec();
    assert!(key.len() < 256);
    p.push(key.len() as u8);
    p.extend_from_slice(key);
    p.extend_from_slice(val);
    p
}
pub fn info(key: &str, val: &[u8]) -> Vec<u8> {
    msg(b'I', &keyed(&[], key.as_bytes(), val))
}
pub fn multi_info(cont: u8, key: &str, val: &[u8]) -> Vec<u8> {
    msg(b'M', &keyed(&[cont], key.as_bytes(), val))
}
pub fn param(key: &str, val: &[u8]) -> Vec<u8> {
    msg(b'P', &keyed(&[], key.as_bytes(), val))
}
pub fn def_param(types: u8, key: &str, val: &[u8]) -> Vec<u8> {
    msg(b'Q', &keyed(&[types], key.as_bytes(), val))
}
pub fn log(level: u8, ts: u64, text: &[u8]) -> Vec<u8> {
    let mut p = vec![level];
    p.extend_from_slice(&ts.to_le_bytes());
    p.extend_from_slice(text);
    msg(b'L', &p)
}
pub fn tlog(level: u8, tag: u16, ts: u64, text: &[u8]) -> Vec<u8> {
    let mut p = vec![level];
    p.extend_from_slice(&tag.to_le_bytes());
    p.extend_from_slice(&ts.to_le_bytes());
    p.extend_from_slice(text);
    msg(b'C', &p)
}
pub fn dropout(d: u16) -> Vec<u8> {
    msg(b'O', &d.to_le_bytes())
}
pub fn sync() -> Vec<u8> {
    msg(b'S', &[0x2f, 0x73, 0x13, 0x20, 0x25, 0x0c, 0xbb, 0x12])
}
/// Concatenates pieces.
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}
