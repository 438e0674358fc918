//! Key schedule and packet protection written from RFC 5869, RFC 8446 and RFC 9001 on `ring`.
use ring::aead::{quic, Aad, LessSafeKey, Nonce, UnboundKey, AES_128_GCM};
use ring::hmac;

pub const SALT_V1: [u8; 20] = [
    0x38, 0x76, 0x2c, 0xf7, 0xf5, 0x59, 0x34, 0xb3, 0x4d, 0x17, 0x9a, 0xe6, 0xa4, 0xc8, 0x0c, 0xad,
    0xcc, 0xbb, 0x7f, 0x0a,
];

pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let k = hmac::Key::new(hmac::HMAC_SHA256, key);
    let mut c = hmac::Context::with_key(&k);
    for p in parts {
        c.update(p)
    }
    c.sign().as_ref().to_vec()
}
pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> Vec<u8> {
    hmac256(salt.unwrap_or(&[0u8; 32]), &[ikm])
}
/// RFC 5869 expand; `len` must not exceed 255 * 32
pub fn expand(prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < len {
        t = hmac256(prk, &[&t, info, &[i]]);
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(len);
    out
}
pub fn expand_label(prk: &[u8], label: &[u8], ctx: &[u8], len: usize) -> Vec<u8> {
    let mut info = vec![(len >> 8) as u8, len as u8, (label.len() + 6) as u8];
    info.extend_from_slice(b"tls13 ");
    info.extend_from_slice(label);
    info.push(ctx.len() as u8);
    info.extend_from_slice(ctx);
    expand(prk, &info, len)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Keys {
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub hp: Vec<u8>,
}
impl Keys {
    pub fn from_secret(s: &[u8]) -> Self {
        Self {
            key: expand_label(s, b"quic key", b"", 16),
            iv: expand_label(s, b"quic iv", b"", 12),
            hp: expand_label(s, b"quic hp", b"", 16),
        }
    }
    pub fn initial(server: bool, cid: &[u8]) -> Self {
        let s = extract(Some(&SALT_V1), cid);
        Self::from_secret(&expand_label(&s, if server { b"server in" } else { b"client in" }, b"", 32))
    }
    fn nonce(&self, pn: u64) -> Nonce {
        let mut n = [0u8; 12];
        n.copy_from_slice(&self.iv);
        for (i, b) in pn.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        Nonce::assume_unique_for_key(n)
    }
    fn aead(&self) -> LessSafeKey {
        LessSafeKey::new(UnboundKey::new(&AES_128_GCM, &self.key).unwrap())
    }
    pub fn seal(&self, pn: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
        let mut b = pt.to_vec();
        self.aead().seal_in_place_append_tag(self.nonce(pn), Aad::from(ad), &mut b).unwrap();
        b
    }
    pub fn open(&self, pn: u64, ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        let mut b = ct.to_vec();
        self.aead().open_in_place(self.nonce(pn), Aad::from(ad), &mut b).ok().map(|p| p.to_vec())
    }
    pub fn mask(&self, sample: &[u8]) -> [u8; 5] {
        quic::HeaderProtectionKey::new(&quic::AES_128, &self.hp).unwrap().new_mask(sample).unwrap()
    }
}
