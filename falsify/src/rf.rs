//! Independent reference of what BIP-324 prescribes: RFC 8439, RFC 5869, the key derivation and
//! the packet layout, written from the specifications and sharing no code with the crates under
//! test except the curve arithmetic and SHA-256.
use bitcoin_hashes::sha256;
use secp256k1::ellswift::ElligatorSwift;
use secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey};

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

pub fn block(key: &[u8; 32], nonce: &[u8; 12], ctr: u32) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let init = s;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12);
        qr(&mut s, 1, 5, 9, 13);
        qr(&mut s, 2, 6, 10, 14);
        qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15);
        qr(&mut s, 1, 6, 11, 12);
        qr(&mut s, 2, 7, 8, 13);
        qr(&mut s, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

/// Keystream bytes from position `pos` on (block counter 0 first).
pub fn keystream(key: &[u8; 32], nonce: &[u8; 12], pos: usize, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut p = pos;
    while v.len() < n {
        let b = block(key, nonce, (p / 64) as u32);
        let from = p % 64;
        let take = (64 - from).min(n - v.len());
        v.extend_from_slice(&b[from..from + take]);
        p += take;
    }
    v
}

/// Poly1305 with 26-bit limbs.
pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap()) as u64;
    let r = [
        le(&key[0..4]) & 0x3ffffff,
        (le(&key[3..7]) >> 2) & 0x3ffff03,
        (le(&key[6..10]) >> 4) & 0x3ffc0ff,
        (le(&key[9..13]) >> 6) & 0x3f03fff,
        (le(&key[12..16]) >> 8) & 0x00fffff,
    ];
    let mut h = [0u64; 5];
    for ch in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..ch.len()].copy_from_slice(ch);
        b[ch.len()] = 1;
        h[0] += le(&b[0..4]) & 0x3ffffff;
        h[1] += (le(&b[3..7]) >> 2) & 0x3ffffff;
        h[2] += (le(&b[6..10]) >> 4) & 0x3ffffff;
        h[3] += (le(&b[9..13]) >> 6) & 0x3ffffff;
        h[4] += (le(&b[12..16]) >> 8) | ((b[16] as u64) << 24);
        let mut d = [0u128; 5];
        for i in 0..5 {
            for j in 0..5 {
                let k = (i + j) % 5;
                let m = if i + j >= 5 { 5 } else { 1 };
                d[k] += h[i] as u128 * r[j] as u128 * m;
            }
        }
        let mut c: u128 = 0;
        for i in 0..5 {
            d[i] += c;
            h[i] = (d[i] & 0x3ffffff) as u64;
            c = d[i] >> 26;
        }
        h[0] += (c * 5) as u64;
        h[1] += h[0] >> 26;
        h[0] &= 0x3ffffff;
    }
    // full carry and reduction
    for _ in 0..2 {
        let mut c = 0;
        for x in h.iter_mut() {
            *x += c;
            c = *x >> 26;
            *x &= 0x3ffffff;
        }
        h[0] += c * 5;
    }
    let mut g = h;
    g[0] += 5;
    for i in 0..4 {
        g[i + 1] += g[i] >> 26;
        g[i] &= 0x3ffffff;
    }
    if g[4] >> 26 != 0 {
        g[4] &= 0x3ffffff;
        h = g;
    }
    for i in 0..4 {
        h[i + 1] += h[i] >> 26;
        h[i] &= 0x3ffffff;
    }
    let n: u128 = (h[0] as u128) | (h[1] as u128) << 26 | (h[2] as u128) << 52 | (h[3] as u128) << 78 | (h[4] as u128) << 104;
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    n.wrapping_add(s).to_le_bytes()
}

pub fn aead_tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk: [u8; 32] = block(key, nonce, 0)[..32].try_into().unwrap();
    let mut m = aad.to_vec();
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(ct);
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&otk, &m)
}

pub fn aead_crypt(key: &[u8; 32], nonce: &[u8; 12], d: &[u8]) -> Vec<u8> {
    keystream(key, nonce, 64, d.len()).iter().zip(d).map(|(a, b)| a ^ b).collect()
}

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let ip: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let op: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let i = sha(&[&ip, msg]);
    sha(&[&op, &i])
}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    sha256::Hash::hash(&v).to_byte_array()
}

pub fn hkdf(salt: &[u8], ikm: &[u8], info: &[u8]) -> [u8; 32] {
    let prk = hmac(salt, ikm);
    let mut m = info.to_vec();
    m.push(1);
    hmac(&prk, &m)
}

#[derive(Clone, Debug)]
pub struct Keys {
    pub sid: [u8; 32],
    pub il: [u8; 32],
    pub ip: [u8; 32],
    pub rl: [u8; 32],
    pub rp: [u8; 32],
    pub ig: [u8; 16],
    pub rg: [u8; 16],
}

/// ECDH over ElligatorSwift encodings: both encodings and the shared x coordinate, hashed.
pub fn ecdh(init: &[u8; 64], resp: &[u8; 64], theirs: &[u8; 64], sk: &SecretKey) -> [u8; 32] {
    let secp = Secp256k1::new();
    let p = PublicKey::from_ellswift(ElligatorSwift::from_array(*theirs));
    let q = p.mul_tweak(&secp, &Scalar::from(*sk)).expect("tweak");
    let x = q.x_only_public_key().0.serialize();
    let tag = sha(&[b"bip324_ellswift_xonly_ecdh"]);
    sha(&[&tag, &tag, init, resp, &x])
}

impl Keys {
    pub fn derive(secret: &[u8; 32], magic: &[u8; 4]) -> Keys {
        let mut salt = b"bitcoin_v2_shared_secret".to_vec();
        salt.extend_from_slice(magic);
        let e = |l: &str| hkdf(&salt, secret, l.as_bytes());
        let g = e("garbage_terminators");
        Keys {
            sid: e("session_id"),
            il: e("initiator_L"),
            ip: e("initiator_P"),
            rl: e("responder_L"),
            rp: e("responder_P"),
            ig: g[..16].try_into().unwrap(),
            rg: g[16..].try_into().unwrap(),
        }
    }
    pub fn send_dir(&self, initiator: bool) -> Dir {
        if initiator {
            Dir::new(self.il, self.ip)
        } else {
            Dir::new(self.rl, self.rp)
        }
    }
    pub fn term(&self, initiator: bool) -> [u8; 16] {
        if initiator {
            self.ig
        } else {
            self.rg
        }
    }
}

/// One direction of a session, keys of the current epochs.
#[derive(Clone, Debug)]
pub struct Dir {
    pub lk: [u8; 32],
    pub pk: [u8; 32],
    pub ln: u64,
    pub pn: u64,
}

pub fn nonce(a: [u8; 4], e: u64) -> [u8; 12] {
    let mut n = [0u8; 12];
    n[..4].copy_from_slice(&a);
    n[4..].copy_from_slice(&e.to_le_bytes());
    n
}

impl Dir {
    pub fn new(lk: [u8; 32], pk: [u8; 32]) -> Dir {
        Dir { lk, pk, ln: 0, pn: 0 }
    }
    pub fn at(lk: [u8; 32], pk: [u8; 32], n: u64) -> Dir {
        Dir { lk, pk, ln: n, pn: n }
    }
    pub fn len_mask(&self) -> [u8; 3] {
        keystream(&self.lk, &nonce([0; 4], self.ln / 224), 3 * (self.ln % 224) as usize, 3).try_into().unwrap()
    }
    pub fn step_len(&mut self) {
        if self.ln % 224 == 223 {
            self.lk = keystream(&self.lk, &nonce([0; 4], self.ln / 224), 672, 32).try_into().unwrap();
        }
        self.ln += 1;
    }
    pub fn packet_nonce(&self) -> [u8; 12] {
        nonce(((self.pn % 224) as u32).to_le_bytes(), self.pn / 224)
    }
    pub fn step_packet(&mut self) {
        if self.pn % 224 == 223 {
            self.pk = aead_crypt(&self.pk, &nonce([0xff; 4], self.pn / 224), &[0u8; 32]).try_into().unwrap();
        }
        self.pn += 1;
    }
    /// Header, contents and tag without advancing.
    pub fn body(&self, header: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let mut p = vec![header];
        p.extend_from_slice(contents);
        let mut ct = aead_crypt(&self.pk, &self.packet_nonce(), &p);
        let tag = aead_tag(&self.pk, &self.packet_nonce(), aad, &ct);
        ct.extend_from_slice(&tag);
        ct
    }
    pub fn enc_len(&self, n: usize) -> [u8; 3] {
        let m = self.len_mask();
        let b = (n as u32).to_le_bytes();
        [b[0] ^ m[0], b[1] ^ m[1], b[2] ^ m[2]]
    }
    /// The next packet.
    pub fn seal(&mut self, header: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let mut v = self.enc_len(contents.len()).to_vec();
        v.extend(self.body(header, contents, aad));
        self.step_len();
        self.step_packet();
        v
    }
    /// Opens the packet at the start of `s`: (bytes used, header, contents).
    pub fn open(&mut self, s: &[u8], aad: &[u8]) -> Result<(usize, u8, Vec<u8>), String> {
        if s.len() < 3 {
            return Err(format!("only {} bytes for a length", s.len()));
        }
        let m = self.len_mask();
        let l = u32::from_le_bytes([s[0] ^ m[0], s[1] ^ m[1], s[2] ^ m[2], 0]) as usize;
        if s.len() < 3 + l + 17 {
            return Err(format!("length {l} announced, {} bytes present", s.len()));
        }
        let ct = &s[3..3 + l + 1];
        let tag = aead_tag(&self.pk, &self.packet_nonce(), aad, ct);
        if tag[..] != s[3 + l + 1..3 + l + 17] {
            return Err(format!("tag of packet {} wrong", self.pn));
        }
        let p = aead_crypt(&self.pk, &self.packet_nonce(), ct);
        self.step_len();
        self.step_packet();
        Ok((3 + l + 17, p[0], p[1..].to_vec()))
    }
    /// Opens all packets of a complete stream.
    pub fn open_all(&mut self, mut s: &[u8]) -> Result<Vec<(u8, Vec<u8>)>, String> {
        let mut v = vec![];
        while !s.is_empty() {
            let (n, h, c) = self.open(s, &[])?;
            v.push((h, c));
            s = &s[n..];
        }
        Ok(v)
    }
}

pub fn self_test() {
    // RFC 8439, 2.8.2
    let key: [u8; 32] = core::array::from_fn(|i| 0x80 + i as u8);
    let nonce = [7, 0, 0, 0, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47];
    let aad = [0x50, 0x51, 0x52, 0x53, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7];
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = aead_crypt(&key, &nonce, pt);
    assert_eq!(ct[..4], [0xd3, 0x1a, 0x8d, 0x34]);
    assert_eq!(
        aead_tag(&key, &nonce, &aad, &ct),
        [0x1a, 0xe1, 0x0b, 0x59, 0x4f, 0x09, 0xe2, 0x6a, 0x7e, 0x90, 0x2e, 0xcb, 0xd0, 0x60, 0x06, 0x91]
    );
    // RFC 5869, test case 1 (first block)
    let okm = hkdf(&(0u8..=12).collect::<Vec<_>>(), &[0x0b; 22], &(0xf0u8..=0xf9).collect::<Vec<_>>());
    assert_eq!(okm[..4], [0x3c, 0xb2, 0x5f, 0x25]);
}
