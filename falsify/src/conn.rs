//! Driving the code under test.
use crate::net::*;
use crate::rf::{self, Dir, Keys};
use crate::util::*;
use bip324::io::{Payload, ProtocolError};
use bip324::*;
use secp256k1::ellswift::ElligatorSwift;
use secp256k1::{Secp256k1, SecretKey};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

pub struct FixedRng(pub [u8; 32]);
impl FillBytes for FixedRng {
    fn fill_bytes(&mut self, d: &mut [u8; 32]) {
        *d = self.0;
    }
}

pub fn secret(rng: &mut Rng) -> SecretKey {
    loop {
        if let Ok(s) = SecretKey::from_slice(&rng.bytes(32)) {
            return s;
        }
    }
}

#[derive(Clone)]
pub struct Peer {
    pub sk: SecretKey,
    pub es: [u8; 64],
    pub initiator: bool,
    pub magic: [u8; 4],
}
impl Peer {
    pub fn new(rng: &mut Rng, initiator: bool, magic: [u8; 4]) -> Peer {
        let secp = Secp256k1::new();
        loop {
            let sk = secret(rng);
            let es = ElligatorSwift::from_seckey(&secp, sk, Some(rng.arr())).to_array();
            if es[..4] != magic {
                return Peer { sk, es, initiator, magic };
            }
        }
    }
    pub fn keys(&self, sut: &[u8; 64]) -> Keys {
        let (i, r) = if self.initiator { (&self.es, sut) } else { (sut, &self.es) };
        Keys::derive(&rf::ecdh(i, r, sut, &self.sk), &self.magic)
    }
}

pub fn role(initiator: bool) -> Role {
    if initiator {
        Role::Initiator
    } else {
        Role::Responder
    }
}
pub fn ptype(genuine: bool) -> PacketType {
    if genuine {
        PacketType::Genuine
    } else {
        PacketType::Decoy
    }
}

/// Networks in use.
pub const NETWORKS: [[u8; 4]; 5] =
    [[0xF9, 0xBE, 0xB4, 0xD9], [0x0B, 0x11, 0x09, 0x07], [0x1C, 0x16, 0x3F, 0x28], [0x0A, 0x03, 0xCF, 0x40], [0xFA, 0xBF, 0xB5, 0xDA]];
pub fn magic(rng: &mut Rng) -> [u8; 4] {
    match rng.below(8) {
        0..=3 => [0xF9, 0xBE, 0xB4, 0xD9],
        4 => rng.pick(&NETWORKS),
        5 => crate::dict::str_of(rng, 4).map_or(NETWORKS[1], |s| s.try_into().unwrap()),
        _ => rng.arr(),
    }
}

pub fn low_new(rng: &mut Rng, initiator: bool, magic: [u8; 4]) -> Handshake<Initialized> {
    let secp = Secp256k1::new();
    let mut f = FixedRng(secret(rng).secret_bytes());
    Handshake::<Initialized>::new_with_rng(magic, role(initiator), &mut f, &secp).expect("new_with_rng")
}

/// Low-level handshake of the code under test with the reference peer, up to the session.
/// Returns the session, keys, what was sent and the peer's direction after its version packet.
pub fn low_session(rng: &mut Rng, initiator: bool) -> Result<(CipherSession, Keys, Dir, Dir), String> {
    let m = magic(rng);
    let peer = Peer::new(rng, !initiator, m);
    let h = low_new(rng, initiator, m);
    let mut kb = vec![0u8; 64];
    let h = h.send_key(None, &mut kb).map_err(|e| format!("send_key: {e:?}"))?;
    let keys = peer.keys(&kb[..64].try_into().unwrap());
    let h = h.receive_key(peer.es).map_err(|e| format!("receive_key: {e:?}"))?;
    let mut vb = vec![0u8; 36];
    let h = h.send_version(&mut vb, None).map_err(|e| format!("send_version: {e:?}"))?;
    let spec = PeerSpec { version: (0, vec![]), ..Default::default() };
    let (s, pd) = spec.stream(&keys, !initiator);
    match h.receive_garbage(&s).map_err(|e| format!("receive_garbage: {e:?}"))? {
        GarbageResult::FoundGarbage { mut handshake, consumed_bytes } => {
            let n = handshake
                .decrypt_packet_len(s[consumed_bytes..consumed_bytes + 3].try_into().unwrap())
                .map_err(|e| format!("decrypt_packet_len: {e:?}"))?;
            let mut b = s[consumed_bytes + 3..].to_vec();
            if b.len() != n {
                return Err(format!("version packet length {n}, expected {}", b.len()));
            }
            match handshake.receive_version(&mut b).map_err(|e| format!("receive_version: {e:?}"))? {
                VersionResult::Complete { cipher } => {
                    let mut sd = keys.send_dir(initiator);
                    sd.step_len();
                    sd.step_packet();
                    Ok((cipher, keys, sd, pd))
                }
                VersionResult::Decoy(_) => Err("version packet taken for a decoy".into()),
            }
        }
        GarbageResult::NeedMoreData(_) => Err("terminator not found".into()),
    }
}

/// Runs a future on the scripted transport.
pub fn drive<F: Future>(net: &Shared, f: F) -> Result<F::Output, String> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..20_000_000u64 {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Ok(x),
            Poll::Pending => {
                if net.lock().unwrap().starved {
                    return Err("waits for ever".into());
                }
            }
        }
    }
    Err("does not finish".into())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Sync,
    Async,
}

pub enum Conn {
    S(bip324::io::Protocol<R, W>),
    A(bip324::futures::Protocol<R, W>),
}

pub fn connect(
    kind: Kind,
    net: &Shared,
    magic: [u8; 4],
    initiator: bool,
    garbage: Option<Vec<u8>>,
    decoys: Option<Vec<Vec<u8>>>,
) -> Result<Result<Conn, ProtocolError>, String> {
    match kind {
        Kind::Sync => Ok(bip324::io::Protocol::new(magic, role(initiator), garbage, decoys, R(net.clone()), W(net.clone())).map(Conn::S)),
        Kind::Async => {
            let f = bip324::futures::Protocol::new(magic, role(initiator), garbage, decoys, R(net.clone()), W(net.clone()));
            Ok(drive(net, f)?.map(Conn::A))
        }
    }
}

impl Conn {
    pub fn read(&mut self, net: &Shared) -> Result<Result<Payload, ProtocolError>, String> {
        match self {
            Conn::S(p) => Ok(p.read()),
            Conn::A(p) => drive(net, p.read()),
        }
    }
    pub fn write(&mut self, net: &Shared, p: &Payload) -> Result<Result<(), ProtocolError>, String> {
        match self {
            Conn::S(c) => Ok(c.write(p)),
            Conn::A(c) => drive(net, c.write(p)),
        }
    }
}

/// Checks key message and version message in what was sent; returns the position after them and
/// the sender's direction.
pub fn check_sent(sent: &[u8], garbage: &[u8], decoys: &[Vec<u8>], keys: &Keys, initiator: bool) -> Result<(usize, Dir), String> {
    let mut p = 64;
    if sent.len() < 64 + garbage.len() + 16 {
        return Err(format!("only {} bytes sent", sent.len()));
    }
    if sent[p..p + garbage.len()] != *garbage {
        return Err("garbage is not sent after the key".into());
    }
    p += garbage.len();
    if sent[p..p + 16] != keys.term(initiator) {
        return Err("own garbage terminator is not sent after the garbage".into());
    }
    p += 16;
    let mut d = keys.send_dir(initiator);
    let mut aad = garbage;
    for (i, c) in decoys.iter().enumerate() {
        let (n, h, got) = d.open(&sent[p..], aad).map_err(|e| format!("handshake decoy {i}: {e}"))?;
        if h != 128 || got != *c {
            return Err(format!("handshake decoy {i}: header {h}, {} bytes instead of {}", got.len(), c.len()));
        }
        p += n;
        aad = &[];
    }
    let (n, h, got) = d.open(&sent[p..], aad).map_err(|e| format!("version packet: {e}"))?;
    if h != 0 || !got.is_empty() {
        return Err(format!("version packet: header {h}, {} bytes", got.len()));
    }
    Ok((p + n, d))
}

pub fn is_genuine(t: PacketType) -> bool {
    matches!(t, PacketType::Genuine)
}

/// Net with the peer's key and its script set up.
pub fn peer_net(rng: &mut Rng, peer: &Peer, spec: &PeerSpec) -> Net {
    let mut n = Net::new(rng);
    n.incoming = peer.es.to_vec();
    let (p, s) = (peer.clone(), spec.clone());
    n.script = Some(Box::new(move |k| s.stream(&p.keys(k), p.initiator).0));
    n
}
