//! Scenarios on the low-level interface: ciphers and the handshake state machine.
use crate::conn::*;
use crate::net::PeerSpec;
use crate::rf::{Dir, Keys};
use crate::util::*;
use crate::{ck, eq, Scenario};
use bip324::*;
use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty};
use secp256k1::Secp256k1;

/// A cipher pair under test and the reference direction of each, about to process packet n.
pub struct Pair {
    pub i: InboundCipher,
    pub o: OutboundCipher,
    pub di: Dir,
    pub do_: Dir,
}

#[cfg(bip324_verif)]
pub fn pair_at(rng: &mut Rng, n: u64) -> Result<Pair, String> {
    let (a, b, c, mut d): ([u8; 32], [u8; 32], [u8; 32], [u8; 32]) = (rng.arr(), rng.arr(), rng.arr(), rng.arr());
    // no session has one key for both directions
    while d == b {
        d[0] = rng.next() as u8;
    }
    Ok(Pair {
        i: bip324::verif::inbound_at(a, b, n),
        o: bip324::verif::outbound_at(c, d, n),
        di: Dir::at(a, b, n),
        do_: Dir::at(c, d, n),
    })
}
#[cfg(not(bip324_verif))]
pub fn pair_at(rng: &mut Rng, n: u64) -> Result<Pair, String> {
    let init = rng.bool();
    let (s, _, mut sd, mut pd) = low_session(rng, init)?;
    let (mut i, mut o) = s.into_split();
    // only positions near the start are within reach
    for _ in 0..(n % 460) {
        let p = pd.seal(0, &[], &[]);
        i.decrypt_packet_len(p[..3].try_into().unwrap());
        i.decrypt_to_vec(&p[3..], None).map_err(|e| format!("decrypt_to_vec: {e:?}"))?;
        let mut b = [0u8; 20];
        o.encrypt(&[], &mut b, PacketType::Genuine, None).map_err(|e| format!("encrypt: {e:?}"))?;
        sd.seal(0, &[], &[]);
    }
    Ok(Pair { i, o, di: pd, do_: sd })
}

pub fn start(rng: &mut Rng) -> u64 {
    match rng.below(12) {
        10 | 11 => crate::dict::int(rng) & (u64::MAX >> 1),
        0 | 1 => 0,
        2 => rng.below(224),
        3 => 224 * rng.below(5) + 220 + rng.below(8),
        4 => 224 * (1 << 24) - 3 + rng.below(6),
        5 => (1u64 << 32) - 3 + rng.below(6),
        6 => 224 * (1u64 << 32) - 3 + rng.below(6),
        7 => (1u64 << (8 + rng.below(55))) - 3 + rng.below(6),
        8 => 224 * (1u64 << (8 + rng.below(47))) - 3 + rng.below(6),
        _ => rng.next() >> (1 + rng.below(60)),
    }
}

fn aad_of(rng: &mut Rng) -> Option<Vec<u8>> {
    match rng.below(5) {
        0 => Some(vec![]),
        1 => {
            let n = rng.len(5000);
            Some(rng.bytes(n))
        }
        _ => None,
    }
}
fn s(a: &Option<Vec<u8>>) -> &[u8] {
    a.as_deref().unwrap_or(&[])
}

/// Opens one packet by a random entry point; checks length, header, contents, type.
pub fn open_check(rng: &mut Rng, i: &mut InboundCipher, packet: &[u8], aad: Option<&[u8]>, header: u8, contents: &[u8]) -> Res {
    let n = i.decrypt_packet_len(packet[..3].try_into().unwrap());
    eq!(n, contents.len() + 17, "length of the rest of the packet");
    open_body(rng, i, &packet[3..], aad, header, contents)
}
pub fn open_body(rng: &mut Rng, i: &mut InboundCipher, body: &[u8], aad: Option<&[u8]>, header: u8, contents: &[u8]) -> Res {
    let want = ptype(header & 128 == 0);
    match rng.below(if contents.len() + 1 > 4000014 { 2 } else { 3 }) {
        0 => {
            let mut b = body.to_vec();
            let (t, p) = i.decrypt_in_place(&mut b, aad).map_err(|e| format!("decrypt_in_place refuses the next packet: {e:?}"))?;
            eq!(p[0], header, "header byte");
            ck!(p[1..] == *contents, "decrypt_in_place gives other contents");
            eq!(t, want, "packet type of header {header}");
        }
        1 => {
            let extra = rng.len(40);
            let fill = rng.next() as u8;
            let need = InboundCipher::decryption_buffer_len(body.len());
            eq!(need, contents.len() + 1, "decryption_buffer_len");
            let mut b = vec![fill; need + extra];
            let t = i.decrypt(body, &mut b, aad).map_err(|e| format!("decrypt refuses the next packet: {e:?}"))?;
            eq!(b[0], header, "header byte");
            ck!(b[1..need] == *contents, "decrypt gives other contents");
            ck!(b[need..].iter().all(|x| *x == fill), "decrypt writes beyond the plaintext");
            eq!(t, want, "packet type of header {header}");
        }
        _ => {
            let (t, b) = i.decrypt_to_vec(body, aad).map_err(|e| format!("decrypt_to_vec refuses the next packet: {e:?}"))?;
            eq!(b.len(), contents.len() + 1, "decrypted length");
            eq!(b[0], header, "header byte");
            ck!(b[1..] == *contents, "decrypt_to_vec gives other contents");
            eq!(t, want, "packet type of header {header}");
        }
    }
    Ok(())
}
/// Seals one packet by a random entry point and compares with the reference.
pub fn seal_check(rng: &mut Rng, o: &mut OutboundCipher, d: &mut Dir, contents: &[u8], genuine: bool, aad: Option<&[u8]>) -> Result<Vec<u8>, String> {
    let want = d.seal(if genuine { 0 } else { 128 }, contents, aad.unwrap_or(&[]));
    let n = OutboundCipher::encryption_buffer_len(contents.len());
    eq!(n, want.len(), "encryption_buffer_len");
    let got = if rng.bool() {
        let extra = rng.len(40);
        let fill = rng.next() as u8;
        let mut b = vec![fill; n + extra];
        o.encrypt(contents, &mut b, ptype(genuine), aad).map_err(|e| format!("encrypt: {e:?}"))?;
        ck!(b[n..].iter().all(|x| *x == fill), "encrypt writes beyond the packet");
        b.truncate(n);
        b
    } else {
        o.encrypt_to_vec(contents, ptype(genuine), aad)
    };
    ck!(got.len() == want.len(), "packet of {} bytes for {} contents", got.len(), contents.len());
    ck!(got[..3] == want[..3], "encrypted length of packet {} differs from the schedule", d.ln - 1);
    ck!(got[3..] == want[3..], "body of packet {} differs from the schedule", d.pn - 1);
    Ok(want)
}

fn sched(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n0 = match c.idx {
        0 => 0,
        1 => 223,
        2 => (1 << 32) - 2,
        3 => 224 * (1u64 << 32) - 2,
        4 => 224 * (1u64 << 24) - 2,
        5 => 224 * 65536 - 2,
        6 => 224 * 256 - 2,
        7 => 1 << 62,
        _ => start(r),
    };
    let mut p = pair_at(r, n0)?;
    let count = if r.below(4) == 0 { 460 } else { 30 };
    for _ in 0..count {
        let contents = {
            let n = r.len(700);
            r.bytes(n)
        };
        let aad = aad_of(r);
        let g = r.bool();
        seal_check(r, &mut p.o, &mut p.do_, &contents, g, aad.as_deref())?;
        let h = r.next() as u8;
        let pk = p.di.seal(h, &contents, s(&aad));
        open_check(r, &mut p.i, &pk, aad.as_deref(), h, &contents)?;
    }
    Ok(())
}

fn session_long(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let init = c.idx % 2 == 0;
    let (mut se, keys, mut sd, mut pd) = low_session(r, init)?;
    eq!(*se.id(), keys.sid, "session id");
    for k in 0..700u32 {
        let contents = {
            let n = r.len(300);
            r.bytes(n)
        };
        if k % 3 != 2 {
            let g = r.bool();
            seal_check(r, se.outbound(), &mut sd, &contents, g, None)?;
        }
        if k % 3 != 1 {
            let h = if r.bool() { 0 } else { 128 };
            let pk = pd.seal(h, &contents, &[]);
            open_check(r, se.inbound(), &pk, None, h, &contents)?;
        }
        if k == 350 {
            se = se.clone();
        }
    }
    let (mut i, mut o) = se.into_split();
    for _ in 0..3 {
        seal_check(r, &mut o, &mut sd, b"after", true, None)?;
        let pk = pd.seal(0, b"split", &[]);
        open_check(r, &mut i, &pk, None, 0, b"split")?;
    }
    Ok(())
}

/// Arbitrary length bytes for ever: never a failure, each value the schedule's.
fn lengths(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n0 = start(r);
    let mut p = pair_at(r, n0)?;
    for _ in 0..500 {
        let b: [u8; 3] = match r.below(4) {
            0 => {
                let m = p.di.len_mask();
                [!m[0], !m[1], !m[2]]
            }
            1 => p.di.len_mask(),
            _ => r.arr(),
        };
        let m = p.di.len_mask();
        let want = u32::from_le_bytes([b[0] ^ m[0], b[1] ^ m[1], b[2] ^ m[2], 0]) as usize + 17;
        eq!(p.i.decrypt_packet_len(b), want, "length of packet {}", p.di.ln);
        p.di.step_len();
    }
    Ok(())
}

fn layout(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n0 = start(r);
    let mut p = pair_at(r, n0)?;
    let special = [0, 1, 2, 15, 16, 17, 255, 256, 257, 65534, 65535, 65536, 65537, 0x10101, 70000];
    let lens: Vec<usize> = if c.idx < 6 {
        match c.idx {
            0 => special.to_vec(),
            1 => vec![(1 << 24) - 1],
            2 => vec![(1 << 24) - 2, 1 << 23],
            3 => vec![4000013, 4000012],
            4 => vec![4000014, 4000015],
            _ => (0..300).collect(),
        }
    } else {
        (0..6)
            .map(|_| match r.below(4) {
                0 => r.below(1 << 20) as usize,
                _ => r.len(70000),
            })
            .collect()
    };
    for n in lens {
        let contents = r.bytes(n);
        let aad = aad_of(r);
        let g = r.bool();
        let pk = seal_check(r, &mut p.o, &mut p.do_, &contents, g, aad.as_deref())?;
        // a receiver in step with the sender
        ck!(pk.len() == n + 20, "packet size");
        let h = match r.below(3) {
            0 => 0,
            1 => 128,
            _ => r.next() as u8,
        };
        let pk = p.di.seal(h, &contents, s(&aad));
        open_check(r, &mut p.i, &pk, aad.as_deref(), h, &contents)?;
    }
    Ok(())
}

fn oversize(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = pair_at(r, 5)?;
    let n = match c.idx {
        0 => 1 << 24,
        1 => (1 << 24) + 1,
        2 => (1 << 24) + 65536,
        _ => (1 << 24) + r.below(1 << 22) as usize,
    };
    let contents = vec![7u8; n];
    let mut b = vec![9u8; n + 20];
    match p.o.encrypt(&contents, &mut b, ptype(c.idx % 2 == 0), None) {
        Err(Error::PacketTooBig) => {}
        x => return Err(format!("{n} bytes of contents: {x:?} instead of the packet-too-big error")),
    }
    ck!(b.iter().all(|x| *x == 9), "a refused packet is written to the buffer");
    seal_check(r, &mut p.o, &mut p.do_, b"next", true, None)?;
    Ok(())
}

/// Decrypts bytes that must be refused; checks that nothing is exposed and nothing advances.
fn refuse(r: &mut Rng, i: &mut InboundCipher, d: &Dir, bad: &[u8], aad: Option<&[u8]>, what: &str) -> Res {
    let clear = if bad.len() >= 17 {
        crate::rf::aead_crypt(&d.pk, &d.packet_nonce(), &bad[..bad.len() - 16])
    } else {
        vec![]
    };
    let old = r.next() as u8;
    let (err, buf) = match r.below(3) {
        0 => {
            let mut b = bad.to_vec();
            let e = match i.decrypt_in_place(&mut b, aad) {
                Ok(_) => return Err(format!("decrypt_in_place accepts {what}")),
                Err(e) => e,
            };
            (e, b)
        }
        1 => {
            let mut b = vec![old; bad.len().max(16)];
            match i.decrypt(bad, &mut b, aad) {
                Ok(_) => return Err(format!("decrypt accepts {what}")),
                Err(e) => (e, b),
            }
        }
        _ => match i.decrypt_to_vec(bad, aad) {
            Ok(_) => return Err(format!("decrypt_to_vec accepts {what}")),
            Err(e) => (e, vec![]),
        },
    };
    if bad.len() < 17 {
        eq!(err, Error::CiphertextTooSmall, "error for {} bytes", bad.len());
    } else {
        ck!(matches!(err, Error::Decryption(_)), "{what}: {err:?} instead of a decryption error");
    }
    let (mut same, mut of) = (0, 0);
    for k in 0..clear.len().min(buf.len()) {
        if clear[k] != bad[k] && clear[k] != old && clear[k] != 0 {
            of += 1;
            same += (clear[k] == buf[k]) as usize;
        }
    }
    ck!(!(same >= 8 && same * 2 > of), "decrypted bytes of {what} are left in the buffer");
    Ok(())
}

fn reject(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n0 = start(r);
    let mut p = pair_at(r, n0)?;
    let mut past: Vec<Vec<u8>> = vec![];
    for step in 0..6 {
        let d0 = p.di.clone();
        let contents = {
            let n = r.len(400);
            r.bytes(n)
        };
        let aad = aad_of(r);
        let mut dd = d0.clone();
        let h = if r.bool() { 0 } else { r.next() as u8 };
        let pk = dd.seal(h, &contents, s(&aad));
        let body = pk[3..].to_vec();
        for _ in 0..8 {
            let a = aad.as_deref();
            match r.below(12) {
                0 | 1 => {
                    let mut b = body.clone();
                    let k = r.below(b.len() as u64) as usize;
                    b[k] ^= 1 << r.below(8);
                    refuse(r, &mut p.i, &d0, &b, a, "a modified packet")?;
                }
                2 => {
                    let mut b = body.clone();
                    let k = b.len() - 1 - r.below(16) as usize;
                    b[k] ^= 1 << r.below(8);
                    refuse(r, &mut p.i, &d0, &b, a, "a packet with a modified tag")?;
                }
                3 => {
                    let k = r.below(body.len() as u64) as usize;
                    refuse(r, &mut p.i, &d0, &body[..k], a, "a truncated packet")?;
                }
                4 => {
                    let mut b = body.clone();
                    let e = 1 + r.below(40) as usize;
                    b.extend(if r.bool() { r.bytes(e) } else { vec![0; e] });
                    refuse(r, &mut p.i, &d0, &b, a, "an extended packet")?;
                }
                5 if !past.is_empty() => {
                    let b = r.pick(&past);
                    refuse(r, &mut p.i, &d0, &b, a, "a replayed packet")?;
                }
                6 => {
                    let mut ahead = d0.clone();
                    for _ in 0..1 + r.below(3) {
                        ahead.step_packet();
                    }
                    let b = ahead.body(h, &contents, s(&aad));
                    refuse(r, &mut p.i, &d0, &b, a, "a packet with one dropped before it")?;
                }
                7 => {
                    let b = p.do_.body(h, &contents, s(&aad));
                    refuse(r, &mut p.i, &d0, &b, a, "a reflected packet")?;
                }
                8 => {
                    // wrong associated data
                    let mut x = s(&aad).to_vec();
                    match r.below(3) {
                        0 if !x.is_empty() => {
                            let k = r.below(x.len() as u64) as usize;
                            x[k] ^= 1;
                        }
                        1 if !x.is_empty() => x.clear(),
                        _ => x.push(r.next() as u8),
                    }
                    refuse(r, &mut p.i, &d0, &body, Some(&x), "a packet with other associated data")?;
                }
                9 => {
                    let b = {
                        let n = 17 + r.len(300);
                        r.bytes(n)
                    };
                    refuse(r, &mut p.i, &d0, &b, a, "random bytes")?;
                }
                10 => {
                    let mut b = body.clone();
                    let n = b.len();
                    b[n - 16..].fill(0);
                    refuse(r, &mut p.i, &d0, &b, a, "a packet with a zero tag")?;
                }
                _ => {
                    // swapped blocks of the ciphertext, tag kept
                    let mut b = body.clone();
                    if b.len() >= 48 && b[..16] != b[16..32] {
                        for k in 0..16 {
                            b.swap(k, k + 16);
                        }
                        refuse(r, &mut p.i, &d0, &b, a, "a packet with swapped blocks")?;
                    }
                }
            }
        }
        // the genuine packet is still accepted, once
        if r.bool() {
            open_check(r, &mut p.i, &pk, aad.as_deref(), h, &contents).map_err(|e| format!("after refused packets, packet {step}: {e}"))?;
        } else {
            p.i.decrypt_packet_len(pk[..3].try_into().unwrap());
            open_body(r, &mut p.i, &body, aad.as_deref(), h, &contents).map_err(|e| format!("after refused packets, packet {step}: {e}"))?;
        }
        p.di = dd;
        past.push(body);
    }
    Ok(())
}

fn dbg<T>(r: Result<T, Error>) -> Result<(), Error> {
    r.map(|_| ())
}

/// Handshake of the code under test up to receiving garbage.
pub fn to_sent_version(r: &mut Rng, init: bool, m: [u8; 4], garbage: Option<&[u8]>, decoys: Option<&[&[u8]]>) -> Result<(Handshake<SentVersion>, Keys, Vec<u8>), String> {
    let peer = Peer::new(r, !init, m);
    let h = low_new(r, init, m);
    let mut kb = vec![0u8; Handshake::<Initialized>::send_key_len(garbage)];
    let h = h.send_key(garbage, &mut kb).map_err(|e| format!("send_key: {e:?}"))?;
    let keys = peer.keys(&kb[..64].try_into().unwrap());
    let h = h.receive_key(peer.es).map_err(|e| format!("receive_key: {e:?}"))?;
    let mut vb = vec![0u8; Handshake::<ReceivedKey>::send_version_len(decoys)];
    let h = h.send_version(&mut vb, decoys).map_err(|e| format!("send_version: {e:?}"))?;
    kb.extend(vb);
    Ok((h, keys, kb))
}

fn junk(c: &mut Case) -> Res {
    let r = &mut c.rng;
    // every short length on every entry point
    let n0 = start(r);
    let mut p = pair_at(r, n0)?;
    let lens: Vec<usize> = if c.idx < 4 { (0..80).collect() } else { (0..10).map(|_| r.len(3000)).collect() };
    for n in lens {
        for e in 0..3 {
            let b = r.bytes(n);
            let aad = aad_of(r);
            let cap = r.len(100).max(if r.bool() { n } else { 0 });
            let got = match e {
                0 => dbg(p.i.decrypt_in_place(&mut b.clone(), aad.as_deref())),
                1 => dbg(p.i.decrypt(&b, &mut vec![0; cap], aad.as_deref())),
                _ => dbg(p.i.decrypt_to_vec(&b, aad.as_deref())),
            };
            let name = ["decrypt_in_place", "decrypt", "decrypt_to_vec"][e];
            if n < 17 {
                eq!(got, Err(Error::CiphertextTooSmall), "{name} of {n} bytes");
            } else if e == 1 && cap < n - 16 {
                eq!(got, Err(Error::BufferTooSmall { required_bytes: n - 16 }), "{name} of {n} bytes into {cap}");
            } else {
                ck!(matches!(got, Err(Error::Decryption(_))), "{name} of {n} random bytes: {got:?}");
            }
        }
    }
    // keys, garbage and version data
    let init = r.bool();
    let m = magic(r);
    let h = low_new(r, init, m);
    let mut kb = vec![0u8; 64];
    let h = h.send_key(None, &mut kb).map_err(|e| format!("send_key: {e:?}"))?;
    let key: [u8; 64] = match r.below(5) {
        0 => [0; 64],
        1 => [0xff; 64],
        2 => {
            let mut k = [0u8; 64];
            k[63] = r.next() as u8;
            k
        }
        3 => kb[..].try_into().unwrap(),
        _ => r.arr(),
    };
    let v1 = key[..4] == m;
    let h = match h.receive_key(key) {
        Ok(h) => h,
        Err(Error::V1Protocol) if v1 => return Ok(()),
        Err(e) => return Err(format!("receive_key of arbitrary bytes: {e:?}")),
    };
    let mut vb = vec![0u8; 36];
    let mut h = h.send_version(&mut vb, None).map_err(|e| format!("send_version: {e:?}"))?;
    for _ in 0..4 {
        let n = match r.below(4) {
            0 => r.below(20) as usize,
            1 => 4105 + r.below(12) as usize,
            _ => r.below(9000) as usize,
        };
        let b = r.bytes(n);
        match h.receive_garbage(&b) {
            Ok(GarbageResult::NeedMoreData(x)) => {
                ck!(n < 4111, "more data asked for after {n} bytes");
                h = x;
            }
            Ok(GarbageResult::FoundGarbage { .. }) => return Err("terminator found in random bytes".into()),
            Err(Error::NoGarbageTerminator) => {
                ck!(n >= 4111, "no terminator reported after {n} bytes");
                return Ok(());
            }
            Err(e) => return Err(format!("receive_garbage: {e:?}")),
        }
    }
    Ok(())
}

/// Version data of every short length and of any content gives typed errors.
fn junk_version(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let init = r.bool();
    let m = magic(r);
    let (h, keys, _) = to_sent_version(r, init, m, None, None)?;
    let g = {
        let n = r.len(100);
        r.bytes(n)
    };
    let mut st = g.clone();
    st.extend(keys.term(!init));
    match h.receive_garbage(&st).map_err(|e| format!("receive_garbage: {e:?}"))? {
        GarbageResult::FoundGarbage { mut handshake, consumed_bytes } => {
            eq!(consumed_bytes, st.len(), "consumed bytes");
            for _ in 0..r.count(5) {
                let n = handshake.decrypt_packet_len(r.arr()).map_err(|e| format!("decrypt_packet_len: {e:?}"))?;
                ck!(n >= 17 && n <= (1 << 24) + 16, "length {n}");
            }
            let n = if c.idx < 40 { c.idx as usize } else { r.len(3000) };
            let e = handshake.receive_version(&mut r.bytes(n)).err();
            if n < 17 {
                eq!(e, Some(Error::CiphertextTooSmall), "receive_version of {n} bytes");
            } else {
                ck!(matches!(e, Some(Error::Decryption(_))), "receive_version of {n} random bytes: {e:?}");
            }
        }
        _ => return Err("terminator not found".into()),
    }
    Ok(())
}

fn sizes(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n0 = start(r);
    let mut p = pair_at(r, n0)?;
    for k in 0..6 {
        let n = if k == 0 { c.idx as usize % 60 } else { r.len(3000) };
        let contents = r.bytes(n);
        let aad = aad_of(r);
        let need = OutboundCipher::encryption_buffer_len(n);
        eq!(need, n + 20, "encryption_buffer_len({n})");
        let smalls: Vec<usize> = if need < 60 { (0..need).collect() } else { vec![0, 1, 3, 4, need - 17, need - 16, need - 1, r.below(need as u64) as usize] };
        for m in smalls {
            let mut b = vec![0xA5u8; m];
            let got = p.o.encrypt(&contents, &mut b, ptype(r.bool()), aad.as_deref());
            eq!(got, Err(Error::BufferTooSmall { required_bytes: need }), "encrypt of {n} bytes into {m}");
            ck!(b.iter().all(|x| *x == 0xA5), "encrypt writes to a buffer that is too small");
        }
        let g = r.bool();
        seal_check(r, &mut p.o, &mut p.do_, &contents, g, aad.as_deref()).map_err(|e| format!("after too small buffers: {e}"))?;

        let pk = p.di.seal(0, &contents, s(&aad));
        let smalls: Vec<usize> = if n < 60 { (0..n + 1).collect() } else { vec![0, 1, n, n - 1, n - 16, r.below(n as u64) as usize] };
        for m in smalls {
            let mut b = vec![0xA5u8; m];
            let got = p.i.decrypt(&pk[3..], &mut b, aad.as_deref());
            eq!(got.map(|_| ()), Err(Error::BufferTooSmall { required_bytes: n + 1 }), "decrypt of {n} bytes of contents into {m}");
            ck!(b.iter().all(|x| *x == 0xA5), "decrypt writes to a buffer that is too small");
        }
        open_check(r, &mut p.i, &pk, aad.as_deref(), 0, &contents).map_err(|e| format!("after too small buffers: {e}"))?;
    }
    // handshake messages
    let init = r.bool();
    let m = magic(r);
    let garbage = match r.below(4) {
        0 => None,
        1 => Some(vec![]),
        _ => {
            let n = r.len(4095);
            Some(r.bytes(n))
        }
    };
    let gl = garbage.as_ref().map_or(0, |g| g.len());
    let need = Handshake::<Initialized>::send_key_len(garbage.as_deref());
    eq!(need, 64 + gl, "send_key_len");
    let peer = Peer::new(r, !init, m);
    for size in [0, 1, 63, 64, need - 1, r.below(need as u64) as usize] {
        if size < need {
            let mut b = vec![0xA5u8; size];
            let got = low_new(r, init, m).send_key(garbage.as_deref(), &mut b).err();
            eq!(got, Some(Error::BufferTooSmall { required_bytes: need }), "send_key into {size} bytes");
            ck!(b.iter().all(|x| *x == 0xA5), "send_key writes to a buffer that is too small");
        }
    }
    let extra = r.len(50);
    let mut kb = vec![0xA5u8; need + extra];
    let h = low_new(r, init, m).send_key(garbage.as_deref(), &mut kb).map_err(|e| format!("send_key: {e:?}"))?;
    ck!(kb[need..].iter().all(|x| *x == 0xA5), "send_key writes beyond its message");
    ck!(kb[64..need] == *s(&garbage), "garbage in the key message");
    let keys = peer.keys(&kb[..64].try_into().unwrap());
    let h = h.receive_key(peer.es).map_err(|e| format!("receive_key: {e:?}"))?;
    let decoys: Vec<Vec<u8>> = (0..r.count(4))
        .map(|_| {
            let n = r.len(500);
            r.bytes(n)
        })
        .collect();
    let dr: Vec<&[u8]> = decoys.iter().map(|d| &d[..]).collect();
    let da = if dr.is_empty() && r.bool() { None } else { Some(&dr[..]) };
    let need = Handshake::<ReceivedKey>::send_version_len(da);
    eq!(need, 36 + decoys.iter().map(|d| d.len() + 20).sum::<usize>(), "send_version_len");
    if r.bool() {
        let size = match r.below(4) {
            0 => need - 1,
            1 => r.below(17) as usize,
            _ => r.below(need as u64) as usize,
        };
        let mut b = vec![0xA5u8; size];
        let got = h.send_version(&mut b, da).err();
        eq!(got, Some(Error::BufferTooSmall { required_bytes: need }), "send_version into {size} bytes");
        ck!(b.iter().all(|x| *x == 0xA5), "send_version writes to a buffer that is too small");
    } else {
        let mut b = vec![0xA5u8; need + extra];
        h.send_version(&mut b, da).map_err(|e| format!("send_version: {e:?}"))?;
        ck!(b[need..].iter().all(|x| *x == 0xA5), "send_version writes beyond its message");
        let mut all = kb[..64 + gl].to_vec();
        all.extend(&b[..need]);
        let (end, _) = check_sent(&all, s(&garbage), &decoys, &keys, init)?;
        eq!(end, all.len(), "end of the version message");
    }
    Ok(())
}

fn keys(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let secp = Secp256k1::new();
    let (m, other) = (magic(r), magic(r));
    let (ska, skb) = (secret(r), secret(r));
    let a = ElligatorSwift::from_seckey(&secp, ska, Some(r.arr()));
    let b = ElligatorSwift::from_seckey(&secp, skb, Some(r.arr()));
    let k = Keys::derive(&crate::rf::ecdh(&a.to_array(), &b.to_array(), &b.to_array(), &ska), &m);
    let x = SessionKeyMaterial::from_ecdh(a, b, ska, ElligatorSwiftParty::A, m).map_err(|e| format!("{e:?}"))?;
    let y = SessionKeyMaterial::from_ecdh(a, b, skb, ElligatorSwiftParty::B, m).map_err(|e| format!("{e:?}"))?;
    eq!(x.session_id, k.sid, "session id of party A");
    eq!(y.session_id, k.sid, "session id of party B");
    if m != other {
        let z = SessionKeyMaterial::from_ecdh(a, b, ska, ElligatorSwiftParty::A, other).map_err(|e| format!("{e:?}"))?;
        ck!(z.session_id != x.session_id, "session id does not depend on the network");
    }
    // terminators, and the keys of each direction, by role
    let init = c.idx % 2 == 0;
    let decoy = r.bytes(20);
    let ds: [&[u8]; 1] = [&decoy];
    let g = {
        let n = r.len(4095);
        r.bytes(n)
    };
    let (_, keys, sent) = to_sent_version(r, init, m, Some(&g), Some(&ds))?;
    check_sent(&sent, &g, &[decoy.clone()], &keys, init)?;
    let (mut se, keys, mut sd, mut pd) = low_session(r, init)?;
    eq!(*se.id(), keys.sid, "session id");
    for _ in 0..4 {
        let n = r.len(100);
        let x = r.bytes(n);
        seal_check(r, se.outbound(), &mut sd, &x, true, None)?;
        let pk = pd.seal(128, &x, &[]);
        open_check(r, se.inbound(), &pk, None, 128, &x)?;
    }
    Ok(())
}

/// Two ends of the code under test, low level, undisturbed.
fn agree(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let m = magic(r);
    let g: Vec<Option<Vec<u8>>> = (0..2)
        .map(|k| match (c.idx + k) % 5 {
            0 => None,
            1 => Some(vec![]),
            2 => Some(r.bytes(4095)),
            _ => {
                let n = r.below(4096) as usize;
                Some(r.bytes(n))
            }
        })
        .collect();
    let d: Vec<Vec<Vec<u8>>> = (0..2)
        .map(|_| {
            (0..r.count(5))
                .map(|_| {
                    let n = r.len(3000);
                    r.bytes(n)
                })
                .collect()
        })
        .collect();
    let many = c.idx % 7 == 3;
    let d: Vec<Vec<Vec<u8>>> = if many { d.into_iter().map(|mut x| { x.extend((0..230).map(|i| vec![i as u8; i % 5])); x }).collect() } else { d };
    let (hi, hr) = (low_new(r, true, m), low_new(r, false, m));
    let mut bi = vec![0; 64 + g[0].as_ref().map_or(0, |x| x.len())];
    let mut br = vec![0; 64 + g[1].as_ref().map_or(0, |x| x.len())];
    let hi = hi.send_key(g[0].as_deref(), &mut bi).map_err(|e| format!("send_key: {e:?}"))?;
    let hr = hr.send_key(g[1].as_deref(), &mut br).map_err(|e| format!("send_key: {e:?}"))?;
    if bi[..4] == m || br[..4] == m {
        return Ok(());
    }
    let hi = hi.receive_key(br[..64].try_into().unwrap()).map_err(|e| format!("receive_key: {e:?}"))?;
    let hr = hr.receive_key(bi[..64].try_into().unwrap()).map_err(|e| format!("receive_key: {e:?}"))?;
    let refs: Vec<Vec<&[u8]>> = d.iter().map(|x| x.iter().map(|y| &y[..]).collect()).collect();
    let mut vi = vec![0; Handshake::<ReceivedKey>::send_version_len(Some(&refs[0]))];
    let mut vr = vec![0; Handshake::<ReceivedKey>::send_version_len(Some(&refs[1]))];
    let hi = hi.send_version(&mut vi, Some(&refs[0])).map_err(|e| format!("send_version: {e:?}"))?;
    let hr = hr.send_version(&mut vr, Some(&refs[1])).map_err(|e| format!("send_version: {e:?}"))?;
    let to_r = [&bi[64..], &vi[..]].concat();
    let to_i = [&br[64..], &vr[..]].concat();
    let mut a = finish(r, hi, &to_i, d[1].len())?;
    let mut b = finish(r, hr, &to_r, d[0].len())?;
    eq!(a.id(), b.id(), "session ids");
    for _ in 0..10 {
        let n = r.len(400);
        let x = r.bytes(n);
        let pk = a.outbound().encrypt_to_vec(&x, PacketType::Genuine, None);
        open_check(r, b.inbound(), &pk, None, 0, &x)?;
        let pk = b.outbound().encrypt_to_vec(&x, PacketType::Decoy, None);
        open_check(r, a.inbound(), &pk, None, 128, &x)?;
    }
    Ok(())
}

/// Feeds the rest of a handshake in random portions.
fn finish(r: &mut Rng, h: Handshake<SentVersion>, stream: &[u8], decoys: usize) -> Result<CipherSession, String> {
    let mut upto = 0;
    let mut h = h;
    let (mut h, mut pos) = loop {
        match h.receive_garbage(&stream[..upto]) {
            Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => break (handshake, consumed_bytes),
            Ok(GarbageResult::NeedMoreData(x)) => {
                if upto >= stream.len() {
                    return Err("terminator not found".into());
                }
                h = x;
                upto = (upto + 1 + r.below(600) as usize).min(stream.len());
            }
            Err(e) => return Err(format!("receive_garbage: {e:?}")),
        }
    };
    let mut skipped = 0;
    loop {
        if pos + 3 > stream.len() {
            return Err("handshake goes on after the version packet".into());
        }
        let n = h.decrypt_packet_len(stream[pos..pos + 3].try_into().unwrap()).map_err(|e| format!("decrypt_packet_len: {e:?}"))?;
        pos += 3;
        if pos + n > stream.len() {
            return Err(format!("packet of {n} bytes announced, {} left", stream.len() - pos));
        }
        let mut b = stream[pos..pos + n].to_vec();
        pos += n;
        match h.receive_version(&mut b).map_err(|e| format!("receive_version, packet {skipped}: {e:?}"))? {
            VersionResult::Complete { cipher } => {
                eq!(skipped, decoys, "decoys skipped");
                eq!(pos, stream.len(), "bytes used by the handshake");
                return Ok(cipher);
            }
            VersionResult::Decoy(x) => {
                skipped += 1;
                h = x;
            }
        }
    }
}

fn too_much_garbage(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n = match c.idx {
        0 => 4096,
        1 => 4097,
        2 => 100_000,
        3 => 65536,
        _ => 4096 + r.below(70000) as usize,
    };
    let g = r.bytes(n);
    let mut b = vec![0xA5u8; if r.bool() { 64 + n } else { r.below(64 + n as u64) as usize }];
    let i = r.bool();
    let got = low_new(r, i, magic(&mut Rng(1))).send_key(Some(&g), &mut b).err();
    eq!(got, Some(Error::TooMuchGarbage), "send_key with {n} bytes of garbage");
    ck!(b.iter().all(|x| *x == 0xA5), "too much garbage is refused after writing");
    for n in [4095, 4094] {
        let g = r.bytes(n);
        let mut b = vec![0; 64 + n];
        low_new(r, i, [1, 2, 3, 4]).send_key(Some(&g), &mut b).map_err(|e| format!("{n} bytes of garbage: {e:?}"))?;
        ck!(b[64..] == g[..], "garbage in the key message");
    }
    Ok(())
}

fn garbage(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let init = r.bool();
    let m = magic(r);
    let (mut h, keys, _) = to_sent_version(r, init, m, None, None)?;
    let t = keys.term(!init);
    let own = keys.term(init);
    let at = match c.idx {
        0 => 0,
        1 => 4095,
        2 => 4096,
        3 => 4094,
        4 => 4100,
        5 => 4111,
        6 => 240,
        7 => 1,
        _ => match r.below(4) {
            0 => 4080 + r.below(40) as usize,
            1 => r.below(64) as usize,
            _ => r.below(4400) as usize,
        },
    };
    let mut b = match r.below(3) {
        0 => vec![t[0]; at],
        _ => r.bytes(at),
    };
    // traps: partial terminators, the own terminator, doubled prefixes
    for _ in 0..r.below(6) {
        if at > 20 {
            let k = r.below(at as u64 - 16) as usize;
            let l = 1 + r.below(15) as usize;
            if r.below(4) == 0 {
                b[k..k + 16].copy_from_slice(&own);
            } else {
                b[k..k + l].copy_from_slice(&t[..l]);
            }
        }
    }
    // a prefix of the terminator straight before it
    if at > 16 && r.bool() {
        let l = 1 + r.below(15) as usize;
        b[at - l..].copy_from_slice(&t[..l]);
    }
    let none = r.below(8) == 0;
    if !none {
        b.extend(t);
        if r.bool() {
            b.extend(t);
        }
    }
    let k = r.len(5000);
    b.extend(r.bytes(k));
    let first = (0..b.len().saturating_sub(15)).find(|&i| b[i..i + 16] == t);
    // at every prefix: the same rule, whatever was seen before
    let mut cuts: Vec<usize> = vec![0, 15, 16, 17, at.saturating_sub(1), at, at + 15, at + 16, at + 17, 4110, 4111, 4112, 4095, b.len()];
    for _ in 0..10 {
        cuts.push(r.below(b.len() as u64 + 1) as usize);
    }
    cuts.retain(|x| *x <= b.len());
    cuts.sort();
    for n in cuts {
        let want = match first {
            Some(i) if i <= 4095 && i + 16 <= n => Some(i),
            _ => None,
        };
        match h.receive_garbage(&b[..n]) {
            Ok(GarbageResult::FoundGarbage { mut handshake, consumed_bytes }) => {
                let i = want.ok_or(format!("terminator reported within {n} bytes, first at {first:?}"))?;
                eq!(consumed_bytes, i + 16, "consumed bytes (terminator at {i}, {n} bytes seen)");
                // the garbage itself is what the next packet authenticates
                let mut d = keys.send_dir(!init);
                let pk = d.seal(0, &[], &b[..i]);
                handshake.decrypt_packet_len(pk[..3].try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
                handshake.receive_version(&mut pk[3..].to_vec()).map_err(|e| format!("version packet after {i} bytes of garbage: {e:?}"))?;
                return Ok(());
            }
            Ok(GarbageResult::NeedMoreData(x)) => {
                ck!(want.is_none(), "terminator at {want:?} not found within {n} bytes");
                ck!(n < 4111, "more data asked for after {n} bytes without a terminator");
                h = x;
            }
            Err(Error::NoGarbageTerminator) => {
                ck!(want.is_none(), "terminator at {want:?} not found within {n} bytes");
                ck!(n >= 4111, "no-terminator error after {n} bytes already");
                return Ok(());
            }
            Err(e) => return Err(format!("receive_garbage: {e:?}")),
        }
    }
    Ok(())
}

/// Garbage altered in transit fails the first packet; unaltered it passes with any first packet.
fn garbage_auth(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let init = r.bool();
    let m = magic(r);
    let (h, keys, _) = to_sent_version(r, init, m, None, None)?;
    let g = {
        let n = if c.idx % 3 == 0 { r.below(40) as usize } else { r.below(4096) as usize };
        r.bytes(n)
    };
    let mut wire = g.clone();
    let alter = r.below(7);
    match alter {
        0 if !wire.is_empty() => {
            let k = r.below(wire.len() as u64) as usize;
            wire[k] ^= 1 << r.below(8);
        }
        1 => wire.clear(),
        2 if wire.len() < 4000 => {
            let k = 1 + r.below(90) as usize;
            wire.extend(r.bytes(k));
        }
        3 if !wire.is_empty() => {
            wire.pop();
        }
        4 if !wire.is_empty() => {
            wire.remove(0);
        }
        5 if wire.len() > 2 => wire.reverse(),
        _ => {}
    }
    let changed = wire != g;
    let decoys: Vec<(u8, Vec<u8>)> = (0..r.count(4))
        .map(|_| {
            let n = r.len(100);
            (128 | (r.next() as u8), r.bytes(n))
        })
        .collect();
    let v = {
        let n = r.len(30);
        r.bytes(n)
    };
    let spec = PeerSpec { garbage: g, garbage_on_wire: Some(wire.clone()), decoys: decoys.clone(), version: (r.next() as u8 & 127, v), ..Default::default() };
    let (st, mut pd) = spec.stream(&keys, !init);
    let (mut h, mut pos) = match h.receive_garbage(&st) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => (handshake, consumed_bytes),
        _ => return Err("terminator not found".into()),
    };
    eq!(pos, wire.len() + 16, "consumed bytes");
    let mut k = 0;
    loop {
        let n = h.decrypt_packet_len(st[pos..pos + 3].try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
        let mut b = st[pos + 3..pos + 3 + n].to_vec();
        pos += 3 + n;
        match h.receive_version(&mut b) {
            Err(e) => {
                ck!(changed, "unaltered garbage ({} bytes): packet {k} refused: {e:?}", wire.len());
                ck!(k == 0, "altered garbage noticed only at packet {k}");
                ck!(matches!(e, Error::Decryption(_)), "altered garbage: {e:?}");
                return Ok(());
            }
            Ok(_) if changed => return Err(format!("garbage altered in transit (alteration {alter}) is accepted")),
            Ok(VersionResult::Decoy(x)) => {
                ck!(k < decoys.len(), "a genuine packet is skipped");
                h = x;
            }
            Ok(VersionResult::Complete { mut cipher }) => {
                eq!(k, decoys.len(), "decoys skipped");
                let pk = pd.seal(0, b"next", &[]);
                return open_check(r, cipher.inbound(), &pk, None, 0, b"next");
            }
        }
        k += 1;
    }
}

/// Garbage sent is the associated data of the first packet alone.
fn garbage_sent(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let init = c.idx % 2 == 0;
    let m = magic(r);
    let g = match c.idx / 2 {
        0 => None,
        1 => Some(vec![]),
        2 => Some(r.bytes(4095)),
        3 => Some(r.bytes(1)),
        _ => {
            let n = r.below(4096) as usize;
            Some(r.bytes(n))
        }
    };
    let decoys: Vec<Vec<u8>> = (0..if c.idx % 11 == 5 { 230 } else { r.count(4) })
        .map(|_| {
            let n = r.len(200);
            r.bytes(n)
        })
        .collect();
    let refs: Vec<&[u8]> = decoys.iter().map(|x| &x[..]).collect();
    let da = if refs.is_empty() && r.bool() { None } else { Some(&refs[..]) };
    let (h, keys, sent) = to_sent_version(r, init, m, g.as_deref(), da)?;
    let (end, mut sd) = check_sent(&sent, s(&g), &decoys, &keys, init)?;
    eq!(end, sent.len(), "end of the version message");
    // the session goes on from there
    let (st, mut pd) = PeerSpec { version: (0, vec![]), ..Default::default() }.stream(&keys, !init);
    let mut se = finish(r, h, &st, 0)?;
    for _ in 0..3 {
        seal_check(r, se.outbound(), &mut sd, b"genuine", true, None)?;
        let pk = pd.seal(0, b"reply", &[]);
        open_check(r, se.inbound(), &pk, None, 0, b"reply")?;
    }
    Ok(())
}

fn v1(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let init = c.idx % 2 == 0;
    let m = magic(r);
    let h = low_new(r, init, m);
    let g = {
        let n = r.len(100);
        r.bytes(n)
    };
    let mut b = vec![0; 64 + g.len()];
    let h = h.send_key(Some(&g), &mut b).map_err(|e| format!("{e:?}"))?;
    let mut k: [u8; 64] = r.arr();
    match (c.idx / 2) % 10 {
        8 => {
            k[..4].copy_from_slice(&magic(r));
        }
        9 => {
            if let Some(s) = crate::dict::str_of(r, 4) {
                k[..4].copy_from_slice(&s);
            }
        }
        0 | 1 => k[..4].copy_from_slice(&m),
        2 => {
            k[..4].copy_from_slice(&m);
            k[r.below(4) as usize] ^= 1 << r.below(8);
        }
        3 => k[1..5].copy_from_slice(&m),
        4 => {
            k[..4].copy_from_slice(&m);
            k[..4].reverse();
        }
        5 => k[..3].copy_from_slice(&m[..3]),
        6 => {
            // a complete V1 version message header
            k = [0; 64];
            k[..4].copy_from_slice(&m);
            k[4..11].copy_from_slice(b"version");
        }
        _ => {
            k = [0; 64];
            k[4..11].copy_from_slice(b"version");
            k[..4].copy_from_slice(&[0xF9, 0xBE, 0xB4, 0xD8]);
        }
    }
    let want = k[..4] == m;
    match h.receive_key(k) {
        Err(Error::V1Protocol) => ck!(want, "a key is taken for the V1 protocol"),
        Err(e) => return Err(format!("receive_key: {e:?}")),
        Ok(_) => ck!(!want, "the network magic is taken for a key"),
    }
    Ok(())
}

/// Handshake packets: decoys in any number, version of any contents, unauthenticated ones fatal.
fn packets(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let init = r.bool();
    let m = magic(r);
    let (h, keys, sent) = to_sent_version(r, init, m, None, None)?;
    let n = match c.idx {
        0 => 0,
        1 => 223,
        2 => 224,
        3 => 449,
        _ => {
            if r.below(6) == 0 {
                200 + r.below(60)
            } else {
                r.below(6)
            }
        }
    };
    let decoys: Vec<(u8, Vec<u8>)> = (0..n)
        .map(|_| {
            let n = r.len(60);
            (if r.bool() { 128 } else { 128 | r.next() as u8 }, r.bytes(n))
        })
        .collect();
    let version = (if r.bool() { 0 } else { r.next() as u8 & 127 }, {
        let n = r.len(200);
        r.bytes(n)
    });
    let g = {
        let n = r.len(50);
        r.bytes(n)
    };
    let bad = r.below(3) == 0;
    let spec = PeerSpec { garbage: g, decoys: decoys.clone(), version, flip: None, ..Default::default() };
    let (mut st, mut pd) = spec.stream(&keys, !init);
    if !bad {
        let mut se = finish(r, h, &st, decoys.len())?;
        let (_, mut sd) = check_sent(&sent, &[], &[], &keys, init)?;
        eq!(*se.id(), keys.sid, "session id");
        for _ in 0..5 {
            seal_check(r, se.outbound(), &mut sd, b"x", true, None)?;
            let pk = pd.seal(0, b"yz", &[]);
            open_check(r, se.inbound(), &pk, None, 0, b"yz")?;
        }
        return Ok(());
    }
    // damage the body of one packet
    let which = r.below(decoys.len() as u64 + 1) as usize;
    let seen = st.clone();
    let (mut h, mut pos) = match h.receive_garbage(&seen) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => (handshake, consumed_bytes),
        _ => return Err("terminator not found".into()),
    };
    for k in 0..=which {
        let n = h.decrypt_packet_len(st[pos..pos + 3].try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
        if k == which {
            let x = pos + 3 + r.below(n as u64) as usize;
            st[x] ^= 1 << r.below(8);
        }
        let mut b = st[pos + 3..pos + 3 + n].to_vec();
        pos += 3 + n;
        match h.receive_version(&mut b) {
            Err(Error::Decryption(_)) if k == which => return Ok(()),
            Err(e) => return Err(format!("packet {k} of {which}: {e:?}")),
            Ok(_) if k == which => return Err("an unauthenticated handshake packet is accepted".into()),
            Ok(VersionResult::Decoy(x)) => h = x,
            Ok(VersionResult::Complete { .. }) => return Err(format!("completed by decoy {k}")),
        }
    }
    Ok(())
}

fn headers(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n0 = start(r);
    let mut p = pair_at(r, n0)?;
    for h in 0..=255u8 {
        eq!(PacketType::from_byte(&h), ptype(h < 128), "PacketType::from_byte({h})");
        for e in 0..3 {
            let n = r.len(20);
            let contents = r.bytes(n);
            let pk = p.di.seal(h, &contents, &[]);
            p.i.decrypt_packet_len(pk[..3].try_into().unwrap());
            let mut b = pk[3..].to_vec();
            let t = match e {
                0 => p.i.decrypt_in_place(&mut b, None).map(|x| x.0),
                1 => p.i.decrypt(&pk[3..], &mut b, None),
                _ => p.i.decrypt_to_vec(&pk[3..], None).map(|x| x.0),
            }
            .map_err(|e| format!("{e:?}"))?;
            eq!(t, ptype(h < 128), "type of a packet with header {h}, entry point {e}");
        }
    }
    eq!(PacketType::Genuine.to_byte(), 0, "header byte of genuine packets");
    eq!(PacketType::Decoy.to_byte(), 128, "header byte of decoys");
    let n = r.len(300);
    let x = r.bytes(n);
    let g = bip324::io::Payload::genuine(x.clone());
    let d = bip324::io::Payload::decoy(x.clone());
    ck!(g.contents() == &x[..] && d.contents() == &x[..], "payload contents");
    eq!(g.packet_type(), PacketType::Genuine, "type of a genuine payload");
    eq!(d.packet_type(), PacketType::Decoy, "type of a decoy payload");
    ck!(g.clone().contents() == &x[..] && is_genuine(g.clone().packet_type()), "clone of a payload");
    // the handshake
    let init = r.bool();
    let m = magic(r);
    let (h, keys, _) = to_sent_version(r, init, m, None, None)?;
    let hdr = c.idx as u8;
    let (st, _) = PeerSpec { version: (hdr, vec![1, 2]), ..Default::default() }.stream(&keys, !init);
    let (mut h, pos) = match h.receive_garbage(&st) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => (handshake, consumed_bytes),
        _ => return Err("terminator not found".into()),
    };
    h.decrypt_packet_len(st[pos..pos + 3].try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
    match h.receive_version(&mut st[pos + 3..].to_vec()).map_err(|e| format!("{e:?}"))? {
        VersionResult::Complete { .. } => ck!(hdr < 128, "handshake completed by a decoy with header {hdr}"),
        VersionResult::Decoy(_) => ck!(hdr >= 128, "version packet with header {hdr} skipped"),
    }
    Ok(())
}

/// The allocating decryption refuses more than 4000014 bytes of header and contents.
fn alloc_limit(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = pair_at(r, 3)?;
    for n in [4000013usize, 4000014, 4000015] {
        let contents = vec![n as u8; n];
        let pk = p.di.clone().seal(0, &contents, &[]);
        reset_biggest();
        let got = p.i.clone().decrypt_to_vec(&pk[3..], None);
        if n + 1 <= 4000014 {
            let (t, v) = got.map_err(|e| format!("{n} bytes of contents: {e:?}"))?;
            ck!(is_genuine(t) && v.len() == n + 1 && v[1..] == contents[..], "decrypt_to_vec at the limit");
        } else {
            eq!(got.map(|_| ()), Err(Error::PacketTooBig), "decrypt_to_vec of {n} bytes of contents");
            ck!(biggest() < 4000014, "{} bytes allocated for a refused packet", biggest());
        }
    }
    Ok(())
}

pub fn scenarios() -> Vec<Scenario> {
    let s = |name, props, cases, run| Scenario { name, props, cases, run };
    vec![
        s("schedule", &["C01", "C02", "C03"], 160, sched as fn(&mut Case) -> Res),
        s("session", &["C01", "C02", "C03", "C07"], 24, session_long),
        s("lengths", &["C02", "C05"], 120, lengths),
        s("layout", &["C03", "C01", "C02"], 40, layout),
        s("oversize", &["C03"], 8, oversize),
        s("reject", &["C04", "C05"], 400, reject),
        s("junk", &["C05"], 300, junk),
        s("junk_version", &["C05"], 150, junk_version),
        s("sizes", &["C06"], 300, sizes),
        s("keys", &["C07"], 120, keys),
        s("agree", &["C08", "C07", "C12"], 80, agree),
        s("too_much_garbage", &["C08"], 16, too_much_garbage),
        s("garbage", &["C09"], 800, garbage),
        s("garbage_auth", &["C10", "C12"], 500, garbage_auth),
        s("garbage_sent", &["C10", "C08", "C07"], 150, garbage_sent),
        s("v1", &["C11"], 200, v1),
        s("packets", &["C12"], 200, packets),
        s("headers", &["C22", "C12"], 256, headers),
        s("alloc_limit", &["C16"], 8, alloc_limit),
    ]
}
