//! Scenarios on the blocking and asynchronous interfaces over scripted transports.
use crate::conn::*;
use crate::net::*;
use crate::rf::{Dir, Keys};
use crate::util::*;
use crate::{ck, eq, Scenario};
use bip324::io::{Payload, ProtocolError, ProtocolFailureSuggestion};
use bip324::Error;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{ErrorKind, Read};
use std::pin::pin;
use std::task::{Context, Poll, Waker};

pub const KINDS: [ErrorKind; 22] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

fn retry_kind(k: ErrorKind) -> bool {
    matches!(k, ErrorKind::ConnectionReset | ErrorKind::ConnectionAborted | ErrorKind::UnexpectedEof)
}
fn is_retry(s: &ProtocolFailureSuggestion) -> bool {
    matches!(s, ProtocolFailureSuggestion::RetryV1)
}

pub fn kind_of(c: &Case) -> Kind {
    if c.idx % 2 == 0 {
        Kind::Sync
    } else {
        Kind::Async
    }
}

fn blob(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.size(max);
    r.bytes(n)
}
/// The contents of one of `n` packets: of many, most are short.
fn blob_of(r: &mut Rng, n: u64, max: usize) -> Vec<u8> {
    if n > 20 && r.next() % 16 != 0 {
        let k = r.below(9) as usize;
        r.bytes(k)
    } else {
        blob(r, max)
    }
}
pub fn garbage(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(7) {
        0 => 0,
        1 => 4095,
        2 => 4080 + r.below(16),
        3 => r.below(20),
        4 => 230 + r.below(30),
        _ => r.below(4096),
    };
    r.bytes(n as usize)
}
pub fn any_spec(r: &mut Rng) -> PeerSpec {
    let (nd, np) = (r.count(4), 1 + r.count(8));
    PeerSpec {
        garbage: garbage(r),
        decoys: (0..nd).map(|_| (if r.bool() { 128 } else { 128 | r.next() as u8 }, blob_of(r, nd, 500))).collect(),
        version: (r.next() as u8 & 127, blob(r, 40)),
        packets: (0..np).map(|_| (r.next() as u8 & if r.bool() { 128 } else { 255 }, blob_of(r, np, 3000))).collect(),
        ..Default::default()
    }
}

fn setup(r: &mut Rng, spec: &PeerSpec) -> (bool, [u8; 4], Peer, Net) {
    let init = r.bool();
    let m = magic(r);
    let peer = Peer::new(r, !init, m);
    let net = peer_net(r, &peer, spec);
    (init, m, peer, net)
}

fn opt(r: &mut Rng, v: Vec<u8>) -> Option<Vec<u8>> {
    if v.is_empty() && r.bool() {
        None
    } else {
        Some(v)
    }
}

fn same(p: &Payload, want: &(u8, Vec<u8>), k: usize) -> Res {
    ck!(p.contents() == &want.1[..], "payload {k}: {} bytes instead of {} or other bytes", p.contents().len(), want.1.len());
    eq!(p.packet_type(), ptype(want.0 < 128), "type of payload {k} with header {}", want.0);
    Ok(())
}

/// Handshake and reads over any splitting; the bytes sent; then writes.
fn transport(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let mut spec = any_spec(r);
    if c.idx % 40 < 2 {
        spec.packets = (0..300).map(|i| ((i % 3 == 0) as u8 * 128, vec![i as u8; (i % 7) as usize])).collect();
    }
    if c.idx % 20 < 2 {
        spec.packets.push((0, r.bytes(70_000)));
    }
    let (init, m, peer, mut net) = setup(r, &spec);
    net.rd = Sched::any(r);
    net.wr = Sched::any(r);
    net.pend = r.pick(&[0, 60, 200]);
    // with a silent peer nothing more than what was sent may be waited for
    net.eof = r.bool();
    let eof = net.eof;
    // blocking calls go on after a signal (except in the search for the garbage terminator)
    let signals = matches!(kind, Kind::Sync) && r.bool();
    if signals {
        net.faults = interrupts(r, 0, 79);
        net.wfaults = interrupts(r, 0, 300);
    }
    let net = net.share();
    let g = garbage(r);
    let nd = r.count(4);
    let d: Vec<Vec<u8>> = (0..nd).map(|_| blob_of(r, nd, 600)).collect();
    let go = opt(r, g.clone());
    let dopt = if d.is_empty() && r.bool() { None } else { Some(d.clone()) };
    let mut conn = connect(kind, &net, m, init, go, dopt)?.map_err(|e| format!("handshake fails: {e:?}"))?;
    let sent = net.lock().unwrap().sent.clone();
    let keys = peer.keys(&sent[..64].try_into().unwrap());
    let (end, mut sd) = check_sent(&sent, &g, &d, &keys, init)?;
    eq!(end, sent.len(), "end of what the handshake sends");
    eq!(net.lock().unwrap().flushed, sent.len(), "flushed after the handshake");
    let mut at = end;
    if signals {
        let mut n = net.lock().unwrap();
        let left = n.incoming.len() - n.pos;
        n.faults = interrupts(r, n.pos, left);
        n.wfaults = interrupts(r, n.sent.len(), 5000);
    }
    for (k, want) in spec.packets.iter().enumerate() {
        let p = conn.read(&net)?.map_err(|e| format!("read of packet {k}: {e:?}"))?;
        same(&p, want, k)?;
        if r.below(4) == 0 {
            let q = if r.bool() { Some(p) } else { None };
            at = write_check(r, &mut conn, &net, &mut sd, at, q)?;
        }
    }
    for _ in 0..3 {
        at = write_check(r, &mut conn, &net, &mut sd, at, None)?;
    }
    if eof {
        for _ in 0..2 {
            match conn.read(&net)? {
                Ok(_) => return Err("payload read after the end of the stream".into()),
                Err(ProtocolError::Io(..)) => {}
                Err(e) => return Err(format!("after the end of the stream: {e:?}")),
            }
        }
    }
    Ok(())
}

/// Calls interrupted by signals, from the position on.
fn interrupts(r: &mut Rng, from: usize, span: usize) -> VecDeque<(usize, ErrorKind)> {
    let n = r.below(12);
    let mut v: Vec<usize> = (0..n).map(|_| from + r.below(span as u64 + 1) as usize).collect();
    if r.bool() {
        v.push(from);
    }
    v.sort();
    v.into_iter().map(|at| (at, ErrorKind::Interrupted)).collect()
}

fn write_check(r: &mut Rng, conn: &mut Conn, net: &Shared, sd: &mut Dir, at: usize, p: Option<Payload>) -> Result<usize, String> {
    let x = blob(r, 2000);
    let p = p.unwrap_or_else(|| if r.bool() { Payload::genuine(x.clone()) } else { Payload::decoy(x) });
    conn.write(net, &p)?.map_err(|e| format!("write: {e:?}"))?;
    let want = sd.seal(if is_genuine(p.packet_type()) { 0 } else { 128 }, p.contents(), &[]);
    let n = net.lock().unwrap();
    eq!(n.sent.len() - at, want.len(), "bytes sent by a write of {} bytes", p.contents().len());
    ck!(n.sent[at..] == want[..], "a write sends other bytes than its packet");
    eq!(n.flushed, n.sent.len(), "flushed by a write");
    Ok(n.sent.len())
}

/// Session reader and ciphers handed out at a packet boundary continue exactly there.
fn inner(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let mut spec = any_spec(r);
    spec.tail = blob(r, 400);
    let (init, m, peer, mut net) = setup(r, &spec);
    net.rd = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    let net = net.share();
    let conn = connect(kind, &net, m, init, None, None)?.map_err(|e| format!("handshake fails: {e:?}"))?;
    let upto = r.below(spec.packets.len() as u64 + 1) as usize;
    let mut rest = vec![];
    let (mut i, mut o);
    match conn {
        Conn::S(p) => {
            let (mut rd, mut wr) = p.into_split();
            for (k, want) in spec.packets[..upto].iter().enumerate() {
                same(&rd.read().map_err(|e| format!("read {k}: {e:?}"))?, want, k)?;
            }
            wr.write(&Payload::genuine(b"one".to_vec())).map_err(|e| format!("{e:?}"))?;
            let (ci, mut rr) = rd.into_inner();
            if r.bool() {
                eq!(rr.read(&mut []).map_err(|e| format!("{e:?}"))?, 0, "bytes read into an empty buffer");
            }
            rr.read_to_end(&mut rest).map_err(|e| format!("{e:?}"))?;
            i = ci;
            o = wr.into_inner().0;
        }
        Conn::A(p) => {
            let (mut rd, mut wr) = p.into_split();
            for (k, want) in spec.packets[..upto].iter().enumerate() {
                same(&drive(&net, rd.read())?.map_err(|e| format!("read {k}: {e:?}"))?, want, k)?;
            }
            drive(&net, wr.write(&Payload::genuine(b"one".to_vec())))?.map_err(|e| format!("{e:?}"))?;
            let (ci, mut rr) = rd.into_inner();
            use tokio::io::AsyncReadExt;
            if r.bool() {
                eq!(drive(&net, rr.read(&mut []))?.map_err(|e| format!("{e:?}"))?, 0, "bytes read into an empty buffer");
            }
            drive(&net, rr.read_to_end(&mut rest))?.map_err(|e| format!("{e:?}"))?;
            i = ci;
            o = wr.into_inner().0;
        }
    }
    let sent = net.lock().unwrap().sent.clone();
    let keys = peer.keys(&sent[..64].try_into().unwrap());
    let all = spec.stream(&keys, !init).0;
    let left: usize = spec.packets[upto..].iter().map(|p| p.1.len() + 20).sum::<usize>() + spec.tail.len();
    ck!(rest == all[all.len() - left..], "{} bytes left for the session reader, expected {left} or other bytes", rest.len());
    let mut at = 0;
    for want in &spec.packets[upto..] {
        let n = want.1.len() + 20;
        crate::low::open_check(r, &mut i, &rest[at..at + n], None, want.0, &want.1)?;
        at += n;
    }
    let (_, mut sd) = check_sent(&sent, &[], &[], &keys, init)?;
    sd.seal(0, b"one", &[]);
    crate::low::seal_check(r, &mut o, &mut sd, b"two", true, None)?;
    Ok(())
}

/// The stream ends early, at any byte: errors, never a payload that was not sent.
fn early_end(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let mut r = c.rng.fork();
    let r = &mut r;
    let spec = PeerSpec {
        garbage: { let n = r.below(6) as usize; r.bytes(n) },
        version: (0, vec![]),
        packets: vec![(0, r.bytes(5)), (128, vec![]), (0, r.bytes(1))],
        ..Default::default()
    };
    let (init, m, peer, mut net) = setup(r, &spec);
    let body = spec.garbage.len() + 16 + 20;
    let full = 64 + body + 25 + 20 + 21;
    let cut = (c.idx / 2) as usize % full;
    net.rd = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    let ends = [64 + body, 64 + body + 25, 64 + body + 45];
    if cut < 64 {
        net.incoming.truncate(cut);
        net.script = None;
    } else {
        let (p, s) = (peer.clone(), spec.clone());
        net.script = Some(Box::new(move |k| {
            let mut v = s.stream(&p.keys(k), p.initiator).0;
            v.truncate(cut - 64);
            v
        }));
    }
    let net = net.share();
    match connect(kind, &net, m, init, None, None)? {
        Err(ProtocolError::Io(e, s)) => {
            ck!(cut < ends[0], "handshake fails on a stream that ends after it: {e:?}");
            ck!(is_retry(&s) && retry_kind(e.kind()), "stream ends after {cut} bytes of the handshake: {e:?} {s:?} instead of a retry suggestion");
            if cut < 64 {
                eq!(net.lock().unwrap().sent.len(), 64, "bytes sent before the peer's key arrived");
            }
        }
        Err(e) => return Err(format!("stream ends after {cut} bytes of the handshake: {e:?}")),
        Ok(mut conn) => {
            ck!(cut >= ends[0], "handshake completes on {cut} bytes only");
            let n = ends.iter().skip(1).filter(|e| **e <= cut).count();
            for k in 0..n {
                same(&conn.read(&net)?.map_err(|e| format!("read {k}: {e:?}"))?, &spec.packets[k], k)?;
            }
            for _ in 0..3 {
                match conn.read(&net)? {
                    Ok(p) => return Err(format!("a payload of {} bytes from a stream that ends early", p.contents().len())),
                    Err(ProtocolError::Io(..)) => {}
                    // a blocking reader is not resumable once it failed within a packet
                    Err(ProtocolError::Internal(_)) if kind == Kind::Sync => break,
                    Err(e) => return Err(format!("stream ends early: {e:?}")),
                }
                if kind == Kind::Sync {
                    break;
                }
            }
        }
    }
    Ok(())
}

/// Polls, cancelling at pending points; counts cancellations.
fn drive_cancel(net: &Shared, r: &mut Rng, p: &mut bip324::futures::Protocol<R, W>) -> Result<Result<Payload, ProtocolError>, String> {
    for _ in 0..2_000_000u64 {
        let mut f = pin!(p.read());
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(x) => return Ok(x),
                Poll::Pending => {
                    if net.lock().unwrap().starved {
                        return Err("waits for ever".into());
                    }
                    if r.bool() {
                        break; // dropped here
                    }
                }
            }
        }
    }
    Err("does not finish".into())
}

fn cancel(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut spec = any_spec(r);
    if c.idx % 10 == 0 {
        spec.packets.extend((0..230).map(|i| (0, vec![i as u8; (i % 5) as usize])));
    }
    let (init, m, _, mut net) = setup(r, &spec);
    net.rd = Sched::any(r);
    net.pend = 100;
    net.eof = r.bool();
    let eof = net.eof;
    let net = net.share();
    let mut p = match connect(Kind::Async, &net, m, init, None, None)?.map_err(|e| format!("handshake fails: {e:?}"))? {
        Conn::A(p) => p,
        _ => unreachable!(),
    };
    {
        let mut n = net.lock().unwrap();
        n.pend = r.pick(&[0, 128, 230]);
        // transport errors at some positions, any of them resumable
        if r.bool() {
            let (from, to) = (n.pos, n.incoming.len());
            let mut f: Vec<usize> = (0..1 + r.below(6)).map(|_| from + r.below((to - from) as u64 + 1) as usize).collect();
            f.sort();
            n.faults = f.into_iter().map(|x| (x, r.pick(&KINDS))).collect();
        }
    }
    let mut k = 0;
    while k < spec.packets.len() {
        match drive_cancel(&net, r, &mut p)? {
            Ok(x) => {
                same(&x, &spec.packets[k], k)?;
                k += 1;
            }
            Err(ProtocolError::Io(e, s)) => {
                ck!(e.to_string() == "injected", "read {k}: {e:?}");
                eq!(is_retry(&s), retry_kind(e.kind()), "retry suggestion for {:?}", e.kind());
            }
            Err(e) => return Err(format!("read of packet {k} after cancellations and errors: {e:?}")),
        }
    }
    net.lock().unwrap().faults.clear();
    if eof {
        match drive_cancel(&net, r, &mut p)? {
            Err(ProtocolError::Io(..)) => {}
            x => return Err(format!("after the end of the stream: {:?}", x.map(|p| p.contents().len()))),
        }
    }
    Ok(())
}

/// A packet that does not authenticate gives an error in both readers.
fn bad_packet(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let mut spec = any_spec(r);
    spec.garbage.truncate(300);
    let (init, m, peer, mut net) = setup(r, &spec);
    net.rd = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    let hs = spec.decoys.len() + 1;
    let which = r.below((hs + spec.packets.len()) as u64) as usize;
    let lens: Vec<usize> = spec.decoys.iter().chain([&spec.version]).chain(&spec.packets).map(|p| p.1.len() + 20).collect();
    let start = spec.garbage.len() + 16 + lens[..which].iter().sum::<usize>();
    let at = start + 3 + r.below(lens[which] as u64 - 3) as usize;
    let bit = 1u8 << r.below(8);
    let (p, s) = (peer.clone(), spec.clone());
    net.script = Some(Box::new(move |k| {
        let mut v = s.stream(&p.keys(k), p.initiator).0;
        v[at] ^= bit;
        v
    }));
    let net = net.share();
    let mut conn = match connect(kind, &net, m, init, None, None)? {
        Err(ProtocolError::Internal(Error::Decryption(_))) if which < hs => return Ok(()),
        Err(e) => return Err(format!("packet {which} altered ({hs} belong to the handshake): {e:?}")),
        Ok(_) if which < hs => return Err(format!("handshake completes with its packet {which} altered")),
        Ok(c) => c,
    };
    for k in 0..which - hs {
        same(&conn.read(&net)?.map_err(|e| format!("read {k}: {e:?}"))?, &spec.packets[k], k)?;
    }
    match conn.read(&net)? {
        Err(ProtocolError::Internal(Error::Decryption(_))) => Ok(()),
        x => Err(format!("altered packet: {:?}", x.map(|p| p.contents().len()))),
    }
}

/// Write and flush failures are reported, and over-long contents refused before anything is sent.
fn write_faults(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let spec = PeerSpec { packets: vec![], ..any_spec(r) };
    let (init, m, peer, mut net) = setup(r, &spec);
    net.wr = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    let k = KINDS[c.idx as usize / 2 % KINDS.len()];
    let phase = r.below(3);
    let g = { let n = r.len(300); r.bytes(n) };
    // write failures within the handshake
    let hs = 64 + g.len() + 36;
    if phase == 0 {
        let at = r.below(hs as u64) as usize;
        net.wfaults = VecDeque::from([(at, k)]);
        let net = net.share();
        match connect(kind, &net, m, init, Some(g), None)? {
            Err(ProtocolError::Io(e, s)) => {
                ck!(e.kind() == k && e.to_string() == "injected", "write failure {k:?} reported as {e:?}");
                eq!(is_retry(&s), retry_kind(k), "retry suggestion for {k:?}");
                eq!(net.lock().unwrap().sent.len(), at, "bytes sent before the failure");
            }
            x => return Err(format!("write failure {k:?} in the handshake: {:?}", x.err())),
        }
        return Ok(());
    }
    if phase == 1 && r.bool() {
        net.flush_fault = Some(k);
        let net = net.share();
        match connect(kind, &net, m, init, Some(g), None)? {
            Err(ProtocolError::Io(e, s)) => {
                ck!(e.kind() == k && e.to_string() == "injected", "flush failure {k:?} reported as {e:?}");
                eq!(is_retry(&s), retry_kind(k), "retry suggestion for {k:?}");
            }
            x => return Err(format!("flush failure {k:?} in the handshake: {:?}", x.err())),
        }
        return Ok(());
    }
    let net = net.share();
    let mut conn = connect(kind, &net, m, init, Some(g.clone()), None)?.map_err(|e| format!("handshake: {e:?}"))?;
    let sent = net.lock().unwrap().sent.clone();
    let keys = peer.keys(&sent[..64].try_into().unwrap());
    let (_, mut sd) = check_sent(&sent, &g, &[], &keys, init)?;
    let mut at = sent.len();
    for _ in 0..r.below(3) {
        at = write_check(r, &mut conn, &net, &mut sd, at, None)?;
    }
    if c.idx % 50 < 2 {
        let n = (1 << 24) + r.below(70000) as usize;
        match conn.write(&net, &Payload::genuine(vec![1; n]))? {
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {}
            x => return Err(format!("write of {n} bytes: {x:?}")),
        }
        eq!(net.lock().unwrap().sent.len(), at, "bytes sent by a refused write");
        at = write_check(r, &mut conn, &net, &mut sd, at, None)?;
    }
    let x = blob(r, 1000);
    let full = x.len() + 20;
    let flush = r.bool();
    let stop = r.below(full as u64) as usize;
    {
        let mut n = net.lock().unwrap();
        if flush {
            n.flush_fault = Some(k);
        } else {
            n.wfaults = VecDeque::from([(at + stop, k)]);
        }
    }
    match conn.write(&net, &Payload::genuine(x.clone()))? {
        Err(ProtocolError::Io(e, s)) => {
            ck!(e.kind() == k && e.to_string() == "injected", "failure {k:?} reported as {e:?}");
            eq!(is_retry(&s), retry_kind(k), "retry suggestion for {k:?}");
        }
        Err(e) => return Err(format!("failure {k:?} of the transport: {e:?}")),
        Ok(()) => return Err(format!("failure {k:?} of the transport ({}) is not reported", if flush { "flush" } else { "write" })),
    }
    let want = sd.seal(0, &x, &[]);
    let n = net.lock().unwrap();
    let got = &n.sent[at..];
    ck!(got == &want[..got.len().min(want.len())], "a failed write sends other bytes");
    Ok(())
}

/// Read failures within the handshake keep kind and suggestion.
fn read_faults(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let k = KINDS[c.idx as usize / 2 % KINDS.len()];
    let r = &mut c.rng;
    let mut spec = any_spec(r);
    spec.garbage.truncate(r.pick(&[0, 3, 700, 4095]));
    let (init, m, _, mut net) = setup(r, &spec);
    let hs = 64 + spec.garbage.len() + 16 + spec.decoys.iter().map(|d| d.1.len() + 20).sum::<usize>() + spec.version.1.len() + 20;
    let at = match r.below(3) {
        0 => r.below(64) as usize,
        1 => 64 + r.below((hs - 64) as u64) as usize,
        _ => hs - 1 - r.below(20.min(hs as u64 - 64)) as usize,
    };
    net.faults = VecDeque::from([(at, k)]);
    net.rd = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    let net = net.share();
    match connect(kind, &net, m, init, None, None)? {
        Err(ProtocolError::Io(e, s)) => {
            ck!(e.kind() == k && e.to_string() == "injected", "read failure {k:?} after {at} bytes reported as {e:?}");
            eq!(is_retry(&s), retry_kind(k), "retry suggestion for {k:?}");
            Ok(())
        }
        x => Err(format!("read failure {k:?} after {at} of {hs} bytes of the handshake: {:?}", x.err())),
    }
}

fn advice(c: &mut Case) -> Res {
    let k = KINDS.iter().chain(&[ErrorKind::Interrupted]).nth(c.idx as usize % (KINDS.len() + 1)).unwrap();
    for custom in [true, false] {
        let e = if custom { std::io::Error::new(*k, "details") } else { std::io::Error::from(*k) };
        let text = e.to_string();
        match ProtocolError::from(e) {
            ProtocolError::Io(e, s) => {
                eq!(e.kind(), *k, "kind of the wrapped error");
                eq!(e.to_string(), text, "wrapped error");
                eq!(is_retry(&s), retry_kind(*k), "retry suggestion for {k:?}");
            }
            e => return Err(format!("{k:?} becomes {e:?}")),
        }
    }
    match ProtocolError::eof() {
        ProtocolError::Io(e, s) => ck!(retry_kind(e.kind()) && is_retry(&s), "eof() gives {e:?} {s:?}"),
        e => return Err(format!("eof() gives {e:?}")),
    }
    for e in [Error::CiphertextTooSmall, Error::PacketTooBig, Error::TooMuchGarbage, Error::NoGarbageTerminator, Error::V1Protocol, Error::BufferTooSmall { required_bytes: 3 }] {
        match ProtocolError::from(e) {
            ProtocolError::Internal(x) => eq!(x, e, "internal error"),
            x => return Err(format!("{e:?} becomes {x:?}")),
        }
    }
    Ok(())
}

/// Internal failures of the handshake: each with its own error, never as a transport error.
fn hs_errors(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let mut spec = any_spec(r);
    let what = r.below(5);
    let mut own = { let n = r.len(100); r.bytes(n) };
    match what {
        // V1 peer
        0 => {}
        // no terminator
        1 => {
            let n = 4111 + r.below(3000) as usize;
            spec.raw_after_key = Some(r.bytes(n));
        }
        // garbage beyond the limit
        2 => {
            let n = 4096 + r.below(300) as usize;
            spec.garbage = r.bytes(n);
        }
        // altered garbage
        3 => {
            let mut g = spec.garbage.clone();
            match r.below(3) {
                0 if !g.is_empty() => {
                    let k = r.below(g.len() as u64) as usize;
                    g[k] ^= 1 << r.below(8);
                }
                1 if !g.is_empty() => g.clear(),
                _ => {
                    if g.len() < 4095 {
                        g.push(r.next() as u8)
                    } else {
                        g.truncate(7)
                    }
                }
            }
            spec.garbage_on_wire = Some(g);
        }
        // own garbage too long
        _ => {
            let n = 4096 + r.below(5000) as usize;
            own = r.bytes(n);
        }
    }
    let (init, m, _, mut net) = setup(r, &spec);
    net.rd = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    net.eof = r.bool();
    if what == 0 {
        net.script = None;
        net.incoming = r.bytes(64);
        net.incoming[..4].copy_from_slice(&m);
        if r.bool() {
            let k = r.len(300);
            let e = r.bytes(k);
            net.incoming.extend(e);
        }
    }
    let net = net.share();
    let e = match connect(kind, &net, m, init, opt(r, own.clone()), None)? {
        Ok(_) => return Err(format!("handshake completes, case {what}")),
        Err(ProtocolError::Internal(e)) => e,
        Err(e) => return Err(format!("case {what}: {e:?} instead of an internal error")),
    };
    let n = net.lock().unwrap();
    match what {
        0 => {
            eq!(e, Error::V1Protocol, "V1 peer");
            eq!(n.sent.len(), 64 + own.len(), "bytes sent to a V1 peer");
        }
        1 | 2 => eq!(e, Error::NoGarbageTerminator, "no terminator within the limit"),
        3 => ck!(matches!(e, Error::Decryption(_)), "altered garbage: {e:?}"),
        _ => {
            eq!(e, Error::TooMuchGarbage, "own garbage too long");
            eq!(n.sent.len(), 0, "bytes sent with too much garbage");
        }
    }
    Ok(())
}

/// Keys close to the magic are not V1.
fn not_v1(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let spec = PeerSpec { version: (0, vec![]), packets: vec![(0, b"hi".to_vec())], ..Default::default() };
    let init = r.bool();
    let p0 = Peer::new(r, !init, [0; 4]);
    // a network whose magic is nearly the beginning of the peer's key
    let mut m: [u8; 4] = p0.es[..4].try_into().unwrap();
    match r.below(3) {
        0 => m[r.below(4) as usize] ^= 1 << r.below(8),
        1 => m.copy_from_slice(&p0.es[1..5]),
        _ => m.reverse(),
    }
    if m == p0.es[..4] {
        return Ok(());
    }
    let peer = Peer { magic: m, ..p0 };
    let net = peer_net(r, &peer, &spec).share();
    let mut conn = connect(kind, &net, m, init, None, None)?.map_err(|e| format!("V2 peer: {e:?}"))?;
    same(&conn.read(&net)?.map_err(|e| format!("{e:?}"))?, &spec.packets[0], 0)
}

/// Announced sizes in the handshake.
fn announce(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let big = 4000014usize;
    let len = match c.idx / 2 {
        0 => big - 16,
        1 => (1 << 24) - 1,
        2 => big + 1,
        _ => big - 16 + r.below((1 << 24) - big as u64) as usize,
    };
    let mut spec = any_spec(r);
    spec.packets.clear();
    let at = r.below(spec.decoys.len() as u64 + 1) as usize;
    spec.announce = Some((at, len));
    // Buffers of accepted packets may grow by doubling.
    for d in &mut spec.decoys {
        d.1.truncate(1_000_000);
    }
    spec.tail = r.bytes(20_000);
    let before = 64 + spec.garbage.len() + 16 + spec.decoys[..at].iter().map(|d| d.1.len() + 20).sum::<usize>() + 3;
    let (init, m, _, mut net) = setup(r, &spec);
    net.rd = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    let net = net.share();
    reset_biggest();
    let got = connect(kind, &net, m, init, None, None)?;
    let most = biggest();
    match got {
        Err(ProtocolError::Internal(Error::PacketTooBig)) => {}
        x => return Err(format!("a packet of {} bytes announced in the handshake: {:?}", len + 17, x.err())),
    }
    ck!(most < 3_000_000, "{most} bytes allocated for a packet that is refused");
    let pos = net.lock().unwrap().pos;
    ck!(pos <= before + 4200, "{} bytes of a refused packet are read", pos - before);
    Ok(())
}

/// Packets up to the limit are accepted in the handshake and by the blocking reader.
fn at_limit(c: &mut Case) -> Res {
    let kind = if c.idx % 4 == 3 { Kind::Async } else { Kind::Sync };
    let r = &mut c.rng;
    let big = 4000014usize;
    let mut spec = PeerSpec { garbage: { let n = r.len(50); r.bytes(n) }, version: (0, vec![]), ..Default::default() };
    let over = c.idx % 4 == 2;
    match c.idx % 4 {
        0 | 3 => {
            if r.bool() {
                spec.decoys.push((128, vec![3; big - 17]));
            } else {
                spec.version.1 = vec![3; big - 17];
            }
            spec.packets.push((0, b"after".to_vec()));
        }
        1 => spec.packets.push((r.next() as u8, vec![4; big - 1])),
        _ => spec.packets.push((0, vec![4; big + (r.below(5) as usize) * 1000])),
    }
    let (init, m, _, net) = setup(r, &spec);
    let net = net.share();
    let mut conn = connect(kind, &net, m, init, None, None)?.map_err(|e| format!("packet at the limit in the handshake: {e:?}"))?;
    let got = conn.read(&net)?;
    if over {
        match got {
            Err(ProtocolError::Internal(Error::PacketTooBig)) => Ok(()),
            x => Err(format!("blocking read of {} bytes: {:?}", spec.packets[0].1.len(), x.map(|p| p.contents().len()))),
        }
    } else {
        same(&got.map_err(|e| format!("packet at the limit: {e:?}"))?, &spec.packets[0], 0)
    }
}

/// Garbage without end.
fn garbage_bound(c: &mut Case) -> Res {
    let kind = kind_of(c);
    let r = &mut c.rng;
    let n = 200_000;
    let spec = PeerSpec { raw_after_key: Some(r.bytes(n)), ..Default::default() };
    let (init, m, _, mut net) = setup(r, &spec);
    net.rd = Sched::any(r);
    net.pend = r.pick(&[0, 100]);
    let net = net.share();
    reset_biggest();
    let got = connect(kind, &net, m, init, None, None)?;
    let most = biggest();
    match got {
        Err(ProtocolError::Internal(Error::NoGarbageTerminator)) => {}
        x => return Err(format!("garbage without end: {:?}", x.err())),
    }
    let net = net.lock().unwrap();
    for (pos, _, k) in &net.reads {
        ck!(*pos < 64 + 4111 || *k == 0, "garbage is still read after {} bytes", pos - 64);
    }
    ck!(most < 1_000_000, "{most} bytes allocated for garbage");
    Ok(())
}

/// Two ends of the code under test over real pipes.
fn both_ends(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let m = magic(r);
    let g: Vec<Option<Vec<u8>>> = (0..2).map(|_| { let g = garbage(r); opt(r, g) }).collect();
    let d: Vec<Option<Vec<Vec<u8>>>> = (0..2).map(|_| if r.bool() { None } else { Some((0..r.count(4)).map(|_| blob(r, 300)).collect()) }).collect();
    let msgs: Vec<Vec<Vec<u8>>> = (0..2).map(|_| (0..5).map(|_| blob(r, 500)).collect()).collect();
    if c.idx % 2 == 0 {
        use std::os::unix::net::UnixStream;
        let (a, b) = UnixStream::pair().map_err(|e| e.to_string())?;
        for s in [&a, &b] {
            s.set_read_timeout(Some(std::time::Duration::from_secs(40))).unwrap();
            s.set_write_timeout(Some(std::time::Duration::from_secs(40))).unwrap();
        }
        let end = |s: UnixStream, init: bool, k: usize| -> Res {
            let mut p = bip324::io::Protocol::new(m, role(init), g[k].clone(), d[k].clone(), s.try_clone().unwrap(), s).map_err(|e| format!("handshake, initiator {init}: {e:?}"))?;
            for x in &msgs[k] {
                p.write(&Payload::genuine(x.clone())).map_err(|e| format!("write: {e:?}"))?;
            }
            for (j, x) in msgs[1 - k].iter().enumerate() {
                same(&p.read().map_err(|e| format!("read {j}: {e:?}"))?, &(0, x.clone()), j)?;
            }
            Ok(())
        };
        let (x, y) = std::thread::scope(|s| {
            let t = s.spawn(|| end(a, true, 0));
            let y = end(b, false, 1);
            (t.join().unwrap_or(Err("panic in the initiator".into())), y)
        });
        x.and(y)
    } else {
        let cap = 1 << 17;
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let (a, b) = tokio::io::duplex(cap);
        async fn end(s: tokio::io::DuplexStream, m: [u8; 4], init: bool, g: Option<Vec<u8>>, d: Option<Vec<Vec<u8>>>, mine: &[Vec<u8>], theirs: &[Vec<u8>]) -> Res {
            let (rd, wr) = tokio::io::split(s);
            let mut p = bip324::futures::Protocol::new(m, role(init), g, d, rd, wr).await.map_err(|e| format!("handshake, initiator {init}: {e:?}"))?;
            for x in mine {
                p.write(&Payload::genuine(x.clone())).await.map_err(|e| format!("write: {e:?}"))?;
            }
            for (j, x) in theirs.iter().enumerate() {
                same(&p.read().await.map_err(|e| format!("read {j}: {e:?}"))?, &(0, x.clone()), j)?;
            }
            Ok(())
        }
        let f = async {
            tokio::join!(
                end(a, m, true, g[0].clone(), d[0].clone(), &msgs[0], &msgs[1]),
                end(b, m, false, g[1].clone(), d[1].clone(), &msgs[1], &msgs[0])
            )
        };
        let (x, y) = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(40), f).await }).map_err(|_| "the two ends wait for each other".to_string())?;
        x.and(y)
    }
}

#[allow(dead_code)]
pub fn keys_of(net: &Shared, peer: &Peer) -> Keys {
    peer.keys(&net.lock().unwrap().sent[..64].try_into().unwrap())
}

pub fn scenarios() -> Vec<Scenario> {
    let s = |name, props, cases, run| Scenario { name, props, cases, run };
    vec![
        s("transport", &["C13", "C14", "C15", "C08", "C12", "C09", "C10", "C22"], 240, transport as fn(&mut Case) -> Res),
        s("inner", &["C13", "C14", "C12"], 120, inner),
        s("early_end", &["C13", "C14", "C21"], 300, early_end),
        s("cancel", &["C14"], 300, cancel),
        s("bad_packet", &["C13", "C14", "C12", "C04"], 150, bad_packet),
        s("write_faults", &["C15", "C21", "C03"], 200, write_faults),
        s("read_faults", &["C21"], 300, read_faults),
        s("advice", &["C21"], 46, advice),
        s("hs_errors", &["C21", "C11", "C09", "C10", "C08"], 300, hs_errors),
        s("not_v1", &["C11"], 60, not_v1),
        s("announce", &["C16"], 120, announce),
        s("at_limit", &["C16"], 12, at_limit),
        s("garbage_bound", &["C16", "C09"], 60, garbage_bound),
        s("both_ends", &["C08"], 60, both_ends),
    ]
}
