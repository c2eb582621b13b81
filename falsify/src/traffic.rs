//! Scenarios on the traffic shaping layer.
use crate::conn::*;
use crate::net::*;
use crate::rf::Dir;
use crate::util::*;
use crate::{ck, eq, Scenario};
use bip324::io::{Payload, ProtocolError};
use bip324_traffic::{AtomicTrafficStats, DecoyStrategy, PaddingStrategy, TrafficConfig, TrafficStats};
use std::collections::VecDeque;
use std::future::Future;
use std::io::ErrorKind;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

fn config(pad: bool, decoy: bool) -> TrafficConfig {
    TrafficConfig::new()
        .with_padding_strategy(if pad { PaddingStrategy::Random } else { PaddingStrategy::Disabled })
        .with_decoy_strategy(if decoy { DecoyStrategy::Random } else { DecoyStrategy::Disabled })
}

/// Random source with stretches of extreme values.
#[cfg(bip324_verif)]
struct Odd(Rng, u64);
#[cfg(bip324_verif)]
impl rand::RngCore for Odd {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.0.next();
        if self.0.below(8) < self.1 {
            match v % 5 {
                0 => 0,
                1 => u64::MAX,
                2 => u64::MAX - (v >> 40),
                3 => v >> 50,
                _ => 1 << 63,
            }
        } else {
            v
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

#[cfg(not(bip324_verif))]
fn shaper(_: &mut Case) -> Res {
    Ok(())
}
#[cfg(bip324_verif)]
fn shaper(c: &mut Case) -> Res {
    let (pad, decoy) = (c.idx & 1 == 1, c.idx & 2 == 2);
    let r = &mut c.rng;
    let mode = r.below(8);
    let mut s = bip324_traffic::verif::Shaper::new(config(pad, decoy), Odd(r.fork(), mode));
    let st = AtomicTrafficStats::new();
    let check = |p: &Payload, what: &str| -> Result<usize, String> {
        let n = p.contents().len();
        ck!((1..=1024).contains(&n), "{what} of {n} bytes");
        ck!(!is_genuine(p.packet_type()), "{what} is not of decoy type");
        Ok(n)
    };
    let (mut bytes, mut msgs) = (0u64, 0u64);
    for _ in 0..6 {
        let (g, d) = s.handshake(&st);
        if !pad {
            ck!(g.is_none(), "garbage with padding disabled");
        }
        if let Some(g) = g {
            ck!(g.len() <= 4095, "{} bytes of garbage", g.len());
        }
        if !decoy {
            ck!(d.is_none(), "handshake decoys with decoys disabled");
        }
        if let Some(d) = d {
            ck!(d.len() <= 3, "{} handshake decoys", d.len());
            for x in d {
                ck!((1..=1024).contains(&x.len()), "handshake decoy of {} bytes", x.len());
            }
        }
    }
    let t0 = bip324_traffic::verif::totals(&st);
    for _ in 0..60 {
        let n = r.size(3000);
        let p = if r.bool() { Payload::genuine(vec![1; n]) } else { Payload::decoy(vec![1; n]) };
        let x = s.pad(&p, &st);
        bytes += n as u64;
        msgs += 1;
        if let Some(x) = x {
            ck!(pad, "padding with padding disabled");
            bytes += check(&x, "padding")? as u64;
            msgs += 1;
        }
        let x = s.decoy(&st);
        if let Some(x) = x {
            ck!(decoy, "decoy with decoys disabled");
            bytes += check(&x, "decoy")? as u64;
            msgs += 1;
        }
    }
    let t = bip324_traffic::verif::totals(&st);
    eq!([t[0] - t0[0], t[1] - t0[1], t[2] - t0[2], t[3] - t0[3]], [0, bytes, 0, msgs], "statistics of the shaper (read bytes, written bytes, messages)");
    Ok(())
}

struct Shaped {
    net: Shared,
    peer: Peer,
    init: bool,
    spec: PeerSpec,
}
fn shaped(r: &mut Rng) -> (Shaped, [u8; 4]) {
    let init = r.bool();
    let m = magic(r);
    let peer = Peer::new(r, !init, m);
    let mut spec = crate::stream::any_spec(r);
    spec.garbage.truncate(200);
    let mut net = peer_net(r, &peer, &spec);
    net.rd = Sched::any(r);
    (Shaped { net: net.share(), peer, init, spec }, m)
}

/// Checks the shaped handshake as the peer sees it; position after it, and the direction.
fn sent_handshake(s: &Shaped, pad: bool, decoy: bool) -> Result<(usize, Dir), String> {
    let n = s.net.lock().unwrap();
    let sent = &n.sent;
    let keys = s.peer.keys(&sent[..64].try_into().unwrap());
    let t = keys.term(s.init);
    let at = (64..sent.len().saturating_sub(15)).find(|i| sent[*i..*i + 16] == t).ok_or("no terminator sent")?;
    let g = &sent[64..at];
    ck!(g.len() <= 4095, "{} bytes of garbage", g.len());
    ck!(pad || g.is_empty(), "garbage with padding disabled");
    let mut d = keys.send_dir(s.init);
    let mut p = at + 16;
    let mut aad: &[u8] = g;
    let mut count = 0;
    loop {
        let (n, h, c) = d.open(&sent[p..], aad)?;
        p += n;
        aad = &[];
        if h & 128 == 0 {
            break;
        }
        count += 1;
        ck!((1..=1024).contains(&c.len()), "handshake decoy of {} bytes", c.len());
    }
    ck!(count <= 3 && (decoy || count == 0), "{count} handshake decoys, decoys enabled: {decoy}");
    Ok((p, d))
}

/// What follows the handshake: genuine payloads as written, decoys within bounds.
fn sent_packets(s: &Shaped, from: usize, d: &mut Dir, want: &[Vec<u8>], pad: bool, decoy: bool) -> Result<Vec<usize>, String> {
    let n = s.net.lock().unwrap();
    let all = d.open_all(&n.sent[from..]).map_err(|e| format!("the peer cannot follow: {e}"))?;
    let mut k = 0;
    let mut run = 0;
    for (h, c) in &all {
        if h & 128 == 0 {
            ck!(k < want.len(), "more genuine packets than writes");
            ck!(*c == want[k], "genuine packet {k} carries other contents");
            k += 1;
            ck!(decoy || run <= 1, "{run} decoys before one payload");
            run = 0;
        } else {
            run += 1;
            ck!(pad || decoy, "a decoy although disabled");
            ck!((1..=1024).contains(&c.len()), "decoy of {} bytes", c.len());
        }
    }
    eq!(k, want.len(), "genuine packets that reach the peer");
    Ok(all.iter().map(|x| x.1.len()).collect())
}

/// Blocking: several connections at once, with slow piecemeal transports and background decoys.
fn sync_writes(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let conns = 10;
    let mut v = vec![];
    for k in 0..conns {
        let (pad, decoy) = (k & 1 == 1, k & 2 == 2);
        let (s, m) = shaped(r);
        {
            let mut n = s.net.lock().unwrap();
            n.wr = if k % 3 == 0 { Sched::Rand(r.fork(), 400) } else { Sched::All };
        }
        let p = bip324_traffic::io::ShapedProtocol::new(m, role(s.init), config(pad, decoy), R(s.net.clone()), W(s.net.clone())).map_err(|e| format!("handshake: {e:?}"))?;
        let (at, d) = sent_handshake(&s, pad, decoy)?;
        v.push((s, p, at, d, pad, decoy, Vec::<Vec<u8>>::new()));
    }
    let steps = if c.thorough { 40 } else { 14 };
    for step in 0..steps {
        for (s, p, _, _, _, _, want) in v.iter_mut() {
            if step == 3 {
                s.net.lock().unwrap().write_delay_us = r.pick(&[0, 300, 2000]);
            }
            let x = { let n = r.size(400); r.bytes(n) };
            p.write(&Payload::genuine(x.clone())).map_err(|e| format!("write: {e:?}"))?;
            want.push(x);
        }
        std::thread::sleep(Duration::from_millis(r.below(70)));
    }
    for (s, mut p, at, mut d, pad, decoy, want) in v {
        for (k, x) in s.spec.packets.iter().enumerate() {
            let got = p.read().map_err(|e| format!("read {k}: {e:?}"))?;
            ck!(got.contents() == &x.1[..] && is_genuine(got.packet_type()) == (x.0 < 128), "payload {k} read through the shaping layer");
        }
        drop(p);
        ck!(s.net.lock().unwrap().writer_dropped, "the background sender is still there after the handle was dropped");
        let len = s.net.lock().unwrap().sent.len();
        sent_packets(&s, at, &mut d, &want, pad, decoy)?;
        ck!(s.net.lock().unwrap().sent.len() == len, "sent after the drop");
    }
    Ok(())
}

/// Failures of the transport during a shaped write are reported by that write.
fn write_errors(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let pad = r.bool();
    let (s, m) = shaped(r);
    let k = r.pick(&crate::stream::KINDS);
    let mut want: Vec<Vec<u8>> = vec![];
    let kind = crate::stream::kind_of(c);
    let r = &mut c.rng;
    let good = r.below(4);
    let x = { let n = r.size(500); r.bytes(n) };
    let off = r.below(x.len() as u64 + 20 + if pad { 20 } else { 0 }) as usize;
    let flush = r.below(3) == 0;
    let arm = |s: &Shaped| {
        let mut n = s.net.lock().unwrap();
        if flush {
            n.flush_fault = Some(k);
        } else {
            let at = n.sent.len() + off;
            n.wfaults = VecDeque::from([(at, k)]);
        }
    };
    let (at, mut d, got);
    match kind {
        Kind::Sync => {
            let mut p = bip324_traffic::io::ShapedProtocol::new(m, role(s.init), config(pad, false), R(s.net.clone()), W(s.net.clone())).map_err(|e| format!("handshake: {e:?}"))?;
            (at, d) = sent_handshake(&s, pad, false)?;
            for i in 0..good {
                p.write(&Payload::genuine(vec![i as u8; 9])).map_err(|e| format!("write: {e:?}"))?;
                want.push(vec![i as u8; 9]);
            }
            arm(&s);
            got = p.write(&Payload::genuine(x.clone()));
            std::mem::forget(p.into_split().0);
        }
        Kind::Async => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            (at, d, got) = rt.block_on(async {
                let mut p = bip324_traffic::futures::ShapedProtocol::new(m, role(s.init), config(pad, false), R(s.net.clone()), W(s.net.clone())).await.map_err(|e| format!("handshake: {e:?}"))?;
                let (at, d) = sent_handshake(&s, pad, false)?;
                for i in 0..good {
                    p.write(&Payload::genuine(vec![i as u8; 9])).await.map_err(|e| format!("write: {e:?}"))?;
                    want.push(vec![i as u8; 9]);
                }
                arm(&s);
                Ok::<_, String>((at, d, p.write(&Payload::genuine(x.clone())).await))
            })?;
        }
    }
    match got {
        Err(ProtocolError::Io(e, _)) => ck!(e.kind() == k, "failure {k:?} reported as {e:?}"),
        Err(e) => return Err(format!("failure {k:?} of the transport: {e:?}")),
        Ok(()) => {
            // the fault lay beyond what this write sent: then all of it must have arrived
            ck!(!flush, "a failed flush is reported as success");
            let mut w = want.clone();
            w.push(x);
            sent_packets(&s, at, &mut d, &w, pad, false)?;
        }
    }
    Ok(())
}

/// Blocking: the sender goes on in spite of contention and failed decoys, and stops with the handle.
fn sync_sender(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let contention = c.idx % 2 == 0;
    let mut v = vec![];
    for _ in 0..12 {
        let (s, m) = shaped(r);
        let p = bip324_traffic::io::ShapedProtocol::new(m, role(s.init), config(false, true), R(s.net.clone()), W(s.net.clone())).map_err(|e| format!("handshake: {e:?}"))?;
        v.push((s, p));
    }
    if contention {
        // each write holds the lock over several ticks
        std::thread::scope(|sc| {
            for (s, p) in v.iter_mut() {
                s.net.lock().unwrap().write_delay_us = 350_000;
                sc.spawn(move || p.write(&Payload::genuine(vec![1; 5])));
            }
        });
        for (s, _) in &v {
            s.net.lock().unwrap().write_delay_us = 0;
        }
    } else {
        for (s, _) in &v {
            let mut n = s.net.lock().unwrap();
            let at = n.sent.len();
            n.wfaults = VecDeque::from([(at, ErrorKind::Other), (at, ErrorKind::ConnectionReset)]);
        }
        // until the faults have been met, or long enough
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(8) && v.iter().any(|(s, _)| !s.net.lock().unwrap().wfaults.is_empty()) {
            std::thread::sleep(Duration::from_millis(50));
        }
        ck!(v.iter().any(|(s, _)| s.net.lock().unwrap().wfaults.is_empty()), "no decoys are sent");
    }
    // only connections on which the disturbance has happened count
    let met: Vec<(usize, usize)> = v.iter().enumerate().filter(|(_, (s, _))| s.net.lock().unwrap().wfaults.is_empty()).map(|(i, (s, _))| (i, s.net.lock().unwrap().sent.len())).collect();
    let t = Instant::now();
    loop {
        if met.iter().any(|(i, n)| v[*i].0.net.lock().unwrap().sent.len() > *n) {
            break;
        }
        ck!(t.elapsed() < Duration::from_secs(12), "no decoys any more on {} connections after {}", met.len(), if contention { "contention" } else { "failed decoys" });
        std::thread::sleep(Duration::from_millis(30));
    }
    let nets: Vec<Shared> = v.iter().map(|x| x.0.net.clone()).collect();
    for (_, p) in v {
        let t = Instant::now();
        drop(p);
        ck!(t.elapsed() < Duration::from_secs(20), "dropping the handle takes {:?}", t.elapsed());
    }
    let lens: Vec<usize> = nets.iter().map(|n| n.lock().unwrap().sent.len()).collect();
    for n in &nets {
        ck!(n.lock().unwrap().writer_dropped, "the background sender is still there after the handle was dropped");
    }
    std::thread::sleep(Duration::from_millis(250));
    for (n, l) in nets.iter().zip(lens) {
        eq!(n.lock().unwrap().sent.len(), l, "bytes sent after the drop");
    }
    Ok(())
}

async fn settle() {
    for _ in 0..30 {
        tokio::task::yield_now().await;
    }
}

/// Asynchronous: writes, decoys, drop, on a paused clock.
fn async_writes(c: &mut Case) -> Res {
    let (pad, decoy) = (c.idx & 1 == 1, c.idx & 2 == 2);
    let r = &mut c.rng;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let (s, m) = shaped(r);
        {
            let mut n = s.net.lock().unwrap();
            n.wr = Sched::any(r);
            n.pend = r.pick(&[0, 100, 200]);
        }
        let mut p = bip324_traffic::futures::ShapedProtocol::new(m, role(s.init), config(pad, decoy), R(s.net.clone()), W(s.net.clone())).await.map_err(|e| format!("handshake: {e:?}"))?;
        let (at, mut d) = sent_handshake(&s, pad, decoy)?;
        let mut want = vec![];
        for _ in 0..12 {
            let x = { let n = r.size(500); r.bytes(n) };
            let before = s.net.lock().unwrap().sent.len();
            if r.below(4) == 0 {
                // a write given up after it was handed over is still carried out
                let pl = Payload::genuine(x.clone());
                let mut f = Box::pin(p.write(&pl));
                let mut cx = Context::from_waker(Waker::noop());
                let _ = matches!(f.as_mut().poll(&mut cx), Poll::Ready(_));
            } else {
                p.write(&Payload::genuine(x.clone())).await.map_err(|e| format!("write: {e:?}"))?;
                ck!(s.net.lock().unwrap().sent.len() >= before + x.len() + 20, "success reported before the packet was written");
            }
            want.push(x);
            if r.bool() {
                tokio::time::sleep(Duration::from_millis(r.below(900))).await;
            }
        }
        for (k, x) in s.spec.packets.iter().enumerate() {
            let got = p.read().await.map_err(|e| format!("read {k}: {e:?}"))?;
            ck!(got.contents() == &x.1[..] && is_genuine(got.packet_type()) == (x.0 < 128), "payload {k} read through the shaping layer");
        }
        if decoy {
            let n0 = s.net.lock().unwrap().sent.len();
            tokio::time::sleep(Duration::from_secs(60)).await;
            ck!(s.net.lock().unwrap().sent.len() > n0, "no decoys in 60 s");
        }
        // accepted before the drop
        let x = { let n = r.size(500); r.bytes(n) };
        let last = r.bool();
        if last {
            let pl = Payload::genuine(x.clone());
            let mut f = Box::pin(p.write(&pl));
            let mut cx = Context::from_waker(Waker::noop());
            let _ = f.as_mut().poll(&mut cx);
            drop(f);
            want.push(x);
        }
        let half = r.bool();
        let keep = if half {
            let (rd, wr) = p.into_split();
            drop(wr);
            Some(rd)
        } else {
            drop(p);
            None
        };
        settle().await;
        tokio::time::sleep(Duration::from_secs(2)).await;
        settle().await;
        ck!(s.net.lock().unwrap().writer_dropped, "the background sender is still there after the handle was dropped");
        let n0 = s.net.lock().unwrap().sent.len();
        tokio::time::sleep(Duration::from_secs(100)).await;
        eq!(s.net.lock().unwrap().sent.len(), n0, "bytes sent after the drop");
        drop(keep);
        sent_packets(&s, at, &mut d, &want, pad, decoy)?;
        Ok(())
    })
}

/// Asynchronous: the sender survives failed decoys and failed writes.
fn async_sender(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let (s, m) = shaped(r);
        let mut p = bip324_traffic::futures::ShapedProtocol::new(m, role(s.init), config(r.bool(), true), R(s.net.clone()), W(s.net.clone())).await.map_err(|e| format!("handshake: {e:?}"))?;
        for round in 0..4 {
            {
                let mut n = s.net.lock().unwrap();
                if r.below(3) == 0 {
                    n.flush_fault = Some(r.pick(&crate::stream::KINDS));
                } else {
                    let at = n.sent.len();
                    n.wfaults = VecDeque::from([(at, r.pick(&crate::stream::KINDS))]);
                }
            }
            if r.bool() {
                // a background decoy may meet the fault first
                let _ = p.write(&Payload::genuine(vec![1])).await;
                s.net.lock().unwrap().flush_fault = None;
            } else {
                tokio::time::sleep(Duration::from_secs(60)).await;
                ck!(s.net.lock().unwrap().wfaults.is_empty(), "no decoys in 60 s");
                s.net.lock().unwrap().flush_fault = None;
            }
            let n0 = s.net.lock().unwrap().sent.len();
            tokio::time::sleep(Duration::from_secs(60)).await;
            ck!(s.net.lock().unwrap().sent.len() > n0, "no decoys any more after a failure, round {round}");
            p.write(&Payload::genuine(vec![2])).await.map_err(|e| format!("write after a failure: {e:?}"))?;
        }
        let gone = s.net.clone();
        drop(p);
        tokio::time::sleep(Duration::from_secs(2)).await;
        ck!(gone.lock().unwrap().writer_dropped, "the background sender is still there after the handle was dropped");
        Ok(())
    })
}

fn ratio_ok(st: &AtomicTrafficStats, read: u64, written: u64) -> Res {
    let want = if read == 0 { None } else { Some(written as f64 / read as f64) };
    eq!(st.write_read_ratio(), want, "ratio for {written} written and {read} read");
    Ok(())
}

fn stats(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let st = if r.bool() { AtomicTrafficStats::new() } else { AtomicTrafficStats::default() };
    let mut t = [0u64; 4];
    ratio_ok(&st, 0, 0)?;
    let big = r.bool();
    let zero = r.bool();
    for _ in 0..40 {
        let n = if zero && r.bool() {
            0
        } else if big {
            r.next() as usize >> (8 + r.below(40))
        } else {
            r.size(5000)
        };
        if r.bool() {
            st.record_read(n);
            t[0] += n as u64;
            t[2] += 1;
        } else {
            st.record_write(n);
            t[1] += n as u64;
            t[3] += 1;
        }
        ratio_ok(&st, t[0], t[1])?;
        #[cfg(bip324_verif)]
        eq!(bip324_traffic::verif::totals(&st), t, "totals");
    }
    // concurrently
    let st = AtomicTrafficStats::new();
    let (threads, per) = (4u64, 2000u64);
    std::thread::scope(|s| {
        for k in 0..threads {
            let st = &st;
            s.spawn(move || {
                for i in 0..per {
                    if (i + k) % 2 == 0 {
                        st.record_read((i % 7) as usize);
                    } else {
                        st.record_write((i % 5) as usize);
                    }
                }
            });
        }
    });
    let mut t = [0u64; 4];
    for k in 0..threads {
        for i in 0..per {
            if (i + k) % 2 == 0 {
                t[0] += i % 7;
                t[2] += 1;
            } else {
                t[1] += i % 5;
                t[3] += 1;
            }
        }
    }
    #[cfg(bip324_verif)]
    eq!(bip324_traffic::verif::totals(&st), t, "totals of concurrent records");
    ratio_ok(&st, t[0], t[1])
}

fn inactivity(c: &mut Case) -> Res {
    let st = if c.idx % 2 == 0 { AtomicTrafficStats::new() } else { AtomicTrafficStats::default() };
    let t = Instant::now();
    let d = st.time_since_last_activity();
    ck!(d < Duration::from_secs(20), "{d:?} since the creation of a new tracker");
    std::thread::sleep(Duration::from_millis(60));
    let d = st.time_since_last_activity();
    ck!(d >= Duration::from_millis(40) && d <= t.elapsed() + Duration::from_millis(50), "{d:?} of inactivity, {:?} in fact", t.elapsed());
    if c.idx % 4 < 2 {
        st.record_read(3);
    } else {
        st.record_write(3);
    }
    let t = Instant::now();
    let d = st.time_since_last_activity();
    ck!(d <= t.elapsed() + Duration::from_millis(30), "{d:?} of inactivity just after a record");
    Ok(())
}

/// Statistics of a shaped connection.
#[cfg(not(bip324_verif))]
fn shaped_stats(_: &mut Case) -> Res {
    Ok(())
}
#[cfg(bip324_verif)]
fn shaped_stats(c: &mut Case) -> Res {
    let kind = crate::stream::kind_of(c);
    let pad = c.idx & 2 == 2;
    let r = &mut c.rng;
    let (s, m) = shaped(r);
    let writes: Vec<Vec<u8>> = (0..5).map(|_| { let n = r.size(500); r.bytes(n) }).collect();
    let (t0, t1, t2, mut d, at);
    match kind {
        Kind::Sync => {
            let p = bip324_traffic::io::ShapedProtocol::new(m, role(s.init), config(pad, false), R(s.net.clone()), W(s.net.clone())).map_err(|e| format!("handshake: {e:?}"))?;
            (at, d) = sent_handshake(&s, pad, false)?;
            let (mut rd, mut wr) = p.into_split();
            t0 = rd.verif_totals();
            for x in &writes {
                wr.write(&Payload::genuine(x.clone())).map_err(|e| format!("write: {e:?}"))?;
            }
            t1 = rd.verif_totals();
            for _ in &s.spec.packets {
                rd.read().map_err(|e| format!("read: {e:?}"))?;
            }
            let _ = rd.read();
            t2 = rd.verif_totals();
        }
        Kind::Async => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            (at, d, t0, t1, t2) = rt.block_on(async {
                let p = bip324_traffic::futures::ShapedProtocol::new(m, role(s.init), config(pad, false), R(s.net.clone()), W(s.net.clone())).await.map_err(|e| format!("handshake: {e:?}"))?;
                let (at, d) = sent_handshake(&s, pad, false)?;
                let (mut rd, mut wr) = p.into_split();
                let t0 = rd.verif_totals();
                for x in &writes {
                    wr.write(&Payload::genuine(x.clone())).await.map_err(|e| format!("write: {e:?}"))?;
                }
                let t1 = rd.verif_totals();
                for _ in &s.spec.packets {
                    rd.read().await.map_err(|e| format!("read: {e:?}"))?;
                }
                let _ = rd.read().await;
                let t2 = rd.verif_totals();
                Ok::<_, String>((at, d, t0, t1, t2))
            })?;
        }
    }
    let sizes = sent_packets(&s, at, &mut d, &writes, pad, false)?;
    let w = sizes.iter().sum::<usize>() as u64;
    eq!([t1[0] - t0[0], t1[1] - t0[1], t1[2] - t0[2], t1[3] - t0[3]], [0, w, 0, sizes.len() as u64], "statistics of shaped writes");
    let rd = s.spec.packets.iter().map(|p| p.1.len()).sum::<usize>() as u64;
    eq!([t2[0] - t1[0], t2[1] - t1[1], t2[2] - t1[2], t2[3] - t1[3]], [rd, 0, s.spec.packets.len() as u64, 0], "statistics of shaped reads");
    Ok(())
}

pub fn scenarios() -> Vec<Scenario> {
    let s = |name, props, cases, run| Scenario { name, props, cases, run };
    vec![
        s("shaper", &["C17", "C20"], 400, shaper as fn(&mut Case) -> Res),
        s("timed_sync_writes", &["C17", "C18", "C19"], 8, sync_writes),
        s("write_errors", &["C18"], 200, write_errors),
        s("timed_sync_sender", &["C19"], 8, sync_sender),
        s("async_writes", &["C17", "C18", "C19"], 160, async_writes),
        s("async_sender", &["C19", "C18"], 60, async_sender),
        s("stats", &["C20"], 100, stats),
        s("timed_inactivity", &["C20"], 32, inactivity),
        s("shaped_stats", &["C20"], 60, shaped_stats),
    ]
}
