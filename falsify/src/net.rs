//! Scripted transports: what the peer sends, how reads and writes are cut up, and faults.
use crate::rf::{Dir, Keys};
use crate::util::Rng;
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone)]
pub enum Sched {
    All,
    One,
    Fixed(usize),
    Rand(Rng, usize),
    /// lengths in order, then everything
    List(VecDeque<usize>),
}
impl Sched {
    pub fn next(&mut self) -> usize {
        match self {
            Sched::All => usize::MAX,
            Sched::One => 1,
            Sched::Fixed(k) => *k,
            Sched::Rand(r, m) => 1 + r.below(*m as u64) as usize,
            Sched::List(l) => l.pop_front().unwrap_or(usize::MAX).max(1),
        }
    }
    pub fn any(r: &mut Rng) -> Sched {
        match r.below(6) {
            0 => Sched::All,
            1 => Sched::One,
            2 => Sched::Fixed(1 + r.below(40) as usize),
            3 => Sched::Rand(r.fork(), 5),
            4 => Sched::Rand(r.fork(), 300),
            _ => Sched::List((0..12).map(|_| 1 + r.below(90) as usize).collect()),
        }
    }
}

pub type Script = Box<dyn FnOnce(&[u8; 64]) -> Vec<u8> + Send>;

pub struct Net {
    pub sent: Vec<u8>,
    pub flushed: usize,
    pub incoming: Vec<u8>,
    pub pos: usize,
    pub script: Option<Script>,
    /// after the script the peer closes; otherwise it stays silent
    pub eof: bool,
    pub rd: Sched,
    pub wr: Sched,
    /// probability in 1/256 that an asynchronous operation is pending first
    pub pend: u64,
    pub rng: Rng,
    pub faults: VecDeque<(usize, ErrorKind)>,
    pub wfaults: VecDeque<(usize, ErrorKind)>,
    pub flush_fault: Option<ErrorKind>,
    pub reads: Vec<(usize, usize, usize)>,
    pub starved: bool,
    pub just_pended: bool,
    pub write_delay_us: u64,
    pub writer_dropped: bool,
    pub writes_after_drop: usize,
    pub write_calls: usize,
    pub waker: Option<Waker>,
}
pub type Shared = Arc<Mutex<Net>>;

impl Net {
    pub fn new(rng: &mut Rng) -> Net {
        Net {
            sent: vec![],
            flushed: 0,
            incoming: vec![],
            pos: 0,
            script: None,
            eof: true,
            rd: Sched::All,
            wr: Sched::All,
            pend: 0,
            rng: rng.fork(),
            faults: VecDeque::new(),
            wfaults: VecDeque::new(),
            flush_fault: None,
            reads: vec![],
            starved: false,
            just_pended: false,
            write_delay_us: 0,
            writer_dropped: false,
            writes_after_drop: 0,
            write_calls: 0,
            waker: None,
        }
    }
    fn fill(&mut self) {
        if self.pos >= self.incoming.len() && self.script.is_some() {
            if self.sent.len() < 64 {
                panic!("reads past the peer's key before sending its own");
            }
            let k: [u8; 64] = self.sent[..64].try_into().unwrap();
            let s = (self.script.take().unwrap())(&k);
            self.incoming.extend_from_slice(&s);
        }
    }
    /// Some(n): n bytes; None: nothing there and the peer silent.
    pub fn read(&mut self, buf: &mut [u8]) -> io::Result<Option<usize>> {
        if buf.is_empty() {
            return Ok(Some(0));
        }
        self.fill();
        if let Some((at, k)) = self.faults.front().cloned() {
            if at <= self.pos {
                self.faults.pop_front();
                return Err(io::Error::new(k, "injected"));
            }
        }
        let mut n = (self.incoming.len() - self.pos).min(buf.len());
        if n == 0 {
            if self.eof {
                self.reads.push((self.pos, buf.len(), 0));
                return Ok(Some(0));
            }
            self.starved = true;
            return Ok(None);
        }
        n = n.min(self.rd.next());
        if let Some((at, _)) = self.faults.front() {
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.incoming[self.pos..self.pos + n]);
        self.reads.push((self.pos, buf.len(), n));
        self.pos += n;
        Ok(Some(n))
    }
    pub fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.writer_dropped {
            self.writes_after_drop += 1;
        }
        self.write_calls += 1;
        if let Some((at, k)) = self.wfaults.front().cloned() {
            if at <= self.sent.len() {
                self.wfaults.pop_front();
                return Err(io::Error::new(k, "injected"));
            }
        }
        let mut n = buf.len().min(self.wr.next());
        if let Some((at, _)) = self.wfaults.front() {
            n = n.min(at - self.sent.len());
        }
        self.sent.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    pub fn flush(&mut self) -> io::Result<()> {
        if let Some(k) = self.flush_fault.take() {
            return Err(io::Error::new(k, "injected"));
        }
        self.flushed = self.sent.len();
        Ok(())
    }
    pub fn share(self) -> Shared {
        Arc::new(Mutex::new(self))
    }
}

pub struct R(pub Shared);
pub struct W(pub Shared);

impl Drop for W {
    fn drop(&mut self) {
        if let Ok(mut n) = self.0.lock() {
            n.writer_dropped = true;
        }
    }
}

impl Read for R {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.0.lock().unwrap().read(buf)? {
            Some(n) => Ok(n),
            None => panic!("blocking read would wait for ever"),
        }
    }
}
impl Write for W {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let d = self.0.lock().unwrap().write_delay_us;
        if d > 0 {
            std::thread::sleep(std::time::Duration::from_micros(d));
        }
        self.0.lock().unwrap().write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().flush()
    }
}

fn pend(n: &mut Net, cx: &mut Context<'_>) -> bool {
    if n.pend > 0 && !n.just_pended && n.rng.below(256) < n.pend {
        n.just_pended = true;
        cx.waker().wake_by_ref();
        return true;
    }
    n.just_pended = false;
    false
}

impl AsyncRead for R {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut n = self.0.lock().unwrap();
        if pend(&mut n, cx) {
            return Poll::Pending;
        }
        let room = buf.remaining();
        let mut tmp = vec![0u8; room.min(1 << 20)];
        match n.read(&mut tmp) {
            Err(e) => Poll::Ready(Err(e)),
            Ok(Some(k)) => {
                buf.put_slice(&tmp[..k]);
                Poll::Ready(Ok(()))
            }
            Ok(None) => {
                n.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut n = self.0.lock().unwrap();
        if pend(&mut n, cx) {
            return Poll::Pending;
        }
        Poll::Ready(n.write(buf))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut n = self.0.lock().unwrap();
        if pend(&mut n, cx) {
            return Poll::Pending;
        }
        Poll::Ready(n.flush())
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// What the peer sends.
#[derive(Clone, Debug, Default)]
pub struct PeerSpec {
    pub garbage: Vec<u8>,
    /// garbage as altered in transit
    pub garbage_on_wire: Option<Vec<u8>>,
    pub decoys: Vec<(u8, Vec<u8>)>,
    pub version: (u8, Vec<u8>),
    pub packets: Vec<(u8, Vec<u8>)>,
    /// the packets are cut short by that many bytes
    pub cut: usize,
    /// raw bytes appended
    pub tail: Vec<u8>,
    /// flips this byte of the encrypted part
    pub flip: Option<usize>,
    /// no terminator at all: raw bytes instead
    pub raw_after_key: Option<Vec<u8>>,
    /// a length announced for the nth packet of the handshake, with no body
    pub announce: Option<(usize, usize)>,
}

impl PeerSpec {
    /// Everything that follows the peer's public key, and its direction afterwards.
    pub fn stream(&self, keys: &Keys, peer_initiator: bool) -> (Vec<u8>, Dir) {
        let mut d = keys.send_dir(peer_initiator);
        let mut out = self.garbage_on_wire.clone().unwrap_or(self.garbage.clone());
        if let Some(r) = &self.raw_after_key {
            return (r.clone(), d);
        }
        out.extend_from_slice(&keys.term(peer_initiator));
        let enc_from = out.len();
        let mut aad: &[u8] = &self.garbage;
        for (i, (h, c)) in self.decoys.iter().chain(core::iter::once(&self.version)).enumerate() {
            if let Some((at, len)) = self.announce {
                if at == i {
                    out.extend_from_slice(&d.enc_len(len));
                    out.extend(self.tail.iter());
                    return (out, d);
                }
            }
            out.extend(d.seal(*h, c, aad));
            aad = &[];
        }
        for (h, c) in &self.packets {
            out.extend(d.seal(*h, c, &[]));
        }
        if let Some(f) = self.flip {
            let i = enc_from + f % (out.len() - enc_from);
            out[i] ^= 1 << (f % 8);
        }
        out.truncate(out.len() - self.cut.min(out.len()));
        out.extend(self.tail.iter());
        (out, d)
    }
}
