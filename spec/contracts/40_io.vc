# ---------------------------------------------------------------- io.rs

@extra io
use crate::handshake::{session_keys, Initialized};
use crate::deps::io::ReadExact as _;
use crate::{is_initiator, is_genuine};
pub open spec fn advice(k: crate::deps::io::ErrorKind) -> ProtocolFailureSuggestion {
    if k == crate::deps::io::ErrorKind::ConnectionReset || k == crate::deps::io::ErrorKind::ConnectionAborted
        || k == crate::deps::io::ErrorKind::UnexpectedEof { ProtocolFailureSuggestion::RetryV1 } else { ProtocolFailureSuggestion::Abort }
}
impl FromSpecImpl<crate::deps::io::Error> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::deps::io::Error) -> ProtocolError { ProtocolError::Io(e, advice(e.k())) }
}
impl FromSpecImpl<Error> for ProtocolError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> ProtocolError { ProtocolError::Internal(e) }
}
impl Payload {
    pub open spec fn wf(&self) -> bool { match self.data { PayloadData::Decrypted(v) => v@.len() >= 1, _ => true } }
    pub open spec fn hdr(&self) -> u8 { match self.data { PayloadData::Decrypted(v) => v@[0], PayloadData::Parts { header, contents } => header } }
    pub open spec fn body(&self) -> Bytes { match self.data { PayloadData::Decrypted(v) => v@.skip(1), PayloadData::Parts { header, contents } => contents@ } }
}
/// Keys, first message, second message and outcome of a handshake with these inputs.
pub open spec fn hs_keys(h: Handshake<Initialized>, s: Bytes) -> Keys {
    session_keys(h.state.point, s.take(64), is_initiator(h.role), h.magic@)
}
pub open spec fn hs_first(h: Handshake<Initialized>, g: Bytes) -> Bytes { h.state.point.elligator_swift@ + g }
pub open spec fn hs_second(h: Handshake<Initialized>, s: Bytes, g: Bytes, ds: Seq<Bytes>) -> Bytes {
    version_message(out_dir0(hs_keys(h, s), is_initiator(h.role)), own_terminator(hs_keys(h, s), is_initiator(h.role)), ds, g)
}
pub open spec fn hs_out(h: Handshake<Initialized>, s: Bytes) -> HsOut {
    if s.len() < 64 { HsOut::Eof }
    else if s.take(4) == h.magic@ { HsOut::V1 }
    else { hs_tail(in_dir0(hs_keys(h, s), is_initiator(h.role)), their_terminator(hs_keys(h, s), is_initiator(h.role)), s.skip(64)) }
}
/// The result of a handshake agrees with the outcome its inputs prescribe.
pub open spec fn hs_agrees(out: HsOut, e: ProtocolError) -> bool {
    match e {
        ProtocolError::Internal(x) => match out {
            HsOut::V1 => x == Error::V1Protocol,
            HsOut::NoTerm => x == Error::NoGarbageTerminator,
            HsOut::TooBig => x == Error::PacketTooBig,
            HsOut::Reject => x is Decryption || x == Error::CiphertextTooSmall,
            _ => false,
        },
        ProtocolError::Io(x, a) => true,
    }
}
/// Everything a handshake with these inputs may do: result, bytes sent, flushed.
pub open spec fn hs_done(h: Handshake<Initialized>, g: Bytes, ds: Seq<Bytes>, s: Bytes, faultless: bool, sent0: Bytes,
    sent: Bytes, flushed: bool, r: Result<(Dir, Dir, Bytes), ProtocolError>) -> bool {
    &&& r.is_ok() ==> hs_out(h, s) == (HsOut::Done { ind: r->Ok_0.0, rest: r->Ok_0.2 })
    &&& r.is_ok() ==> r->Ok_0.1 == dir_steps(out_dir0(hs_keys(h, s), is_initiator(h.role)), ds.len() + 1)
    &&& r.is_ok() ==> r->Ok_0.0.ln + r->Ok_0.2.len() <= s.len() && r->Ok_0.0.pn + r->Ok_0.2.len() <= s.len()
    &&& r.is_ok() ==> sent == sent0 + hs_first(h, g) + hs_second(h, s, g, ds)
    &&& r.is_ok() ==> flushed
    &&& g.len() > 4095 ==> r.is_err() && r->Err_0 == ProtocolError::Internal(Error::TooMuchGarbage) && sent == sent0
    &&& g.len() <= 4095 && r.is_err() && decoys_fit(ds) ==> hs_agrees(hs_out(h, s), r->Err_0)
    &&& r.is_err() && r->Err_0 is Internal && !decoys_fit(ds) && g.len() <= 4095 ==> r->Err_0 == ProtocolError::Internal(Error::PacketTooBig) || hs_out(h, s) is V1
    &&& r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k())
    &&& faultless && r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 is RetryV1 && hs_out(h, s) is Eof
    &&& faultless && g.len() <= 4095 && decoys_fit(ds) ==> flushed && sent
        == sent0 + hs_first(h, g) + (if hs_replies(h, s) { hs_second(h, s, g, ds) } else { Seq::empty() })
}
pub open spec fn hs_res<R: Read>(r: Result<(InboundCipher, OutboundCipher, ProtocolSessionReader<R>), ProtocolError>) -> Result<(Dir, Dir, Bytes), ProtocolError> {
    match r { Ok(x) => Ok((x.0.dir(), x.1.dir(), x.2.rest())), Err(e) => Err(e) }
}
/// What the next read of a session finds.
pub enum RdOut { Got { hdr: u8, body: Bytes, ind: Dir, rest: Bytes }, Eof, TooBig, Reject }
pub open spec fn rd_out(d: Dir, s: Bytes) -> RdOut {
    if s.len() < 3 { RdOut::Eof }
    else {
        let n = body_len(d, s.take(3));
        let d1 = dir_len_step(d);
        let b = s.subrange(3, 3 + n as int);
        if n - 16 > 4000014 { RdOut::TooBig }
        else if s.len() < 3 + n { RdOut::Eof }
        else if !body_ok(d1, b, Seq::empty()) { RdOut::Reject }
        else { RdOut::Got { hdr: body_plain(d1, b)[0], body: body_plain(d1, b).skip(1), ind: dir_packet_step(d1), rest: s.skip(3 + n as int) } }
    }
}
impl<R: Read> ProtocolReader<R> {
    /// Fewer than 2^64 packets fit into the rest of the stream.
    pub open spec fn live(&self) -> bool {
        self.inbound_cipher.dir().ln + self.reader.rest().len() < 0xffff_ffff_ffff_ffff && self.inbound_cipher.dir().pn + self.reader.rest().len() < 0xffff_ffff_ffff_ffff
    }
}
/// [C13] A stream that starts with the packets of the peer delivers them one by one.
pub proof fn lemma_next_packet(d: Dir, h: u8, c: Bytes, rest: Bytes)
    requires c.len() + 1 <= 4000014,
    ensures rd_out(d, packet(d, h, c, Seq::empty()) + rest) == (RdOut::Got { hdr: h, body: c, ind: dir_step(d), rest }),
{
    lemma_packet_roundtrip(d, h, c, Seq::empty());
    let p = packet(d, h, c, Seq::empty());
    let s = p + rest;
    assert(s.take(3) =~= p.take(3));
    let n = body_len(d, s.take(3));
    assert(s.subrange(3, 3 + n as int) =~= p.skip(3));
    assert(s.skip(3 + n as int) =~= rest);
    let d1 = dir_len_step(d);
    assert(body_ok(d1, p.skip(3), Seq::empty()));
    assert(body_plain(d1, p.skip(3)) == seq![h] + c);
    assert((seq![h] + c).skip(1) =~= c);
}
/// [C08] Two honest ends: each finishes, at the other's position, whatever follows.
pub proof fn lemma_honest_pair(a: Handshake<Initialized>, b: Handshake<Initialized>, g: Bytes, ga: Bytes, sa: Bytes, ds: Seq<Bytes>, tail: Bytes)
    requires
        a.state.point.wf(), b.state.point.wf(), a.magic == b.magic, is_initiator(a.role) != is_initiator(b.role),
        g.len() <= 4095, forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).len() + 17 <= 4000014,
        b.state.point.elligator_swift@.take(4) != a.magic@,
        // what b received starts with a's key
        sa.len() >= 64, sa.take(64) == a.state.point.elligator_swift@,
        forall|j: int| 0 <= j < g.len() ==> !#[trigger] occurs_at(g + hs_second(b, sa, g, ds) + tail, own_terminator(hs_keys(b, sa), is_initiator(b.role)), 4111, j),
    ensures ({
        let s = hs_first(b, g) + hs_second(b, sa, g, ds) + tail;
        &&& hs_keys(a, s) == hs_keys(b, sa)
        &&& hs_out(a, s) == (HsOut::Done { ind: dir_steps(out_dir0(hs_keys(b, sa), is_initiator(b.role)), ds.len() + 1), rest: tail })
    }),
{
    let s = hs_first(b, g) + hs_second(b, sa, g, ds) + tail;
    let eb = b.state.point.elligator_swift@;
    assert(s.take(64) =~= eb);
    assert(s.take(4) =~= eb.take(4));
    assert(s.skip(64) =~= g + hs_second(b, sa, g, ds) + tail);
    if is_initiator(a.role) { crate::handshake::lemma_same_keys(a.state.point, b.state.point, a.magic@); }
    else { crate::handshake::lemma_same_keys(b.state.point, a.state.point, a.magic@); }
    let k = hs_keys(b, sa);
    crate::handshake::lemma_roles_mirror(k);
    let t = own_terminator(k, is_initiator(b.role));
    broadcast use crate::vax::ax_hkdf_len;
    lemma_honest_tail(out_dir0(k, is_initiator(b.role)), t, g, ds, tail);
}
pub open spec fn hs_replies(h: Handshake<Initialized>, s: Bytes) -> bool { s.len() >= 64 && s.take(4) != h.magic@ }
pub open spec fn decoys_fit(ds: Seq<Bytes>) -> bool { forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).len() <= 16777215 }

@contract io::ProtocolError as From<crate::deps::io::Error>::from (error)
@tags C21
ensures
    r == ProtocolError::Io(error, advice(error.k())), // [C21]

@contract io::ProtocolError as From<Error>::from (error)
@tags C21
ensures
    r == ProtocolError::Internal(error), // [C21]

@contract io::ProtocolError::eof ()
@tags C21
ensures
    r is Io && r->Io_0.k() == crate::deps::io::ErrorKind::UnexpectedEof && r->Io_1 is RetryV1, // [C21]

@contract io::ProtocolSessionReader::new (leftover, reader)
@tags C13
ensures
    r.inner.rest() == leftover@ + reader.rest(), // [C13]
    r.inner.faultless() == reader.faultless(), // [C13]

@impl io::ProtocolSessionReader as Read
open spec fn rest(&self) -> Bytes { self.inner.rest() }
open spec fn faultless(&self) -> bool { self.inner.faultless() }


@contract io::Payload::genuine (contents)
@tags C13
ensures
    r.wf() && r.hdr() == 0u8 && r.body() == contents.into_spec()@, // [C13]

@contract io::Payload::decoy (contents)
@tags C13
ensures
    r.wf() && r.hdr() == 128u8 && r.body() == contents.into_spec()@, // [C13]

@contract io::Payload::decrypted (data)
@tags C13
requires
    data@.len() >= 1,
ensures
    r.wf() && r.hdr() == data@[0] && r.body() == data@.skip(1), // [C13]

@contract io::Payload::contents ()
@tags C13
requires
    self.wf(),
ensures
    r@ == self.body(), // [C13]

@contract io::Payload::packet_type ()
@tags C13,C22
requires
    self.wf(),
ensures
    is_genuine(r) == genuine_header(self.hdr()), // [C13,C22]

@contract io::handshake_with_initialized (handshake, garbage, decoys, reader, writer)
@tags C08,C09,C10,C11,C12,C15,C16,C21
requires
    handshake.state.point.wf(),
    opt_vec(garbage).len() + 64 <= usize::MAX,
    version_message_len(opt_vecs(decoys)) <= usize::MAX,
    opt_vec(garbage).len() + 4096 <= alloc_limit(),
    version_message_len(opt_vecs(decoys)) + 4096 <= alloc_limit(),
    reader.rest().len() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() ==> hs_out(handshake, reader.rest()) == (HsOut::Done { ind: r->Ok_0.0.dir(), rest: r->Ok_0.2.rest() }), // [C08,C09,C10,C12,C13]
    r.is_ok() ==> r->Ok_0.1.dir() == dir_steps(out_dir0(hs_keys(handshake, reader.rest()), is_initiator(handshake.role)), opt_vecs(decoys).len() + 1), // [C08]
    r.is_ok() ==> r->Ok_0.0.wf() && r->Ok_0.1.wf(), // [C02]
    r.is_ok() ==> r->Ok_0.2.faultless() == reader.faultless(), // [C13]
    r.is_ok() ==> r->Ok_0.0.dir().ln + r->Ok_0.2.rest().len() <= reader.rest().len() && r->Ok_0.0.dir().pn + r->Ok_0.2.rest().len() <= reader.rest().len(), // [C05]
    r.is_ok() ==> final(writer).sent() == old(writer).sent() + hs_first(handshake, opt_vec(garbage)) + hs_second(handshake, reader.rest(), opt_vec(garbage), opt_vecs(decoys)), // [C08,C10]
    r.is_ok() ==> final(writer).flushed() == final(writer).sent().len(), // [C15]
    final(writer).wfaultless() == old(writer).wfaultless(), // [C15]
    opt_vec(garbage).len() > 4095 ==> r.is_err() && r->Err_0 == ProtocolError::Internal(Error::TooMuchGarbage) && final(writer).sent() == old(writer).sent(), // [C08]
    opt_vec(garbage).len() <= 4095 && r.is_err() && decoys_fit(opt_vecs(decoys)) ==> hs_agrees(hs_out(handshake, reader.rest()), r->Err_0), // [C09,C10,C11,C12,C16]
    r.is_err() && r->Err_0 is Internal && !decoys_fit(opt_vecs(decoys)) && opt_vec(garbage).len() <= 4095 ==> r->Err_0 == ProtocolError::Internal(Error::PacketTooBig) || hs_out(handshake, reader.rest()) is V1, // [C05]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]
    reader.faultless() && old(writer).wfaultless() && r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 is RetryV1 && hs_out(handshake, reader.rest()) is Eof, // [C09,C12,C21]
    reader.faultless() && old(writer).wfaultless() && opt_vec(garbage).len() <= 4095 && decoys_fit(opt_vecs(decoys)) ==> final(writer).sent()
        == old(writer).sent() + hs_first(handshake, opt_vec(garbage))
            + (if hs_replies(handshake, reader.rest()) { hs_second(handshake, reader.rest(), opt_vec(garbage), opt_vecs(decoys)) } else { Seq::empty() }), // [C11,C15]
    reader.faultless() && old(writer).wfaultless() && opt_vec(garbage).len() <= 4095 && decoys_fit(opt_vecs(decoys)) ==> final(writer).flushed() == final(writer).sent().len(), // [C15]
@entry
hide(version_message); hide(body_ok); hide(body_plain); hide(body_len); hide(derive_keys); hide(dir_steps); hide(version_message_len); hide(out_dir0); hide(own_terminator); hide(their_terminator);
let ghost h0 = handshake;
let ghost s = reader.rest();
let ghost f = reader.faultless();
let ghost ini = is_initiator(h0.role);
let ghost keys = hs_keys(h0, s);
let ghost out = hs_out(h0, s);
let ghost ds = opt_vecs(decoys);
let ghost term = their_terminator(keys, ini);
proof { lemma_cut(s, 64); lemma_cut(s.skip(64), 16); assert(s.len() >= 64 ==> s.take(64).take(4) =~= s.take(4)); }
@breaktype 0 = (Handshake<handshake::ReceivedGarbage<'_>>, usize)
@loop 0
invariant
    s.len() >= 64,
    term.len() == 16,
    reader.faultless() == f,
    garbage_buffer@.len() < 4111 + 256,
    garbage_buffer@ + reader.rest() == s.skip(64),
    handshake.state.cipher.ind() == in_dir0(keys, ini),
    handshake.state.cipher.outd() == dir_steps(out_dir0(keys, ini), ds.len() + 1),
    handshake.state.cipher.wf(),
    handshake.state.remote_garbage_terminator@ == term,
    out == hs_tail(in_dir0(keys, ini), term, s.skip(64)),
ensures
    first_at(garbage_buffer@, term, 4111, __brk0.1 - 16),
    opt_bytes(__brk0.0.state.remote_garbage) =~= garbage_buffer@.take(__brk0.1 - 16),
    __brk0.0.state.cipher.ind() == in_dir0(keys, ini),
    __brk0.0.state.cipher.outd() == dir_steps(out_dir0(keys, ini), ds.len() + 1),
    __brk0.0.state.cipher.wf(),
    out == hs_packets(in_dir0(keys, ini), garbage_buffer@.skip(__brk0.1 as int) + reader.rest(), garbage_buffer@.take(__brk0.1 - 16)),
@loopstart 0
let ghost gb = garbage_buffer@;
let ghost rr = reader.rest();
proof { lemma_tail(in_dir0(keys, ini), term, gb, rr); }
@loopend 0
proof { assert(garbage_buffer@ + reader.rest() =~= s.skip(64)); }
@loop 1
invariant
    handshake.state.cipher.wf(),
    handshake.state.cipher.outd() == dir_steps(out_dir0(keys, ini), ds.len() + 1),
    handshake.state.cipher.ind().ln + session_reader.rest().len() <= s.len(),
    handshake.state.cipher.ind().pn + session_reader.rest().len() <= s.len(),
    session_reader.faultless() == f,
    out == hs_packets(handshake.state.cipher.ind(), session_reader.rest(), opt_bytes(handshake.state.remote_garbage)),
@loopstart 1
proof { lemma_cut(session_reader.rest(), 3); }

@contract io::handshake (magic, role, garbage, decoys, reader, writer)
@tags C08,C11,C15,C21
requires
    opt_vec(garbage).len() + 64 <= usize::MAX,
    version_message_len(opt_vecs(decoys)) <= usize::MAX,
    opt_vec(garbage).len() + 4096 <= alloc_limit(),
    version_message_len(opt_vecs(decoys)) + 4096 <= alloc_limit(),
    reader.rest().len() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_err() && r->Err_0 is Internal && r->Err_0->Internal_0 is SecretGeneration || exists|h: Handshake<Initialized>| #![trigger h.state.point.wf()]
        h.magic == magic.borrowed() && h.role == role && h.state.point.wf() && hs_done(h, opt_vec(garbage), opt_vecs(decoys), reader.rest(), reader.faultless() && old(writer).wfaultless(), old(writer).sent(),
            final(writer).sent(), final(writer).flushed() == final(writer).sent().len(), hs_res(r)), // [C07,C08,C09,C10,C11,C12,C15,C16,C21]
    r.is_ok() ==> r->Ok_0.0.wf() && r->Ok_0.1.wf(), // [C02]
    r.is_ok() ==> r->Ok_0.2.faultless() == reader.faultless(), // [C13]
    final(writer).wfaultless() == old(writer).wfaultless(), // [C15]

@contract io::ProtocolReader::read ()
@tags C13,C16,C21,C22
requires
    old(self).inbound_cipher.wf(),
    old(self).live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> rd_out(old(self).inbound_cipher.dir(), old(self).reader.rest())
        == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).inbound_cipher.dir(), rest: final(self).reader.rest() }), // [C13]
    r.is_ok() ==> r->Ok_0.wf(), // [C13]
    r.is_err() && r->Err_0 is Internal ==> match rd_out(old(self).inbound_cipher.dir(), old(self).reader.rest()) {
        RdOut::TooBig => r->Err_0->Internal_0 == Error::PacketTooBig,
        RdOut::Reject => r->Err_0->Internal_0 is Decryption,
        _ => false,
    }, // [C13,C16]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]
    r.is_err() && r->Err_0 is Io && old(self).reader.faultless() ==> !(rd_out(old(self).inbound_cipher.dir(), old(self).reader.rest()) is Got)
        && r->Err_0->Io_0.k() == crate::deps::io::ErrorKind::UnexpectedEof, // [C13,C21]
    final(self).inbound_cipher.wf(), // [C02]
    r.is_ok() ==> final(self).live(), // [C05]
    final(self).reader.faultless() == old(self).reader.faultless(), // [C13]
@entry
proof { lemma_cut(self.reader.rest(), 3); }

@contract io::ProtocolReader::into_inner ()
@tags C13
ensures
    r.0 == self.inbound_cipher && r.1 == self.reader, // [C13]

@contract io::ProtocolWriter::write (payload)
@tags C15,C21
requires
    old(self).outbound_cipher.wf(),
    dir_live(old(self).outbound_cipher.dir()),
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> final(self).writer.sent() == old(self).writer.sent()
        + packet(old(self).outbound_cipher.dir(), header_byte(genuine_header(payload.hdr())), payload.body(), Seq::empty()), // [C15]
    r.is_ok() ==> final(self).writer.flushed() == final(self).writer.sent().len(), // [C15]
    r.is_ok() ==> final(self).outbound_cipher.dir() == dir_step(old(self).outbound_cipher.dir()), // [C15]
    r.is_ok() ==> payload.body().len() <= 16777215, // [C15]
    payload.body().len() > 16777215 ==> r.is_err() && r->Err_0 == ProtocolError::Internal(Error::PacketTooBig), // [C15,C21]
    payload.body().len() > 16777215 ==> final(self).writer.sent() == old(self).writer.sent() && final(self).outbound_cipher.dir() == old(self).outbound_cipher.dir(), // [C15]
    payload.body().len() <= 16777215 && r.is_err() ==> r->Err_0 is Io && !old(self).writer.wfaultless(), // [C15,C21]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]
    final(self).outbound_cipher.wf(), // [C02]
    final(self).writer.wfaultless() == old(self).writer.wfaultless(), // [C15]

@contract io::ProtocolWriter::into_inner ()
@tags C15
ensures
    r.0 == self.outbound_cipher && r.1 == self.writer, // [C15]

@contract io::Protocol::new (magic, role, garbage, decoys, reader, writer)
@tags C08,C11,C15,C21
requires
    opt_vec(garbage).len() + 64 <= usize::MAX,
    version_message_len(opt_vecs(decoys)) <= usize::MAX,
    opt_vec(garbage).len() + 4096 <= alloc_limit(),
    version_message_len(opt_vecs(decoys)) + 4096 <= alloc_limit(),
    reader.rest().len() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() ==> exists|h: Handshake<Initialized>| #![trigger h.state.point.wf()]
        h.magic == magic.borrowed() && h.role == role && h.state.point.wf() && hs_done(h, opt_vec(garbage), opt_vecs(decoys), reader.rest(), reader.faultless() && writer.wfaultless(), writer.sent(),
            r->Ok_0.writer.writer.sent(), r->Ok_0.writer.writer.flushed() == r->Ok_0.writer.writer.sent().len(),
            Ok((r->Ok_0.reader.inbound_cipher.dir(), r->Ok_0.writer.outbound_cipher.dir(), r->Ok_0.reader.reader.rest()))), // [C07,C08,C09,C10,C11,C12,C13,C15,C16]
    r.is_ok() ==> r->Ok_0.reader.inbound_cipher.wf() && r->Ok_0.writer.outbound_cipher.wf(), // [C02]
    r.is_ok() ==> r->Ok_0.reader.live(), // [C05]
    r.is_err() && r->Err_0 == ProtocolError::Internal(Error::TooMuchGarbage) ==> opt_vec(garbage).len() > 4095 || !decoys_fit(opt_vecs(decoys)), // [C17]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]

@contract io::Protocol::into_split ()
@tags C13
ensures
    r.0 == self.reader && r.1 == self.writer, // [C13]

@contract io::Protocol::read ()
@tags C13,C16,C21,C22
requires
    old(self).reader.inbound_cipher.wf(),
    old(self).reader.live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> rd_out(old(self).reader.inbound_cipher.dir(), old(self).reader.reader.rest())
        == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).reader.inbound_cipher.dir(), rest: final(self).reader.reader.rest() }), // [C13]
    r.is_ok() ==> r->Ok_0.wf(), // [C13]
    r.is_err() && r->Err_0 is Internal ==> match rd_out(old(self).reader.inbound_cipher.dir(), old(self).reader.reader.rest()) {
        RdOut::TooBig => r->Err_0->Internal_0 == Error::PacketTooBig,
        RdOut::Reject => r->Err_0->Internal_0 is Decryption,
        _ => false,
    }, // [C13,C16]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]
    r.is_err() && r->Err_0 is Io && old(self).reader.reader.faultless() ==> !(rd_out(old(self).reader.inbound_cipher.dir(), old(self).reader.reader.rest()) is Got)
        && r->Err_0->Io_0.k() == crate::deps::io::ErrorKind::UnexpectedEof, // [C13,C21]
    final(self).reader.inbound_cipher.wf(), // [C02]
    r.is_ok() ==> final(self).reader.live(), // [C05]
    final(self).writer == old(self).writer, // [C13]

@contract io::Protocol::write (payload)
@tags C15,C21
requires
    old(self).writer.outbound_cipher.wf(),
    dir_live(old(self).writer.outbound_cipher.dir()),
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> final(self).writer.writer.sent() == old(self).writer.writer.sent()
        + packet(old(self).writer.outbound_cipher.dir(), header_byte(genuine_header(payload.hdr())), payload.body(), Seq::empty()), // [C15]
    r.is_ok() ==> final(self).writer.writer.flushed() == final(self).writer.writer.sent().len(), // [C15]
    r.is_ok() ==> final(self).writer.outbound_cipher.dir() == dir_step(old(self).writer.outbound_cipher.dir()), // [C15]
    payload.body().len() > 16777215 ==> r.is_err() && r->Err_0 == ProtocolError::Internal(Error::PacketTooBig), // [C15,C21]
    payload.body().len() <= 16777215 && r.is_err() ==> r->Err_0 is Io && !old(self).writer.writer.wfaultless(), // [C15,C21]
    final(self).writer.outbound_cipher.wf(), // [C02]
    final(self).reader == old(self).reader, // [C15]
