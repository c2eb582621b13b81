# ---------------------------------------------------------------- futures.rs

@extra futures
use crate::handshake::{session_keys, Initialized};
use crate::{is_initiator, is_genuine};
use crate::io::{advice, hs_keys, hs_first, hs_second, hs_out, hs_done, hs_agrees, hs_replies, decoys_fit, RdOut, rd_out};
impl<T> VCancel for Result<T, ProtocolError> {
    open spec fn is_cancel(self) -> bool { self.is_err() && self->Err_0 is Io && self->Err_0->Io_1 == advice(self->Err_0->Io_0.k()) }
    #[verifier::external_body]
    fn cancel() -> (r: Self) { unimplemented!() }
}
pub open spec fn hs_res<R: AsyncRead>(r: Result<(InboundCipher, OutboundCipher, ProtocolSessionReader<R>), ProtocolError>) -> Result<(Dir, Dir, Bytes), ProtocolError> {
    match r { Ok(x) => Ok((x.0.dir(), x.1.dir(), x.2.rest())), Err(e) => Err(e) }
}
impl DecryptState {
    pub open spec fn wf(&self) -> bool {
        match self {
            DecryptState::ReadingLength { length_bytes, bytes_read } => *bytes_read <= 3,
            DecryptState::ReadingPayload { packet_bytes, bytes_read } => *bytes_read <= packet_bytes@.len() && 17 <= packet_bytes@.len() <= 16777232,
        }
    }
    /// Bytes received of the current part of the packet.
    pub open spec fn pending(&self) -> Bytes {
        match self {
            DecryptState::ReadingLength { length_bytes, bytes_read } => length_bytes@.take(*bytes_read as int),
            DecryptState::ReadingPayload { packet_bytes, bytes_read } => packet_bytes@.take(*bytes_read as int),
        }
    }
    /// Length of the body once it is known.
    pub open spec fn plen(&self) -> Option<nat> {
        match self {
            DecryptState::ReadingLength { .. } => None,
            DecryptState::ReadingPayload { packet_bytes, .. } => Some(packet_bytes@.len()),
        }
    }
}
/// Where a reader is: between packets or in one, independent of how bytes arrived.
pub struct At { pub plen: Option<nat>, pub dir: Dir, pub s: Bytes }
pub open spec fn norm(a: At) -> At {
    if a.plen is None && a.s.len() >= 3 { At { plen: Some(body_len(a.dir, a.s.take(3))), dir: dir_len_step(a.dir), s: a.s.skip(3) } } else { a }
}
/// What the rest of the stream gives to a reader that is there.
pub open spec fn at_out(a: At) -> RdOut {
    let b = norm(a);
    if b.plen is None || b.s.len() < b.plen->0 { RdOut::Eof }
    else if !body_ok(b.dir, b.s.take(b.plen->0 as int), Seq::empty()) { RdOut::Reject }
    else {
        let p = body_plain(b.dir, b.s.take(b.plen->0 as int));
        RdOut::Got { hdr: p[0], body: p.skip(1), ind: dir_packet_step(b.dir), rest: b.s.skip(b.plen->0 as int) }
    }
}
pub proof fn lemma_state(st: DecryptState, rest: Bytes)
    requires st.wf(),
    ensures
        match st {
            DecryptState::ReadingLength { length_bytes, bytes_read } => bytes_read == 3 ==> (st.pending() + rest).take(3) == length_bytes@ && (st.pending() + rest).skip(3) == rest,
            DecryptState::ReadingPayload { packet_bytes, bytes_read } => bytes_read == packet_bytes@.len() ==> (st.pending() + rest).take(packet_bytes@.len() as int) == packet_bytes@ && (st.pending() + rest).skip(packet_bytes@.len() as int) == rest,
        },
{
    let s = st.pending() + rest;
    match st {
        DecryptState::ReadingLength { length_bytes, bytes_read } => {
            if bytes_read == 3 { assert(s.take(3) =~= length_bytes@); assert(s.skip(3) =~= rest); }
        },
        DecryptState::ReadingPayload { packet_bytes, bytes_read } => {
            if bytes_read == packet_bytes@.len() { assert(s.take(packet_bytes@.len() as int) =~= packet_bytes@); assert(s.skip(packet_bytes@.len() as int) =~= rest); }
        },
    }
}
pub proof fn lemma_norm(a: At)
    ensures norm(norm(a)) == norm(a), at_out(norm(a)) == at_out(a),
{ }
/// [C13,C14] Between packets an unlimited reader and the blocking one agree.
pub proof fn lemma_at_between(d: Dir, s: Bytes)
    ensures
        !(rd_out(d, s) is TooBig) ==> at_out(At { plen: None, dir: d, s }) == rd_out(d, s),
{
    lemma_cut(s, 3);
}
/// [C14] The peer's packets come out one by one.
pub proof fn lemma_next_packet(d: Dir, h: u8, c: Bytes, rest: Bytes)
    requires c.len() + 1 <= 4000014,
    ensures at_out(At { plen: None, dir: d, s: packet(d, h, c, Seq::empty()) + rest }) == (RdOut::Got { hdr: h, body: c, ind: dir_step(d), rest }),
{
    crate::io::lemma_next_packet(d, h, c, rest);
    lemma_at_between(d, packet(d, h, c, Seq::empty()) + rest);
}
impl<R: AsyncRead> ProtocolReader<R> {
    pub open spec fn at(&self) -> At {
        At { plen: self.state.plen(), dir: self.inbound_cipher.dir(), s: self.state.pending() + self.reader.rest() }
    }
    pub open spec fn wf(&self) -> bool { self.state.wf() && self.inbound_cipher.wf() }
    pub open spec fn live(&self) -> bool {
        self.inbound_cipher.dir().ln + self.at().s.len() < 0xffff_ffff_ffff_ffff && self.inbound_cipher.dir().pn + self.at().s.len() < 0xffff_ffff_ffff_ffff
    }
}

@contract futures::ProtocolSessionReader::new (leftover, reader)
@tags C14
ensures
    r.leftover_pos == 0 && r.leftover@ == leftover@ && r.reader == reader, // [C14]

@impl futures::ProtocolSessionReader as AsyncRead
open spec fn rest(&self) -> Bytes {
    (if self.leftover_pos < self.leftover@.len() { self.leftover@.skip(self.leftover_pos as int) } else { Seq::empty() }) + self.reader.rest()
}
open spec fn faultless(&self) -> bool { self.reader.faultless() }

@contract futures::ProtocolSessionReader as AsyncRead::poll_read (cx, buf)
@tags C14
@entry
let ghost l0 = self.leftover@;
let ghost p0 = self.leftover_pos as int;
let ghost s0 = self.reader.rest();
proof {
    assert forall|n: int| 0 <= n && p0 + n <= l0.len() implies #[trigger] (l0.skip(p0) + s0).take(n) == l0.skip(p0).take(n) by {
        assert((l0.skip(p0) + s0).take(n) =~= l0.skip(p0).take(n));
    }
    assert forall|n: int| 0 <= n && p0 + n <= l0.len() implies #[trigger] (l0.skip(p0) + s0).skip(n) == l0.skip(p0 + n) + s0 by {
        assert((l0.skip(p0) + s0).skip(n) =~= l0.skip(p0 + n) + s0);
    }
    assert forall|n: int| p0 <= n && n <= l0.len() implies #[trigger] l0.subrange(p0, n) == l0.skip(p0).take(n - p0) by {
        assert(l0.subrange(p0, n) =~= l0.skip(p0).take(n - p0));
    }
    assert(l0.skip(l0.len() as int) =~= Seq::empty());
    assert forall|n: int| 0 <= n && n <= s0.len() implies #[trigger] (Seq::<u8>::empty() + s0).take(n) == s0.take(n) by { assert((Seq::<u8>::empty() + s0) =~= s0); }
    assert((Seq::<u8>::empty() + s0) =~= s0);
}

@contract futures::handshake (magic, role, garbage, decoys, reader, writer)
@tags C08,C09,C10,C11,C12,C15,C16,C21
requires
    opt_vec(garbage).len() + 64 <= usize::MAX,
    version_message_len(opt_vecs(decoys)) <= usize::MAX,
    opt_vec(garbage).len() + 4096 <= alloc_limit(),
    version_message_len(opt_vecs(decoys)) + 4096 <= alloc_limit(),
    reader.rest().len() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_err() && r->Err_0 is Internal && r->Err_0->Internal_0 is SecretGeneration || exists|h: Handshake<Initialized>| #![trigger h.state.point.wf()]
        h.magic == magic.borrowed() && h.role == role && h.state.point.wf() && hs_done(h, opt_vec(garbage), opt_vecs(decoys), reader.rest(), reader.faultless() && old(writer).wfaultless(), old(writer).sent(),
            final(writer).sent(), final(writer).flushed() == final(writer).sent().len(), hs_res(r)), // [C07,C08,C09,C10,C11,C12,C14,C15,C16,C21]
    r.is_ok() ==> r->Ok_0.0.wf() && r->Ok_0.1.wf(), // [C02]
    r.is_ok() ==> r->Ok_0.2.faultless() == reader.faultless(), // [C14]
    final(writer).wfaultless() == old(writer).wfaultless(), // [C15]
@entry
hide(version_message); hide(body_ok); hide(body_plain); hide(body_len); hide(derive_keys); hide(dir_steps); hide(version_message_len); hide(out_dir0); hide(own_terminator); hide(their_terminator);
@after new
let ghost h0 = $;
let ghost s = reader.rest();
let ghost f = reader.faultless();
let ghost ini = is_initiator(h0.role);
let ghost keys = hs_keys(h0, s);
let ghost out = hs_out(h0, s);
let ghost ds = opt_vecs(decoys);
let ghost term = their_terminator(keys, ini);
proof { lemma_cut(s, 64); lemma_cut(s.skip(64), 16); assert(s.len() >= 64 ==> s.take(64).take(4) =~= s.take(4)); }
@breaktype 0 = (Handshake<handshake::ReceivedGarbage<'_>>, usize)
@loop 0
invariant
    s.len() >= 64,
    term.len() == 16,
    reader.faultless() == f,
    garbage_buffer@.len() < 4111 + 256,
    garbage_buffer@ + reader.rest() == s.skip(64),
    handshake.state.cipher.ind() == in_dir0(keys, ini),
    handshake.state.cipher.outd() == dir_steps(out_dir0(keys, ini), ds.len() + 1),
    handshake.state.cipher.wf(),
    handshake.state.remote_garbage_terminator@ == term,
    out == hs_tail(in_dir0(keys, ini), term, s.skip(64)),
ensures
    first_at(garbage_buffer@, term, 4111, __brk0.1 - 16),
    opt_bytes(__brk0.0.state.remote_garbage) =~= garbage_buffer@.take(__brk0.1 - 16),
    __brk0.0.state.cipher.ind() == in_dir0(keys, ini),
    __brk0.0.state.cipher.outd() == dir_steps(out_dir0(keys, ini), ds.len() + 1),
    __brk0.0.state.cipher.wf(),
    out == hs_packets(in_dir0(keys, ini), garbage_buffer@.skip(__brk0.1 as int) + reader.rest(), garbage_buffer@.take(__brk0.1 - 16)),
@loopstart 0
let ghost gb = garbage_buffer@;
let ghost rr = reader.rest();
proof { lemma_tail(in_dir0(keys, ini), term, gb, rr); }
@loopend 0
proof { assert(garbage_buffer@ + reader.rest() =~= s.skip(64)); }
@loop 1
invariant
    handshake.state.cipher.wf(),
    handshake.state.cipher.outd() == dir_steps(out_dir0(keys, ini), ds.len() + 1),
    handshake.state.cipher.ind().ln + session_reader.rest().len() <= s.len(),
    handshake.state.cipher.ind().pn + session_reader.rest().len() <= s.len(),
    session_reader.faultless() == f,
    out == hs_packets(handshake.state.cipher.ind(), session_reader.rest(), opt_bytes(handshake.state.remote_garbage)),
@loopstart 1
proof { lemma_cut(session_reader.rest(), 3); }

@contract futures::DecryptState::init_reading_length ()
@tags C14
ensures
    r.wf() && r.plen() is None && r.pending().len() == 0, // [C14]

@contract futures::DecryptState::init_reading_payload (packet_bytes_len)
@tags C14
requires
    17 <= packet_bytes_len <= 16777232,
    16777216 + 4096 <= alloc_limit(),
ensures
    r.wf() && r.plen() == Some(packet_bytes_len as nat) && r.pending().len() == 0, // [C14]

@contract futures::ProtocolReader::read ()
@cancellable
@tags C14,C21,C22
requires
    old(self).wf(),
    old(self).live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    final(self).wf(), // [C14]
    r.is_ok() ==> at_out(old(self).at()) == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).at().dir, rest: final(self).reader.rest() }), // [C14]
    r.is_ok() ==> final(self).at().plen is None && final(self).state.pending().len() == 0 && r->Ok_0.wf(), // [C14]
    r.is_err() ==> norm(final(self).at()) == norm(old(self).at()), // [C14]
    r.is_err() && r->Err_0 is Internal ==> at_out(old(self).at()) is Reject && r->Err_0->Internal_0 is Decryption, // [C14,C21]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]
    r.is_err() && r->Err_0 is Io && old(self).reader.faultless() && no_cancel() ==> at_out(old(self).at()) is Eof && r->Err_0->Io_1 is RetryV1, // [C14,C21]
    final(self).live(), // [C05]
    final(self).reader.faultless() == old(self).reader.faultless(), // [C14]
@entry
hide(body_ok); hide(body_len); hide(packet_nonce); hide(packet_step); hide(length_step);
let ghost a0 = self.at();
let ghost f = self.reader.faultless();
proof { lemma_norm(a0); }
@loop 0
invariant
    self.wf(),
    self.live(),
    self.reader.faultless() == f,
    norm(self.at()) == norm(a0),
    at_out(self.at()) == at_out(a0),
@loopstart 0
let ghost a = self.at();
let ghost c0 = self.inbound_cipher;
proof {
    lemma_norm(a);
    lemma_state(self.state, self.reader.rest());
}
@loopend 0
proof { assert(self.at().s =~= a.s.skip(3)); }
@loop 1
invariant
    a.plen is None,
    *bytes_read <= 3,
    length_bytes@.take(*bytes_read as int) + self.reader.rest() == a.s,
    *bytes_read == 3 ==> a.s.take(3) == length_bytes@ && a.s.skip(3) == self.reader.rest(),
    self.reader.faultless() == f,
    self.inbound_cipher == c0,
@loopstart 1
let ghost lb = length_bytes@;
let ghost rr = self.reader.rest();
let ghost br = *bytes_read as int;
@loopend 1
proof {
    assert(length_bytes@.take(*bytes_read as int) =~= lb.take(br) + rr.take(len as int));
    assert(length_bytes@.take(*bytes_read as int) + self.reader.rest() =~= a.s);
    if *bytes_read == 3 { assert(a.s.take(3) =~= length_bytes@); assert(a.s.skip(3) =~= self.reader.rest()); }
}
@loop 2
invariant
    a.plen == Some(packet_bytes@.len()),
    17 <= packet_bytes@.len() <= 16777232,
    *bytes_read <= packet_bytes@.len(),
    packet_bytes@.take(*bytes_read as int) + self.reader.rest() == a.s,
    *bytes_read == packet_bytes@.len() ==> a.s.take(packet_bytes@.len() as int) == packet_bytes@ && a.s.skip(packet_bytes@.len() as int) == self.reader.rest(),
    self.reader.faultless() == f,
    self.inbound_cipher == c0,
@loopstart 2
let ghost pb = packet_bytes@;
let ghost rr = self.reader.rest();
let ghost br = *bytes_read as int;
@loopend 2
proof {
    assert(packet_bytes@.take(*bytes_read as int) =~= pb.take(br) + rr.take(len as int));
    assert(packet_bytes@.take(*bytes_read as int) + self.reader.rest() =~= a.s);
    if *bytes_read == packet_bytes@.len() { assert(a.s.take(packet_bytes@.len() as int) =~= packet_bytes@); assert(a.s.skip(packet_bytes@.len() as int) =~= self.reader.rest()); }
}

@contract futures::ProtocolReader::into_inner ()
@tags C14
ensures
    r.0 == self.inbound_cipher && r.1 == self.reader, // [C14]

@contract futures::ProtocolWriter::write (payload)
@tags C15,C21
requires
    old(self).outbound_cipher.wf(),
    dir_live(old(self).outbound_cipher.dir()),
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> final(self).writer.sent() == old(self).writer.sent()
        + packet(old(self).outbound_cipher.dir(), header_byte(genuine_header(payload.hdr())), payload.body(), Seq::empty()), // [C15]
    r.is_ok() ==> final(self).writer.flushed() == final(self).writer.sent().len(), // [C15]
    r.is_ok() ==> final(self).outbound_cipher.dir() == dir_step(old(self).outbound_cipher.dir()), // [C15]
    r.is_ok() ==> payload.body().len() <= 16777215, // [C15]
    payload.body().len() > 16777215 ==> r.is_err() && r->Err_0 == ProtocolError::Internal(Error::PacketTooBig), // [C15,C21]
    payload.body().len() > 16777215 ==> final(self).writer.sent() == old(self).writer.sent() && final(self).outbound_cipher.dir() == old(self).outbound_cipher.dir(), // [C15]
    payload.body().len() <= 16777215 && r.is_err() ==> r->Err_0 is Io && !old(self).writer.wfaultless(), // [C15,C21]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]
    final(self).outbound_cipher.wf(), // [C02]
    final(self).writer.wfaultless() == old(self).writer.wfaultless(), // [C15]

@contract futures::ProtocolWriter::into_inner ()
@tags C15
ensures
    r.0 == self.outbound_cipher && r.1 == self.writer, // [C15]

@contract futures::Protocol::new (magic, role, garbage, decoys, reader, writer)
@tags C08,C11,C15,C21
requires
    opt_vec(garbage).len() + 64 <= usize::MAX,
    version_message_len(opt_vecs(decoys)) <= usize::MAX,
    opt_vec(garbage).len() + 4096 <= alloc_limit(),
    version_message_len(opt_vecs(decoys)) + 4096 <= alloc_limit(),
    reader.rest().len() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() ==> exists|h: Handshake<Initialized>| #![trigger h.state.point.wf()]
        h.magic == magic.borrowed() && h.role == role && h.state.point.wf() && hs_done(h, opt_vec(garbage), opt_vecs(decoys), reader.rest(), reader.faultless() && writer.wfaultless(), writer.sent(),
            r->Ok_0.writer.writer.sent(), r->Ok_0.writer.writer.flushed() == r->Ok_0.writer.writer.sent().len(),
            Ok((r->Ok_0.reader.inbound_cipher.dir(), r->Ok_0.writer.outbound_cipher.dir(), r->Ok_0.reader.reader.rest()))), // [C07,C08,C09,C10,C11,C12,C13,C15,C16]
    r.is_ok() ==> r->Ok_0.reader.inbound_cipher.wf() && r->Ok_0.writer.outbound_cipher.wf(), // [C02]
    r.is_ok() ==> r->Ok_0.reader.wf() && r->Ok_0.reader.at().plen is None && r->Ok_0.reader.at().s == r->Ok_0.reader.reader.rest(), // [C14]
    r.is_ok() ==> r->Ok_0.reader.live(), // [C05]
    r.is_err() && r->Err_0 == ProtocolError::Internal(Error::TooMuchGarbage) ==> opt_vec(garbage).len() > 4095 || !crate::io::decoys_fit(opt_vecs(decoys)), // [C17]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]

@contract futures::Protocol::into_split ()
@tags C13
ensures
    r.0 == self.reader && r.1 == self.writer, // [C14]

@contract futures::Protocol::read ()
@tags C14,C21,C22
requires
    old(self).reader.wf(),
    old(self).reader.live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    final(self).reader.wf(), // [C14]
    r.is_ok() ==> at_out(old(self).reader.at()) == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).reader.at().dir, rest: final(self).reader.reader.rest() }), // [C14]
    r.is_ok() ==> final(self).reader.at().plen is None && final(self).reader.state.pending().len() == 0 && r->Ok_0.wf(), // [C14]
    r.is_err() ==> norm(final(self).reader.at()) == norm(old(self).reader.at()), // [C14]
    r.is_err() && r->Err_0 is Internal ==> at_out(old(self).reader.at()) is Reject && r->Err_0->Internal_0 is Decryption, // [C14,C21]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]
    r.is_err() && r->Err_0 is Io && old(self).reader.reader.faultless() && no_cancel() ==> at_out(old(self).reader.at()) is Eof && r->Err_0->Io_1 is RetryV1, // [C14,C21]
    final(self).reader.live(), // [C05]
    final(self).writer == old(self).writer, // [C14]

@contract futures::Protocol::write (payload)
@tags C15,C21
requires
    old(self).writer.outbound_cipher.wf(),
    dir_live(old(self).writer.outbound_cipher.dir()),
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> final(self).writer.writer.sent() == old(self).writer.writer.sent()
        + packet(old(self).writer.outbound_cipher.dir(), header_byte(genuine_header(payload.hdr())), payload.body(), Seq::empty()), // [C15]
    r.is_ok() ==> final(self).writer.writer.flushed() == final(self).writer.writer.sent().len(), // [C15]
    r.is_ok() ==> final(self).writer.outbound_cipher.dir() == dir_step(old(self).writer.outbound_cipher.dir()), // [C15]
    payload.body().len() > 16777215 ==> r.is_err() && r->Err_0 == ProtocolError::Internal(Error::PacketTooBig), // [C15,C21]
    payload.body().len() <= 16777215 && r.is_err() ==> r->Err_0 is Io && !old(self).writer.writer.wfaultless(), // [C15,C21]
    final(self).writer.outbound_cipher.wf(), // [C02]
    final(self).reader == old(self).reader, // [C15]
