# ---------------------------------------------------------------- traffic/src/lib.rs
@omit traffic::AtomicTrafficStats as AsRef
@contract derived-clone PaddingStrategy ()
ensures r == *self,
@contract derived-clone DecoyStrategy ()
ensures r == *self,
@contract derived-clone TrafficConfig ()
ensures r == *self,
@contract derived-clone Payload ()
ensures r == *self,
@contract derived-clone PayloadData ()
ensures r == *self,
@contract derived-default PaddingStrategy ()
@tags C17
ensures r is Disabled, // [C17]
@contract derived-default DecoyStrategy ()
@tags C17
ensures r is Disabled, // [C17]
@contract derived-default TrafficConfig ()
@tags C17
ensures r.padding_strategy is Disabled && r.decoy_strategy is Disabled, // [C17]

@extra traffic
/// What a handle of the statistics contributed: bytes and messages, read and written.
pub struct Tally { pub rb: int, pub rm: int, pub wb: int, pub wm: int }
impl AtomicTrafficStats {
    pub open spec fn tally(&self) -> Tally {
        Tally { rb: self.bytes_read.mine(), rm: self.messages_read.mine(), wb: self.bytes_written.mine(), wm: self.messages_written.mine() }
    }
    pub open spec fn ids(&self) -> (int, int, int, int) {
        (self.bytes_read.id(), self.messages_read.id(), self.bytes_written.id(), self.messages_written.id())
    }
    /// The activity time this handle wrote last is a reading of the clock.
    pub open spec fn stamped(&self) -> bool {
        exists|ms: nat| #[trigger] crate::deps::time::clock(ms) && self.last_activity_ms.stored() == ms
    }
    /// `Arc::clone`: another handle of the same counters.
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r.ids() == self.ids(), r.tally() == (Tally { rb: 0, rm: 0, wb: 0, wm: 0 }),
    { unimplemented!() }
}
pub open spec fn after_read(t: Tally, bytes: int) -> Tally { Tally { rb: t.rb + bytes, rm: t.rm + 1, wb: t.wb, wm: t.wm } }
pub open spec fn after_write(t: Tally, bytes: int, n: int) -> Tally { Tally { rb: t.rb, rm: t.rm, wb: t.wb + bytes, wm: t.wm + n } }
pub open spec fn vecs(v: Seq<Vec<u8>>) -> Seq<Bytes> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn size_sum(ds: Seq<Bytes>) -> int
    decreases ds.len()
{
    if ds.len() == 0 { 0 } else { size_sum(ds.drop_last()) + ds.last().len() }
}
/// Decoys of the handshake which the shaper may make.
pub open spec fn small_decoys(ds: Seq<Bytes>) -> bool {
    ds.len() <= 3 && forall|i: int| 0 <= i < ds.len() ==> 1 <= (#[trigger] ds[i]).len() <= 1024
}
/// A decoy packet which the shaper may make.
pub open spec fn small_decoy(p: Payload) -> bool {
    p.wf() && p.hdr() == 128u8 && 1 <= p.body().len() <= 1024
}
pub proof fn lemma_small_decoys(ds: Seq<Bytes>)
    requires small_decoys(ds),
    ensures version_message_len(ds) <= 10000, crate::io::decoys_fit(ds),
{
    reveal_with_fuel(total_len, 5);
}
/// [C17] Material of the shaper never exceeds what the handshake and the packet layer accept.
pub proof fn lemma_shaper_fits(g: Bytes, ds: Seq<Bytes>, p: Payload)
    requires g.len() <= 4095, small_decoys(ds), small_decoy(p),
    ensures crate::io::decoys_fit(ds), p.body().len() <= 16777215, !genuine_header(p.hdr()),
{
    lemma_small_decoys(ds);
    assert(128u8 & 128u8 == 128u8) by (bit_vector);
}

// ---- packets of one direction
pub struct Pkt { pub decoy: bool, pub body: Bytes }
pub open spec fn pkt_bytes(d: Dir, p: Pkt) -> Bytes { packet(d, header_byte(!p.decoy), p.body, Seq::empty()) }
/// The packets of the log, one after the other from direction d on.
pub open spec fn stream(d: Dir, log: Seq<Pkt>) -> Bytes
    decreases log.len()
{
    if log.len() == 0 { Seq::empty() } else { stream(d, log.drop_last()) + pkt_bytes(dir_steps(d, (log.len() - 1) as nat), log.last()) }
}
pub open spec fn genuine(log: Seq<Pkt>) -> Seq<Bytes>
    decreases log.len()
{
    if log.len() == 0 { Seq::empty() }
    else if log.last().decoy { genuine(log.drop_last()) }
    else { genuine(log.drop_last()).push(log.last().body) }
}
/// From one state of a writer to the other exactly the packets of the log were sent.
pub open spec fn wrote(s0: Bytes, d0: Dir, s1: Bytes, d1: Dir, log: Seq<Pkt>) -> bool {
    s1 == s0 + stream(d0, log) && d1 == dir_steps(d0, log.len())
}
pub open spec fn all_small_decoys(log: Seq<Pkt>) -> bool {
    forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).decoy && 1 <= log[i].body.len() <= 1024
}
/// Contents which the peer has to see because of this payload.
pub open spec fn due(p: Payload) -> Seq<Bytes> {
    if genuine_header(p.hdr()) { seq![p.body()] } else { Seq::empty() }
}
pub open spec fn pkt_of(p: Payload) -> Pkt { Pkt { decoy: !genuine_header(p.hdr()), body: p.body() } }
/// What one shaped write puts on the wire: at most one decoy of the shaper, then the payload.
pub open spec fn shaped(log: Seq<Pkt>, p: Payload) -> bool {
    1 <= log.len() <= 2 && log.last() == pkt_of(p) && all_small_decoys(log.drop_last())
}
pub proof fn lemma_stream_push(d: Dir, log: Seq<Pkt>, p: Pkt)
    ensures
        stream(d, log.push(p)) == stream(d, log) + pkt_bytes(dir_steps(d, log.len()), p),
        genuine(log.push(p)) == (if p.decoy { genuine(log) } else { genuine(log).push(p.body) }),
        dir_steps(d, log.push(p).len()) == dir_step(dir_steps(d, log.len())),
{
    assert(log.push(p).drop_last() =~= log);
}
pub proof fn lemma_wrote_empty(s: Bytes, d: Dir)
    ensures wrote(s, d, s, d, Seq::empty()), genuine(Seq::<Pkt>::empty()) == Seq::<Bytes>::empty(),
{
    assert(s + Seq::<u8>::empty() =~= s);
}
pub proof fn lemma_wrote_push(s0: Bytes, d0: Dir, s1: Bytes, d1: Dir, log: Seq<Pkt>, p: Pkt)
    requires wrote(s0, d0, s1, d1, log),
    ensures
        wrote(s0, d0, s1 + pkt_bytes(d1, p), dir_step(d1), log.push(p)),
        genuine(log.push(p)) == (if p.decoy { genuine(log) } else { genuine(log).push(p.body) }),
{
    lemma_stream_push(d0, log, p);
    assert((s0 + stream(d0, log)) + pkt_bytes(d1, p) =~= s0 + (stream(d0, log) + pkt_bytes(d1, p)));
}
pub proof fn lemma_dir_steps_add(d: Dir, a: nat, b: nat)
    ensures dir_steps(dir_steps(d, a), b) == dir_steps(d, a + b),
    decreases b,
{
    if b > 0 { lemma_dir_steps_add(d, a, (b - 1) as nat); }
}
pub proof fn lemma_stream_concat(d: Dir, a: Seq<Pkt>, b: Seq<Pkt>)
    ensures
        stream(d, a + b) == stream(d, a) + stream(dir_steps(d, a.len()), b),
        genuine(a + b) == genuine(a) + genuine(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(stream(d, a) + Seq::<u8>::empty() =~= stream(d, a));
        assert(genuine(a) + Seq::<Bytes>::empty() =~= genuine(a));
    } else {
        lemma_stream_concat(d, a, b.drop_last());
        lemma_dir_steps_add(d, a.len(), (b.len() - 1) as nat);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        let p = pkt_bytes(dir_steps(d, (a.len() + b.len() - 1) as nat), b.last());
        assert((stream(d, a) + stream(dir_steps(d, a.len()), b.drop_last())) + p =~= stream(d, a) + (stream(dir_steps(d, a.len()), b.drop_last()) + p));
        if !b.last().decoy {
            assert((genuine(a) + genuine(b.drop_last())).push(b.last().body) =~= genuine(a) + genuine(b.drop_last()).push(b.last().body));
        }
    }
}
/// All decoys: nothing the peer's application sees.
pub proof fn lemma_decoys_silent(log: Seq<Pkt>)
    requires all_small_decoys(log),
    ensures genuine(log) == Seq::<Bytes>::empty(),
    decreases log.len(),
{
    if log.len() > 0 {
        assert(all_small_decoys(log.drop_last())) by {
            assert forall|i: int| 0 <= i < log.drop_last().len() implies (#[trigger] log.drop_last()[i]).decoy && 1 <= log.drop_last()[i].body.len() <= 1024 by { assert(log[i].decoy); }
        }
        lemma_decoys_silent(log.drop_last());
        assert(log[log.len() - 1].decoy);
    }
}
/// A shaped write shows the peer its payload and nothing else.
pub proof fn lemma_shaped_due(log: Seq<Pkt>, p: Payload)
    requires shaped(log, p),
    ensures genuine(log) == due(p),
{
    lemma_decoys_silent(log.drop_last());
    assert(Seq::<Bytes>::empty().push(p.body()) =~= seq![p.body()]);
}
/// A stretch of the wire: where it begins and ends, and the state of the direction there.
pub struct Wire { pub s0: Bytes, pub d0: Dir, pub s1: Bytes, pub d1: Dir }
/// Nothing was sent.
pub open spec fn quiet(w: Wire) -> bool { w.s1 == w.s0 && w.d1 == w.d0 }
/// Exactly the packet of p was sent.
pub open spec fn one(w: Wire, p: Payload) -> bool { w.s1 == w.s0 + pkt_bytes(w.d0, pkt_of(p)) && w.d1 == dir_step(w.d0) }
/// At most one decoy of the shaper was sent.
pub open spec fn chaff(w: Wire) -> bool { quiet(w) || exists|d: Payload| #[trigger] small_decoy(d) && one(w, d) }
/// The packet of p was sent, after at most one decoy of the shaper.
pub open spec fn wheat(w: Wire, p: Payload, padded: bool) -> bool {
    one(w, p) || padded && exists|d: Payload| #[trigger] small_decoy(d)
        && w.s1 == (w.s0 + pkt_bytes(w.d0, pkt_of(d))) + pkt_bytes(dir_step(w.d0), pkt_of(p)) && w.d1 == dir_step(dir_step(w.d0))
}
pub open spec fn wrote_w(w: Wire, log: Seq<Pkt>) -> bool { wrote(w.s0, w.d0, w.s1, w.d1, log) }
pub proof fn lemma_chaff(w: Wire) -> (log: Seq<Pkt>)
    requires chaff(w),
    ensures wrote_w(w, log), log.len() <= 1, all_small_decoys(log), genuine(log) == Seq::<Bytes>::empty(), small_log(log),
{
    lemma_wrote_empty(w.s0, w.d0);
    assert(128u8 & 128u8 == 128u8) by (bit_vector);
    let log = if quiet(w) { Seq::empty() } else {
        let d = choose|d: Payload| #[trigger] small_decoy(d) && one(w, d);
        lemma_wrote_push(w.s0, w.d0, w.s0, w.d0, Seq::empty(), pkt_of(d));
        Seq::<Pkt>::empty().push(pkt_of(d))
    };
    lemma_decoys_silent(log);
    log
}
pub proof fn lemma_wheat(w: Wire, p: Payload, padded: bool) -> (log: Seq<Pkt>)
    requires wheat(w, p, padded),
    ensures wrote_w(w, log), shaped(log, p), !padded ==> log.len() == 1, genuine(log) == due(p), p.body().len() + 1 <= 4000014 ==> small_log(log),
{
    let (m, dm) = if one(w, p) { (w.s0, w.d0) } else {
        let d = choose|d: Payload| #[trigger] small_decoy(d)
            && w.s1 == (w.s0 + pkt_bytes(w.d0, pkt_of(d))) + pkt_bytes(dir_step(w.d0), pkt_of(p)) && w.d1 == dir_step(dir_step(w.d0));
        (w.s0 + pkt_bytes(w.d0, pkt_of(d)), dir_step(w.d0))
    };
    let l0 = if one(w, p) { lemma_wrote_empty(w.s0, w.d0); Seq::empty() } else { lemma_chaff(Wire { s0: w.s0, d0: w.d0, s1: m, d1: dm }) };
    assert(wrote(w.s0, w.d0, m, dm, l0));
    lemma_wrote_push(w.s0, w.d0, m, dm, l0, pkt_of(p));
    let log = l0.push(pkt_of(p));
    assert(log.drop_last() =~= l0);
    lemma_shaped_due(log, p);
    if p.body().len() + 1 <= 4000014 { lemma_shaped_small(log, p); }
    log
}
pub open spec fn small_log(log: Seq<Pkt>) -> bool { forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).body.len() + 1 <= 4000014 }
pub proof fn lemma_shaped_small(log: Seq<Pkt>, p: Payload)
    requires shaped(log, p), p.body().len() + 1 <= 4000014,
    ensures small_log(log),
{
    assert forall|i: int| 0 <= i < log.len() implies (#[trigger] log[i]).body.len() + 1 <= 4000014 by {
        if i < log.len() - 1 { assert(log.drop_last()[i].decoy); }
    }
}
/// Reading n packets, one after the other.
pub open spec fn received(d: Dir, s: Bytes, n: nat) -> Seq<Pkt>
    decreases n
{
    if n == 0 { Seq::empty() } else {
        match crate::io::rd_out(d, s) {
            crate::io::RdOut::Got { hdr, body, ind, rest } => seq![Pkt { decoy: !genuine_header(hdr), body }] + received(ind, rest, (n - 1) as nat),
            _ => Seq::empty(),
        }
    }
}
pub proof fn lemma_received(d: Dir, log: Seq<Pkt>, rest: Bytes)
    requires forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).body.len() + 1 <= 4000014,
    ensures received(d, stream(d, log) + rest, log.len()) == log,
    decreases log.len(),
{
    assert(0u8 & 128u8 == 0u8) by (bit_vector);
    assert(128u8 & 128u8 == 128u8) by (bit_vector);
    if log.len() > 0 {
        let t = log.skip(1);
        let one = seq![log[0]];
        assert(log =~= one + t);
        lemma_stream_concat(d, one, t);
        assert(one.drop_last() =~= Seq::<Pkt>::empty());
        assert(stream(d, one) =~= pkt_bytes(d, log[0])) by { assert(stream(d, Seq::<Pkt>::empty()) =~= Seq::<u8>::empty()); assert(dir_steps(d, 0) == d); }
        assert(dir_steps(d, 1) == dir_step(d)) by { assert(dir_steps(d, 0) == d); }
        let tail = stream(dir_step(d), t) + rest;
        assert(stream(d, log) + rest =~= pkt_bytes(d, log[0]) + tail);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).body.len() + 1 <= 4000014 by { assert(log[i + 1].body.len() + 1 <= 4000014); }
        assert(log[0].body.len() + 1 <= 4000014);
        crate::io::lemma_next_packet(d, header_byte(!log[0].decoy), log[0].body, tail);
        lemma_received(dir_step(d), t, rest);
        assert(received(d, stream(d, log) + rest, log.len()) =~= log);
    }
}
/// Whatever holders of the writer do one after the other, each a shaped write (Some) or a background
/// decoy (None): the peer that drops decoys has the payloads written, in order, each once.
pub open spec fn deed(w: Wire, by: Option<(Payload, bool)>) -> bool {
    match by { Some((p, padded)) => wheat(w, p, padded) && p.body().len() + 1 <= 4000014, None => chaff(w) }
}
pub open spec fn dues(by: Seq<Option<(Payload, bool)>>) -> Seq<Bytes>
    decreases by.len()
{
    if by.len() == 0 { Seq::empty() } else {
        match by.last() { Some((p, _)) => dues(by.drop_last()) + due(p), None => dues(by.drop_last()) }
    }
}
pub open spec fn chained(ws: Seq<Wire>) -> bool {
    forall|i: int| 0 < i < ws.len() ==> ws[i - 1].s1 == (#[trigger] ws[i]).s0 && ws[i - 1].d1 == ws[i].d0
}
/// [C18]
pub proof fn lemma_delivery(ws: Seq<Wire>, by: Seq<Option<(Payload, bool)>>) -> (log: Seq<Pkt>)
    requires
        ws.len() == by.len(), ws.len() > 0, chained(ws),
        forall|i: int| 0 <= i < by.len() ==> deed(#[trigger] ws[i], by[i]),
    ensures
        wrote(ws[0].s0, ws[0].d0, ws.last().s1, ws.last().d1, log),
        genuine(log) == dues(by), small_log(log),
    decreases ws.len(),
{
    hide(wheat); hide(chaff); hide(small_decoy); hide(stream); hide(genuine); hide(pkt_of); hide(due); hide(shaped); hide(all_small_decoys); hide(dir_steps);
    let w = ws.last();
    assert(deed(ws[ws.len() - 1], by[ws.len() - 1]));
    let l = match by.last() { Some((p, padded)) => lemma_wheat(w, p, padded), None => lemma_chaff(w) };
    if ws.len() == 1 {
        assert(dues(by.drop_last()) == Seq::<Bytes>::empty());
        assert(Seq::<Bytes>::empty() + genuine(l) =~= genuine(l));
        l
    } else {
        let wp = ws.drop_last();
        assert(chained(wp)) by {
            assert forall|i: int| 0 < i < wp.len() implies wp[i - 1].s1 == (#[trigger] wp[i]).s0 && wp[i - 1].d1 == wp[i].d0 by { assert(ws[i - 1].s1 == ws[i].s0); }
        }
        assert forall|i: int| 0 <= i < wp.len() implies deed(#[trigger] wp[i], by.drop_last()[i]) by { assert(deed(ws[i], by[i])); }
        let f = lemma_delivery(wp, by.drop_last());
        assert(ws[ws.len() - 2].s1 == ws[ws.len() - 1].s0);
        lemma_stream_concat(ws[0].d0, f, l);
        lemma_dir_steps_add(ws[0].d0, f.len(), l.len());
        assert((ws[0].s0 + stream(ws[0].d0, f)) + stream(w.d0, l) =~= ws[0].s0 + (stream(ws[0].d0, f) + stream(w.d0, l)));
        assert(genuine(f) + Seq::<Bytes>::empty() =~= genuine(f));
        assert forall|i: int| 0 <= i < (f + l).len() implies (#[trigger] (f + l)[i]).body.len() + 1 <= 4000014 by {
            if i < f.len() { assert(f[i].body.len() + 1 <= 4000014); } else { assert(l[i - f.len()].body.len() + 1 <= 4000014); }
        }
        f + l
    }
}
/// [C18]
pub proof fn lemma_shaped_delivery(ws: Seq<Wire>, by: Seq<Option<(Payload, bool)>>, rest: Bytes) -> (log: Seq<Pkt>)
    requires
        ws.len() == by.len(), ws.len() > 0, chained(ws),
        forall|i: int| 0 <= i < by.len() ==> deed(#[trigger] ws[i], by[i]),
    ensures
        ws.last().s1 == ws[0].s0 + stream(ws[0].d0, log),
        genuine(received(ws[0].d0, stream(ws[0].d0, log) + rest, log.len())) == dues(by),
{
    let log = lemma_delivery(ws, by);
    lemma_received(ws[0].d0, log, rest);
    log
}

@contract traffic::TrafficConfig::new ()
@tags C17
ensures
    r.padding_strategy is Disabled && r.decoy_strategy is Disabled, // [C17]

@contract traffic::TrafficConfig::with_padding_strategy (strategy)
@tags C17
ensures
    r.padding_strategy == strategy && r.decoy_strategy == self.decoy_strategy, // [C17]

@contract traffic::TrafficConfig::with_decoy_strategy (strategy)
@tags C17
ensures
    r.decoy_strategy == strategy && r.padding_strategy == self.padding_strategy, // [C17]

@contract traffic::TrafficStats::record_read (bytes)
@sequential
@contract traffic::TrafficStats::record_write (bytes)
@sequential
@contract traffic::TrafficStats::time_since_last_activity ()
@contract traffic::TrafficStats::write_read_ratio ()
@tags C20

@contract traffic::AtomicTrafficStats::new ()
@tags C20
ensures
    r.tally() == (Tally { rb: 0, rm: 0, wb: 0, wm: 0 }), // [C20]
    r.stamped(), // [C20]

@contract traffic::AtomicTrafficStats::update_last_activity ()
@sequential
@tags C20
ensures
    final(self).tally() == old(self).tally() && final(self).ids() == old(self).ids(), // [C20]
    final(self).stamped(), // [C20]

@contract traffic::AtomicTrafficStats as TrafficStats::record_read (bytes)
@sequential
@tags C20
ensures
    final(self).tally() == after_read(old(self).tally(), bytes as int), // [C20]
    final(self).ids() == old(self).ids(), // [C20]
    final(self).stamped(), // [C20]

@contract traffic::AtomicTrafficStats as TrafficStats::record_write (bytes)
@sequential
@tags C20
ensures
    final(self).tally() == after_write(old(self).tally(), bytes as int, 1), // [C20]
    final(self).ids() == old(self).ids(), // [C20]
    final(self).stamped(), // [C20]

@contract traffic::AtomicTrafficStats as TrafficStats::time_since_last_activity ()
@tags C20
ensures
    exists|now: nat, last: u64| #[trigger] crate::deps::time::clock(now) && #[trigger] self.last_activity_ms.was(last)
        && r.ms() == (if now >= last { now - last } else { 0 }), // [C20]

@contract traffic::AtomicTrafficStats as TrafficStats::write_read_ratio ()
@tags C20
ensures
    exists|rd: u64, wr: u64| #[trigger] self.bytes_read.was(rd) && #[trigger] self.bytes_written.was(wr)
        && r == (if rd == 0 { None } else { Some(fdiv(wr, rd)) }), // [C20]

@contract traffic::AtomicTrafficStats as Default::default ()
@tags C20
ensures
    r.tally() == (Tally { rb: 0, rm: 0, wb: 0, wm: 0 }), // [C20]
    r.stamped(), // [C20]

@contract traffic::TrafficShaper::new (config)
@tags C17
ensures
    r.config == config, // [C17]

@contract traffic::TrafficShaper::with_rng (config, rng)
@tags C17
ensures
    r.config == config && r.rng == rng, // [C17]

@contract traffic::TrafficShaper::handshake (stats)
@tags C17,C20
ensures
    final(self).config == old(self).config, // [C17]
    match old(self).config.padding_strategy {
        PaddingStrategy::Disabled => r.0.is_none(),
        PaddingStrategy::Random => r.0.is_some() && r.0->0@.len() <= 4095,
    }, // [C17]
    match old(self).config.decoy_strategy {
        DecoyStrategy::Disabled => r.1.is_none(),
        DecoyStrategy::Random => r.1.is_some() && small_decoys(opt_vecs(r.1)),
    }, // [C17]
    small_decoys(opt_vecs(r.1)) && version_message_len(opt_vecs(r.1)) <= 10000 && crate::io::decoys_fit(opt_vecs(r.1)), // [C17]
    final(stats).tally() == after_write(old(stats).tally(), opt_vec(r.0).len() + size_sum(opt_vecs(r.1)), (if r.0.is_some() { 1int } else { 0int }) + opt_vecs(r.1).len()), // [C20]
    final(stats).ids() == old(stats).ids(), // [C20]
@entry
let ghost t0 = stats.tally();
let ghost i0 = stats.ids();
let ghost c0 = self.config;
@loop 0
invariant
    decoys@.len() == it.index@,
    num_decoys <= 3,
    small_decoys(vecs(decoys@)),
    self.config == c0,
    stats.ids() == i0,
    stats.tally() == after_write(t0, opt_vec(garbage).len() + size_sum(vecs(decoys@)), (if garbage.is_some() { 1int } else { 0int }) + decoys@.len()),
@loopstart 0
let ghost vs0 = vecs(decoys@);
@loopend 0
proof {
    let vs1 = vecs(decoys@);
    assert(vs1.drop_last() =~= vs0);
    assert forall|i: int| 0 <= i < vs1.len() implies 1 <= (#[trigger] vs1[i]).len() <= 1024 by { if i < vs0.len() { assert(vs0[i] == vs1[i]); assert(1 <= vs0[i].len() <= 1024); } }
}
@exit
if __r.1.is_some() { assert(opt_vecs(__r.1) =~= vecs(__r.1->0@)); }
lemma_small_decoys(opt_vecs(__r.1));

@contract traffic::TrafficShaper::decoy (stats)
@tags C17,C20
ensures
    final(self).config == old(self).config, // [C17]
    old(self).config.decoy_strategy is Disabled ==> r.is_none(), // [C17]
    r.is_some() ==> small_decoy(r->0), // [C17]
    final(stats).tally() == (if r.is_some() { after_write(old(stats).tally(), r->0.body().len() as int, 1) } else { old(stats).tally() }), // [C20]
    final(stats).ids() == old(stats).ids(), // [C20]

@contract traffic::TrafficShaper::pad (payload, stats)
@tags C17,C20
requires
    payload.wf(),
ensures
    final(self).config == old(self).config, // [C17]
    old(self).config.padding_strategy is Disabled ==> r.is_none(), // [C17]
    r.is_some() ==> small_decoy(r->0), // [C17]
    final(stats).tally() == (if r.is_some() { after_write(old(stats).tally(), (payload.body().len() + r->0.body().len()) as int, 2) } else { after_write(old(stats).tally(), payload.body().len() as int, 1) }), // [C20]
    final(stats).ids() == old(stats).ids(), // [C20]

# ---------------------------------------------------------------- traffic/src/io.rs
@extra traffic::io
impl<W: Write> ShapedProtocolWriter<W> {
    /// The background thread shares lock, statistics and flag with this handle.
    pub open spec fn running(&self) -> bool {
        self.decoy_handle.is_some() && !self.shutdown.seen() && ({
            let a = crate::deps::thread::runs::<(crate::deps::sync::ArcMutex<WriterState<W, crate::deps::rand::rngs::StdRng>>, AtomicTrafficStats, AtomicBool)>(self.decoy_handle->0);
            a.0.id() == self.writer_state.id() && a.1.ids() == self.stats.ids() && a.2.id() == self.shutdown.id()
        })
    }
}
use crate::traffic::*;
use crate::io::{hs_done, rd_out, RdOut, advice, ProtocolReader as PReader};
use crate::handshake::Initialized;
use crate::Handshake;
use crate::deps::sync::Guarded;
impl<W: Write, R> crate::deps::sync::Guarded for WriterState<W, R> {
    open spec fn ok(&self) -> bool { self.writer.outbound_cipher.wf() }
    open spec fn room(&self) -> bool {
        self.writer.outbound_cipher.dir().ln < 0xffff_ffff_ffff_fff0 && self.writer.outbound_cipher.dir().pn < 0xffff_ffff_ffff_fff0
    }
}
impl<W: Write, R> WriterState<W, R> {
    pub open spec fn sent(&self) -> Bytes { self.writer.writer.sent() }
    pub open spec fn dir(&self) -> Dir { self.writer.outbound_cipher.dir() }
    pub open spec fn faultless(&self) -> bool { self.writer.writer.wfaultless() }
}
/// What holding the lock never changes.
pub open spec fn kept<W: Write, R>(a: WriterState<W, R>, b: WriterState<W, R>) -> bool {
    b.ok() && b.shaper.config == a.shaper.config && b.faultless() == a.faultless()
}
pub open spec fn between<W: Write, R>(a: WriterState<W, R>, b: WriterState<W, R>) -> Wire {
    Wire { s0: a.sent(), d0: a.dir(), s1: b.sent(), d1: b.dir() }
}
/// The background thread held the lock: at most one decoy went out.
pub open spec fn background<W: Write, R>(a: WriterState<W, R>, b: WriterState<W, R>) -> bool {
    kept(a, b) && (a.faultless() ==> chaff(between(a, b)) && (a.shaper.config.decoy_strategy is Disabled ==> quiet(between(a, b))))
}
/// A write of payload p held the lock, and succeeded.
pub open spec fn foreground<W: Write, R>(a: WriterState<W, R>, b: WriterState<W, R>, p: Payload) -> bool {
    wheat(between(a, b), p, a.shaper.config.padding_strategy is Random)
}
/// [C18] The lock makes the deeds of writer and background thread follow one after the other; the peer,
/// dropping decoys, has the payloads of the writes in the order of the calls.
pub proof fn lemma_blocking_delivery<W: Write, R>(states: Seq<WriterState<W, R>>, by: Seq<Option<Payload>>, rest: Bytes) -> (log: Seq<Pkt>)
    requires
        states.len() == by.len() + 1, by.len() > 0,
        forall|i: int| 0 <= i < by.len() ==> match #[trigger] by[i] {
            Some(p) => foreground(states[i], states[i + 1], p) && p.body().len() + 1 <= 4000014,
            None => background(states[i], states[i + 1]) && states[i].faultless(),
        },
    ensures
        states.last().sent() == states[0].sent() + stream(states[0].dir(), log),
        genuine(received(states[0].dir(), stream(states[0].dir(), log) + rest, log.len()))
            == dues(Seq::new(by.len(), |i: int| match by[i] { Some(p) => Some((p, states[i].shaper.config.padding_strategy is Random)), None => None })),
{
    let ws = Seq::new(by.len(), |i: int| between(states[i], states[i + 1]));
    let bs = Seq::new(by.len(), |i: int| match by[i] { Some(p) => Some((p, states[i].shaper.config.padding_strategy is Random)), None => None });
    assert forall|i: int| 0 <= i < bs.len() implies deed(#[trigger] ws[i], bs[i]) by { let b = by[i]; }
    lemma_shaped_delivery(ws, bs, rest)
}

@contract traffic::io::ShapedProtocol::new (magic, role, config, reader, writer)
@tags C17,C19,C20
requires
    reader.rest().len() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() ==> r->Ok_0.reader.reader.inbound_cipher.wf() && r->Ok_0.reader.reader.live(), // [C13]
    r.is_ok() ==> exists|h: Handshake<Initialized>, g: Bytes, ds: Seq<Bytes>| #![trigger h.state.point.wf(), size_sum(ds), g.len()]
        h.magic == magic.borrowed() && h.role == role && h.state.point.wf()
        && g.len() <= 4095 && small_decoys(ds) && (config.padding_strategy is Disabled ==> g.len() == 0) && (config.decoy_strategy is Disabled ==> ds.len() == 0)
        && r->Ok_0.writer.stats.tally().rb == 0 && r->Ok_0.writer.stats.tally().rm == 0
        && hs_done(h, g, ds, reader.rest(), reader.faultless() && writer.wfaultless(), writer.sent(), r->Ok_0.writer.writer_state.start().sent(), true,
            Ok((r->Ok_0.reader.reader.inbound_cipher.dir(), r->Ok_0.writer.writer_state.start().dir(), r->Ok_0.reader.reader.reader.rest()))), // [C17,C18,C08]
    r.is_ok() ==> r->Ok_0.writer.writer_state.start().shaper.config == config && r->Ok_0.writer.writer_state.start().ok(), // [C17,C18]
    r.is_ok() ==> r->Ok_0.writer.running(), // [C19]
    r.is_ok() ==> r->Ok_0.reader.stats.ids() == r->Ok_0.writer.stats.ids(), // [C20]
    r.is_err() ==> r->Err_0 != ProtocolError::Internal(crate::Error::TooMuchGarbage), // [C17]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]

@contract traffic::io::ShapedProtocol::read ()
@tags C20
requires
    old(self).reader.reader.inbound_cipher.wf(),
    old(self).reader.reader.live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> rd_out(old(self).reader.reader.inbound_cipher.dir(), old(self).reader.reader.reader.rest())
        == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).reader.reader.inbound_cipher.dir(), rest: final(self).reader.reader.reader.rest() }), // [C13]
    final(self).reader.stats.tally() == (if r.is_ok() { after_read(old(self).reader.stats.tally(), r->Ok_0.body().len() as int) } else { old(self).reader.stats.tally() }), // [C20]
    final(self).writer == old(self).writer, // [C18]

@contract traffic::io::ShapedProtocol::write (payload)
@tags C18,C20
requires
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    final(self).writer.writer_state.id() == old(self).writer.writer_state.id(), // [C18]
    final(self).writer.writer_state.deeds().len() == old(self).writer.writer_state.deeds().len() + 1
        && final(self).writer.writer_state.deeds().drop_last() == old(self).writer.writer_state.deeds(), // [C18]
    kept(final(self).writer.writer_state.deeds().last().0, final(self).writer.writer_state.deeds().last().1), // [C18]
    r.is_ok() ==> foreground(final(self).writer.writer_state.deeds().last().0, final(self).writer.writer_state.deeds().last().1, *payload), // [C18]
    r.is_err() && payload.body().len() <= 16777215 ==> r->Err_0 is Io && !final(self).writer.writer_state.deeds().last().0.faultless(), // [C18,C17]
    final(self).reader == old(self).reader, // [C18]

@contract traffic::io::ShapedProtocol::into_split ()
@tags C19
ensures
    r.0 == self.reader && r.1 == self.writer, // [C19]

@contract traffic::io::ShapedProtocolReader::read ()
@tags C20
requires
    old(self).reader.inbound_cipher.wf(),
    old(self).reader.live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    r.is_ok() ==> rd_out(old(self).reader.inbound_cipher.dir(), old(self).reader.reader.rest())
        == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).reader.inbound_cipher.dir(), rest: final(self).reader.reader.rest() }), // [C13]
    final(self).reader.inbound_cipher.wf(), // [C13]
    r.is_ok() ==> final(self).reader.live(), // [C13]
    final(self).stats.tally() == (if r.is_ok() { after_read(old(self).stats.tally(), r->Ok_0.body().len() as int) } else { old(self).stats.tally() }), // [C20]
    final(self).stats.ids() == old(self).stats.ids(), // [C20]

@contract traffic::io::ShapedProtocolWriter::write (payload)
@tags C17,C18,C20
requires
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    final(self).writer_state.id() == old(self).writer_state.id(), // [C18]
    final(self).writer_state.deeds().len() == old(self).writer_state.deeds().len() + 1
        && final(self).writer_state.deeds().drop_last() == old(self).writer_state.deeds(), // [C18]
    kept(final(self).writer_state.deeds().last().0, final(self).writer_state.deeds().last().1), // [C18]
    r.is_ok() ==> foreground(final(self).writer_state.deeds().last().0, final(self).writer_state.deeds().last().1, *payload), // [C18]
    r.is_err() && payload.body().len() <= 16777215 ==> r->Err_0 is Io && !final(self).writer_state.deeds().last().0.faultless(), // [C18,C17]
    r.is_err() && payload.body().len() > 16777215 && final(self).writer_state.deeds().last().0.faultless()
        ==> chaff(between(final(self).writer_state.deeds().last().0, final(self).writer_state.deeds().last().1)), // [C18]
    final(self).decoy_handle == old(self).decoy_handle && final(self).shutdown == old(self).shutdown, // [C19]
    final(self).stats.tally().rb == old(self).stats.tally().rb && final(self).stats.tally().rm == old(self).stats.tally().rm, // [C20]
    ({
        let (t0, t1, n) = (old(self).stats.tally(), final(self).stats.tally(), payload.body().len());
        t1 == after_write(t0, n as int, 1) || t1.wm == t0.wm + 2 && t0.wb + n + 1 <= t1.wb <= t0.wb + n + 1024
    }), // [C20]

@contract traffic::io::ShapedProtocolWriter::v_drop ()
@tags C19
ensures
    final(self).shutdown.seen() && final(self).shutdown.id() == old(self).shutdown.id(), // [C19]
    old(self).decoy_handle.is_some() ==> crate::deps::thread::ended(old(self).decoy_handle->0), // [C19]
@before join
assert(self.shutdown.seen()); // [C19] the thread is told to end before it is waited for

@contract traffic::io::decoy_thread (writer_state, stats, shutdown)
@tags C17,C18,C19,C20
requires
    writer_state.deeds() == Seq::<(WriterState<W, R>, WriterState<W, R>)>::empty(),
    !shutdown.seen(),
@entry
assert(128u8 & 128u8 == 128u8) by (bit_vector);
@loop 0
invariant
    !shutdown.seen(),
    forall|i: int| 0 <= i < writer_state.deeds().len() ==> background((#[trigger] writer_state.deeds()[i]).0, writer_state.deeds()[i].1),
@before try_lock
assert(!shutdown.seen()); // [C19] nothing is sent once the end was requested
@before lock
assert(!shutdown.seen()); // [C19] nothing is sent once the end was requested
@exit
assert(shutdown.seen()); // [C19] the thread ends only when it is told to
assert(forall|i: int| 0 <= i < writer_state.deeds().len() ==> background((#[trigger] writer_state.deeds()[i]).0, writer_state.deeds()[i].1)); // [C18]

# ---------------------------------------------------------------- traffic/src/futures.rs
@extra traffic::futures
use crate::traffic::*;
use crate::io::{hs_done, advice, RdOut};
use crate::futures::*;
use crate::handshake::Initialized;
use crate::Handshake;
use crate::deps::tokio::sync::oneshot::told;
use crate::deps::tokio::started;
use crate::deps::rand::rngs::StdRng;
impl crate::deps::sync::Carried for WriteCommand {
    open spec fn ok(&self) -> bool {
        self.payload.wf() && self.payload.body().len() + 20 <= usize::MAX && self.payload.body().len() + 4096 <= alloc_limit()
    }
}
pub type Args<W> = (mpsc::UnboundedReceiver<WriteCommand>, ProtocolWriter<W>, TrafficShaper<StdRng>, AtomicTrafficStats);
pub type Outcome = Result<(), ProtocolError>;
/// Where the writer task is: bytes sent, direction, commands taken so far, its part of the statistics.
pub struct Snap { pub s: Bytes, pub d: Dir, pub taken: Seq<WriteCommand>, pub tally: Tally }
pub open spec fn wire(a: Snap, b: Snap) -> Wire { Wire { s0: a.s, d0: a.d, s1: b.s, d1: b.d } }
/// The caller of command c was told r, and r is what became of the payload.
pub open spec fn answered(a: Snap, b: Snap, c: WriteCommand, r: Outcome, faultless: bool, cfg: TrafficConfig) -> bool {
    match r {
        Ok(_) => wheat(wire(a, b), c.payload, cfg.padding_strategy is Random) && c.payload.body().len() <= 16777215,
        Err(_) => faultless ==> c.payload.body().len() > 16777215 && chaff(wire(a, b)),
    }
}
/// One round of the writer task: a command was taken, served and answered, or at most one decoy was sent.
pub open spec fn round(a: Snap, b: Snap, faultless: bool, cfg: TrafficConfig) -> bool {
    if b.taken.len() == a.taken.len() {
        &&& b.taken == a.taken
        &&& faultless ==> chaff(wire(a, b)) && (cfg.decoy_strategy is Disabled ==> quiet(wire(a, b)))
        &&& b.tally == a.tally || b.tally == after_write(a.tally, b.tally.wb - a.tally.wb, 1) && 1 <= b.tally.wb - a.tally.wb <= 1024 && cfg.decoy_strategy is Random
    } else {
        let c = b.taken.last();
        let n = c.payload.body().len();
        &&& b.taken == a.taken.push(c)
        &&& exists|r: Outcome| #[trigger] told(c.result_tx.id(), r) && answered(a, b, c, r, faultless, cfg)
        &&& b.tally == after_write(a.tally, n as int, 1)
            || b.tally == after_write(a.tally, b.tally.wb - a.tally.wb, 2) && n + 1 <= b.tally.wb - a.tally.wb <= n + 1024 && cfg.padding_strategy is Random
    }
}
pub open spec fn rounds(h: Seq<Snap>, faultless: bool, cfg: TrafficConfig) -> bool
    decreases h.len()
{
    h.len() <= 1 || rounds(h.drop_last(), faultless, cfg) && round(h[h.len() - 2], h.last(), faultless, cfg)
}
pub proof fn lemma_rounds_push(h: Seq<Snap>, b: Snap, faultless: bool, cfg: TrafficConfig)
    requires h.len() > 0, rounds(h, faultless, cfg), round(h.last(), b, faultless, cfg),
    ensures rounds(h.push(b), faultless, cfg), h.push(b)[0] == h[0], h.push(b).last() == b,
{
    assert(h.push(b).drop_last() =~= h);
}
/// Contents of the genuine payloads which were asked for.
pub open spec fn wanted(cs: Seq<WriteCommand>) -> Seq<Bytes>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { wanted(cs.drop_last()) + due(cs.last().payload) }
}
pub proof fn lemma_wanted_push(cs: Seq<WriteCommand>, c: WriteCommand)
    ensures wanted(cs.push(c)) == wanted(cs) + due(c.payload),
{
    assert(cs.push(c).drop_last() =~= cs);
}
/// The first n rounds, as deeds.
pub proof fn lemma_task_deeds(h: Seq<Snap>, cfg: TrafficConfig) -> (r: (Seq<Wire>, Seq<Option<(Payload, bool)>>))
    requires
        h.len() > 1, rounds(h, true, cfg), h[0].taken.len() == 0,
        forall|i: int| 0 <= i < h.last().taken.len() ==> (#[trigger] h.last().taken[i]).payload.body().len() + 1 <= 4000014,
    ensures
        r.0.len() == h.len() - 1, r.1.len() == h.len() - 1, chained(r.0),
        forall|i: int| 0 <= i < r.1.len() ==> deed(#[trigger] r.0[i], r.1[i]),
        r.0[0].s0 == h[0].s, r.0[0].d0 == h[0].d, r.0.last().s1 == h.last().s, r.0.last().d1 == h.last().d,
        dues(r.1) == wanted(h.last().taken),
    decreases h.len(),
{
    hide(wheat); hide(chaff); hide(due); hide(after_write);
    let (a, b) = (h[h.len() - 2], h.last());
    let w = wire(a, b);
    assert(round(a, b, true, cfg));
    let by = if b.taken.len() == a.taken.len() { None } else {
        let c = b.taken.last();
        assert(b.taken[b.taken.len() - 1].payload.body().len() + 1 <= 4000014);
        Some((c.payload, cfg.padding_strategy is Random))
    };
    assert(deed(w, by));
    if b.taken.len() != a.taken.len() { lemma_wanted_push(a.taken, b.taken.last()); }
    let hp = h.drop_last();
    if hp.len() == 1 {
        let (ws, bs) = (seq![w], seq![by]);
        assert(bs.drop_last() =~= Seq::<Option<(Payload, bool)>>::empty());
        assert(dues(bs.drop_last()) == Seq::<Bytes>::empty());
        assert(a.taken =~= Seq::<WriteCommand>::empty());
        assert(wanted(a.taken) == Seq::<Bytes>::empty());
        (ws, bs)
    } else {
        assert forall|i: int| 0 <= i < hp.last().taken.len() implies (#[trigger] hp.last().taken[i]).payload.body().len() + 1 <= 4000014 by {
            if b.taken.len() != a.taken.len() { assert(a.taken[i] == b.taken[i]); }
            assert(b.taken[i].payload.body().len() + 1 <= 4000014);
        }
        let (ws, bs) = lemma_task_deeds(hp, cfg);
        let (ws1, bs1) = (ws.push(w), bs.push(by));
        assert(bs1.drop_last() =~= bs);
        assert(chained(ws1)) by {
            assert forall|i: int| 0 < i < ws1.len() implies ws1[i - 1].s1 == (#[trigger] ws1[i]).s0 && ws1[i - 1].d1 == ws1[i].d0 by {
                if i < ws.len() { assert(ws[i - 1].s1 == ws[i].s0); }
            }
        }
        assert forall|i: int| 0 <= i < bs1.len() implies deed(#[trigger] ws1[i], bs1[i]) by { if i < bs.len() { assert(deed(ws[i], bs[i])); } }
        (ws1, bs1)
    }
}
/// [C18] Commands come out of the channel as the calls put them in; the peer, dropping decoys, has the
/// payloads in this order, each once.
pub proof fn lemma_async_delivery(h: Seq<Snap>, cfg: TrafficConfig, rest: Bytes) -> (log: Seq<Pkt>)
    requires
        h.len() > 1, rounds(h, true, cfg), h[0].taken.len() == 0,
        forall|i: int| 0 <= i < h.last().taken.len() ==> (#[trigger] h.last().taken[i]).payload.body().len() + 1 <= 4000014,
    ensures
        h.last().s == h[0].s + stream(h[0].d, log),
        genuine(received(h[0].d, stream(h[0].d, log) + rest, log.len())) == wanted(h.last().taken),
{
    let (ws, bs) = lemma_task_deeds(h, cfg);
    lemma_shaped_delivery(ws, bs, rest)
}

@contract traffic::futures::ShapedProtocol::new (magic, role, config, reader, writer)
@tags C17,C19,C20
requires
    reader.rest().len() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() ==> r->Ok_0.reader.reader.wf() && r->Ok_0.reader.reader.live(), // [C14]
    r.is_ok() ==> exists|task: Args<W>, h: Handshake<Initialized>, g: Bytes, ds: Seq<Bytes>| #![trigger started(task), h.state.point.wf(), size_sum(ds), g.len()]
        started(task) && task.0.id() == r->Ok_0.writer.write_tx.id() && task.3.ids() == r->Ok_0.reader.stats.ids() && task.2.config == config
        && h.magic == magic.borrowed() && h.role == role && h.state.point.wf()
        && g.len() <= 4095 && small_decoys(ds) && (config.padding_strategy is Disabled ==> g.len() == 0) && (config.decoy_strategy is Disabled ==> ds.len() == 0)
        && hs_done(h, g, ds, reader.rest(), reader.faultless() && writer.wfaultless(), writer.sent(), task.1.writer.sent(), true,
            Ok((r->Ok_0.reader.reader.inbound_cipher.dir(), task.1.outbound_cipher.dir(), r->Ok_0.reader.reader.reader.rest()))), // [C17,C18,C19,C20]
    r.is_ok() ==> r->Ok_0.writer.write_tx.put() == Seq::<WriteCommand>::empty(), // [C18]
    r.is_err() ==> r->Err_0 != ProtocolError::Internal(crate::Error::TooMuchGarbage), // [C17]
    r.is_err() && r->Err_0 is Io ==> r->Err_0->Io_1 == advice(r->Err_0->Io_0.k()), // [C21]

@contract traffic::futures::ShapedProtocol::read ()
@cancellable
@tags C20
requires
    old(self).reader.reader.wf(),
    old(self).reader.reader.live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    final(self).reader.reader.wf(), // [C14]
    r.is_ok() ==> at_out(old(self).reader.reader.at()) == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).reader.reader.at().dir, rest: final(self).reader.reader.reader.rest() }), // [C14]
    r.is_err() ==> norm(final(self).reader.reader.at()) == norm(old(self).reader.reader.at()), // [C14]
    final(self).reader.stats.tally() == (if r.is_ok() { after_read(old(self).reader.stats.tally(), r->Ok_0.body().len() as int) } else { old(self).reader.stats.tally() }), // [C20]
    final(self).writer == old(self).writer, // [C18]

@contract traffic::futures::ShapedProtocol::write (payload)
@tags C18
requires
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    final(self).writer.write_tx.id() == old(self).writer.write_tx.id(), // [C18]
    r.is_ok() ==> final(self).writer.write_tx.put().len() == old(self).writer.write_tx.put().len() + 1
        && final(self).writer.write_tx.put().drop_last() == old(self).writer.write_tx.put(), // [C18]
    r.is_ok() ==> final(self).writer.write_tx.put().last().payload == *payload, // [C18]
    r.is_ok() ==> told::<Outcome>(final(self).writer.write_tx.put().last().result_tx.id(), Ok(r->Ok_0)), // [C18]
    final(self).reader == old(self).reader, // [C18]

@contract traffic::futures::ShapedProtocol::into_split ()
@tags C19
ensures
    r.0 == self.reader && r.1 == self.writer, // [C19]

@contract traffic::futures::ShapedProtocolReader::read ()
@cancellable
@tags C20
requires
    old(self).reader.wf(),
    old(self).reader.live(),
    16777216 + 4096 <= alloc_limit(),
ensures
    final(self).reader.wf(), // [C14]
    r.is_ok() ==> at_out(old(self).reader.at()) == (RdOut::Got { hdr: r->Ok_0.hdr(), body: r->Ok_0.body(), ind: final(self).reader.at().dir, rest: final(self).reader.reader.rest() }), // [C14]
    r.is_err() ==> norm(final(self).reader.at()) == norm(old(self).reader.at()), // [C14]
    final(self).stats.tally() == (if r.is_ok() { after_read(old(self).stats.tally(), r->Ok_0.body().len() as int) } else { old(self).stats.tally() }), // [C20]
    final(self).stats.ids() == old(self).stats.ids(), // [C20]

@contract traffic::futures::ShapedProtocolWriter::write (payload)
@tags C18
requires
    payload.wf(),
    payload.body().len() + 20 <= usize::MAX,
    payload.body().len() + 4096 <= alloc_limit(),
ensures
    final(self).write_tx.id() == old(self).write_tx.id(), // [C18]
    final(self).write_tx.put() == old(self).write_tx.put() || final(self).write_tx.put().len() == old(self).write_tx.put().len() + 1
        && final(self).write_tx.put().drop_last() == old(self).write_tx.put() && final(self).write_tx.put().last().payload == *payload, // [C18]
    r.is_ok() ==> final(self).write_tx.put().len() == old(self).write_tx.put().len() + 1, // [C18]
    r.is_ok() ==> told::<Outcome>(final(self).write_tx.put().last().result_tx.id(), Ok(r->Ok_0)), // [C18]

@contract traffic::futures::writer_task (write_rx, writer, shaper, stats)
@tags C17,C18,C19,C20
requires
    write_rx.taken() == Seq::<WriteCommand>::empty(),
    !write_rx.closed(),
    writer.outbound_cipher.wf(),
@entry
assert(128u8 & 128u8 == 128u8) by (bit_vector);
let ghost cfg = shaper.config;
let ghost ok = writer.writer.wfaultless();
let ghost mut h = seq![Snap { s: writer.writer.sent(), d: writer.outbound_cipher.dir(), taken: write_rx.taken(), tally: stats.tally() }];
@loop 0
invariant_except_break
    !write_rx.closed(), // [C19]
invariant
    writer.outbound_cipher.wf(),
    shaper.config == cfg,
    writer.writer.wfaultless() == ok,
    h.len() > 0 && h[0].taken.len() == 0,
    rounds(h, ok, cfg), // [C18,C20]
    round(h.last(), Snap { s: writer.writer.sent(), d: writer.outbound_cipher.dir(), taken: write_rx.taken(), tally: stats.tally() }, ok, cfg), // [C18,C20]
ensures
    write_rx.closed(), // [C19] the task ends only when the handle is gone and every command was served
@loopstart 0
let ghost now = Snap { s: writer.writer.sent(), d: writer.outbound_cipher.dir(), taken: write_rx.taken(), tally: stats.tally() };
proof {
    lemma_rounds_push(h, now, ok, cfg);
    h = h.push(now);
    // fewer than 2^64 packets
    assume(writer.outbound_cipher.dir().ln < 0xffff_ffff_ffff_fff0 && writer.outbound_cipher.dir().pn < 0xffff_ffff_ffff_fff0);
}
@before write
assert(!write_rx.closed()); // [C19] nothing is sent once the end was seen
@exit
assert(write_rx.closed()); // [C19] the task ends only when the handle is gone and every command was served
