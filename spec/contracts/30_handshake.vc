# ---------------------------------------------------------------- handshake.rs

@extra handshake
use crate::{is_initiator, is_genuine};
impl EcdhPoint {
    /// The encoding belongs to the secret key.
    pub open spec fn wf(&self) -> bool {
        crate::deps::secp256k1::ellswift::decode(self.elligator_swift@) == crate::deps::secp256k1::pub_of(self.secret_key)
            && self.elligator_swift@.len() == 64
    }
}
/// The keys of a session from the local point and the peer's encoding.
pub open spec fn session_keys(p: EcdhPoint, theirs: Bytes, initiator: bool, magic: Bytes) -> Keys {
    derive_keys(
        crate::deps::secp256k1::ellswift::ecdh(
            if initiator { p.elligator_swift@ } else { theirs },
            if initiator { theirs } else { p.elligator_swift@ },
            p.secret_key, initiator, label_ecdh()),
        magic)
}
/// [C08] Both ends derive the same keys.
pub proof fn lemma_same_keys(i: EcdhPoint, r: EcdhPoint, magic: Bytes)
    requires i.wf(), r.wf(),
    ensures session_keys(i, r.elligator_swift@, true, magic) == session_keys(r, i.elligator_swift@, false, magic),
{
    crate::deps::secp256k1::ellswift::axiom_ecdh_agree(
        i.elligator_swift@, r.elligator_swift@, i.secret_key, r.secret_key, label_ecdh());
}
/// [C07] What one role sends with is what the other receives with.
pub proof fn lemma_roles_mirror(k: Keys)
    ensures
        out_dir0(k, true) == in_dir0(k, false), in_dir0(k, true) == out_dir0(k, false),
        own_terminator(k, true) == their_terminator(k, false), own_terminator(k, false) == their_terminator(k, true),
{ }

@contract handshake::Handshake<State>::magic ()
@tags C11
ensures
    r@ == self.magic@, // [C11]

@contract handshake::Handshake<State>::role ()
@tags C07
ensures
    r == self.role, // [C07]

@contract handshake::Handshake<Initialized>::new (magic, role)
@tags C07
ensures
    r.is_ok() ==> r->Ok_0.magic == magic.borrowed(), // [C07,C11]
    r.is_ok() ==> r->Ok_0.role == role, // [C07]
    r.is_ok() ==> r->Ok_0.state.point.wf(), // [C08]
    r.is_err() ==> r->Err_0 is SecretGeneration, // [C05]

@contract handshake::Handshake<Initialized>::new_with_rng (magic, role, rng, curve)
@tags C07
ensures
    r.is_ok() ==> r->Ok_0.magic == magic.borrowed(), // [C07,C11]
    r.is_ok() ==> r->Ok_0.role == role, // [C07]
    r.is_ok() ==> r->Ok_0.state.point.wf(), // [C08]
    r.is_err() ==> r->Err_0 is SecretGeneration, // [C05]

@contract handshake::Handshake<Initialized>::send_key_len (garbage)
@tags C06
ensures
    r == 64 + opt_bytes(garbage).len(), // [C06,C08]

@contract handshake::Handshake<Initialized>::send_key (garbage, output_buffer)
@tags C06,C08
requires
    self.state.point.wf(),
ensures
    r.is_ok() <==> opt_bytes(garbage).len() <= 4095 && old(output_buffer)@.len() >= 64 + opt_bytes(garbage).len(), // [C06,C08]
    opt_bytes(garbage).len() > 4095 ==> r.is_err() && r->Err_0 == Error::TooMuchGarbage, // [C08]
    opt_bytes(garbage).len() <= 4095 && r.is_err()
        ==> r->Err_0 == (Error::BufferTooSmall { required_bytes: (64 + opt_bytes(garbage).len()) as usize }), // [C06]
    r.is_err() ==> final(output_buffer)@ =~= old(output_buffer)@, // [C06]
    r.is_ok() ==> final(output_buffer)@ =~= self.state.point.elligator_swift@ + opt_bytes(garbage)
        + old(output_buffer)@.skip(64 + opt_bytes(garbage).len() as int), // [C06,C08]
    r.is_ok() ==> r->Ok_0.magic == self.magic && r->Ok_0.role == self.role && r->Ok_0.state.point == self.state.point, // [C07,C08,C11]
    r.is_ok() ==> opt_bytes(r->Ok_0.state.local_garbage) =~= opt_bytes(garbage), // [C10]

@contract handshake::Handshake<SentKey>::receive_key (their_key)
@tags C07,C11,C05
ensures
    r.is_err() <==> their_key@.take(4) =~= self.magic@, // [C11]
    r.is_err() ==> r->Err_0 == Error::V1Protocol, // [C11]
    r.is_ok() ==> r->Ok_0.state.session_keys.keys()
        == session_keys(self.state.point, their_key@, is_initiator(self.role), self.magic@), // [C07,C08]
    r.is_ok() ==> r->Ok_0.magic == self.magic && r->Ok_0.role == self.role, // [C07]
    r.is_ok() ==> opt_bytes(r->Ok_0.state.local_garbage) =~= opt_bytes(self.state.local_garbage), // [C10]

@contract handshake::Handshake<ReceivedKey>::send_version_len (decoys)
@tags C06
requires
    version_message_len(decoy_seq(decoys)) <= usize::MAX,
ensures
    r == version_message_len(decoy_seq(decoys)), // [C06,C08]
@entry
let ghost ds = decoy_seq(decoys);
@loop 0
invariant
    ds == decoy_seq(Some(decoys)),
    it.index@ <= ds.len(),
    len == 36 + total_len(ds, it.index@ as nat),
    version_message_len(ds) <= usize::MAX,
@loopstart 0
proof { lemma_total_mono(ds, (it.index@ + 1) as nat, ds.len()); assert(decoy@ == ds[it.index@]); }

@contract handshake::Handshake<ReceivedKey>::send_version (output_buffer, decoys)
@tags C06,C07,C08,C10
requires
    version_message_len(decoy_seq(decoys)) <= usize::MAX,
ensures
    old(output_buffer)@.len() < version_message_len(decoy_seq(decoys)) ==> r.is_err()
        && r->Err_0 == (Error::BufferTooSmall { required_bytes: version_message_len(decoy_seq(decoys)) as usize })
        && final(output_buffer)@ =~= old(output_buffer)@, // [C06]
    old(output_buffer)@.len() >= version_message_len(decoy_seq(decoys)) ==>
        (r.is_ok() <==> forall|i: int| 0 <= i < decoy_seq(decoys).len() ==> (#[trigger] decoy_seq(decoys)[i]).len() <= 16777215), // [C06,C08]
    old(output_buffer)@.len() >= version_message_len(decoy_seq(decoys)) && r.is_err() ==> r->Err_0 is PacketTooBig, // [C05]
    r.is_ok() ==> final(output_buffer)@
        == version_message(out_dir0(self.state.session_keys.keys(), is_initiator(self.role)),
                own_terminator(self.state.session_keys.keys(), is_initiator(self.role)), decoy_seq(decoys), opt_bytes(self.state.local_garbage))
            + old(output_buffer)@.skip(version_message_len(decoy_seq(decoys)) as int), // [C06,C07,C08,C10]
    r.is_ok() ==> r->Ok_0.state.cipher.outd()
        == dir_steps(out_dir0(self.state.session_keys.keys(), is_initiator(self.role)), decoy_seq(decoys).len() + 1), // [C08,C12]
    r.is_ok() ==> r->Ok_0.state.cipher.ind() == in_dir0(self.state.session_keys.keys(), is_initiator(self.role)), // [C07,C08]
    r.is_ok() ==> r->Ok_0.state.cipher.id@ == self.state.session_keys.keys().sid, // [C08]
    r.is_ok() ==> r->Ok_0.state.cipher.wf(), // [C02]
    r.is_ok() ==> r->Ok_0.state.remote_garbage_terminator@
        == their_terminator(self.state.session_keys.keys(), is_initiator(self.role)), // [C07,C09]
    r.is_ok() ==> r->Ok_0.magic == self.magic && r->Ok_0.role == self.role, // [C07]
@entry
hide(dir_step);
let ghost ds = decoy_seq(decoys);
let ghost buf0 = output_buffer@;
let ghost keys = self.state.session_keys.keys();
let ghost ini = is_initiator(self.role);
let ghost d0 = out_dir0(keys, ini);
let ghost g = opt_bytes(self.state.local_garbage);
proof { lemma_dir_steps(d0, ds.len()); lemma_total_min(ds, ds.len()); }
@loop 0
invariant
    ds == decoy_seq(Some(decoys)),
    it.index@ <= ds.len(),
    buf0.len() >= version_message_len(ds),
    version_message_len(ds) <= usize::MAX,
    output_buffer@.len() == buf0.len(),
    bytes_written == 16 + total_len(ds, it.index@ as nat),
    cipher.wf(),
    cipher.outd() == dir_steps(d0, it.index@ as nat),
    cipher.ind() == in_dir0(keys, ini),
    cipher.id@ == keys.sid,
    opt_bytes(aad) == (if it.index@ == 0 { g } else { Seq::empty() }),
    forall|i: int| 0 <= i < it.index@ ==> (#[trigger] ds[i]).len() <= 16777215,
    output_buffer@ == own_terminator(keys, ini) + decoy_packets(d0, ds, it.index@ as nat, g)
        + buf0.skip(bytes_written as int),
@loopstart 0
proof { lemma_total_mono(ds, (it.index@ + 1) as nat, ds.len()); assert(decoy@ == ds[it.index@]); lemma_decoys_len(d0, ds, it.index@ as nat, g);
    lemma_dir_steps(d0, it.index@ as nat); lemma_total_min(ds, ds.len()); }
let ghost ob = output_buffer@;
@loopend 0
proof {
    let i = it.index@ as nat;
    let p = packet(dir_steps(d0, i), 128u8, ds[i as int], if i == 0 { g } else { Seq::empty() });
    lemma_extend(ob, output_buffer@, own_terminator(keys, ini) + decoy_packets(d0, ds, i, g), p, buf0);
    assert(own_terminator(keys, ini) + decoy_packets(d0, ds, i, g) + p =~= own_terminator(keys, ini) + decoy_packets(d0, ds, i + 1, g));
}
@exit
lemma_decoys_len(d0, ds, ds.len(), g);
assert(output_buffer@ =~= version_message(d0, own_terminator(keys, ini), ds, g) + buf0.skip(version_message_len(ds) as int));

@contract handshake::Handshake<SentVersion>::receive_garbage (input_buffer)
@tags C09
ensures
    r.is_ok() && r->Ok_0 is FoundGarbage ==> ({
        let i = r->Ok_0->consumed_bytes - 16;
        let h = r->Ok_0->handshake;
        &&& first_at(input_buffer@, self.state.remote_garbage_terminator@, 4111, i) // [C09]
        &&& opt_bytes(h.state.remote_garbage) =~= input_buffer@.take(i) // [C09,C10]
        &&& h.state.cipher == self.state.cipher // [C08,C09]
        &&& h.magic == self.magic && h.role == self.role // [C07]
    }),
    r.is_ok() && r->Ok_0 is NeedMoreData ==> input_buffer@.len() < 4111
        && (forall|i: int| !occurs_at(input_buffer@, self.state.remote_garbage_terminator@, 4111, i)), // [C09]
    r.is_ok() && r->Ok_0 is NeedMoreData ==> r->Ok_0->NeedMoreData_0 == self, // [C09]
    r.is_err() ==> r->Err_0 == Error::NoGarbageTerminator && input_buffer@.len() >= 4111
        && (forall|i: int| !occurs_at(input_buffer@, self.state.remote_garbage_terminator@, 4111, i)), // [C09]
@entry
proof { lemma_occurs_take(input_buffer@, self.state.remote_garbage_terminator@); }

@aux handshake::Handshake<SentVersion>::split_garbage (buffer)
@tags C09
ensures
    r.is_ok() ==> r->Ok_0.0@.len() + 16 <= buffer@.len()
        && first_at(buffer@, self.state.remote_garbage_terminator@, 4111, r->Ok_0.0@.len() as int)
        && r->Ok_0.0@ =~= buffer@.take(r->Ok_0.0@.len() as int)
        && r->Ok_0.1@ =~= buffer@.skip(r->Ok_0.0@.len() as int + 16), // [C09]
    r.is_err() ==> (forall|i: int| !occurs_at(buffer@, self.state.remote_garbage_terminator@, 4111, i)), // [C09]
    r.is_err() ==> r->Err_0 == (if buffer@.len() >= 4111 { Error::NoGarbageTerminator } else { Error::CiphertextTooSmall }), // [C09]
@entry
proof { lemma_occurs_take(buffer@, self.state.remote_garbage_terminator@); }

@contract handshake::Handshake<ReceivedGarbage>::decrypt_packet_len (length_bytes)
@tags C02
requires
    old(self).state.cipher.wf(),
    old(self).state.cipher.ind().ln < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() && r->Ok_0 == body_len(old(self).state.cipher.ind(), length_bytes@), // [C02,C08]
    17 <= r->Ok_0 <= 16777232, // [C05]
    final(self).state.cipher.ind() == dir_len_step(old(self).state.cipher.ind()), // [C02,C08]
    final(self).state.cipher.outd() == old(self).state.cipher.outd(), // [C08]
    final(self).state.cipher.id == old(self).state.cipher.id, // [C08]
    final(self).state.cipher.wf(), // [C02]
    final(self).state.remote_garbage == old(self).state.remote_garbage, // [C10]
    final(self).magic == old(self).magic && final(self).role == old(self).role, // [C07]

@contract handshake::Handshake<ReceivedGarbage>::receive_version (input_buffer)
@tags C08,C10,C12
requires
    self.state.cipher.ind().pn < 0xffff_ffff_ffff_ffff,
    self.state.cipher.wf(),
ensures
    r.is_ok() <==> body_ok(self.state.cipher.ind(), old(input_buffer)@, opt_bytes(self.state.remote_garbage)), // [C10,C04,C12]
    r.is_err() ==> r->Err_0 is Decryption || r->Err_0 == Error::CiphertextTooSmall, // [C05]
    r.is_ok() ==> (r->Ok_0 is Complete
        <==> genuine_header(body_plain(self.state.cipher.ind(), old(input_buffer)@)[0])), // [C12,C22]
    r.is_ok() && r->Ok_0 is Complete ==> ({
        let c = r->Ok_0->cipher;
        &&& c.ind() == dir_packet_step(self.state.cipher.ind()) // [C08,C12]
        &&& c.outd() == self.state.cipher.outd() // [C08,C12]
        &&& c.id == self.state.cipher.id // [C08]
        &&& c.wf() // [C02]
    }),
    r.is_ok() && r->Ok_0 is Decoy ==> ({
        let h = r->Ok_0->Decoy_0;
        &&& h.state.cipher.ind() == dir_packet_step(self.state.cipher.ind()) // [C12]
        &&& h.state.cipher.outd() == self.state.cipher.outd() // [C12]
        &&& h.state.cipher.id == self.state.cipher.id // [C08]
        &&& h.state.cipher.wf() // [C02]
        &&& opt_bytes(h.state.remote_garbage) =~= Seq::<u8>::empty() // [C10]
        &&& h.magic == self.magic && h.role == self.role // [C07]
    }),
