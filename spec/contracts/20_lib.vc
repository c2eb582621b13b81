# ---------------------------------------------------------------- lib.rs

@extra
impl FromSpecImpl<crate::deps::secp256k1::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::deps::secp256k1::Error) -> Error { Error::SecretGeneration(SecretGenerationError::MaterialsGeneration(e)) }
}
impl FromSpecImpl<hkdf::MaxLengthError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: hkdf::MaxLengthError) -> Error { Error::SecretGeneration(SecretGenerationError::Expansion(e)) }
}
impl InboundCipher {
    pub open spec fn dir(&self) -> Dir {
        Dir { lk: self.length_cipher.k(), ln: self.length_cipher.n(), pk: self.packet_cipher.k(), pn: self.packet_cipher.n() }
    }
    pub open spec fn wf(&self) -> bool { self.length_cipher.wf() }
}
impl OutboundCipher {
    pub open spec fn dir(&self) -> Dir {
        Dir { lk: self.length_cipher.k(), ln: self.length_cipher.n(), pk: self.packet_cipher.k(), pn: self.packet_cipher.n() }
    }
    pub open spec fn wf(&self) -> bool { self.length_cipher.wf() }
}
impl CipherSession {
    pub open spec fn ind(&self) -> Dir { self.inbound.dir() }
    pub open spec fn outd(&self) -> Dir { self.outbound.dir() }
    pub open spec fn wf(&self) -> bool { self.inbound.wf() && self.outbound.wf() }
}
impl SessionKeyMaterial {
    pub open spec fn keys(&self) -> Keys {
        Keys {
            sid: self.session_id@,
            il: self.initiator_length_key@, ip: self.initiator_packet_key@,
            rl: self.responder_length_key@, rp: self.responder_packet_key@,
            ig: self.initiator_garbage_terminator@, rg: self.responder_garbage_terminator@,
        }
    }
}
pub open spec fn is_initiator(r: Role) -> bool { r == Role::Initiator }
pub open spec fn is_genuine(p: PacketType) -> bool { p == PacketType::Genuine }
/// Bytes of a mutable buffer after a refused decryption: old bytes, received bytes or zeros.
pub open spec fn no_plaintext(new: Bytes, old: Bytes, ct: Bytes) -> bool {
    new.len() == old.len() && forall|i: int| 0 <= i < new.len() ==>
        #[trigger] new[i] == old[i] || (i < ct.len() && new[i] == ct[i]) || new[i] == 0u8
}

@contract SessionKeyMaterial::from_ecdh (a, b, secret, party, magic)
@tags C07
ensures
    r.is_ok(), // [C07]
    r->Ok_0.keys() == derive_keys(crate::deps::secp256k1::ellswift::ecdh(a@, b@, secret, party == ElligatorSwiftParty::A, label_ecdh()), magic.borrowed()@), // [C07,C08]

@contract PacketType::from_byte (header)
@tags C22
ensures
    is_genuine(r) == genuine_header(*header), // [C22]

@contract PacketType::to_byte ()
@tags C22,C03
ensures
    r == header_byte(is_genuine(*self)), // [C03,C22]

@contract InboundCipher::decrypt_packet_len (len_bytes)
@tags C02,C03,C05
requires
    old(self).wf(),
    old(self).dir().ln < 0xffff_ffff_ffff_ffff,
ensures
    r == body_len(old(self).dir(), len_bytes@), // [C02,C03]
    17 <= r <= 16777232, // [C05]
    final(self).dir() == dir_len_step(old(self).dir()), // [C02,C03]
    final(self).wf(), // [C02]

@contract InboundCipher::decryption_buffer_len (packet_len)
@tags C06
requires
    packet_len >= 16,
ensures
    r == packet_len - 16, // [C06]

@aux InboundCipher::validate_ciphertext_size (ciphertext_len)
@tags C05
ensures
    r.is_ok() <==> ciphertext_len >= 17, // [C05]
    r.is_err() ==> r->Err_0 == Error::CiphertextTooSmall, // [C05]

@contract InboundCipher::decrypt_in_place (ciphertext, aad)
@tags C03,C04,C05
requires
    old(self).dir().pn < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() <==> body_ok(old(self).dir(), old(ciphertext)@, opt_bytes(aad)), // [C03,C04]
    old(ciphertext)@.len() < 17 ==> r.is_err() && r->Err_0 == Error::CiphertextTooSmall, // [C05]
    old(ciphertext)@.len() >= 17 && r.is_err() ==> r->Err_0 is Decryption, // [C05]
    r.is_ok() ==> r->Ok_0.1@ =~= body_plain(old(self).dir(), old(ciphertext)@), // [C03]
    r.is_ok() ==> is_genuine(r->Ok_0.0) == genuine_header(r->Ok_0.1@[0]), // [C22]
    r.is_ok() ==> final(self).dir() == dir_packet_step(old(self).dir()), // [C03,C04]
    r.is_err() ==> final(self).dir() == old(self).dir(), // [C04]
    r.is_err() ==> final(ciphertext)@ =~= old(ciphertext)@, // [C04]
    final(self).wf() == old(self).wf(), // [C02]

@contract InboundCipher::decrypt (ciphertext, plaintext_buffer, aad)
@tags C03,C04,C05,C06
requires
    old(self).dir().pn < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() <==> body_ok(old(self).dir(), ciphertext@, opt_bytes(aad)) && old(plaintext_buffer)@.len() >= ciphertext@.len() - 16, // [C03,C04,C06]
    ciphertext@.len() < 17 ==> r.is_err() && r->Err_0 == Error::CiphertextTooSmall, // [C05]
    ciphertext@.len() >= 17 && old(plaintext_buffer)@.len() < ciphertext@.len() - 16
        ==> r.is_err() && r->Err_0 == (Error::BufferTooSmall { required_bytes: (ciphertext@.len() - 16) as usize }), // [C06]
    ciphertext@.len() >= 17 && old(plaintext_buffer)@.len() >= ciphertext@.len() - 16 && r.is_err()
        ==> r->Err_0 is Decryption, // [C05]
    r.is_ok() ==> final(plaintext_buffer)@
        == body_plain(old(self).dir(), ciphertext@) + old(plaintext_buffer)@.skip(ciphertext@.len() as int - 16), // [C03,C06]
    r.is_ok() ==> is_genuine(r->Ok_0) == genuine_header(final(plaintext_buffer)@[0]), // [C22]
    r.is_ok() ==> final(self).dir() == dir_packet_step(old(self).dir()), // [C03,C04]
    r.is_err() ==> final(self).dir() == old(self).dir(), // [C04,C06]
    r.is_err() ==> no_plaintext(final(plaintext_buffer)@, old(plaintext_buffer)@, ciphertext@), // [C04]
    r.is_err() && !(r->Err_0 is Decryption) ==> final(plaintext_buffer)@ =~= old(plaintext_buffer)@, // [C06]
    final(self).wf() == old(self).wf(), // [C02]

@contract InboundCipher::decrypt_to_vec (ciphertext, aad)
@tags C03,C04,C05,C16
requires
    old(self).dir().pn < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() <==> body_ok(old(self).dir(), ciphertext@, opt_bytes(aad)) && ciphertext@.len() - 16 <= 4000014, // [C03,C04,C16]
    ciphertext@.len() < 17 ==> r.is_err() && r->Err_0 == Error::CiphertextTooSmall, // [C05]
    ciphertext@.len() - 16 > 4000014 ==> r.is_err() && r->Err_0 == Error::PacketTooBig, // [C16]
    17 <= ciphertext@.len() && ciphertext@.len() - 16 <= 4000014 && r.is_err() ==> r->Err_0 is Decryption, // [C05]
    r.is_ok() ==> r->Ok_0.1@ =~= body_plain(old(self).dir(), ciphertext@), // [C03]
    r.is_ok() ==> is_genuine(r->Ok_0.0) == genuine_header(r->Ok_0.1@[0]), // [C22]
    r.is_ok() ==> final(self).dir() == dir_packet_step(old(self).dir()), // [C03,C04]
    r.is_err() ==> final(self).dir() == old(self).dir(), // [C04]
    final(self).wf() == old(self).wf(), // [C02]

@contract OutboundCipher::encryption_buffer_len (plaintext_len)
@tags C06
requires
    plaintext_len + 20 <= usize::MAX,
ensures
    r == plaintext_len + 20, // [C06]

@contract OutboundCipher::encrypt (plaintext, ciphertext_buffer, packet_type, aad)
@tags C03,C06,C05
requires
    old(self).wf(),
    dir_live(old(self).dir()),
    plaintext@.len() + 20 <= usize::MAX,
ensures
    r.is_ok() <==> plaintext@.len() <= 16777215 && old(ciphertext_buffer)@.len() >= plaintext@.len() + 20, // [C03,C06]
    plaintext@.len() <= 16777215 && r.is_err() ==> r->Err_0 == (Error::BufferTooSmall { required_bytes: (plaintext@.len() + 20) as usize }), // [C06]
    plaintext@.len() > 16777215 ==> r.is_err() && (r->Err_0 is PacketTooBig || r->Err_0 is BufferTooSmall), // [C03]
    plaintext@.len() > 16777215 && old(ciphertext_buffer)@.len() >= plaintext@.len() + 20 ==> r.is_err() && r->Err_0 is PacketTooBig, // [C03]
    r.is_ok() ==> final(ciphertext_buffer)@
        == packet(old(self).dir(), header_byte(is_genuine(packet_type)), plaintext@, opt_bytes(aad))
            + old(ciphertext_buffer)@.skip(plaintext@.len() as int + 20), // [C01,C02,C03,C06]
    r.is_ok() ==> final(self).dir() == dir_step(old(self).dir()), // [C03]
    r.is_err() ==> final(self).dir() == old(self).dir(), // [C03,C06]
    r.is_err() ==> final(ciphertext_buffer)@ =~= old(ciphertext_buffer)@, // [C03,C06]
    final(self).wf(), // [C02]
@entry
let ghost buf0 = ciphertext_buffer@;
let ghost d0 = self.dir();
@exit
reveal(packet);
let ct = packet_ct(d0, header_byte(is_genuine(packet_type)), plaintext@);
assert(ciphertext_buffer@ =~= length_crypt(d0.lk, d0.ln, le3(plaintext@.len())) + ct
    + packet_tag(d0, opt_bytes(aad), ct) + buf0.skip(plaintext@.len() as int + 20));

@contract OutboundCipher::encrypt_to_vec (plaintext, packet_type, aad)
@tags C03,C06
requires
    old(self).wf(),
    dir_live(old(self).dir()),
    plaintext@.len() <= 16777215,
    plaintext@.len() + 4096 <= alloc_limit(),
ensures
    r@ == packet(old(self).dir(), header_byte(is_genuine(packet_type)), plaintext@, opt_bytes(aad)), // [C03]
    final(self).dir() == dir_step(old(self).dir()), // [C03]
    final(self).wf(), // [C02]

@contract CipherSession::new (materials, role)
@tags C07
ensures
    r.id@ == materials.keys().sid, // [C07,C08]
    r.outd() == out_dir0(materials.keys(), is_initiator(role)), // [C07,C08]
    r.ind() == in_dir0(materials.keys(), is_initiator(role)), // [C07,C08]
    r.wf(), // [C02]

@contract CipherSession::id ()
@tags C07
ensures
    r@ == self.id@, // [C07,C08]

@contract CipherSession::inbound ()
@tags C07,C12
ensures
    *r == old(self).inbound, // [C07,C12]
    final(self).inbound == *final(r), // [C07,C12]
    final(self).outbound == old(self).outbound, // [C07,C12]
    final(self).id == old(self).id, // [C07]

@contract CipherSession::outbound ()
@tags C07,C12
ensures
    *r == old(self).outbound, // [C07,C12]
    final(self).outbound == *final(r), // [C07,C12]
    final(self).inbound == old(self).inbound, // [C07,C12]
    final(self).id == old(self).id, // [C07]

@contract CipherSession::into_split ()
@tags C07,C12
ensures
    r.0 == self.inbound, // [C07,C12]
    r.1 == self.outbound, // [C07,C12]

@contract derived-clone SessionKeyMaterial ()
ensures r == *self
@contract derived-clone InboundCipher ()
ensures r == *self
@contract derived-clone OutboundCipher ()
ensures r == *self
@contract derived-clone CipherSession ()
ensures r == *self
@contract derived-clone FSChaCha20Poly1305 ()
ensures r == *self
@contract derived-clone FSChaCha20 ()
ensures r == *self
@contract derived-clone EcdhPoint ()
ensures r == *self

# Assumed of every random source: it does not return 32 zero bytes (a debug assertion of the code).
@contract FillBytes::fill_bytes (dest)
ensures final(dest)@ != zeros(32),
