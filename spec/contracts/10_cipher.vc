# ---------------------------------------------------------------- fschacha20poly1305.rs

@extra fschacha20poly1305
impl FSChaCha20Poly1305 {
    pub open spec fn k(&self) -> Bytes { self.key@ }
    pub open spec fn n(&self) -> nat { self.message_counter as nat }
}
impl FSChaCha20 {
    pub open spec fn k(&self) -> Bytes { self.key@ }
    pub open spec fn n(&self) -> nat { self.chunk_counter as nat }
    /// The position in the keystream belongs to the chunk counter.
    pub open spec fn wf(&self) -> bool { self.block_counter == 3 * (self.chunk_counter % 224) }
}
impl FromSpecImpl<Error> for crate::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> crate::Error { crate::Error::Decryption(e) }
}

@contract fschacha20poly1305::FSChaCha20Poly1305::new (key)
@tags C01
ensures
    r.k() == key@, // [C01]
    r.n() == 0, // [C01]

@aux fschacha20poly1305::FSChaCha20Poly1305::nonce ()
@tags C01
ensures
    r@ == packet_nonce(self.n()), // [C01]
@entry
proof { assert(self.message_counter % 224 <= 223); }

@aux fschacha20poly1305::FSChaCha20Poly1305::rekey (aad)
@tags C01
requires
    old(self).n() < 0xffff_ffff_ffff_ffff,
ensures
    final(self).k() == packet_step(old(self).k(), old(self).n()), // [C01]
    final(self).n() == old(self).n() + 1, // [C01]
@entry
assert(packet_nonce(self.n()).skip(4) =~= le8(self.n() / 224));

@contract fschacha20poly1305::FSChaCha20Poly1305::encrypt (aad, content)
@tags C01,C03
requires
    old(self).n() < 0xffff_ffff_ffff_ffff,
ensures
    final(content)@ =~= aead_crypt(old(self).k(), packet_nonce(old(self).n()), old(content)@), // [C01,C03]
    r@ == poly_tag(old(self).k(), packet_nonce(old(self).n()), aad@, final(content)@), // [C01,C03,C10]
    final(self).k() == packet_step(old(self).k(), old(self).n()), // [C01]
    final(self).n() == old(self).n() + 1, // [C01,C03]
@entry
proof { assert(self.message_counter % 224 <= 223); }
assert(packet_nonce(self.n()).skip(4) =~= le8(self.n() / 224));

@contract fschacha20poly1305::FSChaCha20Poly1305::decrypt (aad, content, tag)
@tags C01,C04
requires
    old(self).n() < 0xffff_ffff_ffff_ffff,
ensures
    r.is_ok() <==> tag@ =~= poly_tag(old(self).k(), packet_nonce(old(self).n()), aad@, old(content)@), // [C01,C04]
    r.is_ok() ==> final(content)@ =~= aead_crypt(old(self).k(), packet_nonce(old(self).n()), old(content)@), // [C01,C03]
    r.is_ok() ==> final(self).k() == packet_step(old(self).k(), old(self).n()), // [C01,C04]
    r.is_ok() ==> final(self).n() == old(self).n() + 1, // [C01,C04]
    r.is_err() ==> final(content)@ =~= old(content)@, // [C04]
    r.is_err() ==> final(self).k() == old(self).k() && final(self).n() == old(self).n(), // [C04]
@entry
proof { assert(self.message_counter % 224 <= 223); }
assert(packet_nonce(self.n()).skip(4) =~= le8(self.n() / 224));

@contract fschacha20poly1305::FSChaCha20::new (key)
@tags C02
ensures
    r.k() == key@, // [C02]
    r.n() == 0, // [C02]
    r.wf(), // [C02]

@contract fschacha20poly1305::FSChaCha20::crypt (chunk)
@tags C02,C05
requires
    old(self).wf(),
    old(self).n() < 0xffff_ffff_ffff_ffff,
ensures
    final(chunk)@ =~= length_crypt(old(self).k(), old(self).n(), old(chunk)@), // [C02]
    final(self).k() == length_step(old(self).k(), old(self).n()), // [C02]
    final(self).n() == old(self).n() + 1, // [C02]
    final(self).wf(), // [C02]
@entry
assert(filled(0u8, 12).take(4) =~= zeros(4));
proof { lemma_epoch_pos(self.n()); }
