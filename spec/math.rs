// Specification mathematics: BIP-324 as functions on byte sequences. Independent of the code.
verus! {

pub type Bytes = Seq<u8>;

pub open spec fn le3(x: nat) -> Bytes {
    seq![(x % 256) as u8, (x / 256 % 256) as u8, (x / 65536 % 256) as u8]
}
pub open spec fn le4(x: nat) -> Bytes {
    seq![(x % 256) as u8, (x / 256 % 256) as u8, (x / 65536 % 256) as u8, (x / 16777216 % 256) as u8]
}
pub open spec fn le8(x: nat) -> Bytes {
    le4(x % 4294967296) + le4(x / 4294967296)
}
pub open spec fn le_val4(s: Bytes) -> nat {
    (s[0] as nat) + 256 * (s[1] as nat) + 65536 * (s[2] as nat) + 16777216 * (s[3] as nat)
}
proof fn lemma_digit(a: nat, b: nat, c: nat, d: nat)
    requires a < 256, c < 256, a + 256 * b == c + 256 * d,
    ensures a == c, b == d,
{ }
pub broadcast proof fn lemma_le_val4_inj(a: Bytes, b: Bytes)
    requires a.len() == 4, b.len() == 4,
    ensures #![trigger le_val4(a), le_val4(b)] le_val4(a) == le_val4(b) ==> a =~= b,
{
    if le_val4(a) == le_val4(b) {
        let (x, y) = (a[2] as nat + 256 * (a[3] as nat), b[2] as nat + 256 * (b[3] as nat));
        lemma_digit(a[0] as nat, a[1] as nat + 256 * x, b[0] as nat, b[1] as nat + 256 * y);
        lemma_digit(a[1] as nat, x, b[1] as nat, y);
        lemma_digit(a[2] as nat, a[3] as nat, b[2] as nat, b[3] as nat);
        assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
    }
}
pub broadcast proof fn lemma_be_val4_inj(a: Bytes, b: Bytes)
    requires a.len() == 4, b.len() == 4,
    ensures #![trigger le_val4(a.reverse()), le_val4(b.reverse())] le_val4(a.reverse()) == le_val4(b.reverse()) ==> a =~= b,
{
    if le_val4(a.reverse()) == le_val4(b.reverse()) {
        lemma_le_val4_inj(a.reverse(), b.reverse());
        assert(a[0] == a.reverse()[3] && a[1] == a.reverse()[2] && a[2] == a.reverse()[1] && a[3] == a.reverse()[0]);
        assert(b[0] == b.reverse()[3] && b[1] == b.reverse()[2] && b[2] == b.reverse()[1] && b[3] == b.reverse()[0]);
    }
}
pub open spec fn le_val3(s: Bytes) -> nat {
    (s[0] as nat) + 256 * (s[1] as nat) + 65536 * (s[2] as nat)
}
pub open spec fn filled<T>(x: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| x) }
pub open spec fn zeros(n: nat) -> Bytes { filled(0u8, n) }

/// How many bytes the environment lets one allocation have; a function states in its precondition what it
/// needs beyond the 4000014 bytes which are always granted.
pub uninterp spec fn alloc_limit() -> nat;

// ---- ChaCha20 and ChaCha20-Poly1305 (RFC 8439), uninterpreted but for their structure

/// Byte `pos` of the ChaCha20 keystream (block counter starting at 0) under key and nonce.
pub uninterp spec fn ks(key: Bytes, nonce: Bytes, pos: nat) -> u8;
/// Poly1305 tag of associated data and ciphertext.
pub uninterp spec fn poly_tag(key: Bytes, nonce: Bytes, aad: Bytes, ct: Bytes) -> Bytes;

pub open spec fn xor_ks(key: Bytes, nonce: Bytes, pos: nat, d: Bytes) -> Bytes {
    Seq::new(d.len(), |i: int| d[i] ^ ks(key, nonce, (pos + i) as nat))
}
/// AEAD contents use the keystream from block 1 on; encryption and decryption are the same.
pub open spec fn aead_crypt(key: Bytes, nonce: Bytes, d: Bytes) -> Bytes {
    xor_ks(key, nonce, 64, d)
}

// ---- forward secure ciphers of BIP-324

pub open spec fn packet_nonce(n: nat) -> Bytes { le4(n % 224) + le8(n / 224) }
pub open spec fn rekey_nonce(e: nat) -> Bytes { seq![255u8, 255u8, 255u8, 255u8] + le8(e) }
pub open spec fn next_packet_key(k: Bytes, e: nat) -> Bytes {
    aead_crypt(k, rekey_nonce(e), zeros(32))
}
pub open spec fn packet_step(k: Bytes, n: nat) -> Bytes {
    if (n + 1) % 224 == 0 { next_packet_key(k, n / 224) } else { k }
}
/// Key in use for packet n of a direction whose initial packet key is k0.
pub open spec fn packet_key_at(k0: Bytes, n: nat) -> Bytes
    decreases n
{
    if n == 0 { k0 } else { packet_step(packet_key_at(k0, (n - 1) as nat), (n - 1) as nat) }
}
/// The same by epochs, as BIP-324 states it.
pub open spec fn packet_epoch_key(k0: Bytes, e: nat) -> Bytes
    decreases e
{
    if e == 0 { k0 } else { next_packet_key(packet_epoch_key(k0, (e - 1) as nat), (e - 1) as nat) }
}

pub open spec fn length_nonce(n: nat) -> Bytes { zeros(4) + le8(n / 224) }
pub open spec fn length_pos(n: nat) -> nat { 3 * (n % 224) }
pub open spec fn length_crypt(k: Bytes, n: nat, d: Bytes) -> Bytes {
    xor_ks(k, length_nonce(n), length_pos(n), d)
}
pub open spec fn next_length_key(k: Bytes, e: nat) -> Bytes {
    xor_ks(k, zeros(4) + le8(e), 672, zeros(32))
}
pub open spec fn length_step(k: Bytes, n: nat) -> Bytes {
    if (n + 1) % 224 == 0 { next_length_key(k, n / 224) } else { k }
}
pub open spec fn length_key_at(k0: Bytes, n: nat) -> Bytes
    decreases n
{
    if n == 0 { k0 } else { length_step(length_key_at(k0, (n - 1) as nat), (n - 1) as nat) }
}
pub open spec fn length_epoch_key(k0: Bytes, e: nat) -> Bytes
    decreases e
{
    if e == 0 { k0 } else { next_length_key(length_epoch_key(k0, (e - 1) as nat), (e - 1) as nat) }
}

/// Position of one direction of a session: keys in use and number of packets processed.
pub struct Dir { pub lk: Bytes, pub ln: nat, pub pk: Bytes, pub pn: nat }

pub open spec fn dir0(lk: Bytes, pk: Bytes) -> Dir { Dir { lk, ln: 0, pk, pn: 0 } }
pub open spec fn dir_len_step(d: Dir) -> Dir {
    Dir { lk: length_step(d.lk, d.ln), ln: d.ln + 1, pk: d.pk, pn: d.pn }
}
pub open spec fn dir_packet_step(d: Dir) -> Dir {
    Dir { lk: d.lk, ln: d.ln, pk: packet_step(d.pk, d.pn), pn: d.pn + 1 }
}
pub open spec fn dir_step(d: Dir) -> Dir { dir_packet_step(dir_len_step(d)) }
/// Neither counter of the direction is at the end of its 64-bit range.
pub open spec fn dir_live(d: Dir) -> bool { d.ln < 0xffff_ffff_ffff_ffff && d.pn < 0xffff_ffff_ffff_ffff }

pub open spec fn header_byte(genuine: bool) -> u8 { if genuine { 0u8 } else { 128u8 } }
pub open spec fn genuine_header(h: u8) -> bool { h & 128u8 == 0u8 }

/// Header and contents, encrypted.
pub open spec fn packet_ct(d: Dir, header: u8, contents: Bytes) -> Bytes {
    aead_crypt(d.pk, packet_nonce(d.pn), seq![header] + contents)
}
pub open spec fn packet_tag(d: Dir, aad: Bytes, ct: Bytes) -> Bytes {
    poly_tag(d.pk, packet_nonce(d.pn), aad, ct)
}
/// The packet BIP-324 prescribes for these contents as the next one of direction d.
#[verifier::opaque]
pub open spec fn packet(d: Dir, header: u8, contents: Bytes, aad: Bytes) -> Bytes {
    length_crypt(d.lk, d.ln, le3(contents.len()))
        + packet_ct(d, header, contents)
        + packet_tag(d, aad, packet_ct(d, header, contents))
}
/// Is `body` (header, contents and tag as received) the next packet of direction d?
pub open spec fn body_ok(d: Dir, body: Bytes, aad: Bytes) -> bool {
    body.len() >= 17 && body.skip(body.len() - 16) == packet_tag(d, aad, body.take(body.len() - 16))
}
/// Header and contents of an acceptable body.
pub open spec fn body_plain(d: Dir, body: Bytes) -> Bytes {
    aead_crypt(d.pk, packet_nonce(d.pn), body.take(body.len() - 16))
}
/// Number of bytes which follow an encrypted length.
pub open spec fn body_len(d: Dir, len_bytes: Bytes) -> nat {
    le_val3(length_crypt(d.lk, d.ln, len_bytes)) + 17
}

pub open spec fn opt_bytes(o: Option<&[u8]>) -> Bytes {
    match o { Some(s) => s@, None => Seq::empty() }
}

/// HKDF-SHA256 (RFC 5869): extract with the salt, expand with the label.
pub uninterp spec fn hkdf_sha256(salt: Bytes, ikm: Bytes, info: Bytes, len: nat) -> Bytes;

pub open spec fn label_ecdh() -> Bytes { [98u8, 105u8, 112u8, 51u8, 50u8, 52u8, 95u8, 101u8, 108u8, 108u8, 115u8, 119u8, 105u8, 102u8, 116u8, 95u8, 120u8, 111u8, 110u8, 108u8, 121u8, 95u8, 101u8, 99u8, 100u8, 104u8]@ } // bip324_ellswift_xonly_ecdh
pub open spec fn label_salt() -> Bytes { [98u8, 105u8, 116u8, 99u8, 111u8, 105u8, 110u8, 95u8, 118u8, 50u8, 95u8, 115u8, 104u8, 97u8, 114u8, 101u8, 100u8, 95u8, 115u8, 101u8, 99u8, 114u8, 101u8, 116u8]@ } // bitcoin_v2_shared_secret
pub open spec fn label_sid() -> Bytes { [115u8, 101u8, 115u8, 115u8, 105u8, 111u8, 110u8, 95u8, 105u8, 100u8]@ } // session_id
pub open spec fn label_il() -> Bytes { [105u8, 110u8, 105u8, 116u8, 105u8, 97u8, 116u8, 111u8, 114u8, 95u8, 76u8]@ } // initiator_L
pub open spec fn label_ip() -> Bytes { [105u8, 110u8, 105u8, 116u8, 105u8, 97u8, 116u8, 111u8, 114u8, 95u8, 80u8]@ } // initiator_P
pub open spec fn label_rl() -> Bytes { [114u8, 101u8, 115u8, 112u8, 111u8, 110u8, 100u8, 101u8, 114u8, 95u8, 76u8]@ } // responder_L
pub open spec fn label_rp() -> Bytes { [114u8, 101u8, 115u8, 112u8, 111u8, 110u8, 100u8, 101u8, 114u8, 95u8, 80u8]@ } // responder_P
pub open spec fn label_gt() -> Bytes { [103u8, 97u8, 114u8, 98u8, 97u8, 103u8, 101u8, 95u8, 116u8, 101u8, 114u8, 109u8, 105u8, 110u8, 97u8, 116u8, 111u8, 114u8, 115u8]@ } // garbage_terminators

/// Session keys.
pub struct Keys { pub sid: Bytes, pub il: Bytes, pub ip: Bytes, pub rl: Bytes, pub rp: Bytes, pub ig: Bytes, pub rg: Bytes }
pub open spec fn okm(secret: Bytes, magic: Bytes, label: Bytes) -> Bytes {
    hkdf_sha256(label_salt() + magic, secret, label, 32)
}
/// The key derivation of BIP-324 from the ECDH secret and the network magic.
pub open spec fn derive_keys(secret: Bytes, magic: Bytes) -> Keys {
    Keys {
        sid: okm(secret, magic, label_sid()),
        il: okm(secret, magic, label_il()), ip: okm(secret, magic, label_ip()),
        rl: okm(secret, magic, label_rl()), rp: okm(secret, magic, label_rp()),
        ig: okm(secret, magic, label_gt()).take(16), rg: okm(secret, magic, label_gt()).skip(16),
    }
}
pub open spec fn out_dir0(k: Keys, initiator: bool) -> Dir { if initiator { dir0(k.il, k.ip) } else { dir0(k.rl, k.rp) } }
pub open spec fn in_dir0(k: Keys, initiator: bool) -> Dir { if initiator { dir0(k.rl, k.rp) } else { dir0(k.il, k.ip) } }
pub open spec fn own_terminator(k: Keys, initiator: bool) -> Bytes { if initiator { k.ig } else { k.rg } }
pub open spec fn their_terminator(k: Keys, initiator: bool) -> Bytes { if initiator { k.rg } else { k.ig } }

/// Decoy packets in order; the first packet carries the associated data.
pub open spec fn decoy_packets(d: Dir, decoys: Seq<Bytes>, n: nat, aad: Bytes) -> Bytes
    decreases n
{
    if n == 0 { Seq::empty() } else {
        decoy_packets(d, decoys, (n - 1) as nat, aad)
            + packet(dir_steps(d, (n - 1) as nat), 128u8, decoys[n - 1], if n == 1 { aad } else { Seq::empty() })
    }
}
pub open spec fn dir_steps(d: Dir, n: nat) -> Dir
    decreases n
{
    if n == 0 { d } else { dir_step(dir_steps(d, (n - 1) as nat)) }
}
/// What follows the key message: own terminator, decoys, one empty genuine version packet.
pub open spec fn version_message(d: Dir, terminator: Bytes, decoys: Seq<Bytes>, garbage: Bytes) -> Bytes {
    terminator + decoy_packets(d, decoys, decoys.len(), garbage)
        + packet(dir_steps(d, decoys.len()), 0u8, Seq::empty(), if decoys.len() == 0 { garbage } else { Seq::empty() })
}
pub open spec fn total_len(decoys: Seq<Bytes>, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { total_len(decoys, (n - 1) as nat) + decoys[n - 1].len() + 20 }
}
pub open spec fn version_message_len(decoys: Seq<Bytes>) -> nat { 16 + total_len(decoys, decoys.len()) + 20 }
pub open spec fn decoy_seq(o: Option<&[&[u8]]>) -> Seq<Bytes> {
    match o { Some(s) => Seq::new(s@.len(), |i: int| s@[i]@), None => Seq::empty() }
}

/// First occurrence of t in s wholly within the first `limit` bytes.
pub open spec fn occurs_at(s: Bytes, t: Bytes, limit: nat, i: int) -> bool {
    0 <= i && i + t.len() <= s.len() && i + t.len() <= limit && s.subrange(i, i + t.len()) == t
}
pub open spec fn first_at(s: Bytes, t: Bytes, limit: nat, i: int) -> bool {
    occurs_at(s, t, limit, i) && forall|j: int| 0 <= j < i ==> !occurs_at(s, t, limit, j)
}

// ---- lemmas

/// Extensionality of the cipher functions in their arguments, for the solver.
pub broadcast proof fn lemma_xor_ks_nonce_ext(k: Bytes, n1: Bytes, n2: Bytes, p1: nat, p2: nat, d: Bytes)
    ensures n1 =~= n2 && p1 == p2 ==> #[trigger] xor_ks(k, n1, p1, d) == #[trigger] xor_ks(k, n2, p2, d),
{ }
pub broadcast proof fn lemma_xor_ks_data_ext(k: Bytes, n: Bytes, p: nat, d1: Bytes, d2: Bytes)
    ensures d1 =~= d2 ==> #[trigger] xor_ks(k, n, p, d1) == #[trigger] xor_ks(k, n, p, d2),
{ }
pub broadcast proof fn lemma_hkdf_ext(s1: Bytes, s2: Bytes, k: Bytes, i1: Bytes, i2: Bytes, n: nat)
    ensures s1 =~= s2 && i1 =~= i2 ==> #[trigger] hkdf_sha256(s1, k, i1, n) == #[trigger] hkdf_sha256(s2, k, i2, n),
{ }
pub broadcast proof fn lemma_packet_len(d: Dir, h: u8, c: Bytes, a: Bytes)
    ensures (#[trigger] packet(d, h, c, a)).len() == c.len() + 20,
{
    broadcast use crate::vax::ax_tag_len;
    reveal(packet);
}
pub broadcast group group_ext_cipher { lemma_xor_ks_nonce_ext, lemma_tag_nonce_ext }
pub broadcast group group_ext_io { lemma_packet_len, lemma_decoys_ext }
pub broadcast group group_ext { lemma_packet_len,  lemma_tag_ext, lemma_xor_ks_nonce_ext, lemma_xor_ks_data_ext, lemma_hkdf_ext }

/// A search in a prefix of a buffer.
pub open spec fn prefix_len(n: nat) -> nat { if n < 4111 { n } else { 4111 } }
pub proof fn lemma_occurs_take(s: Bytes, t: Bytes)
    ensures
        forall|i: int| #![trigger occurs_at(s, t, 4111, i)] #![trigger occurs_at(s.take(prefix_len(s.len()) as int), t, prefix_len(s.len()), i)]
            occurs_at(s, t, 4111, i) == occurs_at(s.take(prefix_len(s.len()) as int), t, prefix_len(s.len()), i),
{
    let m = prefix_len(s.len());
    assert forall|i: int| #![trigger occurs_at(s, t, 4111, i)] #![trigger occurs_at(s.take(m as int), t, m, i)] occurs_at(s, t, 4111, i) == occurs_at(s.take(m as int), t, m, i) by {
        if 0 <= i && i + t.len() <= m {
            assert(s.take(m as int).subrange(i, i + t.len()) =~= s.subrange(i, i + t.len()));
        }
    }
}
/// Writing p after a prefix of a buffer extends the prefix.
pub proof fn lemma_extend(ob: Bytes, nb: Bytes, pre: Bytes, p: Bytes, buf0: Bytes)
    requires
        ob == pre + buf0.skip(pre.len() as int),
        pre.len() + p.len() <= buf0.len(),
        nb.len() == ob.len(),
        forall|i: int| 0 <= i < nb.len() ==> #[trigger] nb[i]
            == if pre.len() <= i && i < pre.len() + p.len() { p[i - pre.len()] } else { ob[i] },
    ensures nb == (pre + p) + buf0.skip(pre.len() + p.len() as int),
{
    assert(nb =~= (pre + p) + buf0.skip(pre.len() + p.len() as int));
}
pub proof fn lemma_dir_steps(d: Dir, n: nat)
    ensures dir_steps(d, n).ln == d.ln + n, dir_steps(d, n).pn == d.pn + n,
    decreases n
{
    if n > 0 { lemma_dir_steps(d, (n - 1) as nat); }
}
pub proof fn lemma_total_min(ds: Seq<Bytes>, n: nat)
    requires n <= ds.len(),
    ensures total_len(ds, n) >= 20 * n,
    decreases n
{
    if n > 0 { lemma_total_min(ds, (n - 1) as nat); }
}
pub proof fn lemma_decoys_len(d: Dir, ds: Seq<Bytes>, n: nat, aad: Bytes)
    requires n <= ds.len(),
    ensures decoy_packets(d, ds, n, aad).len() == total_len(ds, n),
    decreases n
{
    broadcast use lemma_packet_len;
    if n > 0 { lemma_decoys_len(d, ds, (n - 1) as nat, aad); }
}

/// Tags of equal ciphertexts are equal (extensionality for the solver).
pub broadcast proof fn lemma_tag_nonce_ext(k: Bytes, n1: Bytes, n2: Bytes, a: Bytes, c: Bytes)
    ensures n1 =~= n2 ==> #[trigger] poly_tag(k, n1, a, c) == #[trigger] poly_tag(k, n2, a, c),
{ }
pub broadcast proof fn lemma_tag_ext(k: Bytes, n: Bytes, a: Bytes, c1: Bytes, c2: Bytes)
    ensures c1 =~= c2 ==> #[trigger] poly_tag(k, n, a, c1) == #[trigger] poly_tag(k, n, a, c2),
{ }

pub proof fn lemma_total_mono(ds: Seq<Bytes>, i: nat, j: nat)
    requires i <= j <= ds.len(),
    ensures total_len(ds, i) <= total_len(ds, j),
    decreases j
{
    if i < j { lemma_total_mono(ds, i, (j - 1) as nat); }
}

pub broadcast proof fn lemma_xor_involution(a: u8, b: u8)
    ensures #[trigger] ((a ^ b) ^ b) == a,
{
    assert((a ^ b) ^ b == a) by (bit_vector);
}

pub proof fn lemma_xor_ks_twice(key: Bytes, nonce: Bytes, pos: nat, d: Bytes)
    ensures xor_ks(key, nonce, pos, xor_ks(key, nonce, pos, d)) == d,
{
    assert forall|i: int| 0 <= i < d.len() implies
        #[trigger] xor_ks(key, nonce, pos, xor_ks(key, nonce, pos, d))[i] == d[i] by {
        lemma_xor_involution(d[i], ks(key, nonce, (pos + i) as nat));
    }
    assert(xor_ks(key, nonce, pos, xor_ks(key, nonce, pos, d)) =~= d);
}

/// Arithmetic of the position within an epoch.
pub proof fn lemma_epoch_pos(n: nat)
    ensures
        n % 224 <= 223,
        (n + 1) % 224 == 0 <==> n % 224 == 223,
        (n + 1) % 224 == 0 ==> length_pos(n) + 3 == 672 && length_pos(n + 1) == 0,
        (n + 1) % 224 != 0 ==> (n + 1) % 224 == n % 224 + 1 && length_pos(n + 1) == length_pos(n) + 3,
{ }

pub proof fn lemma_epoch_step(n: nat)
    requires n > 0,
    ensures
        n % 224 == 0 ==> n / 224 > 0 && (n - 1) / 224 == n / 224 - 1,
        n % 224 != 0 ==> (n - 1) / 224 == n / 224,
{ }

/// [C01] The stepwise key of packet n is the key of epoch n / 224.
pub proof fn lemma_packet_epoch(k0: Bytes, n: nat)
    ensures packet_key_at(k0, n) == packet_epoch_key(k0, n / 224),
    decreases n
{
    hide(next_packet_key);
    if n > 0 {
        lemma_packet_epoch(k0, (n - 1) as nat);
        lemma_epoch_step(n);
        assert(packet_key_at(k0, n) == packet_step(packet_key_at(k0, (n - 1) as nat), (n - 1) as nat));
    }
}
/// [C02] The stepwise length key of packet n is the key of epoch n / 224.
pub proof fn lemma_length_epoch(k0: Bytes, n: nat)
    ensures length_key_at(k0, n) == length_epoch_key(k0, n / 224),
    decreases n
{
    hide(next_length_key);
    if n > 0 {
        lemma_length_epoch(k0, (n - 1) as nat);
        lemma_epoch_step(n);
        assert(length_key_at(k0, n) == length_step(length_key_at(k0, (n - 1) as nat), (n - 1) as nat));
    }
}

pub proof fn lemma_le4_inj(a: nat, b: nat)
    requires a < 4294967296, b < 4294967296, le4(a) == le4(b),
    ensures a == b,
{
    assert(le4(a)[0] == le4(b)[0] && le4(a)[1] == le4(b)[1] && le4(a)[2] == le4(b)[2] && le4(a)[3] == le4(b)[3]);
    assert(a % 256 == b % 256);
    assert(a / 256 % 256 == b / 256 % 256);
    assert(a / 65536 % 256 == b / 65536 % 256);
    assert(a / 16777216 % 256 == b / 16777216 % 256);
}
pub proof fn lemma_le8_inj(a: nat, b: nat)
    requires a < 18446744073709551616, b < 18446744073709551616, le8(a) == le8(b),
    ensures a == b,
{
    let (al, ah, bl, bh) = (a % 4294967296, a / 4294967296, b % 4294967296, b / 4294967296);
    assert(le8(a).take(4) =~= le4(al));
    assert(le8(b).take(4) =~= le4(bl));
    assert(le8(a).skip(4) =~= le4(ah));
    assert(le8(b).skip(4) =~= le4(bh));
    lemma_le4_inj(al, bl);
    lemma_le4_inj(ah, bh);
}
/// [C01] No two packets of a direction share a nonce, and no packet has the nonce of a rekeying.
pub proof fn lemma_nonces_distinct(n: nat, m: nat, e: nat)
    requires n < 18446744073709551616, m < 18446744073709551616,
    ensures
        packet_nonce(n) == packet_nonce(m) ==> n == m,
        packet_nonce(n) != rekey_nonce(e),
{
    if packet_nonce(n) == packet_nonce(m) {
        assert(packet_nonce(n).take(4) =~= le4(n % 224));
        assert(packet_nonce(m).take(4) =~= le4(m % 224));
        assert(packet_nonce(n).skip(4) =~= le8(n / 224));
        assert(packet_nonce(m).skip(4) =~= le8(m / 224));
        lemma_le4_inj(n % 224, m % 224);
        lemma_le8_inj(n / 224, m / 224);
    }
    if packet_nonce(n) == rekey_nonce(e) {
        assert(packet_nonce(n)[1] == rekey_nonce(e)[1]);
        assert(n % 224 / 256 % 256 == 0);
    }
}
/// [C02] The keystream bytes of two lengths under one key, or of a length and a rekeying, never overlap.
pub proof fn lemma_length_stream_disjoint(n: nat, m: nat)
    requires n / 224 == m / 224, n != m,
    ensures
        length_pos(n) + 3 <= length_pos(m) || length_pos(m) + 3 <= length_pos(n),
        length_pos(n) + 3 <= 672,
{
}

pub proof fn lemma_le3_roundtrip(x: nat)
    requires x <= 16777215,
    ensures le_val3(le3(x)) == x,
{
}

/// [C03] Decoding inverts encoding: the receiver at the sender's position recovers everything.
pub proof fn lemma_packet_roundtrip(d: Dir, header: u8, contents: Bytes, aad: Bytes)
    requires
        contents.len() <= 16777215,
    ensures ({
        let p = packet(d, header, contents, aad);
        let body = p.skip(3);
        &&& p.len() == contents.len() + 20
        &&& body_len(d, p.take(3)) == body.len() == contents.len() + 17
        &&& body_ok(d, body, aad)
        &&& body_plain(d, body) == seq![header] + contents
    }),
{
    broadcast use crate::vax::ax_tag_len;
    reveal(packet);
    let p = packet(d, header, contents, aad);
    let ct = packet_ct(d, header, contents);
    assert(p.take(3) =~= length_crypt(d.lk, d.ln, le3(contents.len())));
    lemma_xor_ks_twice(d.lk, length_nonce(d.ln), length_pos(d.ln), le3(contents.len()));
    lemma_le3_roundtrip(contents.len());
    let body = p.skip(3);
    assert(body.take(body.len() - 16) =~= ct);
    assert(body.skip(body.len() - 16) =~= packet_tag(d, aad, ct));
    lemma_xor_ks_twice(d.pk, packet_nonce(d.pn), 64, seq![header] + contents);
}

/// [C22] Bits 0 to 6 of the header do not matter.
pub proof fn lemma_reserved_bits(h: u8, other: u8)
    ensures genuine_header(h) == genuine_header((h & 128u8) | (other & 127u8)),
{
    assert((((h & 128u8) | (other & 127u8)) & 128u8) == (h & 128u8)) by (bit_vector);
}
pub proof fn lemma_header_byte(g: bool)
    ensures genuine_header(header_byte(g)) == g,
{
    assert(0u8 & 128u8 == 0u8) by (bit_vector);
    assert(128u8 & 128u8 == 128u8) by (bit_vector);
}


// ---- handshake as seen from the bytes of the peer

/// What a stream of bytes after the sent version message leads to.
pub enum HsOut { Done { ind: Dir, rest: Bytes }, Eof, V1, NoTerm, TooBig, Reject }

/// Decoys up to and including the version packet.
pub open spec fn hs_packets(d: Dir, s: Bytes, aad: Bytes) -> HsOut
    decreases s.len()
{
    if s.len() < 3 { HsOut::Eof }
    else {
        let n = body_len(d, s.take(3));
        let d1 = dir_len_step(d);
        if n > 4000014 { HsOut::TooBig }
        else if s.len() < 3 + n { HsOut::Eof }
        else {
            let b = s.subrange(3, 3 + n as int);
            let rest = s.skip(3 + n as int);
            if !body_ok(d1, b, aad) { HsOut::Reject }
            else if genuine_header(body_plain(d1, b)[0]) { HsOut::Done { ind: dir_packet_step(d1), rest } }
            else { hs_packets(dir_packet_step(d1), rest, Seq::empty()) }
        }
    }
}
/// Garbage up to the first terminator within the limit, then packets, the garbage authenticated by the first.
pub open spec fn hs_tail(d: Dir, term: Bytes, s: Bytes) -> HsOut {
    if exists|i: int| first_at(s, term, 4111, i) {
        let i = choose|i: int| first_at(s, term, 4111, i);
        hs_packets(d, s.skip(i + 16), s.take(i))
    } else if s.len() >= 4111 { HsOut::NoTerm } else { HsOut::Eof }
}
pub open spec fn opt_vec(o: Option<Vec<u8>>) -> Bytes {
    match o { Some(v) => v@, None => Seq::empty() }
}
pub open spec fn opt_vecs(o: Option<Vec<Vec<u8>>>) -> Seq<Bytes> {
    match o { Some(v) => Seq::new(v@.len(), |i: int| v@[i]@), None => Seq::empty() }
}
/// Borrowed decoys are the decoys.
pub broadcast proof fn lemma_decoys_ext(a: Option<&[&[u8]]>, v: Option<Vec<Vec<u8>>>)
    ensures
        (a.is_some() == v.is_some() && (a.is_some() ==> a->0@.len() == v->0@.len()
            && forall|i: int| 0 <= i < v->0@.len() ==> (#[trigger] a->0@[i])@ == v->0@[i]@))
            ==> #[trigger] decoy_seq(a) == #[trigger] opt_vecs(v),
{
    if a.is_some() == v.is_some() && (a.is_some() ==> a->0@.len() == v->0@.len()
            && forall|i: int| 0 <= i < v->0@.len() ==> (#[trigger] a->0@[i])@ == v->0@[i]@) {
        assert(decoy_seq(a) =~= opt_vecs(v));
    }
}
/// A terminator found first in a prefix of the stream is found first in the stream.
pub proof fn lemma_first_prefix(buf: Bytes, rest: Bytes, term: Bytes, i: int)
    requires first_at(buf, term, 4111, i),
    ensures first_at(buf + rest, term, 4111, i),
        forall|j: int| first_at(buf + rest, term, 4111, j) ==> i == j,
{
    let s = buf + rest;
    assert(s.subrange(i, i + term.len()) =~= buf.subrange(i, i + term.len()));
    assert forall|j: int| 0 <= j < i implies !occurs_at(s, term, 4111, j) by {
        assert(s.subrange(j, j + term.len()) =~= buf.subrange(j, j + term.len()));
        assert(!occurs_at(buf, term, 4111, j));
    }
    assert forall|j: int| first_at(s, term, 4111, j) implies i == j by {
        if j < i { assert(!occurs_at(s, term, 4111, j)); }
        if i < j { assert(!occurs_at(s, term, 4111, i)); }
    }
}
/// Where the terminator is found decides what the stream leads to.
pub proof fn lemma_tail_found(d: Dir, term: Bytes, buf: Bytes, rest: Bytes, i: int)
    requires first_at(buf, term, 4111, i), term.len() == 16,
    ensures hs_tail(d, term, buf + rest) == hs_packets(d, buf.skip(i + 16) + rest, buf.take(i)),
{
    lemma_first_prefix(buf, rest, term, i);
    let s = buf + rest;
    assert(s.skip(i + 16) =~= buf.skip(i + 16) + rest);
    assert(s.take(i) =~= buf.take(i));
}
pub proof fn lemma_tail_none(d: Dir, term: Bytes, buf: Bytes, rest: Bytes)
    requires buf.len() >= 4111, term.len() == 16, forall|i: int| !occurs_at(buf, term, 4111, i),
    ensures hs_tail(d, term, buf + rest) == HsOut::NoTerm,
{
    let s = buf + rest;
    assert forall|i: int| !first_at(s, term, 4111, i) by {
        if occurs_at(s, term, 4111, i) {
            assert(s.subrange(i, i + term.len()) =~= buf.subrange(i, i + term.len()));
            assert(occurs_at(buf, term, 4111, i));
        }
    }
}
pub proof fn lemma_tail_eof(d: Dir, term: Bytes, s: Bytes)
    requires s.len() < 4111, forall|i: int| !occurs_at(s, term, 4111, i),
    ensures hs_tail(d, term, s) == HsOut::Eof,
{
    assert forall|i: int| !first_at(s, term, 4111, i) by { assert(!occurs_at(s, term, 4111, i)); }
}
/// All cases of a search in the bytes received so far.
pub proof fn lemma_tail(d: Dir, term: Bytes, buf: Bytes, rest: Bytes)
    requires term.len() == 16,
    ensures
        forall|i: int| #[trigger] first_at(buf, term, 4111, i) ==>
            hs_tail(d, term, buf + rest) == hs_packets(d, buf.skip(i + 16) + rest, buf.take(i)),
        buf.len() >= 4111 && (forall|i: int| !occurs_at(buf, term, 4111, i)) ==> hs_tail(d, term, buf + rest) == HsOut::NoTerm,
        buf.len() < 4111 && rest.len() == 0 && (forall|i: int| !occurs_at(buf, term, 4111, i)) ==> hs_tail(d, term, buf + rest) == HsOut::Eof,
        (buf + rest).len() < 16 ==> hs_tail(d, term, buf + rest) == HsOut::Eof,
{
    assert forall|i: int| #[trigger] first_at(buf, term, 4111, i) implies
            hs_tail(d, term, buf + rest) == hs_packets(d, buf.skip(i + 16) + rest, buf.take(i)) by {
        lemma_tail_found(d, term, buf, rest, i);
    }
    if buf.len() >= 4111 && (forall|i: int| !occurs_at(buf, term, 4111, i)) { lemma_tail_none(d, term, buf, rest); }
    if buf.len() < 4111 && rest.len() == 0 && (forall|i: int| !occurs_at(buf, term, 4111, i)) {
        assert(buf + rest =~= buf);
        lemma_tail_eof(d, term, buf);
    }
    if (buf + rest).len() < 16 { lemma_tail_short(d, term, buf + rest); }
}
/// Cutting a sequence that was put together.
pub proof fn lemma_split(s: Bytes)
    ensures
        forall|a: Bytes, b: Bytes| #[trigger] (a + b) == s ==> s.take(a.len() as int) == a && s.skip(a.len() as int) == b,
        forall|a: Bytes, b: Bytes| a.len() == 0 ==> #[trigger] (a + b) == b,
{
    assert forall|a: Bytes, b: Bytes| #[trigger] (a + b) == s implies s.take(a.len() as int) == a && s.skip(a.len() as int) == b by {
        assert((a + b).take(a.len() as int) =~= a);
        assert((a + b).skip(a.len() as int) =~= b);
    }
    assert forall|a: Bytes, b: Bytes| a.len() == 0 implies #[trigger] (a + b) == b by { assert(a + b =~= b); }
}
/// Reading in two steps.
pub proof fn lemma_cut(s: Bytes, k: nat)
    ensures
        forall|b: Bytes| b.len() == k ==> #[trigger] b.take(k as int) == b,
        s.len() >= k ==> s.take(k as int) + s.skip(k as int) == s,
        forall|n: int| 0 <= n && k + n <= s.len() ==> #[trigger] s.skip(k as int).take(n) == s.subrange(k as int, k + n),
        forall|n: int| 0 <= n && k + n <= s.len() ==> #[trigger] s.skip(k as int).skip(n) == s.skip(k + n),
        forall|b: Bytes, n: int| b.len() == n ==> #[trigger] b.take(n) == b,
{
    assert forall|b: Bytes, n: int| b.len() == n implies #[trigger] b.take(n) == b by { assert(b.take(n) =~= b); }
    if s.len() >= k { assert(s.take(k as int) + s.skip(k as int) =~= s); }
    assert forall|n: int| 0 <= n && k + n <= s.len() implies #[trigger] s.skip(k as int).take(n) == s.subrange(k as int, k + n) by {
        assert(s.skip(k as int).take(n) =~= s.subrange(k as int, k + n));
    }
    assert forall|n: int| 0 <= n && k + n <= s.len() implies #[trigger] s.skip(k as int).skip(n) == s.skip(k + n) by {
        assert(s.skip(k as int).skip(n) =~= s.skip(k + n));
    }
}
pub proof fn lemma_tail_short(d: Dir, term: Bytes, s: Bytes)
    requires s.len() < 16, term.len() == 16,
    ensures hs_tail(d, term, s) == HsOut::Eof,
{
    assert forall|i: int| !first_at(s, term, 4111, i) by { }
}

// ---- what an honest peer's bytes lead to

pub open spec fn decoy_aad(k: nat, aad: Bytes) -> Bytes { if k == 0 { aad } else { Seq::empty() } }
/// Packet k of the decoys lies where the lengths say.
pub proof fn lemma_decoy_at(d: Dir, ds: Seq<Bytes>, n: nat, aad: Bytes, k: nat)
    requires k < n <= ds.len(),
    ensures
        total_len(ds, k + 1) <= decoy_packets(d, ds, n, aad).len(),
        decoy_packets(d, ds, n, aad).subrange(total_len(ds, k) as int, total_len(ds, k + 1) as int)
            == packet(dir_steps(d, k), 128u8, ds[k as int], decoy_aad(k, aad)),
    decreases n
{
    broadcast use lemma_packet_len;
    lemma_decoys_len(d, ds, n, aad);
    lemma_decoys_len(d, ds, (n - 1) as nat, aad);
    let p = packet(dir_steps(d, (n - 1) as nat), 128u8, ds[n - 1], if n == 1 { aad } else { Seq::empty() });
    let init = decoy_packets(d, ds, (n - 1) as nat, aad);
    assert(decoy_packets(d, ds, n, aad) == init + p);
    if k == n - 1 {
        assert((init + p).subrange(init.len() as int, init.len() + p.len() as int) =~= p);
    } else {
        lemma_decoy_at(d, ds, (n - 1) as nat, aad, k);
        lemma_total_mono(ds, k + 1, (n - 1) as nat);
        assert((init + p).subrange(total_len(ds, k) as int, total_len(ds, k + 1) as int)
            =~= init.subrange(total_len(ds, k) as int, total_len(ds, k + 1) as int));
    }
}
/// One packet at the head of a stream, as the handshake sees it.
pub proof fn lemma_hs_step(d: Dir, h: u8, c: Bytes, aad: Bytes, rest: Bytes)
    requires c.len() + 17 <= 4000014,
    ensures
        hs_packets(d, packet(d, h, c, aad) + rest, aad) == if genuine_header(h) { HsOut::Done { ind: dir_step(d), rest } }
            else { hs_packets(dir_step(d), rest, Seq::empty()) },
{
    lemma_packet_roundtrip(d, h, c, aad);
    let p = packet(d, h, c, aad);
    let s = p + rest;
    assert(s.take(3) =~= p.take(3));
    let n = body_len(d, s.take(3));
    assert(s.subrange(3, 3 + n as int) =~= p.skip(3));
    assert(s.skip(3 + n as int) =~= rest);
    let d1 = dir_len_step(d);
    assert(d1.pk == d.pk && d1.pn == d.pn);
    assert(body_ok(d1, p.skip(3), aad));
    assert(body_plain(d1, p.skip(3))[0] == h);
}
pub proof fn lemma_hs_decoys(d: Dir, ds: Seq<Bytes>, aad: Bytes, tail: Bytes, k: nat)
    requires k <= ds.len(), forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).len() + 17 <= 4000014,
    ensures ({
        let full = decoy_packets(d, ds, ds.len(), aad) + packet(dir_steps(d, ds.len()), 0u8, Seq::empty(), decoy_aad(ds.len(), aad)) + tail;
        hs_packets(dir_steps(d, k), full.skip(total_len(ds, k) as int), decoy_aad(k, aad)) == (HsOut::Done { ind: dir_steps(d, ds.len() + 1), rest: tail })
    }),
    decreases ds.len() - k
{
    broadcast use lemma_packet_len;
    let n = ds.len();
    let v = packet(dir_steps(d, n), 0u8, Seq::empty(), decoy_aad(n, aad));
    let dp = decoy_packets(d, ds, n, aad);
    let full = dp + v + tail;
    lemma_decoys_len(d, ds, n, aad);
    lemma_total_mono(ds, k, n);
    assert(0u8 & 128u8 == 0u8) by (bit_vector);
    assert(128u8 & 128u8 == 128u8) by (bit_vector);
    if k == n {
        assert(full.skip(dp.len() as int) =~= v + tail);
        lemma_hs_step(dir_steps(d, n), 0u8, Seq::empty(), decoy_aad(n, aad), tail);
    } else {
        lemma_decoy_at(d, ds, n, aad, k);
        let p = packet(dir_steps(d, k), 128u8, ds[k as int], decoy_aad(k, aad));
        let rest = full.skip(total_len(ds, k + 1) as int);
        assert(full.skip(total_len(ds, k) as int) =~= p + rest) by {
            assert(full.subrange(total_len(ds, k) as int, total_len(ds, k + 1) as int) =~= p);
        }
        assert(ds[k as int].len() + 17 <= 4000014);
        lemma_hs_step(dir_steps(d, k), 128u8, ds[k as int], decoy_aad(k, aad), rest);
        lemma_hs_decoys(d, ds, aad, tail, k + 1);
    }
}
/// [C08,C09,C10,C12] What an honest peer sends leads to a finished handshake at the peer's position, with
/// nothing after its version packet consumed, unless its terminator happens to occur early by chance.
pub proof fn lemma_honest_tail(d: Dir, term: Bytes, g: Bytes, ds: Seq<Bytes>, tail: Bytes)
    requires
        term.len() == 16, g.len() <= 4095,
        forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).len() + 17 <= 4000014,
        forall|j: int| 0 <= j < g.len() ==> !#[trigger] occurs_at(g + version_message(d, term, ds, g) + tail, term, 4111, j),
    ensures hs_tail(d, term, g + version_message(d, term, ds, g) + tail) == (HsOut::Done { ind: dir_steps(d, ds.len() + 1), rest: tail }),
{
    let vm = version_message(d, term, ds, g);
    let s = g + vm + tail;
    let full = decoy_packets(d, ds, ds.len(), g) + packet(dir_steps(d, ds.len()), 0u8, Seq::empty(), decoy_aad(ds.len(), g)) + tail;
    assert(s.subrange(g.len() as int, (g.len() + 16) as int) =~= term);
    assert(first_at(s, term, 4111, g.len() as int));
    assert(s + Seq::empty() =~= s);
    lemma_tail_found(d, term, s, Seq::empty(), g.len() as int);
    assert(s.skip((g.len() + 16) as int) + Seq::<u8>::empty() =~= full);
    assert(s.take(g.len() as int) =~= g);
    lemma_hs_decoys(d, ds, g, tail, 0);
    assert(full.skip(0) =~= full);
}
} // verus!
