// Assumed contracts of the crates and standard library parts the code calls. Nothing here is
// verified; every function is listed in the evidence as trusted.
pub mod deps {

pub mod chacha20_poly1305 {
    use vstd::prelude::*;
    use crate::vspec::*;
    verus! {
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub enum Error { UnauthenticatedAdditionalData }

    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Key { x: u8 }
    impl Key {
        pub uninterp spec fn view(&self) -> Bytes;
        #[verifier::external_body]
        pub fn new(k: [u8; 32]) -> (r: Key) ensures r@ == k@ { unimplemented!() }
    }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Nonce { x: u8 }
    impl Nonce {
        pub uninterp spec fn view(&self) -> Bytes;
        #[verifier::external_body]
        pub fn new(k: [u8; 12]) -> (r: Nonce) ensures r@ == k@ { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct ChaCha20Poly1305 { x: u8 }
    impl ChaCha20Poly1305 {
        pub uninterp spec fn key(&self) -> Bytes;
        pub uninterp spec fn nonce(&self) -> Bytes;
        #[verifier::external_body]
        pub fn new(k: Key, n: Nonce) -> (r: Self)
            ensures r.key() == k@, r.nonce() == n@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn encrypt(self, content: &mut [u8], aad: Option<&[u8]>) -> (r: [u8; 16])
            ensures
                final(content)@ == aead_crypt(self.key(), self.nonce(), old(content)@),
                r@ == poly_tag(self.key(), self.nonce(), opt_bytes(aad), final(content)@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn decrypt(self, content: &mut [u8], tag: [u8; 16], aad: Option<&[u8]>) -> (r: Result<(), Error>)
            ensures
                r.is_ok() <==> tag@ == poly_tag(self.key(), self.nonce(), opt_bytes(aad), old(content)@),
                r.is_ok() ==> final(content)@ == aead_crypt(self.key(), self.nonce(), old(content)@),
                r.is_err() ==> final(content)@ == old(content)@,
        { unimplemented!() }
    }
    } // verus!
    pub mod chacha20 {
        use vstd::prelude::*;
        use crate::vspec::*;
        use super::{Key, Nonce};
        verus! {
        #[verifier::external_body]
        pub struct ChaCha20 { x: u8 }
        impl ChaCha20 {
            pub uninterp spec fn key(&self) -> Bytes;
            pub uninterp spec fn nonce(&self) -> Bytes;
            pub uninterp spec fn pos(&self) -> nat;
            #[verifier::external_body]
            pub fn new(k: Key, n: Nonce, seek: u32) -> (r: Self)
                ensures r.key() == k@, r.nonce() == n@, r.pos() == seek
            { unimplemented!() }
            #[verifier::external_body]
            pub fn new_from_block(k: Key, n: Nonce, block: u32) -> (r: Self)
                ensures r.key() == k@, r.nonce() == n@, r.pos() == 64 * block
            { unimplemented!() }
            #[verifier::external_body]
            pub fn seek(&mut self, seek: u32)
                ensures final(self).key() == old(self).key(), final(self).nonce() == old(self).nonce(), final(self).pos() == seek
            { unimplemented!() }
            #[verifier::external_body]
            pub fn block(&mut self, block: u32)
                ensures final(self).key() == old(self).key(), final(self).nonce() == old(self).nonce(), final(self).pos() == 64 * block
            { unimplemented!() }
            #[verifier::external_body]
            pub fn apply_keystream(&mut self, buffer: &mut [u8])
                requires old(self).pos() + old(buffer)@.len() <= 274877906944, // keystream exhausted
                ensures
                    final(self).key() == old(self).key(), final(self).nonce() == old(self).nonce(),
                    final(self).pos() == old(self).pos() + old(buffer)@.len(),
                    final(buffer)@ == xor_ks(old(self).key(), old(self).nonce(), old(self).pos(), old(buffer)@),
            { unimplemented!() }
        }
        } // verus!
    }
}

pub mod bitcoin_hashes {
    pub mod sha256 {
        use vstd::prelude::*;
        verus! { pub struct Hash { pub x: u8 } }
    }
    pub mod hkdf {
        use vstd::prelude::*;
        verus! {
        #[derive(Clone, Copy, PartialEq, Eq, Structural)]
        pub struct MaxLengthError { pub max: usize }
        }
    }
    use vstd::prelude::*;
    use crate::vspec::*;
    verus! {
    /// HKDF (only ever instantiated with SHA-256 here).
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Hkdf<T> { x: core::marker::PhantomData<T> }
    impl<T> Hkdf<T> {
        pub uninterp spec fn salt(&self) -> Bytes;
        pub uninterp spec fn ikm(&self) -> Bytes;
        #[verifier::external_body]
        pub fn new(salt: &[u8], ikm: &[u8]) -> (r: Self)
            ensures r.salt() == salt@, r.ikm() == ikm@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> (r: Result<(), hkdf::MaxLengthError>)
            ensures
                r.is_ok() <==> old(okm)@.len() <= 8160,
                final(okm)@.len() == old(okm)@.len(),
                r.is_ok() ==> final(okm)@ == hkdf_sha256(self.salt(), self.ikm(), info@, old(okm)@.len()),
        { unimplemented!() }
    }
    } // verus!
}

pub mod borrow {
    use vstd::prelude::*;
    verus! {
    pub trait Borrow<T> {
        spec fn borrowed(&self) -> T;
        fn borrow(&self) -> (r: &T) ensures *r == self.borrowed();
    }
    impl<T> Borrow<T> for T {
        open spec fn borrowed(&self) -> T { *self }
        fn borrow(&self) -> (r: &T) { self }
    }
    } // verus!
}

pub mod cmp {
    use vstd::prelude::*;
    verus! {
    pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
    pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
    }
}

pub mod secp256k1 {
    use vstd::prelude::*;
    use crate::vspec::*;
    pub mod rand {
        use vstd::prelude::*;
        use crate::vspec::*;
        verus! {
        #[verifier::external_body]
        pub struct ThreadRng { x: u8 }
        #[verifier::external_body]
        pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }
        impl crate::FillBytes for ThreadRng {
            #[verifier::external_body]
            fn fill_bytes(&mut self, dest: &mut [u8; 32]) { unimplemented!() }
        }
        }
    }
    verus! {
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Error { x: u8 }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct SecretKey { x: u8 }
    impl SecretKey {
        #[verifier::external_body]
        pub fn from_slice(b: &[u8]) -> (r: Result<SecretKey, Error>)
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct PublicKey { x: u8 }
    pub uninterp spec fn pub_of(sk: SecretKey) -> PublicKey;
    pub trait Signing {}
    #[verifier::external_body]
    pub struct SignOnly { x: u8 }
    impl Signing for SignOnly {}
    #[verifier::external_body]
    #[verifier::reject_recursive_types(C)]
    pub struct Secp256k1<C> { x: core::marker::PhantomData<C> }
    impl Secp256k1<SignOnly> {
        #[verifier::external_body]
        pub fn signing_only() -> Self { unimplemented!() }
    }
    impl PublicKey {
        #[verifier::external_body]
        pub fn from_secret_key<C: Signing>(curve: &Secp256k1<C>, sk: &SecretKey) -> (r: PublicKey)
            ensures r == pub_of(*sk)
        { unimplemented!() }
    }
    } // verus!
    pub mod ellswift {
        use vstd::prelude::*;
        use crate::vspec::*;
        use super::*;
        verus! {
        #[derive(Clone, Copy, PartialEq, Eq, Structural)]
        pub enum ElligatorSwiftParty { A, B }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct ElligatorSwift { x: u8 }
        #[verifier::external_body]
        pub struct ElligatorSwiftSharedSecret { x: u8 }
        impl ElligatorSwiftSharedSecret {
            pub uninterp spec fn view(&self) -> Bytes;
            #[verifier::external_body]
            pub fn as_secret_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
        }
        /// The public key an encoding stands for.
        pub uninterp spec fn decode(es: Bytes) -> PublicKey;
        pub uninterp spec fn ecdh(a: Bytes, b: Bytes, sk: SecretKey, first: bool, data: Bytes) -> Bytes;
        impl ElligatorSwift {
            pub uninterp spec fn view(&self) -> Bytes;
            #[verifier::external_body]
            pub fn from_array(a: [u8; 64]) -> (r: Self) ensures r@ == a@ { unimplemented!() }
            #[verifier::external_body]
            pub fn to_array(&self) -> (r: [u8; 64]) ensures r@ == self@ { unimplemented!() }
            #[verifier::external_body]
            pub fn from_pubkey(pk: PublicKey) -> (r: Self) ensures decode(r@) == pk, r@.len() == 64 { unimplemented!() }
            #[verifier::external_body]
            pub fn shared_secret(a: Self, b: Self, sk: SecretKey, party: ElligatorSwiftParty, data: Option<&[u8]>) -> (r: ElligatorSwiftSharedSecret)
                ensures r@ == ecdh(a@, b@, sk, party == ElligatorSwiftParty::A, opt_bytes(data))
            { unimplemented!() }
        }
        /// Both parties of an ECDH over ElligatorSwift encodings obtain the same secret.
        pub axiom fn axiom_ecdh_agree(a: Bytes, b: Bytes, ska: SecretKey, skb: SecretKey, data: Bytes)
            requires decode(a) == pub_of(ska), decode(b) == pub_of(skb),
            ensures ecdh(a, b, ska, true, data) == ecdh(a, b, skb, false, data);
        } // verus!
    }
}

@@IODEPS@@
} // mod deps
