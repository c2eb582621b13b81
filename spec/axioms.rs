verus! {
pub broadcast axiom fn ax_arr_eq<const N: usize>(a: [u8; N], b: [u8; N])
    ensures #[trigger] PartialEqSpec::<[u8; N]>::eq_spec(&a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_arr_obeys<const N: usize>()
    ensures #[trigger] <[u8; N] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn ax_sl_arr_eq<const N: usize>(a: &[u8], b: [u8; N])
    ensures #[trigger] PartialEqSpec::<[u8; N]>::eq_spec(a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_sl_arr_obeys<const N: usize>()
    ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn ax_sl_eq(a: &[u8], b: &[u8])
    ensures #[trigger] PartialEqSpec::<[u8]>::eq_spec(a, b) == (a@ =~= b@);
pub broadcast axiom fn ax_sl_obeys()
    ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_rsl_arr_eq<const N: usize>(a: &[u8], b: [u8; N])
    ensures #[trigger] <&[u8] as PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_rsl_arr_obeys<const N: usize>()
    ensures #[trigger] <&[u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn ax_arr_sl_eq<const N: usize>(a: [u8; N], b: &[u8])
    ensures #[trigger] <[u8; N] as PartialEqSpec<[u8]>>::eq_spec(&a, b) == (a@ =~= b@);
pub broadcast axiom fn ax_arr_sl_obeys<const N: usize>()
    ensures #[trigger] <[u8; N] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_arr_rsl_eq<const N: usize>(a: [u8; N], b: &[u8])
    ensures #[trigger] <[u8; N] as PartialEqSpec<&[u8]>>::eq_spec(&a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_arr_rsl_obeys<const N: usize>()
    ensures #[trigger] <[u8; N] as PartialEqSpec<&[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_vec_arr_eq<const N: usize>(a: Vec<u8>, b: [u8; N])
    ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8; N]>>::eq_spec(&a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_vec_arr_obeys<const N: usize>()
    ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn ax_vec_sl_eq(a: Vec<u8>, b: &[u8])
    ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::eq_spec(&a, b) == (a@ =~= b@);
pub broadcast axiom fn ax_vec_sl_obeys()
    ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_vec_rsl_eq(a: Vec<u8>, b: &[u8])
    ensures #[trigger] <Vec<u8> as PartialEqSpec<&[u8]>>::eq_spec(&a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_vec_rsl_obeys()
    ensures #[trigger] <Vec<u8> as PartialEqSpec<&[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_sl_vec_eq(a: &[u8], b: Vec<u8>)
    ensures #[trigger] <[u8] as PartialEqSpec<Vec<u8>>>::eq_spec(a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_sl_vec_obeys()
    ensures #[trigger] <[u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
/// A Poly1305 tag has 16 bytes.
pub broadcast axiom fn ax_tag_len(k: Seq<u8>, n: Seq<u8>, a: Seq<u8>, c: Seq<u8>)
    ensures (#[trigger] crate::vspec::poly_tag(k, n, a, c)).len() == 16;
/// HKDF yields as many bytes as asked for.
pub broadcast axiom fn ax_hkdf_len(s: Seq<u8>, k: Seq<u8>, i: Seq<u8>, n: nat)
    ensures (#[trigger] crate::vspec::hkdf_sha256(s, k, i, n)).len() == n;
/// Every environment grants the protocol's limit.
pub broadcast axiom fn ax_alloc()
    ensures #[trigger] crate::vspec::alloc_limit() >= 4000014;
/// No slice is longer than `isize::MAX` bytes.
pub broadcast axiom fn ax_slice_max(s: &[u8])
    ensures #[trigger] s@.len() <= isize::MAX;
/// `From<T> for T` is the identity.
pub broadcast axiom fn ax_from_self<T>(a: T)
    ensures #[trigger] <T as FromSpec<T>>::from_spec(a) == a;
pub broadcast axiom fn ax_from_self_obeys<T>()
    ensures #[trigger] <T as FromSpec<T>>::obeys_from_spec();
pub broadcast group group_eq {
    ax_arr_eq, ax_arr_obeys, ax_sl_arr_eq, ax_sl_arr_obeys, ax_sl_eq, ax_sl_obeys, ax_rsl_arr_eq, ax_rsl_arr_obeys, ax_arr_sl_eq, ax_arr_sl_obeys, ax_arr_rsl_eq, ax_arr_rsl_obeys, ax_vec_arr_eq, ax_vec_arr_obeys, ax_vec_sl_eq, ax_vec_sl_obeys, ax_vec_rsl_eq, ax_vec_rsl_obeys, ax_sl_vec_eq, ax_sl_vec_obeys, ax_from_self, ax_from_self_obeys, ax_tag_len, ax_alloc, ax_slice_max, crate::vspec::lemma_le_val4_inj, crate::vspec::lemma_be_val4_inj,
}
}
