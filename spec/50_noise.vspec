=== type noiseexplorer_nx::types::PrivateKey
derive- PartialEq
=== type noiseexplorer_nx::types::PublicKey
derive- PartialEq
=== type noiseexplorer_nx::types::Keypair
derive- PartialEq
=== skip noiseexplorer_nx::error::<NoiseError as Display>
=== skip noiseexplorer_nx::error::<NoiseError as Error>

=== mod noiseexplorer_nx::utils
/// 4 zero bytes, then the little-endian counter
pub open spec fn nb(n: int) -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8] + le8(n) }
=== fn noiseexplorer_nx::utils::from_slice_hashlen
requires:
[C17:pre] bytes@.len() >= 32
ensures:
[C15+C18:slice] r@ == bytes@.take(32)
=== fn noiseexplorer_nx::utils::prep_nonce
ensures:
[C15+C16:nonce-bytes] r@ == nb(n as int)

=== mod noiseexplorer_nx::prims
use crate::ext::blake2_rfc::blake2s::blake2s;
use crate::noiseexplorer_nx::utils::nb;
pub open spec fn pad_to(key: Seq<u8>, b: u8, n: int) -> Seq<u8> { Seq::new(64, |i: int| if i < n { b ^ key[i] } else { b }) }
pub open spec fn pad(key: Seq<u8>, b: u8) -> Seq<u8> { pad_to(key, b, key.len() as int) }
/// HMAC-BLAKE2s (RFC 2104) with a key of at most one block
#[verifier::opaque]
pub open spec fn hmac_spec(key: Seq<u8>, data: Seq<u8>) -> Seq<u8> { blake2s(32, pad(key, 0x5c) + blake2s(32, pad(key, 0x36) + data)) }
/// HKDF of the Noise specification (section 4.3)
#[verifier::opaque]
pub open spec fn hkdf1(ck: Seq<u8>, ikm: Seq<u8>) -> Seq<u8> { hmac_spec(hmac_spec(ck, ikm), seq![1u8]) }
#[verifier::opaque]
pub open spec fn hkdf2(ck: Seq<u8>, ikm: Seq<u8>) -> Seq<u8> { hmac_spec(hmac_spec(ck, ikm), hkdf1(ck, ikm) + seq![2u8]) }
#[verifier::opaque]
pub open spec fn hkdf3(ck: Seq<u8>, ikm: Seq<u8>) -> Seq<u8> { hmac_spec(hmac_spec(ck, ikm), hkdf2(ck, ikm) + seq![3u8]) }
pub broadcast proof fn lemma_hmac_len(key: Seq<u8>, data: Seq<u8>)
    ensures (#[trigger] hmac_spec(key, data)).len() == 32
{ reveal(hmac_spec); crate::ext::blake2_rfc::blake2s::axiom_blake_len(32, pad(key, 0x5c) + blake2s(32, pad(key, 0x36) + data)); }
pub broadcast proof fn lemma_hkdf1_len(ck: Seq<u8>, ikm: Seq<u8>) ensures (#[trigger] hkdf1(ck, ikm)).len() == 32 { reveal(hkdf1); lemma_hmac_len(hmac_spec(ck, ikm), seq![1u8]); }
pub broadcast proof fn lemma_hkdf2_len(ck: Seq<u8>, ikm: Seq<u8>) ensures (#[trigger] hkdf2(ck, ikm)).len() == 32 { reveal(hkdf2); lemma_hmac_len(hmac_spec(ck, ikm), hkdf1(ck, ikm) + seq![2u8]); }
pub broadcast proof fn lemma_hkdf3_len(ck: Seq<u8>, ikm: Seq<u8>) ensures (#[trigger] hkdf3(ck, ikm)).len() == 32 { reveal(hkdf3); lemma_hmac_len(hmac_spec(ck, ikm), hkdf2(ck, ikm) + seq![3u8]); }
pub broadcast group group_prims {
    lemma_hmac_len, lemma_hkdf1_len, lemma_hkdf2_len, lemma_hkdf3_len, crate::ext::blake2_rfc::blake2s::axiom_blake_len,
}
pub mod aead {
    pub use crate::ext::hacl_star::chacha20poly1305::{ct, tag, pt};
}
=== fn noiseexplorer_nx::prims::encrypt
ensures:
[C15+C16:aead] final(in_out)@ == aead::ct(k@, nb(n as int), ad@, old(in_out)@)
[C15+C16:aead] final(mac)@ == aead::tag(k@, nb(n as int), ad@, old(in_out)@)
=== fn noiseexplorer_nx::prims::decrypt
ensures:
[C15+C16:aead] r == (mac@ == aead::tag(k@, nb(n as int), ad@, aead::pt(k@, nb(n as int), ad@, old(in_out)@)))
[C15+C16:aead] r ==> final(in_out)@ == aead::pt(k@, nb(n as int), ad@, old(in_out)@)
[C17:len] final(in_out)@.len() == old(in_out)@.len()
=== fn noiseexplorer_nx::prims::hash
ensures:
[C15:hash] r@ == blake2s(32, data@)
start:
broadcast use group_prims;
=== fn noiseexplorer_nx::prims::hash_with_context
ensures:
[C15:hash] r@ == blake2s(32, con@ + data@)
start:
broadcast use group_prims;
=== fn noiseexplorer_nx::prims::hmac
requires:
[C17:pre] key@.len() <= 64
[C17:pre] old(out)@.len() == 32
ensures:
[C17:len] final(out)@.len() == 32
[C15:hmac] forall|k: Seq<u8>, d: Seq<u8>| k =~= key@ && d =~= data@ ==> final(out)@ == #[trigger] hmac_spec(k, d)
start:
broadcast use group_prims;
reveal(hmac_spec);
bind: ipad = [0x36
bind: opad = [0x5c
loop:
invariant
    ipad@ =~= pad_to(key@, 0x36, it0.index@),
    opad@ =~= pad_to(key@, 0x5c, it0.index@),
=== fn noiseexplorer_nx::prims::hkdf
requires:
[C17:pre] chaining_key@.len() <= 64
[C17:pre] old(out1)@.len() == 32 && old(out2)@.len() == 32 && old(out3)@.len() == 32
ensures:
[C15:hkdf] forall|d: Seq<u8>| d =~= input_key_material@ ==> final(out1)@ == #[trigger] hkdf1(chaining_key@, d)
[C15:hkdf] outputs >= 2 ==> (forall|d: Seq<u8>| d =~= input_key_material@ ==> final(out2)@ == #[trigger] hkdf2(chaining_key@, d))
[C15:hkdf] outputs >= 3 ==> (forall|d: Seq<u8>| d =~= input_key_material@ ==> final(out3)@ == #[trigger] hkdf3(chaining_key@, d))
[C17:len] final(out2)@.len() == 32 && final(out3)@.len() == 32
start:
broadcast use group_prims;
reveal(hkdf1); reveal(hkdf2); reveal(hkdf3);

=== mod noiseexplorer_nx::types
use crate::ext::zeroize::zeros;
use crate::ext::hacl_star::curve25519::{pubkey, x25519};
=== fn noiseexplorer_nx::types::decode_str_32
ensures:
[C22:parse] r is Ok <==> s@.len() == 64 && crate::ext::hex::is_hex(s@)
[C22:parse] r is Ok ==> r->Ok_0@ == crate::ext::hex::unhex(s@)
=== fn noiseexplorer_nx::types::Hash::clear
ensures:
[C19:wipe] final(self).h@ == zeros(32)
=== fn noiseexplorer_nx::types::Hash::from_bytes
ensures:
[C15:keep] r.h == hash
=== fn noiseexplorer_nx::types::Hash::as_bytes
ensures:
[C15:keep] r == self.h
=== fn noiseexplorer_nx::types::Hash::new
ensures:
[C14:init] r.h@ == zeros(32)

=== fn noiseexplorer_nx::types::Key::clear
ensures:
[C19:wipe] final(self).k@ == zeros(32)
=== fn noiseexplorer_nx::types::Key::new
ensures:
[C16+C22:empty] r.k@ == zeros(32)
=== fn noiseexplorer_nx::types::Key::from_bytes
ensures:
[C15+C22:keep] r.k == key
=== fn noiseexplorer_nx::types::Key::as_bytes
ensures:
[C15+C22:keep] r == self.k
=== fn noiseexplorer_nx::types::Key::is_empty
ensures:
[C16+C22:empty] r == (self.k@ == zeros(32))
=== fn noiseexplorer_nx::types::Key::generate_public_key
ensures:
[C22:public] r.k@ == pubkey(private_key@)
=== fn noiseexplorer_nx::types::<Key as FromStr>::from_str
ensures:
[C22:parse] r is Ok <==> key@.len() == 64 && crate::ext::hex::is_hex(key@)
[C22:parse] r is Ok ==> r->Ok_0.k@ == crate::ext::hex::unhex(key@)

=== fn noiseexplorer_nx::types::Psk::default
ensures:
[C22:empty] r.psk@ == zeros(32)
=== fn noiseexplorer_nx::types::Psk::clear
ensures:
[C19:wipe] final(self).psk@ == zeros(32)
=== fn noiseexplorer_nx::types::Psk::from_bytes
ensures:
[C22:keep] r.psk == k
=== fn noiseexplorer_nx::types::Psk::as_bytes
ensures:
[C22:keep] r == self.psk
=== fn noiseexplorer_nx::types::Psk::is_empty
ensures:
[C22:empty] r == (self.psk@ == zeros(32))
=== fn noiseexplorer_nx::types::<Psk as FromStr>::from_str
ensures:
[C22:parse] r is Ok <==> k@.len() == 64 && crate::ext::hex::is_hex(k@)
[C22:parse] r is Ok ==> r->Ok_0.psk@ == crate::ext::hex::unhex(k@)

=== fn noiseexplorer_nx::types::PrivateKey::clear
ensures:
[C19:wipe] final(self).k@ == zeros(32)
=== fn noiseexplorer_nx::types::PrivateKey::empty
ensures:
[C22:empty] r.k@ == zeros(32)
=== fn noiseexplorer_nx::types::PrivateKey::from_bytes
ensures:
[C22:keep] r.k == k
=== fn noiseexplorer_nx::types::PrivateKey::from_hacl_secret_key
ensures:
[C22:keep] r.k == hacl_secret.0
=== fn noiseexplorer_nx::types::PrivateKey::as_bytes
ensures:
[C15+C22:keep] r == self.k
=== fn noiseexplorer_nx::types::PrivateKey::is_empty
ensures:
[C22:empty] r == (self.k@ == zeros(32))
=== fn noiseexplorer_nx::types::PrivateKey::generate_public_key
ensures:
[C22:refuse-empty] r is Ok <==> self.k@ != zeros(32)
[C22:public] r is Ok ==> r->Ok_0.k@ == pubkey(self.k@)
=== fn noiseexplorer_nx::types::<PrivateKey as FromStr>::from_str
ensures:
[C22:parse] r is Ok <==> key@.len() == 64 && crate::ext::hex::is_hex(key@)
[C22:parse] r is Ok ==> r->Ok_0.k@ == crate::ext::hex::unhex(key@)

=== mod noiseexplorer_nx::types
/// the twelve low-order encodings of Curve25519 points (https://cr.yp.to/ecdh.html#validate)
pub open spec fn low_order(j: int) -> Seq<u8> {
    if j == 0 { seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
    else if j == 1 { seq![1u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
    else if j == 2 { seq![224u8, 235u8, 122u8, 124u8, 59u8, 65u8, 184u8, 174u8, 22u8, 86u8, 227u8, 250u8, 241u8, 159u8, 196u8, 106u8, 218u8, 9u8, 141u8, 235u8, 156u8, 50u8, 177u8, 253u8, 134u8, 98u8, 5u8, 22u8, 95u8, 73u8, 184u8, 0u8] }
    else if j == 3 { seq![95u8, 156u8, 149u8, 188u8, 163u8, 80u8, 140u8, 36u8, 177u8, 208u8, 177u8, 85u8, 156u8, 131u8, 239u8, 91u8, 4u8, 68u8, 92u8, 196u8, 88u8, 28u8, 142u8, 134u8, 216u8, 34u8, 78u8, 221u8, 208u8, 159u8, 17u8, 87u8] }
    else if j == 4 { seq![236u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 127u8] }
    else if j == 5 { seq![237u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 127u8] }
    else if j == 6 { seq![238u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 127u8] }
    else if j == 7 { seq![205u8, 235u8, 122u8, 124u8, 59u8, 65u8, 184u8, 174u8, 22u8, 86u8, 227u8, 250u8, 241u8, 159u8, 196u8, 106u8, 218u8, 9u8, 141u8, 235u8, 156u8, 50u8, 177u8, 253u8, 134u8, 98u8, 5u8, 22u8, 95u8, 73u8, 184u8, 128u8] }
    else if j == 8 { seq![76u8, 156u8, 149u8, 188u8, 163u8, 80u8, 140u8, 36u8, 177u8, 208u8, 177u8, 85u8, 156u8, 131u8, 239u8, 91u8, 4u8, 68u8, 92u8, 196u8, 88u8, 28u8, 142u8, 134u8, 216u8, 34u8, 78u8, 221u8, 208u8, 159u8, 17u8, 215u8] }
    else if j == 9 { seq![217u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8] }
    else if j == 10 { seq![218u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8] }
    else { seq![219u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8] }
}
#[verifier::opaque]
pub open spec fn forbidden(k: Seq<u8>) -> bool { exists|j: int| 0 <= j < 12 && k == #[trigger] low_order(j) }
/// a key pair as every constructor but new_empty makes it
pub open spec fn paired(p: Keypair) -> bool { p.public_key.k@ == pubkey(p.private_key.k@) }
=== fn noiseexplorer_nx::types::PublicKey::empty
ensures:
[C22:empty] r.k@ == zeros(32)
=== fn noiseexplorer_nx::types::PublicKey::from_bytes
ensures:
[C18:forbidden] r is Ok <==> !forbidden(k@)
[C18:keep] r is Ok ==> r->Ok_0.k@ == k@
start:
reveal(forbidden);
let forbidden_table = forbidden_curve_values;
proof {
    assert forall|j: int| 0 <= j < 12 implies (#[trigger] forbidden_table@[j])@ == low_order(j) by {
        if j == 0 {} else if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {}
        else if j == 6 {} else if j == 7 {} else if j == 8 {} else if j == 9 {} else if j == 10 {} else {}
    }
}
loop:
invariant
    it0.seq().len() == 12,
    forall|j: int| 0 <= j < 12 ==> (#[trigger] forbidden_table@[j])@ == low_order(j),
    forall|j: int| 0 <= j < 12 ==> (#[trigger] it0.seq()[j])@ == low_order(j),
    forall|j: int| 0 <= j < it0.index@ ==> k@ != #[trigger] low_order(j),
=== fn noiseexplorer_nx::types::PublicKey::clear
ensures:
[C19:wipe] final(self).k@ == zeros(32)
=== fn noiseexplorer_nx::types::PublicKey::from_hacl_public_key
ensures:
[C22:keep] r.k == hacl_public.0
=== fn noiseexplorer_nx::types::PublicKey::as_bytes
ensures:
[C15+C18+C22:keep] r == self.k
=== fn noiseexplorer_nx::types::PublicKey::is_empty
ensures:
[C22:empty] r == (self.k@ == zeros(32))
=== fn noiseexplorer_nx::types::<PublicKey as FromStr>::from_str
ensures:
[C22:parse] r is Ok <==> key@.len() == 64 && crate::ext::hex::is_hex(key@)
[C22:parse] r is Ok ==> r->Ok_0.k@ == crate::ext::hex::unhex(key@)

=== fn noiseexplorer_nx::types::Nonce::new
ensures:
[C16:zero] r.n == 0
=== fn noiseexplorer_nx::types::Nonce::increment
requires:
[C16+C17:pre] old(self).n < u64::MAX
ensures:
[C16:step] final(self).n == old(self).n + 1
=== fn noiseexplorer_nx::types::Nonce::get_value
ensures:
[C16:limit] r is Ok <==> self.n < u64::MAX
[C16:value] r is Ok ==> r->Ok_0 == self.n

=== fn noiseexplorer_nx::types::Keypair::clear
ensures:
[C19:wipe] final(self).private_key.k@ == zeros(32) && final(self).public_key.k@ == zeros(32)
=== fn noiseexplorer_nx::types::Keypair::new_empty
ensures:
[C22:empty] r.private_key.k@ == zeros(32) && r.public_key.k@ == zeros(32)
=== fn noiseexplorer_nx::types::Keypair::default
ensures:
[C22:pair] paired(r)
[C31:drawn] crate::ext::rand::drawn(r.private_key.k@)
=== fn noiseexplorer_nx::types::Keypair::dh
ensures:
[C15:dh] r@ == x25519(self.private_key.k@, public_key@)
=== fn noiseexplorer_nx::types::Keypair::is_empty
ensures:
[C22:empty] r == (self.private_key.k@ == zeros(32))
=== fn noiseexplorer_nx::types::Keypair::from_key
ensures:
[C22:refuse-empty] r is Ok <==> k.k@ != zeros(32)
[C22:pair] r is Ok ==> r->Ok_0.private_key == k && paired(r->Ok_0)
=== fn noiseexplorer_nx::types::Keypair::from_private_key
ensures:
[C22:refuse-empty] r is Ok <==> k.k@ != zeros(32)
[C22:pair] r is Ok ==> r->Ok_0.private_key == k && paired(r->Ok_0)
=== fn noiseexplorer_nx::types::Keypair::get_public_key
ensures:
[C15+C22:keep] r == self.public_key
