=== mod noiseexplorer_nx::state
use crate::ext::zeroize::zeros;
use crate::ext::hacl_star::curve25519::{pubkey, x25519};
use crate::ext::hacl_star::chacha20poly1305::{ct, tag, pt};
use crate::ext::blake2_rfc::blake2s::blake2s;
use crate::noiseexplorer_nx::prims::{hkdf1, hkdf2, hkdf3};
use crate::noiseexplorer_nx::utils::nb;
use crate::noiseexplorer_nx::types::{forbidden, paired};

/// The SymmetricState of the Noise specification (section 5.2), as mathematics
pub ghost struct Sym { pub k: Seq<u8>, pub n: int, pub ck: Seq<u8>, pub h: Seq<u8> }
pub open spec fn sym(s: SymmetricState) -> Sym { Sym { k: s.cs.k.k@, n: s.cs.n.n as int, ck: s.ck.h@, h: s.h.h@ } }
pub open spec fn init_h(name: Seq<u8>) -> Seq<u8> {
    if name.len() <= 32 { name + zeros((32 - name.len()) as nat) } else { blake2s(32, name) }
}
pub open spec fn init_s(name: Seq<u8>) -> Sym { Sym { k: zeros(32), n: 0, ck: init_h(name), h: init_h(name) } }
pub open spec fn mix_hash_s(s: Sym, d: Seq<u8>) -> Sym { Sym { h: blake2s(32, s.h + d), ..s } }
pub open spec fn mix_key_s(s: Sym, ikm: Seq<u8>) -> Sym { Sym { ck: hkdf1(s.ck, ikm), k: hkdf2(s.ck, ikm), n: 0, ..s } }
pub open spec fn mix_key_and_hash_s(s: Sym, ikm: Seq<u8>) -> Sym {
    Sym { ck: hkdf1(s.ck, ikm), h: blake2s(32, s.h + hkdf2(s.ck, ikm)), k: hkdf3(s.ck, ikm), n: 0 }
}
/// AEAD output (ciphertext followed by tag), and its opening
pub open spec fn seal(k: Seq<u8>, n: int, ad: Seq<u8>, p: Seq<u8>) -> Seq<u8> { ct(k, nb(n), ad, p) + tag(k, nb(n), ad, p) }
pub open spec fn unseal(k: Seq<u8>, n: int, ad: Seq<u8>, c: Seq<u8>) -> Seq<u8> { pt(k, nb(n), ad, c.take(c.len() - 16)) }
pub open spec fn genuine(k: Seq<u8>, n: int, ad: Seq<u8>, c: Seq<u8>) -> bool {
    c.len() >= 16 && c.skip(c.len() - 16) == tag(k, nb(n), ad, unseal(k, n, ad, c))
}
/// a cipher state that can still be used
pub open spec fn usable(k: Seq<u8>, n: int) -> bool { k != zeros(32) && n < u64::MAX }
/// EncryptAndHash / DecryptAndHash
pub open spec fn enc_out(s: Sym, p: Seq<u8>) -> Seq<u8> { seal(s.k, s.n, s.h, p) }
pub open spec fn enc_s(s: Sym, p: Seq<u8>) -> Sym { mix_hash_s(Sym { n: s.n + 1, ..s }, enc_out(s, p)) }
pub open spec fn dec_ok(s: Sym, c: Seq<u8>) -> bool { usable(s.k, s.n) && genuine(s.k, s.n, s.h, c) }
pub open spec fn dec_out(s: Sym, c: Seq<u8>) -> Seq<u8> { unseal(s.k, s.n, s.h, c) }
pub open spec fn dec_s(s: Sym, c: Seq<u8>) -> Sym { mix_hash_s(Sym { n: s.n + 1, ..s }, c) }

/// second handshake message, writer side: e, ee, s, es
pub open spec fn wb1(s: Sym, e: Keypair, re: Seq<u8>) -> Sym { mix_key_s(mix_hash_s(s, e.public_key.k@), x25519(e.private_key.k@, re)) }
pub open spec fn wb2(s: Sym, e: Keypair, st: Keypair, re: Seq<u8>) -> Sym {
    mix_key_s(enc_s(wb1(s, e, re), st.public_key.k@), x25519(st.private_key.k@, re))
}
pub open spec fn wb3(s: Sym, e: Keypair, st: Keypair, re: Seq<u8>, p: Seq<u8>) -> Sym { enc_s(wb2(s, e, st, re), p) }
pub open spec fn wb_out(s: Sym, e: Keypair, st: Keypair, re: Seq<u8>, p: Seq<u8>) -> Seq<u8> {
    e.public_key.k@ + enc_out(wb1(s, e, re), st.public_key.k@) + enc_out(wb2(s, e, st, re), p)
}
pub open spec fn wb_ok(s: Sym, e: Keypair, st: Keypair, re: Seq<u8>) -> bool {
    wb1(s, e, re).k != zeros(32) && wb2(s, e, st, re).k != zeros(32)
}
/// second handshake message, reader side
pub open spec fn rb1(s: Sym, e: Seq<u8>, m: Seq<u8>) -> Sym { mix_key_s(mix_hash_s(s, m.take(32)), x25519(e, m.take(32))) }
pub open spec fn rb_rs(s: Sym, e: Seq<u8>, m: Seq<u8>) -> Seq<u8> { dec_out(rb1(s, e, m), m.subrange(32, 80)) }
pub open spec fn rb2(s: Sym, e: Seq<u8>, m: Seq<u8>) -> Sym { mix_key_s(dec_s(rb1(s, e, m), m.subrange(32, 80)), x25519(e, rb_rs(s, e, m))) }
pub open spec fn rb_payload(s: Sym, e: Seq<u8>, m: Seq<u8>) -> Seq<u8> { dec_out(rb2(s, e, m), m.skip(80)) }
pub open spec fn rb3(s: Sym, e: Seq<u8>, m: Seq<u8>) -> Sym { dec_s(rb2(s, e, m), m.skip(80)) }
pub open spec fn rb_ok(s: Sym, e: Seq<u8>, m: Seq<u8>) -> bool {
    m.len() >= 96 && !forbidden(m.take(32)) && dec_ok(rb1(s, e, m), m.subrange(32, 80))
        && !forbidden(rb_rs(s, e, m)) && dec_ok(rb2(s, e, m), m.skip(80))
}
pub open spec fn blank(c: CipherState) -> bool { c.k.k@ == zeros(32) && c.n.n == 0 }
pub open spec fn fresh(c: CipherState, k: Seq<u8>) -> bool { c.k.k@ == k && c.n.n == 0 }
pub broadcast group group_state {
    crate::noiseexplorer_nx::prims::group_prims, crate::ext::hacl_star::curve25519::axiom_len, crate::ext::hacl_star::curve25519::axiom_pub_len,
    crate::ext::hacl_star::chacha20poly1305::axiom_ct_len, crate::ext::hacl_star::chacha20poly1305::axiom_tag_len,
    crate::ext::hacl_star::chacha20poly1305::axiom_pt_len, crate::vshim::lemma_fill, crate::vshim::lemma_no_elements,
}

=== fn noiseexplorer_nx::state::CipherState::new
ensures:
[C14+C16:init] blank(r)
=== fn noiseexplorer_nx::state::CipherState::clear_key
ensures:
[C19:wipe] final(self).k.k@ == zeros(32)
[C16:keep] final(self).n == old(self).n
=== fn noiseexplorer_nx::state::CipherState::clear
ensures:
[C19:wipe] blank(*final(self))
=== fn noiseexplorer_nx::state::CipherState::from_key
ensures:
[C15+C16:install] r.k == key && r.n.n == 0
=== fn noiseexplorer_nx::state::CipherState::has_key
ensures:
[C16:key] r == (self.k.k@ != zeros(32))
=== fn noiseexplorer_nx::state::CipherState::set_nonce
ensures:
[C16:set] final(self).n == n && final(self).k == old(self).k
=== fn noiseexplorer_nx::state::CipherState::get_nonce
ensures:
[C16:get] r == self.n
=== fn noiseexplorer_nx::state::CipherState::encrypt_with_ad
ensures:
[C16:refuse] r is Ok <==> usable(old(self).k.k@, old(self).n.n as int)
[C16:step] r is Ok ==> final(self).n.n == old(self).n.n + 1 && final(self).k == old(self).k
[C16:nothing] r is Err ==> *final(self) == *old(self) && final(in_out)@ == old(in_out)@ && final(mac)@ == old(mac)@
[C15+C16:aead] r is Ok ==> (forall|a: Seq<u8>| a =~= ad@ ==> final(in_out)@ == #[trigger] ct(old(self).k.k@, nb(old(self).n.n as int), a, old(in_out)@))
[C15+C16:aead] r is Ok ==> (forall|a: Seq<u8>| a =~= ad@ ==> final(mac)@ == #[trigger] tag(old(self).k.k@, nb(old(self).n.n as int), a, old(in_out)@))
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::CipherState::decrypt_with_ad
ensures:
[C16:refuse] r is Ok ==> usable(old(self).k.k@, old(self).n.n as int)
[C15:accept] forall|a: Seq<u8>| a =~= ad@ ==> (r is Ok <==> usable(old(self).k.k@, old(self).n.n as int) && old(mac)@ == #[trigger] tag(old(self).k.k@, nb(old(self).n.n as int), a, pt(old(self).k.k@, nb(old(self).n.n as int), a, old(in_out)@)))
[C16:step] r is Ok ==> final(self).n.n == old(self).n.n + 1 && final(self).k == old(self).k
[C14+C16:nothing] r is Err ==> *final(self) == *old(self)
[C16:nothing] !usable(old(self).k.k@, old(self).n.n as int) ==> final(in_out)@ == old(in_out)@
[C15+C16:aead] r is Ok ==> (forall|a: Seq<u8>| a =~= ad@ ==> final(in_out)@ == #[trigger] pt(old(self).k.k@, nb(old(self).n.n as int), a, old(in_out)@))
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::CipherState::rekey
ensures:
[C21:key] final(self).k.k@ == ct(old(self).k.k@, crate::vshim::rep(0xFFu8, 12), Seq::<u8>::empty(), zeros(32))
[C16+C21:counter] final(self).n == old(self).n
start:
broadcast use group_state;
assert(crate::vshim::rep(0u8, 0) =~= Seq::<u8>::empty());
assert forall|a: [u8; 12]| (forall|i: int| 0 <= i < 12 ==> a@[i] == 0xFFu8) implies #[trigger] a@ == crate::vshim::rep(0xFFu8, 12) by { assert(a@ =~= crate::vshim::rep(0xFFu8, 12)); }
=== fn noiseexplorer_nx::state::CipherState::write_message_regular
requires:
[C17:pre] old(in_out)@.len() >= 16
ensures:
[C16:refuse] r is Ok <==> usable(old(self).k.k@, old(self).n.n as int)
[C15+C16:seal] r is Ok ==> final(in_out)@ =~= seal(old(self).k.k@, old(self).n.n as int, Seq::empty(), old(in_out)@.take(old(in_out)@.len() - 16))
[C16:step] r is Ok ==> final(self).n.n == old(self).n.n + 1 && final(self).k == old(self).k
[C14+C16:nothing] r is Err ==> *final(self) == *old(self) && final(in_out)@ =~= old(in_out)@
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::CipherState::read_message_regular
requires:
[C17:pre] old(in_out)@.len() >= 16
ensures:
[C15:accept] r is Ok <==> usable(old(self).k.k@, old(self).n.n as int) && genuine(old(self).k.k@, old(self).n.n as int, Seq::empty(), old(in_out)@)
[C15:open] r is Ok ==> final(in_out)@.take(old(in_out)@.len() - 16) =~= unseal(old(self).k.k@, old(self).n.n as int, Seq::empty(), old(in_out)@)
[C16:step] r is Ok ==> final(self).n.n == old(self).n.n + 1 && final(self).k == old(self).k
[C14+C16:nothing] r is Err ==> *final(self) == *old(self)
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::SymmetricState::clear
ensures:
[C19:wipe] final(self).cs.k.k@ == zeros(32) && final(self).ck.h@ == zeros(32)
[C15:keep] final(self).h == old(self).h
=== fn noiseexplorer_nx::state::SymmetricState::initialize_symmetric
ensures:
[C15:init] sym(r).k == zeros(32) && sym(r).n == 0 && sym(r).ck =~= init_h(protocol_name@) && sym(r).h =~= init_h(protocol_name@)
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::SymmetricState::mix_key
ensures:
[C15:mix-key] forall|d: Seq<u8>| d =~= input_key_material@ ==> sym(*final(self)) == #[trigger] mix_key_s(sym(*old(self)), d)
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::SymmetricState::mix_hash
ensures:
[C15:mix-hash] forall|d: Seq<u8>| d =~= data@ ==> sym(*final(self)) == #[trigger] mix_hash_s(sym(*old(self)), d)
[C15:mix-hash] sym(*final(self)) == mix_hash_s(sym(*old(self)), data@)
[C16:keep] final(self).cs == old(self).cs && final(self).ck == old(self).ck
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::SymmetricState::mix_key_and_hash
ensures:
[C15:mix-key-hash] forall|d: Seq<u8>| d =~= input_key_material@ ==> sym(*final(self)) == #[trigger] mix_key_and_hash_s(sym(*old(self)), d)
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::SymmetricState::get_handshake_hash
ensures:
[C15:keep] r@ == self.h.h@
=== fn noiseexplorer_nx::state::SymmetricState::encrypt_and_hash
ensures:
[C16+C17:refuse] r is Ok <==> old(in_out)@.len() >= 16 && usable(old(self).cs.k.k@, old(self).cs.n.n as int)
[C15:seal] r is Ok ==> final(in_out)@ =~= enc_out(sym(*old(self)), old(in_out)@.take(old(in_out)@.len() - 16))
[C15+C16:state] r is Ok ==> sym(*final(self)) == enc_s(sym(*old(self)), old(in_out)@.take(old(in_out)@.len() - 16))
[C16:nothing] r is Err ==> *final(self) == *old(self)
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::SymmetricState::decrypt_and_hash
ensures:
[C15:accept] r is Ok <==> dec_ok(sym(*old(self)), old(in_out)@)
[C15+C18:open] r is Ok ==> final(in_out)@.take(old(in_out)@.len() - 16) =~= dec_out(sym(*old(self)), old(in_out)@)
[C15+C16:state] r is Ok ==> sym(*final(self)) == dec_s(sym(*old(self)), old(in_out)@)
[C16:nothing] r is Err ==> *final(self) == *old(self)
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::SymmetricState::split
ensures:
[C15+C16:keys] fresh(r.0, hkdf1(old(self).ck.h@, Seq::empty())) && fresh(r.1, hkdf2(old(self).ck.h@, Seq::empty()))
[C15:keep] *final(self) == *old(self)
start:
broadcast use group_state;

=== mod noiseexplorer_nx::state
pub open spec fn nx_name() -> Seq<u8> {
    seq![78u8, 111u8, 105u8, 115u8, 101u8, 95u8, 78u8, 88u8, 95u8, 50u8, 53u8, 53u8, 49u8, 57u8, 95u8, 67u8, 104u8, 97u8, 67u8, 104u8, 97u8, 80u8, 111u8, 108u8, 121u8, 95u8, 66u8, 76u8, 65u8, 75u8, 69u8, 50u8, 115u8]
}
/// a handshake state before the first message
pub open spec fn started(h: HandshakeState, prologue: Seq<u8>, s: Keypair) -> bool {
    sym(h.ss) == mix_hash_s(init_s(nx_name()), prologue) && h.s == s
        && h.e.private_key.k@ == zeros(32) && h.e.public_key.k@ == zeros(32) && h.rs.k@ == zeros(32) && h.re.k@ == zeros(32)
}
/// the ephemeral private key: that of the pair set, or a fresh draw
pub open spec fn drawn_or_set(old_e: Keypair, e: Keypair) -> bool {
    old_e.private_key.k@ == zeros(32) ==> paired(e) && crate::ext::rand::drawn(e.private_key.k@)
}
/// the ephemeral key pair used: the one set, or a new one
pub open spec fn used(old_e: Keypair, e: Keypair) -> bool {
    if old_e.private_key.k@ == zeros(32) { paired(e) } else { e == old_e }
}
pub open spec fn wiped(h: HandshakeState) -> bool {
    h.s.private_key.k@ == zeros(32) && h.e.private_key.k@ == zeros(32) && h.psk.psk@ == zeros(32)
}
pub open spec fn ss_wiped(s: SymmetricState) -> bool { s.cs.k.k@ == zeros(32) && s.ck.h@ == zeros(32) }
=== fn noiseexplorer_nx::state::HandshakeState::clear
ensures:
[C19:wipe] wiped(*final(self))
[C18+C19:keep] final(self).rs == old(self).rs && final(self).ss == old(self).ss
=== fn noiseexplorer_nx::state::HandshakeState::get_remote_static_public_key
ensures:
[C18:report] r == self.rs
=== fn noiseexplorer_nx::state::HandshakeState::set_ephemeral_keypair
ensures:
[C15:set] final(self).e == e
[C15:keep] final(self).ss == old(self).ss && final(self).s == old(self).s && final(self).rs == old(self).rs && final(self).re == old(self).re && final(self).psk == old(self).psk
=== fn noiseexplorer_nx::state::HandshakeState::initialize_initiator
ensures:
[C15:init] started(r, prologue@, s)
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::HandshakeState::initialize_responder
ensures:
[C15:init] started(r, prologue@, s)
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::HandshakeState::write_message_a
ensures:
[C17:refuse] r is Ok <==> old(in_out)@.len() >= 32
[C15:e] r is Ok ==> used(old(self).e, final(self).e)
[C31:ephemeral] r is Ok ==> drawn_or_set(old(self).e, final(self).e)
[C15:out] r is Ok ==> final(in_out)@ =~= final(self).e.public_key.k@ + old(in_out)@.skip(32)
[C15:transcript] r is Ok ==> sym(final(self).ss) == mix_hash_s(mix_hash_s(sym(old(self).ss), final(self).e.public_key.k@), old(in_out)@.skip(32))
[C15:keep] final(self).s == old(self).s && final(self).rs == old(self).rs && final(self).re == old(self).re && final(self).psk == old(self).psk
[C14+C17:nothing] r is Err ==> *final(self) == *old(self)
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::HandshakeState::write_message_b
ensures:
[C15+C17:refuse] r is Ok <==> old(in_out)@.len() >= 96 && wb_ok(sym(old(self).ss), final(self).e, old(self).s, old(self).re.k@)
[C15:e] old(in_out)@.len() >= 32 ==> used(old(self).e, final(self).e)
[C31:ephemeral] old(in_out)@.len() >= 32 ==> drawn_or_set(old(self).e, final(self).e)
[C31:ephemeral] r is Ok ==> final(in_out)@.take(32) =~= final(self).e.public_key.k@
[C15:out] r is Ok ==> final(in_out)@ =~= wb_out(sym(old(self).ss), final(self).e, old(self).s, old(self).re.k@, old(in_out)@.subrange(80, old(in_out)@.len() - 16))
[C15:hash] r is Ok ==> r->Ok_0.0.h@ == wb3(sym(old(self).ss), final(self).e, old(self).s, old(self).re.k@, old(in_out)@.subrange(80, old(in_out)@.len() - 16)).h
[C15+C16:keys] r is Ok ==> fresh(r->Ok_0.1, hkdf1(wb3(sym(old(self).ss), final(self).e, old(self).s, old(self).re.k@, old(in_out)@.subrange(80, old(in_out)@.len() - 16)).ck, Seq::empty()))
[C15+C16:keys] r is Ok ==> fresh(r->Ok_0.2, hkdf2(wb3(sym(old(self).ss), final(self).e, old(self).s, old(self).re.k@, old(in_out)@.subrange(80, old(in_out)@.len() - 16)).ck, Seq::empty()))
[C19:wipe] r is Ok ==> ss_wiped(final(self).ss)
[C18:keep] final(self).rs == old(self).rs
[C15:keep] final(self).s == old(self).s && final(self).re == old(self).re && final(self).psk == old(self).psk
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::HandshakeState::read_message_a
ensures:
[C17+C18:refuse] r is Ok <==> old(in_out)@.len() >= 48 && !forbidden(old(in_out)@.take(32))
[C15+C18:re] r is Ok ==> final(self).re.k@ == old(in_out)@.take(32)
[C15:transcript] r is Ok ==> sym(final(self).ss) == mix_hash_s(mix_hash_s(sym(old(self).ss), old(in_out)@.take(32)), old(in_out)@.skip(32))
[C15:keep] final(self).s == old(self).s && final(self).e == old(self).e && final(self).rs == old(self).rs && final(self).psk == old(self).psk
[C15:payload] r is Ok ==> final(in_out)@ =~= old(in_out)@
[C14+C18:nothing] r is Err ==> *final(self) == *old(self)
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::state::HandshakeState::read_message_b
ensures:
[C15+C17+C18:refuse] r is Ok <==> rb_ok(sym(old(self).ss), old(self).e.private_key.k@, old(in_out)@)
[C18:rs] r is Ok ==> final(self).rs.k@ == rb_rs(sym(old(self).ss), old(self).e.private_key.k@, old(in_out)@)
[C15:hash] r is Ok ==> r->Ok_0.0.h@ == rb3(sym(old(self).ss), old(self).e.private_key.k@, old(in_out)@).h
[C15+C16:keys] r is Ok ==> fresh(r->Ok_0.1, hkdf1(rb3(sym(old(self).ss), old(self).e.private_key.k@, old(in_out)@).ck, Seq::empty()))
[C15+C16:keys] r is Ok ==> fresh(r->Ok_0.2, hkdf2(rb3(sym(old(self).ss), old(self).e.private_key.k@, old(in_out)@).ck, Seq::empty()))
[C15:payload] r is Ok ==> final(in_out)@.subrange(80, old(in_out)@.len() - 16) =~= rb_payload(sym(old(self).ss), old(self).e.private_key.k@, old(in_out)@)
[C19:wipe] r is Ok ==> ss_wiped(final(self).ss)
[C15:keep] final(self).s == old(self).s && final(self).e == old(self).e && final(self).psk == old(self).psk
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
