=== mod noiseexplorer_nx::noisesession
use crate::ext::zeroize::zeros;
use crate::ext::hacl_star::curve25519::{pubkey, x25519};
use crate::ext::hacl_star::chacha20poly1305::{ct, tag, pt};
use crate::noiseexplorer_nx::state::{sym, Sym, mix_hash_s, init_s, nx_name, started, used, wiped, ss_wiped, seal, unseal, genuine, usable, blank, fresh, wb1, wb2, wb3, wb_out, wb_ok, rb1, rb2, rb3, rb_rs, rb_payload, rb_ok, enc_s, dec_s, enc_out, dec_out, dec_ok, group_state};
use crate::noiseexplorer_nx::prims::{hkdf1, hkdf2};
use crate::noiseexplorer_nx::types::{forbidden, paired};
/// phase invariant of a session
pub open spec fn phase_ok(s: NoiseSession) -> bool { s.is_transport <==> s.mc >= 2 }
pub open spec fn size_ok(n: int) -> bool { 16 <= n <= 65535 }
/// first message written by o with ephemeral pair e
pub open spec fn sent_a(o: NoiseSession, f: NoiseSession, b: Seq<u8>, a: Seq<u8>) -> bool {
    used(o.hs.e, f.hs.e) && a =~= f.hs.e.public_key.k@ + b.skip(32)
        && sym(f.hs.ss) == mix_hash_s(mix_hash_s(sym(o.hs.ss), f.hs.e.public_key.k@), b.skip(32))
        && f.hs.s == o.hs.s && f.hs.re == o.hs.re && f.hs.rs == o.hs.rs
}
pub open spec fn got_a(o: NoiseSession, f: NoiseSession, b: Seq<u8>) -> bool {
    f.hs.re.k@ == b.take(32)
        && sym(f.hs.ss) == mix_hash_s(mix_hash_s(sym(o.hs.ss), b.take(32)), b.skip(32))
        && f.hs.s == o.hs.s && f.hs.e == o.hs.e && f.hs.rs == o.hs.rs
}
/// transport keys and handshake hash installed from a final symmetric state
pub open spec fn keyed(f: NoiseSession, s: Sym) -> bool {
    f.h.h@ == s.h && fresh(f.cs1, hkdf1(s.ck, Seq::empty())) && fresh(f.cs2, hkdf2(s.ck, Seq::empty()))
}
/// second message written with ephemeral pair e
pub open spec fn sent_b(o: NoiseSession, f: NoiseSession, e: Keypair, b: Seq<u8>, a: Seq<u8>) -> bool {
    used(o.hs.e, e) && wb_ok(sym(o.hs.ss), e, o.hs.s, o.hs.re.k@)
        && a =~= wb_out(sym(o.hs.ss), e, o.hs.s, o.hs.re.k@, b.subrange(80, b.len() - 16))
        && keyed(f, wb3(sym(o.hs.ss), e, o.hs.s, o.hs.re.k@, b.subrange(80, b.len() - 16)))
}
pub open spec fn got_b(o: NoiseSession, f: NoiseSession, b: Seq<u8>, a: Seq<u8>) -> bool {
    rb_ok(sym(o.hs.ss), o.hs.e.private_key.k@, b)
        && a.subrange(80, b.len() - 16) =~= rb_payload(sym(o.hs.ss), o.hs.e.private_key.k@, b)
        && keyed(f, rb3(sym(o.hs.ss), o.hs.e.private_key.k@, b))
}
/// what a session uses to send and to receive in transport
pub open spec fn sending(s: NoiseSession) -> CipherState { if s.i { s.cs1 } else { s.cs2 } }
pub open spec fn receiving(s: NoiseSession) -> CipherState { if s.i { s.cs2 } else { s.cs1 } }
pub open spec fn stepped(o: CipherState, f: CipherState) -> bool { f.k == o.k && f.n.n == o.n.n + 1 }
pub open spec fn with_mc(s: NoiseSession, hs: HandshakeState) -> NoiseSession { NoiseSession { hs, ..s } }

=== fn noiseexplorer_nx::noisesession::NoiseSession::is_transport
ensures:
[C14:phase] r == self.is_transport
=== fn noiseexplorer_nx::noisesession::NoiseSession::clear_local_cipherstate
ensures:
[C19:wipe] blank(final(self).cs1)
[C14+C19:only] *final(self) == (NoiseSession { cs1: final(self).cs1, ..*old(self) })
=== fn noiseexplorer_nx::noisesession::NoiseSession::clear_remote_cipherstate
ensures:
[C19:wipe] blank(final(self).cs2)
[C14+C19:only] *final(self) == (NoiseSession { cs2: final(self).cs2, ..*old(self) })
=== fn noiseexplorer_nx::noisesession::NoiseSession::rekey_local_cipherstate
ensures:
[C21:key] final(self).cs1.k.k@ == ct(old(self).cs1.k.k@, crate::vshim::rep(0xFFu8, 12), Seq::<u8>::empty(), zeros(32))
[C16+C21:counter] final(self).cs1.n == old(self).cs1.n
[C14+C21:only] *final(self) == (NoiseSession { cs1: final(self).cs1, ..*old(self) })
=== fn noiseexplorer_nx::noisesession::NoiseSession::rekey_remote_cipherstate
ensures:
[C21:key] final(self).cs2.k.k@ == ct(old(self).cs2.k.k@, crate::vshim::rep(0xFFu8, 12), Seq::<u8>::empty(), zeros(32))
[C16+C21:counter] final(self).cs2.n == old(self).cs2.n
[C14+C21:only] *final(self) == (NoiseSession { cs2: final(self).cs2, ..*old(self) })
=== fn noiseexplorer_nx::noisesession::NoiseSession::end_session
exit:
[C19:wipe] blank(self.cs1)
[C19:wipe] blank(self.cs2)
[C19:wipe] wiped(self.hs)
=== fn noiseexplorer_nx::noisesession::NoiseSession::get_handshake_hash
ensures:
[C14:unavailable] r is Some <==> self.is_transport
[C14+C15:hash] r is Some ==> r->Some_0 == self.h.h
=== fn noiseexplorer_nx::noisesession::NoiseSession::get_message_count
ensures:
[C14:count] r == self.mc
=== fn noiseexplorer_nx::noisesession::NoiseSession::set_ephemeral_keypair
ensures:
[C15:set] final(self).hs.e == e
[C14+C15:only] *final(self) == (NoiseSession { hs: final(self).hs, ..*old(self) })
[C15:only] final(self).hs == (HandshakeState { e: final(self).hs.e, ..old(self).hs })
=== fn noiseexplorer_nx::noisesession::NoiseSession::get_remote_static_public_key
ensures:
[C14:unavailable] r is Some <==> self.is_transport
[C18:report] r is Some ==> r->Some_0 == self.hs.rs
=== fn noiseexplorer_nx::noisesession::NoiseSession::init_session
ensures:
[C14:init] r.mc == 0 && !r.is_transport && r.i == initiator
[C14+C16:init] blank(r.cs1) && blank(r.cs2)
[C15:init] started(r.hs, prologue@, s)
=== fn noiseexplorer_nx::noisesession::NoiseSession::send_message
requires:
[C14:pre] old(self).mc < u128::MAX
ensures:
[C14+C17:size] !size_ok(old(in_out)@.len() as int) ==> r is Err && *final(self) == *old(self)
[C14:advance] r is Ok ==> final(self).mc == old(self).mc + 1
[C14:failed] r is Err ==> *final(self) == (NoiseSession { hs: final(self).hs, ..*old(self) })
[C14:phase] r is Ok ==> final(self).is_transport == (old(self).is_transport || old(self).mc == 1)
[C14:phase] phase_ok(*old(self)) ==> phase_ok(*final(self))
[C14+C16:keys] old(self).mc == 0 ==> *final(self) == (NoiseSession { hs: final(self).hs, mc: final(self).mc, ..*old(self) })
[C14+C15:role] final(self).i == old(self).i
[C15+C17:a] old(self).mc == 0 ==> (r is Ok <==> 32 <= old(in_out)@.len() <= 65535)
[C15:a] old(self).mc == 0 && r is Ok ==> sent_a(*old(self), *final(self), old(in_out)@, final(in_out)@)
[C15+C17:b] old(self).mc == 1 && r is Ok ==> old(in_out)@.len() >= 96
[C15:b] old(self).mc == 1 && r is Ok ==> exists|e: Keypair| #[trigger] wb_ok(sym(old(self).hs.ss), e, old(self).hs.s, old(self).hs.re.k@) && sent_b(*old(self), *final(self), e, old(in_out)@, final(in_out)@)
[C15:b] old(self).mc == 1 && r is Err && 96 <= old(in_out)@.len() <= 65535 ==> exists|e: Keypair| used(old(self).hs.e, e) && !#[trigger] wb_ok(sym(old(self).hs.ss), e, old(self).hs.s, old(self).hs.re.k@)
[C31:ephemeral] old(self).mc == 0 && r is Ok ==> crate::noiseexplorer_nx::state::drawn_or_set(old(self).hs.e, final(self).hs.e)
[C31:ephemeral] old(self).mc == 0 && r is Ok ==> final(in_out)@.take(32) =~= final(self).hs.e.public_key.k@
[C31:ephemeral] old(self).mc == 1 && r is Ok ==> exists|e: Keypair| #[trigger] crate::noiseexplorer_nx::state::drawn_or_set(old(self).hs.e, e) && final(in_out)@.take(32) == e.public_key.k@
[C19:wipe] old(self).mc == 1 && r is Ok ==> wiped(final(self).hs) && ss_wiped(final(self).hs.ss)
[C18+C19:keep] final(self).hs.rs == old(self).hs.rs
[C15:transport] old(self).mc >= 2 ==> (r is Ok <==> size_ok(old(in_out)@.len() as int) && usable(sending(*old(self)).k.k@, sending(*old(self)).n.n as int))
[C15+C16:transport] old(self).mc >= 2 && r is Ok ==> final(in_out)@ =~= seal(sending(*old(self)).k.k@, sending(*old(self)).n.n as int, Seq::empty(), old(in_out)@.take(old(in_out)@.len() - 16))
[C15+C16:transport] old(self).mc >= 2 && r is Ok ==> stepped(sending(*old(self)), sending(*final(self))) && receiving(*final(self)) == receiving(*old(self))
[C14:transport] old(self).mc >= 2 ==> final(self).hs == old(self).hs && final(self).h == old(self).h
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
=== fn noiseexplorer_nx::noisesession::NoiseSession::recv_message
requires:
[C14:pre] old(self).mc < u128::MAX
ensures:
[C14+C17:size] !size_ok(old(in_out)@.len() as int) ==> r is Err && *final(self) == *old(self)
[C14:advance] r is Ok ==> final(self).mc == old(self).mc + 1
[C14:failed] r is Err ==> *final(self) == (NoiseSession { hs: final(self).hs, ..*old(self) })
[C14:phase] r is Ok ==> final(self).is_transport == (old(self).is_transport || old(self).mc == 1)
[C14:phase] phase_ok(*old(self)) ==> phase_ok(*final(self))
[C14+C16:keys] old(self).mc == 0 ==> *final(self) == (NoiseSession { hs: final(self).hs, mc: final(self).mc, ..*old(self) })
[C14+C15:role] final(self).i == old(self).i
[C15+C17+C18:a] old(self).mc == 0 ==> (r is Ok <==> 48 <= old(in_out)@.len() <= 65535 && !forbidden(old(in_out)@.take(32)))
[C15:a] old(self).mc == 0 && r is Ok ==> got_a(*old(self), *final(self), old(in_out)@) && final(in_out)@ =~= old(in_out)@
[C15+C17+C18:b] old(self).mc == 1 ==> (r is Ok <==> old(in_out)@.len() <= 65535 && rb_ok(sym(old(self).hs.ss), old(self).hs.e.private_key.k@, old(in_out)@))
[C15:b] old(self).mc == 1 && r is Ok ==> got_b(*old(self), *final(self), old(in_out)@, final(in_out)@)
[C18:rs] old(self).mc == 1 && r is Ok ==> final(self).hs.rs.k@ == rb_rs(sym(old(self).hs.ss), old(self).hs.e.private_key.k@, old(in_out)@)
[C19:wipe] old(self).mc == 1 && r is Ok ==> wiped(final(self).hs) && ss_wiped(final(self).hs.ss)
[C15:transport] old(self).mc >= 2 ==> (r is Ok <==> size_ok(old(in_out)@.len() as int) && usable(receiving(*old(self)).k.k@, receiving(*old(self)).n.n as int) && genuine(receiving(*old(self)).k.k@, receiving(*old(self)).n.n as int, Seq::empty(), old(in_out)@))
[C15:transport] old(self).mc >= 2 && r is Ok ==> final(in_out)@.take(old(in_out)@.len() - 16) =~= unseal(receiving(*old(self)).k.k@, receiving(*old(self)).n.n as int, Seq::empty(), old(in_out)@)
[C15+C16:transport] old(self).mc >= 2 && r is Ok ==> stepped(receiving(*old(self)), receiving(*final(self))) && sending(*final(self)) == sending(*old(self))
[C14:transport] old(self).mc >= 2 ==> final(self).hs == old(self).hs && final(self).h == old(self).h
[C17:len] final(in_out)@.len() == old(in_out)@.len()
start:
broadcast use group_state;
