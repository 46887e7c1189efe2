=== trait stratumv2::network::encryptor::Encryptor
/// the session's 128-bit message counter has room for two more messages
spec fn room(&self) -> bool;
=== dep Encryptor::recv_handshake
proof { let d = self.room(); }
=== dep Encryptor::init_handshake
proof { let d = self.room(); }
=== fn stratumv2::network::encryptor::Encryptor::recv_handshake
requires:
[C14:pre] old(self).room()
=== fn stratumv2::network::encryptor::Encryptor::init_handshake
requires:
[C14:pre] old(self).room()
=== impl stratumv2::network::encryptor::<ConnectionEncryptor as Encryptor>
open spec fn room(&self) -> bool { self.noise_session.mc < u128::MAX - 1 }
=== mod stratumv2::network::encryptor
use crate::noiseexplorer_nx::noisesession::{phase_ok, sent_a};
=== fn stratumv2::network::encryptor::ConnectionEncryptor::new_inbound
ensures:
[C31:drawn] static_key is None ==> crate::ext::rand::drawn(r.noise_session.hs.s.private_key.k@)
[C14:init] r.noise_session.mc == 0 && !r.noise_session.is_transport && !r.noise_session.i
[C15:init] static_key is Some ==> crate::noiseexplorer_nx::state::started(r.noise_session.hs, Seq::empty(), static_key->Some_0)
=== fn stratumv2::network::encryptor::ConnectionEncryptor::new_outbound
ensures:
[C31:drawn] crate::ext::rand::drawn(r.noise_session.hs.s.private_key.k@)
[C14:init] r.noise_session.mc == 0 && !r.noise_session.is_transport && r.noise_session.i
[C15:init] crate::noiseexplorer_nx::state::started(r.noise_session.hs, Seq::empty(), r.noise_session.hs.s)
=== fn stratumv2::network::encryptor::ConnectionEncryptor::get_remote_pubkey
ensures:
[C14:unavailable] r is Some <==> self.noise_session.is_transport
[C18:report] r is Some ==> r->Some_0 == self.noise_session.hs.rs
=== fn stratumv2::network::encryptor::<ConnectionEncryptor as Encryptor>::is_handshake_complete
ensures:
[C14:phase] r == self.noise_session.is_transport
=== fn stratumv2::network::encryptor::<ConnectionEncryptor as Encryptor>::recv_handshake
ensures:
[C14:phase] phase_ok(old(self).noise_session) ==> phase_ok(final(self).noise_session)
[C14:advance] r is Ok ==> final(self).noise_session.mc == old(self).noise_session.mc + 2
[C14:failed] r is Err ==> old(self).noise_session.mc <= final(self).noise_session.mc <= old(self).noise_session.mc + 1
[C14:phase] old(self).noise_session.mc == 0 && r is Ok ==> final(self).noise_session.is_transport
[C15:reply] r is Ok ==> r->Ok_0@ == final(bytes)@
[C14+C17:size] !(16 <= old(bytes)@.len() <= 65535) ==> r is Err && final(self).noise_session == old(self).noise_session
=== fn stratumv2::network::encryptor::<ConnectionEncryptor as Encryptor>::init_handshake
ensures:
[C14:phase] phase_ok(old(self).noise_session) ==> phase_ok(final(self).noise_session)
[C14:advance] final(self).noise_session.mc == old(self).noise_session.mc + (if r is Ok { 1int } else { 0 })
[C15:first] old(self).noise_session.mc == 0 ==> r is Ok && sent_a(old(self).noise_session, final(self).noise_session, crate::vshim::rep(0u8, 1024), r->Ok_0@)
[C17:len] r is Ok ==> r->Ok_0@.len() == 1024
start:
proof { assert forall|a: [u8; 1024]| (forall|i: int| 0 <= i < 1024 ==> a@[i] == 0u8) implies #[trigger] a@ == crate::vshim::rep(0u8, 1024) by { assert(a@ =~= crate::vshim::rep(0u8, 1024)); } }

=== mod stratumv2::network::peer
/// the critical sections of one call, as (content on entry, content on exit): exactly one takes
/// everything, the others change nothing
pub open spec fn took_at(log: Seq<(Vec<Message>, Vec<Message>)>, from: int, i: int, r: Seq<Message>) -> bool {
    from <= i < log.len() && log[i].0@ == r && log[i].1@.len() == 0
        && forall|j: int| from <= j < log.len() && j != i ==> (#[trigger] log[j]).0@ == log[j].1@
}
pub open spec fn took(log: Seq<(Vec<Message>, Vec<Message>)>, from: int, r: Seq<Message>) -> bool {
    took_at(log, from, from, r) || took_at(log, from, log.len() - 1, r) || exists|i: int| #[trigger] took_at(log, from, i, r)
}
=== fn stratumv2::network::peer::Peer<E>::new
ensures:
[C20:init] r.pending_msg_buffer.data@.len() == 0 && r.setup_conn_msg is None
=== fn stratumv2::network::peer::Peer<E>::get_pending_msgs
receiver: &mut self
ensures:
[C20+C30:take] took(final(self).pending_msg_buffer.log@, old(self).pending_msg_buffer.log@.len() as int, r@)
[C20+C30:history] old(self).pending_msg_buffer.log@ =~= final(self).pending_msg_buffer.log@.take(old(self).pending_msg_buffer.log@.len() as int)
=== skip stratumv2::network::channel::ChannelManager
=== skip stratumv2::network::channel::Channel
=== fn stratumv2::network::channel::new_channel_id
ensures:
[C31:drawn] crate::ext::rand::drawn_in(r as int, 0, u32::MAX as int) || crate::ext::rand::drawn_in(r as int, 0, u32::MAX as int + 1)
=== skip stratumv2::network::config
=== skip stratumv2::network::message_handler
