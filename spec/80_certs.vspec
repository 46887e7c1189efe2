=== mod stratumv2::noise::types
=== impl stratumv2::noise::types::<StaticPublicKey as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.k@ }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== impl stratumv2::noise::types::<Signature as Serializable>
open spec fn enc(&self) -> Seq<u8> { self.sig() }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::noise::types::<Signature as Serializable>::serialize
start:
proof { self.axiom_sig_len(); }
=== impl stratumv2::noise::types::<Signature as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 64 && s[63] < 32 { Some(64) } else { None } }
open spec fn denotes(s: Seq<u8>, v: Self) -> bool { v.sig() == s.take(64) }

=== mod stratumv2::noise::signed_certificate
use crate::ext::ed25519_dalek::{signed, valid_sig};
/// exactly what is signed and what is checked: version, start, end (little-endian), static key
pub open spec fn cert_bytes(version: u16, from: u32, until: u32, key: Seq<u8>) -> Seq<u8> {
    le2(version as int) + le4(from as int) + le4(until as int) + key
}
/// different certificates are different bytes
pub proof fn lemma_C12_injective(v1: u16, f1: u32, u1: u32, k1: Seq<u8>, v2: u16, f2: u32, u2: u32, k2: Seq<u8>)
    requires cert_bytes(v1, f1, u1, k1) == cert_bytes(v2, f2, u2, k2), k1.len() == 32, k2.len() == 32
    ensures v1 == v2, f1 == f2, u1 == u2, k1 == k2
{
    let a = cert_bytes(v1, f1, u1, k1);
    let b = cert_bytes(v2, f2, u2, k2);
    assert(a.subrange(0, 2) =~= le2(v1 as int)); assert(b.subrange(0, 2) =~= le2(v2 as int));
    assert(a.subrange(2, 6) =~= le4(f1 as int)); assert(b.subrange(2, 6) =~= le4(f2 as int));
    assert(a.subrange(6, 10) =~= le4(u1 as int)); assert(b.subrange(6, 10) =~= le4(u2 as int));
    assert(a.subrange(10, 42) =~= k1); assert(b.subrange(10, 42) =~= k2);
    lemma_le2(v1 as int); lemma_le2(v2 as int);
    lemma_le4(f1 as int); lemma_le4(f2 as int); lemma_le4(u1 as int); lemma_le4(u2 as int);
}
=== fn stratumv2::noise::signed_certificate::SignedCertificate::new
ensures:
[C12:window] r is Ok <==> valid_from < not_valid_after
[C12:keep] r is Ok ==> r->Ok_0.version == version && r->Ok_0.valid_from == valid_from && r->Ok_0.not_valid_after == not_valid_after && *r->Ok_0.public_key == *public_key
=== impl stratumv2::noise::signed_certificate::<SignedCertificate as Serializable>
open spec fn enc(&self) -> Seq<u8> { cert_bytes(self.version, self.valid_from, self.not_valid_after, self.public_key.k@) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::noise::signed_certificate::<SignedCertificate as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
reveal_with_fuel(sum, 9);
=== fn stratumv2::noise::signed_certificate::authority_sign_cert
ensures:
[C12:signs] r is Ok
[C12:signs] r->Ok_0.sig() == signed(keypair.secret(), cert_bytes(cert.version, cert.valid_from, cert.not_valid_after, cert.public_key.k@))

=== type stratumv2::noise::signature_noise_message::SignatureNoiseMessage
derive- PartialEq, Debug, Clone
=== mod stratumv2::noise::signature_noise_message
use crate::ext::ed25519_dalek::signed;
use crate::stratumv2::noise::signed_certificate::cert_bytes;
=== fn stratumv2::noise::signature_noise_message::SignatureNoiseMessage::new
ensures:
[C12:carry] r.version == cert.version && r.valid_from == cert.valid_from && r.not_valid_after == cert.not_valid_after && r.signature == signature
=== fn stratumv2::noise::signature_noise_message::SignatureNoiseMessage::from_auth_key
ensures:
[C12:carry] r is Ok
[C12:carry] r->Ok_0.version == cert.version && r->Ok_0.valid_from == cert.valid_from && r->Ok_0.not_valid_after == cert.not_valid_after
[C12:signs] r->Ok_0.signature.sig() == signed(authority_keypair.secret(), cert_bytes(cert.version, cert.valid_from, cert.not_valid_after, cert.public_key.k@))
=== impl stratumv2::noise::signature_noise_message::<SignatureNoiseMessage as Serializable>
open spec fn enc(&self) -> Seq<u8> { le2(self.version as int) + le4(self.valid_from as int) + le4(self.not_valid_after as int) + self.signature.sig() }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::noise::signature_noise_message::<SignatureNoiseMessage as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
reveal_with_fuel(sum, 9);
proof { self.signature.axiom_sig_len(); }
=== impl stratumv2::noise::signature_noise_message::<SignatureNoiseMessage as Deserializable>
open spec fn accepts(s: Seq<u8>) -> Option<int> { if s.len() >= 74 && s[73] < 32 { Some(74) } else { None } }
open spec fn denotes(s: Seq<u8>, v: SignatureNoiseMessage) -> bool {
    v.version as int == un2(s) && v.valid_from as int == un4(s.subrange(2, 6)) && v.not_valid_after as int == un4(s.subrange(6, 10))
        && v.signature.sig() == s.subrange(10, 74)
}
=== fn stratumv2::noise::signature_noise_message::<SignatureNoiseMessage as Deserializable>::deserialize
start:
let ghost s = parser.rest();
proof {
    assert(s.skip(10).take(64) =~= s.skip(10).subrange(0, 64));
    if s.len() >= 74 { assert(s.skip(10).take(64) =~= s.subrange(10, 74)); }
}

=== mod stratumv2::noise::certificate_format
use crate::ext::ed25519_dalek::valid_sig;
use crate::stratumv2::noise::signed_certificate::cert_bytes;
use crate::ext::time::clock;
use crate::ext::bitcoin::util::base58::b58;
/// t (ns since the epoch) lies in the window [from, until) at whole-second resolution
pub open spec fn in_window(t: int, from: u32, until: u32) -> bool {
    0 <= t && t / 1000000000 <= 4294967295 && from <= t / 1000000000 < until
}
pub open spec fn cert_signed(c: CertificateFormat) -> bool {
    valid_sig(c.authority_public_key.key(), cert_bytes(c.signature_noise_message.version, c.signature_noise_message.valid_from, c.signature_noise_message.not_valid_after, c.static_public_key.k@), c.signature_noise_message.signature.sig())
}
/// what the authority signed for a key, its public key accepts; verify then only depends on the clock
pub proof fn lemma_C12_signed_verifies(kp: crate::ext::ed25519_dalek::Keypair, cert: crate::stratumv2::noise::signed_certificate::SignedCertificate, c: CertificateFormat)
    requires
        c.signature_noise_message.version == cert.version, c.signature_noise_message.valid_from == cert.valid_from,
        c.signature_noise_message.not_valid_after == cert.not_valid_after,
        c.signature_noise_message.signature.sig() == crate::ext::ed25519_dalek::signed(kp.secret(), cert_bytes(cert.version, cert.valid_from, cert.not_valid_after, cert.public_key.k@)),
        c.static_public_key.k@ == cert.public_key.k@, c.authority_public_key.key() == kp.public_bytes(),
    ensures cert_signed(c)
{
    kp.axiom_sign_verifies(cert_bytes(cert.version, cert.valid_from, cert.not_valid_after, cert.public_key.k@));
}
=== fn stratumv2::noise::certificate_format::CertificateFormat::new
ensures:
[C12:authority] r is Ok <==> (b58(authority_public_key@) is Some && b58(authority_public_key@)->Some_0.len() == 32 && crate::ext::ed25519_dalek::valid_key(b58(authority_public_key@)->Some_0))
[C12:authority] r is Ok ==> r->Ok_0.authority_public_key.key() == b58(authority_public_key@)->Some_0
[C12:keep] r is Ok ==> *r->Ok_0.static_public_key == *static_public_key && *r->Ok_0.signature_noise_message == *signature_noise_message
=== fn stratumv2::noise::certificate_format::CertificateFormat::verify
ensures:
[C12:signature] r is Ok ==> cert_signed(*self)
[C12:time] r is Ok ==> exists|t: int| #[trigger] clock(t) && in_window(t, self.signature_noise_message.valid_from, self.signature_noise_message.not_valid_after)
[C12:accept] cert_signed(*self) && (forall|t: int| #[trigger] clock(t) ==> in_window(t, self.signature_noise_message.valid_from, self.signature_noise_message.not_valid_after)) ==> r is Ok
=== impl stratumv2::noise::certificate_format::<CertificateFormat as Serializable>
open spec fn enc(&self) -> Seq<u8> { cert_bytes(self.signature_noise_message.version, self.signature_noise_message.valid_from, self.signature_noise_message.not_valid_after, self.static_public_key.k@) }
open spec fn wf(&self) -> bool { true }
open spec fn encodable(&self) -> bool { true }
=== fn stratumv2::noise::certificate_format::<CertificateFormat as Serializable>::serialize
start:
broadcast use crate::vshim::lemma_assoc;
reveal_with_fuel(sum, 9);

=== fn stratumv2::noise::types::generate_authority_keypair
ensures:
[C31:drawn] crate::ext::rand::drawn(r.secret())
=== fn stratumv2::noise::noise_session::new_noise_responder
ensures:
[C31:drawn] static_keypair is None ==> crate::ext::rand::drawn(r.hs.s.private_key.k@)
[C14:init] r.mc == 0 && !r.is_transport && !r.i
[C15:init] static_keypair is Some ==> crate::noiseexplorer_nx::state::started(r.hs, Seq::empty(), static_keypair->Some_0)
[C15:init] static_keypair is None ==> crate::noiseexplorer_nx::types::paired(r.hs.s) && crate::noiseexplorer_nx::state::started(r.hs, Seq::empty(), r.hs.s)
=== fn stratumv2::noise::noise_session::new_noise_initiator
ensures:
[C31:drawn] crate::ext::rand::drawn(r.hs.s.private_key.k@)
[C14:init] r.mc == 0 && !r.is_transport && r.i
[C15:init] crate::noiseexplorer_nx::types::paired(r.hs.s) && crate::noiseexplorer_nx::state::started(r.hs, Seq::empty(), r.hs.s)
