=== mod noiseexplorer_nx::noisesession
/// The reader of the second message ends where the writer ended.
pub proof fn lemma_C15_agree(s: Sym, e: Keypair, st: Keypair, ei: Keypair, p: Seq<u8>)
    requires
        paired(e), paired(st), paired(ei),
        wb_ok(s, e, st, ei.public_key.k@),
        !forbidden(e.public_key.k@), !forbidden(st.public_key.k@),
    ensures
        rb_ok(s, ei.private_key.k@, wb_out(s, e, st, ei.public_key.k@, p)),
        rb_rs(s, ei.private_key.k@, wb_out(s, e, st, ei.public_key.k@, p)) == st.public_key.k@,
        rb_payload(s, ei.private_key.k@, wb_out(s, e, st, ei.public_key.k@, p)) == p,
        rb3(s, ei.private_key.k@, wb_out(s, e, st, ei.public_key.k@, p)) == wb3(s, e, st, ei.public_key.k@, p),
        wb_out(s, e, st, ei.public_key.k@, p).len() == p.len() + 96,
{
    broadcast use group_state;
    broadcast use crate::ext::hacl_star::chacha20poly1305::axiom_inverse;
    let re = ei.public_key.k@;
    let m = wb_out(s, e, st, re, p);
    let w1 = wb1(s, e, re);
    let o1 = enc_out(w1, st.public_key.k@);
    let w2 = wb2(s, e, st, re);
    let o2 = enc_out(w2, p);
    crate::ext::hacl_star::curve25519::axiom_dh(ei.private_key.k@, e.private_key.k@);
    crate::ext::hacl_star::curve25519::axiom_dh(ei.private_key.k@, st.private_key.k@);
    assert(m.take(32) =~= e.public_key.k@);
    assert(m.subrange(32, 80) =~= o1);
    assert(m.skip(80) =~= o2);
    assert(o1.take(32) =~= ct(w1.k, crate::noiseexplorer_nx::utils::nb(w1.n), w1.h, st.public_key.k@));
    assert(o1.skip(32) =~= tag(w1.k, crate::noiseexplorer_nx::utils::nb(w1.n), w1.h, st.public_key.k@));
    assert(o2.take(o2.len() - 16) =~= ct(w2.k, crate::noiseexplorer_nx::utils::nb(w2.n), w2.h, p));
    assert(o2.skip(o2.len() - 16) =~= tag(w2.k, crate::noiseexplorer_nx::utils::nb(w2.n), w2.h, p));
}
/// What one side seals the other side opens.
pub proof fn lemma_C15_open(k: Seq<u8>, n: int, p: Seq<u8>)
    ensures genuine(k, n, Seq::empty(), seal(k, n, Seq::empty(), p)), unseal(k, n, Seq::empty(), seal(k, n, Seq::empty(), p)) == p,
        seal(k, n, Seq::empty(), p).len() == p.len() + 16
{
    broadcast use group_state;
    broadcast use crate::ext::hacl_star::chacha20poly1305::axiom_inverse;
    let c = seal(k, n, Seq::empty(), p);
    assert(c.take(c.len() - 16) =~= ct(k, crate::noiseexplorer_nx::utils::nb(n), Seq::empty(), p));
    assert(c.skip(c.len() - 16) =~= tag(k, crate::noiseexplorer_nx::utils::nb(n), Seq::empty(), p));
}
/// Client program: a handshake over unmodified messages, checked against the contracts of the calls alone.
pub fn thm_C15_handshake(prologue: &[u8], si: Keypair, sr: Keypair, ei: Keypair, er: Keypair, a: &mut [u8], b: &mut [u8]) -> (r: Option<(NoiseSession, NoiseSession)>)
    requires
        paired(ei), paired(er), paired(sr), ei.private_key.k@ != zeros(32), er.private_key.k@ != zeros(32),
        !forbidden(ei.public_key.k@), !forbidden(er.public_key.k@), !forbidden(sr.public_key.k@),
        48 <= old(a)@.len() <= 65535, 96 <= old(b)@.len() <= 65535,
    ensures
        // the two sessions agree, and nothing but an unusable (all-zero) derived key stops them
        r is Some ==> {
            let (i, r) = r->Some_0;
            i.is_transport && r.is_transport && i.mc == 2 && r.mc == 2 && i.i && !r.i
                && i.h.h@ == r.h.h@ && i.cs1.k.k@ == r.cs1.k.k@ && i.cs2.k.k@ == r.cs2.k.k@
                && i.cs1.n.n == 0 && i.cs2.n.n == 0 && r.cs1.n.n == 0 && r.cs2.n.n == 0
                && i.hs.rs.k@ == sr.public_key.k@
                && final(a)@.skip(32) =~= old(a)@.skip(32)
                && final(b)@.subrange(80, old(b)@.len() - 16) =~= old(b)@.subrange(80, old(b)@.len() - 16)
        },
        r is None ==> exists|s: Sym| !#[trigger] wb_ok(s, er, sr, ei.public_key.k@),
{
    broadcast use group_state;
    let mut i = NoiseSession::init_session(true, prologue, si);
    let mut r = NoiseSession::init_session(false, prologue, sr);
    i.set_ephemeral_keypair(ei);
    r.set_ephemeral_keypair(er);
    let ghost pa = a@;
    if i.send_message(a).is_err() { assert(false); }
    proof { assert(a@.take(32) =~= ei.public_key.k@); assert(a@.skip(32) =~= pa.skip(32)); }
    if r.recv_message(a).is_err() { assert(false); }
    assert(sym(i.hs.ss) == sym(r.hs.ss));
    let ghost s = sym(r.hs.ss);
    let ghost pb = b@;
    if r.send_message(b).is_err() { return None; }
    proof { lemma_C15_agree(s, er, sr, ei, pb.subrange(80, pb.len() - 16)); }
    assert(b@ == wb_out(s, er, sr, ei.public_key.k@, pb.subrange(80, pb.len() - 16)));
    let ghost m = b@;
    if i.recv_message(b).is_err() { assert(false); }
    Some((i, r))
}
/// two sessions that can talk: same keys, and each direction's counters agree
pub open spec fn linked(x: NoiseSession, y: NoiseSession) -> bool {
    x.mc >= 2 && y.mc >= 2 && x.i != y.i
        && x.cs1.k.k@ == y.cs1.k.k@ && x.cs2.k.k@ == y.cs2.k.k@ && x.cs1.n == y.cs1.n && x.cs2.n == y.cs2.n
}
/// Client program: one message in either direction; `linked` is an invariant of lockstep traffic,
/// so by induction every message of every such sequence arrives unchanged.
pub fn thm_C15_transport(x: &mut NoiseSession, y: &mut NoiseSession, m: &mut [u8]) -> (ok: bool)
    requires linked(*old(x), *old(y)), old(x).mc < u128::MAX, old(y).mc < u128::MAX, 16 <= old(m)@.len() <= 65535,
    ensures
        linked(*final(x), *final(y)),
        ok ==> final(m)@.take(old(m)@.len() - 16) =~= old(m)@.take(old(m)@.len() - 16),
        ok <==> usable(sending(*old(x)).k.k@, sending(*old(x)).n.n as int),
{
    let ghost p = m@.take(m@.len() - 16);
    if x.send_message(m).is_err() { return false; }
    let ghost k = sending(*old(x));
    proof { lemma_C15_open(k.k.k@, k.n.n as int, p); }
    assert(m@ == seal(k.k.k@, k.n.n as int, Seq::empty(), p));
    if y.recv_message(m).is_err() { assert(false); }
    true
}
/// Client program: two peers that rekey the same direction stay linked.
pub fn thm_C21_rekey(x: &mut NoiseSession, y: &mut NoiseSession, local: bool)
    requires linked(*old(x), *old(y)),
    ensures linked(*final(x), *final(y)),
{
    if local { x.rekey_local_cipherstate(); y.rekey_local_cipherstate(); }
    else { x.rekey_remote_cipherstate(); y.rekey_remote_cipherstate(); }
}
/// Client program: a cleared direction refuses.
pub fn thm_C19_cleared(x: &mut NoiseSession, m: &mut [u8])
    requires old(x).mc >= 2, old(x).mc < u128::MAX - 2,
{
    x.clear_local_cipherstate();
    x.clear_remote_cipherstate();
    let a = x.send_message(m).is_err();
    assert(a);
    let b = x.recv_message(m).is_err();
    assert(b);
}
/// Client program: the counter of a direction strictly grows with every message sent, so no (key, nonce)
/// pair is used twice: whatever the buffers, and whether or not the calls succeed.
pub fn thm_C16_no_reuse(x: &mut NoiseSession, m1: &mut [u8], m2: &mut [u8]) -> (r: (bool, bool))
    requires old(x).mc >= 2, old(x).mc < u128::MAX - 2,
    ensures
        sending(*final(x)).k == sending(*old(x)).k,
        sending(*final(x)).n.n == sending(*old(x)).n.n + (if r.0 { 1int } else { 0 }) + (if r.1 { 1int } else { 0 }),
        sending(*old(x)).n.n == u64::MAX ==> !r.0 && !r.1,
{
    let a = x.send_message(m1).is_ok();
    let b = x.send_message(m2).is_ok();
    (a, b)
}
