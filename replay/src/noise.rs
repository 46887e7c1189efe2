//! the secure session (C14..C19, C21, C22) against an independent model of
//! Noise_NX_25519_ChaChaPoly_BLAKE2s
use crate::harness::{hex, Rec, Rng};
use blake2_rfc::blake2s::Blake2s;
use hacl_star::{chacha20poly1305, curve25519};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::str::FromStr;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

type K = [u8; 32];
const FORBIDDEN: [&str; 12] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880",
    "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7",
    "d9ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "daffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "dbffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
];
fn forbidden() -> Vec<K> {
    FORBIDDEN.iter().map(|s| unhex(s)).collect()
}
fn unhex(s: &str) -> K {
    let mut k = [0u8; 32];
    for i in 0..32 {
        k[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    k
}

// ---- the model -------------------------------------------------------------------------------
fn h2(parts: &[&[u8]]) -> K {
    let mut c = Blake2s::new(32);
    for p in parts {
        c.update(p);
    }
    let mut o = [0u8; 32];
    o.copy_from_slice(c.finalize().as_bytes());
    o
}
fn hmac(key: &[u8], data: &[u8]) -> K {
    let mut i = [0x36u8; 64];
    let mut o = [0x5cu8; 64];
    for (n, b) in key.iter().enumerate() {
        i[n] ^= b;
        o[n] ^= b;
    }
    h2(&[&o, &h2(&[&i, data])])
}
fn hkdf(ck: &K, ikm: &[u8]) -> (K, K) {
    let t = hmac(ck, ikm);
    let a = hmac(&t, &[1]);
    let b = hmac(&t, &[&a[..], &[2u8][..]].concat());
    (a, b)
}
fn dh(secret: &K, public: &K) -> K {
    let mut o = [0u8; 32];
    curve25519::scalarmult(&mut o, secret, public);
    o
}
fn public(secret: &K) -> K {
    let mut nine = [0u8; 32];
    nine[0] = 9;
    dh(secret, &nine)
}
fn nonce(n: u64) -> [u8; 12] {
    let mut v = [0u8; 12];
    v[4..].copy_from_slice(&n.to_le_bytes());
    v
}
fn aead(k: &K, n: &[u8; 12], ad: &[u8], plain: &[u8]) -> Vec<u8> {
    let mut v = plain.to_vec();
    let mut mac = [0u8; 16];
    chacha20poly1305::key(k).nonce(n).encrypt(ad, &mut v, &mut mac);
    v.extend_from_slice(&mac);
    v
}
fn rekeyed(k: &K) -> K {
    let mut o = [0u8; 32];
    o.copy_from_slice(&aead(k, &[0xFF; 12], &[], &[0u8; 32])[..32]);
    o
}
#[derive(Clone)]
struct Model {
    h: K,
    ck: K,
    k: K,
    n: u64,
    keys: Vec<K>,
}
impl Model {
    fn new(prologue: &[u8]) -> Model {
        let h = h2(&[b"Noise_NX_25519_ChaChaPoly_BLAKE2s"]);
        let mut m = Model { h, ck: h, k: [0; 32], n: 0, keys: vec![h] };
        m.hash(prologue);
        m
    }
    fn hash(&mut self, d: &[u8]) {
        self.h = h2(&[&self.h, d]);
    }
    fn key(&mut self, ikm: &[u8]) {
        let (a, b) = hkdf(&self.ck, ikm);
        self.ck = a;
        self.k = b;
        self.n = 0;
        self.keys.push(a);
        self.keys.push(b);
    }
    fn seal(&mut self, p: &[u8]) -> Vec<u8> {
        let c = aead(&self.k, &nonce(self.n), &self.h, p);
        self.n += 1;
        self.hash(&c);
        c
    }
    fn message_a(&mut self, e: &K, payload: &[u8]) -> Vec<u8> {
        self.hash(e);
        self.hash(payload);
        [&e[..], payload].concat()
    }
    fn message_b(&mut self, e: &K, ee: &K, s: &K, es: &K, payload: &[u8]) -> Vec<u8> {
        self.hash(e);
        self.key(ee);
        let cs = self.seal(s);
        self.key(es);
        let cp = self.seal(payload);
        [&e[..], &cs[..], &cp[..]].concat()
    }
    fn split(&self) -> (K, K) {
        hkdf(&self.ck, &[])
    }
}

// ---- sessions with chosen keys -----------------------------------------------------------------
#[derive(Clone)]
struct Keys {
    si: K,
    ei: K,
    sr: K,
    er: K,
    prologue: Vec<u8>,
}
fn keys(rng: &mut Rng) -> Keys {
    let n = *rng.pick(&[0usize, 0, 1, 32, 100]);
    Keys { si: rng.arr32(), ei: rng.arr32(), sr: rng.arr32(), er: rng.arr32(), prologue: rng.bytes(n) }
}
impl Keys {
    fn show(&self) -> String {
        format!("initiator e {} responder s {} e {} prologue {}", hex(&self.ei), hex(&self.sr), hex(&self.er), hex(&self.prologue))
    }
    fn initiator(&self) -> NoiseSession {
        let mut s = NoiseSession::init_session(true, &self.prologue, pair(&self.si));
        s.set_ephemeral_keypair(pair(&self.ei));
        s
    }
    fn responder(&self) -> NoiseSession {
        let mut s = NoiseSession::init_session(false, &self.prologue, pair(&self.sr));
        s.set_ephemeral_keypair(pair(&self.er));
        s
    }
    fn ee(&self) -> K {
        dh(&self.er, &public(&self.ei))
    }
    fn es(&self) -> K {
        dh(&self.sr, &public(&self.ei))
    }
    fn model_b(&self, m: &mut Model, payload: &[u8]) -> Vec<u8> {
        m.message_b(&public(&self.er), &self.ee(), &public(&self.sr), &self.es(), payload)
    }
}
fn pair(k: &K) -> Keypair {
    Keypair::from_private_key(PrivateKey::from_bytes(*k)).unwrap()
}
/// both sides after an unmodified handshake of the real code; None if it refuses
fn connected(k: &Keys, pa: &[u8], pb: &[u8]) -> Option<(NoiseSession, NoiseSession, Vec<u8>, Vec<u8>)> {
    let (mut i, mut r) = (k.initiator(), k.responder());
    let mut a = [&[0u8; 32][..], pa].concat();
    i.send_message(&mut a).ok()?;
    let sent_a = a.clone();
    r.recv_message(&mut a).ok()?;
    let mut b = [&[0u8; 80][..], pb, &[0u8; 16][..]].concat();
    r.send_message(&mut b).ok()?;
    let sent_b = b.clone();
    i.recv_message(&mut b).ok()?;
    if b.len() < 96 || b[80..b.len() - 16] != pb[..] {
        return None;
    }
    Some((i, r, sent_a, sent_b))
}
fn raw<T>(t: &T) -> Vec<u8> {
    let n = std::mem::size_of::<T>();
    let p = t as *const T as *const u8;
    (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    (0..hay.len().saturating_sub(needle.len() - 1)).find(|i| &hay[*i..*i + needle.len()] == needle)
}
fn status(s: &NoiseSession) -> (u128, bool, Option<[u8; 32]>, Option<[u8; 32]>) {
    (s.get_message_count(), s.is_transport(), s.get_handshake_hash(), s.get_remote_static_public_key().map(|k| k.as_bytes()))
}
fn payload(rng: &mut Rng, min: usize) -> Vec<u8> {
    let n = *rng.pick(&[0usize, 1, 15, 16, 17, 31, 32, 33, 64, 300, 928, 2047, 2049, 5000]);
    rng.bytes(n.max(min))
}

// ---- C14 -----------------------------------------------------------------------------------------
/// the transport state of one side as the model has it
#[derive(Clone)]
struct Side {
    send: (K, u64),
    recv: (K, u64),
}
fn send_ok(r: &mut Rec, s: &mut NoiseSession, side: &mut Side, p: &[u8], what: &str, ctx: &dyn Fn() -> String) -> Option<Vec<u8>> {
    let mut b = [p, &[0u8; 16][..]].concat();
    let before = status(s);
    let inp = || format!("{}; sending {} bytes", ctx(), p.len());
    let res = r.guard("send_message", &inp, || s.send_message(&mut b))?;
    let after = status(s);
    if !r.check(res.is_ok(), || format!("{}: an established session refuses to send", what), inp) {
        return None;
    }
    let want = aead(&side.send.0, &nonce(side.send.1), &[], p);
    r.check(b == want, || format!("{}: the message sent is not the plaintext encrypted under the sending key and counter", what), || format!("{} counter {}", inp(), side.send.1));
    side.send.1 += 1;
    r.check(
        after.0 == before.0 + 1 && after.1 == before.1 && after.2 == before.2 && after.3 == before.3,
        || format!("{}: a successful send must advance the message count by exactly one and nothing else", what),
        || format!("{} before {:?} after {:?}", inp(), before, after),
    );
    Some(b)
}
/// feeds a message encrypted by the model
fn recv_ok(r: &mut Rec, s: &mut NoiseSession, side: &mut Side, p: &[u8], what: &str, ctx: &dyn Fn() -> String) -> bool {
    let mut b = aead(&side.recv.0, &nonce(side.recv.1), &[], p);
    let before = status(s);
    let inp = || format!("{}; receiving a genuine message of {} bytes", ctx(), p.len());
    let res = match r.guard("recv_message", &inp, || s.recv_message(&mut b)) {
        Some(x) => x,
        None => return false,
    };
    let after = status(s);
    if !r.check(res.is_ok(), || format!("{}: an established session refuses a genuine message", what), || format!("{} counter {}", inp(), side.recv.1)) {
        return false;
    }
    side.recv.1 += 1;
    r.check(b[..p.len()] == p[..], || format!("{}: a genuine message does not decrypt to its plaintext", what), inp)
        & r.check(
            after.0 == before.0 + 1 && after.1 == before.1 && after.2 == before.2 && after.3 == before.3,
            || format!("{}: a successful receive must advance the message count by exactly one and nothing else", what),
            || format!("{} before {:?} after {:?}", inp(), before, after),
        )
}
/// an operation that must be refused and change nothing that can be seen
fn refused(r: &mut Rec, s: &mut NoiseSession, send: bool, buf: &[u8], what: &str, ctx: &dyn Fn() -> String) {
    let mut b = buf.to_vec();
    let before = status(s);
    let inp = || format!("{}; {} {} bytes {}", ctx(), if send { "send" } else { "recv" }, buf.len(), hex(&buf[..buf.len().min(120)]));
    r.case(&(what, send, buf.len(), before.0));
    let res = if send { r.guard("send_message", &inp, || s.send_message(&mut b)) } else { r.guard("recv_message", &inp, || s.recv_message(&mut b)) };
    if let Some(res) = res {
        let after = status(s);
        r.check(res.is_err(), || format!("{} is accepted", what), inp);
        r.check(before == after, || format!("{}: a refused operation changes the message count, phase, hash or peer key", what), || format!("{} before {:?} after {:?}", inp(), before, after));
    }
}
fn sides(m: &Model) -> (Side, Side) {
    let (k1, k2) = m.split();
    (Side { send: (k1, 0), recv: (k2, 0) }, Side { send: (k2, 0), recv: (k1, 0) })
}

const BAD_LEN: [usize; 6] = [0, 1, 15, 65536, 65537, 70000];

pub fn c14(r: &mut Rec) {
    let mut first = true;
    while first || r.more() && r.evals < r.cap(60_000) {
        first = false;
        if r.full() {
            return;
        }
        let k = keys(&mut r.rng);
        let ctx = || k.show();
        let mut m = Model::new(&k.prologue);
        let (mut i, mut s) = (k.initiator(), k.responder());
        for (x, who) in vec![(&mut i, "a new initiator"), (&mut s, "a new responder")] {
            let st = status(x);
            r.check(st == (0, false, None, None), || format!("{} is not in the handshake phase with no messages, hash or peer key", who), || format!("{:?}", st));
            for n in BAD_LEN.iter() {
                refused(r, x, true, &vec![0; *n], &format!("{}: a message of {} bytes", who, n), &ctx);
                refused(r, x, false, &vec![0; *n], &format!("{}: a message of {} bytes", who, n), &ctx);
            }
        }
        refused(r, &mut i, true, &[0; 31], "a first message without room for the key", &ctx);
        refused(r, &mut s, false, &[7; 47], "a first message shorter than 48 bytes", &ctx);
        refused(r, &mut s, false, &[&[0u8; 32][..], &[1u8; 40][..]].concat(), "a first message with a forbidden key", &ctx);
        let pa = payload(&mut r.rng, 16);
        let want = m.message_a(&public(&k.ei), &pa);
        let mut a = [&[0u8; 32][..], &pa[..]].concat();
        let ok = r.guard("send_message", &ctx, || i.send_message(&mut a));
        if !r.check(matches!(ok, Some(Ok(()))), || "the initiator cannot send its first message".into(), ctx) {
            continue;
        }
        r.check(a == want, || "the first message is not the ephemeral key and the payload".into(), ctx);
        r.check(status(&i) == (1, false, None, None), || "after sending the first message the session is not at message 1 of the handshake".into(), || format!("{:?}", status(&i)));
        for n in BAD_LEN.iter() {
            refused(r, &mut i, false, &vec![0; *n], &format!("a message of {} bytes", n), &ctx);
        }
        // nothing but a genuine second message can complete the handshake
        {
            let (mut i2, _) = (k.initiator(), ());
            let mut a2 = [&[0u8; 32][..], &pa[..]].concat();
            if matches!(r.guard("send_message", &ctx, || i2.send_message(&mut a2)), Some(Ok(()))) {
                for n in [16usize, 47, 48, 79, 80, 95].iter() {
                    let b = r.rng.bytes(*n);
                    refused(r, &mut i2, false, &b, "a second message that is too short", &ctx);
                }
                let b = r.rng.bytes(120);
                refused(r, &mut i2, false, &b, "a forged second message", &ctx);
                let mut b = k.model_b(&mut m.clone(), b"hi");
                let l = b.len();
                b[l - 1] ^= 1;
                let mut i3 = k.initiator();
                let mut a3 = [&[0u8; 32][..], &pa[..]].concat();
                if matches!(r.guard("send_message", &ctx, || i3.send_message(&mut a3)), Some(Ok(()))) {
                    refused(r, &mut i3, false, &b, "a second message with a changed tag", &ctx);
                }
            }
        }
        let ok = r.guard("recv_message", &ctx, || s.recv_message(&mut a));
        if !r.check(matches!(ok, Some(Ok(()))), || "the responder refuses a genuine first message".into(), ctx) {
            continue;
        }
        r.check(status(&s) == (1, false, None, None), || "after receiving the first message the session is not at message 1 of the handshake".into(), || format!("{:?}", status(&s)));
        let pb = payload(&mut r.rng, 0);
        // a responder that first tries with too little room stays at message 1
        let kk = k.clone();
        {
            let mut s2 = kk.responder();
            let mut a2 = m_first(&kk, &pa);
            if matches!(r.guard("recv_message", &ctx, || s2.recv_message(&mut a2)), Some(Ok(()))) {
                for n in [16usize, 31, 32, 79].iter() {
                    refused(r, &mut s2, true, &vec![0; *n], "a second message without room", &ctx);
                }
            }
        }
        let want = k.model_b(&mut m, &pb);
        let mut b = [&[0u8; 80][..], &pb[..], &[0u8; 16][..]].concat();
        let ok = r.guard("send_message", &ctx, || s.send_message(&mut b));
        if !r.check(matches!(ok, Some(Ok(()))), || "the responder cannot send the second message".into(), ctx) {
            continue;
        }
        r.check(b == want, || "the second message is not e, encrypted s, encrypted payload".into(), ctx);
        let st = status(&s);
        r.check(st.0 == 2 && st.1 && st.2 == Some(m.h) && st.3.is_some(), || "after sending the second message the session is not a transport session".into(), || format!("{:?}", st));
        let ok = r.guard("recv_message", &ctx, || i.recv_message(&mut b));
        if !r.check(matches!(ok, Some(Ok(()))), || "the initiator refuses a genuine second message".into(), ctx) {
            continue;
        }
        let st = status(&i);
        r.check(st.0 == 2 && st.1 && st.2 == Some(m.h) && st.3 == Some(public(&k.sr)), || "after receiving the second message the session is not a transport session".into(), || format!("{:?}", st));
        let (mut mi, mut ms) = sides(&m);
        // transport: any mixture of genuine, forged, out of range
        for _ in 0..12 {
            let p = payload(&mut r.rng, 0);
            let on_i = r.rng.chance(2);
            let (x, side, who) = if on_i { (&mut i, &mut mi, "initiator") } else { (&mut s, &mut ms, "responder") };
            r.case(&(who, p.len(), side.send.1, side.recv.1));
            match r.rng.below(5) {
                0 => {
                    send_ok(r, x, side, &p, who, &ctx);
                }
                1 => {
                    recv_ok(r, x, side, &p, who, &ctx);
                }
                2 => {
                    let mut b = aead(&side.recv.0, &nonce(side.recv.1), &[], &p);
                    let n = r.rng.below(b.len());
                    b[n] ^= 1 << r.rng.below(8);
                    refused(r, x, false, &b, "a changed transport message", &ctx);
                }
                3 => {
                    let d = if r.rng.chance(2) { 1 } else { u64::MAX };
                    let b = aead(&side.recv.0, &nonce(side.recv.1.wrapping_add(d)), &[], &p);
                    refused(r, x, false, &b, "a transport message out of order", &ctx);
                }
                _ => {
                    let n = *r.rng.pick(&BAD_LEN);
                    let sd = r.rng.chance(2);
                    refused(r, x, sd, &vec![3; n], &format!("a transport message of {} bytes", n), &ctx);
                }
            }
        }
        wrapper(r);
    }
}
fn m_first(k: &Keys, pa: &[u8]) -> Vec<u8> {
    Model::new(&k.prologue).message_a(&public(&k.ei), pa)
}

/// the connection wrapper says complete exactly when the session is in transport
fn wrapper(r: &mut Rec) {
    let sk = r.rng.arr32();
    let cx = || format!("server static key {}", hex(&sk));
    let mut o = ConnectionEncryptor::new_outbound();
    let mut i = ConnectionEncryptor::new_inbound(Some(pair(&sk)));
    r.check(!o.is_handshake_complete() && !i.is_handshake_complete(), || "a new connection reports a complete handshake".into(), cx);
    r.check(o.get_remote_pubkey().is_none() && i.get_remote_pubkey().is_none(), || "a new connection reports a peer key".into(), cx);
    let a = match r.guard("init_handshake", &cx, || o.init_handshake()) {
        Some(Ok(a)) => a,
        _ => {
            r.fail("init_handshake fails", cx());
            return;
        }
    };
    r.check(!o.is_handshake_complete() && o.get_remote_pubkey().is_none(), || "the connection reports completion after its first message".into(), cx);
    let mut bad = a.clone();
    for b in bad[..32].iter_mut() {
        *b = 0;
    }
    let _ = r.guard("recv_handshake", &cx, || i.recv_handshake(&mut bad).is_ok());
    r.check(!i.is_handshake_complete(), || "the server reports completion after a refused first message".into(), cx);
    let mut x = a.clone();
    let b = match r.guard("recv_handshake", &cx, || i.recv_handshake(&mut x)) {
        Some(Ok(b)) => b,
        _ => {
            r.fail("the server refuses a genuine first message", cx());
            return;
        }
    };
    r.check(i.is_handshake_complete() && i.get_remote_pubkey().is_some(), || "the server does not report completion after answering".into(), cx);
    r.check(b.len() == a.len(), || "the server's answer is not as long as its buffer".into(), || format!("{} {}", a.len(), b.len()));
    let mut y = b.clone();
    let g = r.guard("recv_handshake", &cx, || o.recv_handshake(&mut y));
    r.check(matches!(g, Some(Ok(_))), || "the client refuses a genuine second message".into(), cx);
    r.check(
        o.is_handshake_complete() && o.get_remote_pubkey().map(|k| k.as_bytes()) == Some(public(&sk)),
        || "the client does not report completion and the server's static key".into(),
        cx,
    );
    // forged answer
    let mut o2 = ConnectionEncryptor::new_outbound();
    let mut i2 = ConnectionEncryptor::new_inbound(None);
    if let Some(Ok(mut a)) = r.guard("init_handshake", &cx, || o2.init_handshake()) {
        if let Some(Ok(mut b)) = r.guard("recv_handshake", &cx, || i2.recv_handshake(&mut a)) {
            let n = r.rng.below(b.len());
            b[n] ^= 0x10;
            let g = r.guard("recv_handshake", &cx, || o2.recv_handshake(&mut b).is_ok());
            r.check(g != Some(true) && !o2.is_handshake_complete() && o2.get_remote_pubkey().is_none(), || "a changed second message completes the client's handshake".into(), || format!("byte {} changed", n));
        }
    }
}

// ---- C15 -----------------------------------------------------------------------------------------
pub fn c15(r: &mut Rec) {
    let mut round = 0u64;
    while round < 3 || r.more() && r.evals < r.cap(60_000) {
        if r.full() {
            return;
        }
        round += 1;
        let k = keys(&mut r.rng);
        let (pa, pb) = (payload(&mut r.rng, 16), payload(&mut r.rng, 0));
        let ctx = || format!("{}; payloads of {} and {} bytes", k.show(), pa.len(), pb.len());
        let mut m = Model::new(&k.prologue);
        let wa = m.message_a(&public(&k.ei), &pa);
        let after_a = m.clone();
        let wb = k.model_b(&mut m, &pb);
        r.case(&(pa.len(), pb.len(), round));
        r.sample(|| ctx());
        let (mut i, mut s, a, b) = match r.guard("handshake", &ctx, || connected(&k, &pa, &pb)) {
            Some(Some(x)) => x,
            Some(None) => {
                r.fail("an unmodified handshake fails or loses its payload", ctx());
                return;
            }
            None => return,
        };
        r.check(a == wa, || "the first message is not that of the Noise NX pattern".into(), ctx);
        r.check(b == wb, || "the second message is not that of the Noise NX pattern".into(), ctx);
        r.check(i.get_handshake_hash() == Some(m.h) && s.get_handshake_hash() == Some(m.h), || "the handshake hashes are not the transcript hash".into(), ctx);
        let (mut mi, mut ms) = sides(&m);
        // real against real, and each against the model
        for _ in 0..10 {
            let p = payload(&mut r.rng, 0);
            let fwd = r.rng.chance(2);
            r.case(&(p.len(), fwd, mi.send.1, ms.send.1));
            let (x, sx, y, sy, who) = if fwd { (&mut i, &mut mi, &mut s, &mut ms, "initiator to responder") } else { (&mut s, &mut ms, &mut i, &mut mi, "responder to initiator") };
            if let Some(mut c) = send_ok(r, x, sx, &p, who, &ctx) {
                let mut bad = c.clone();
                let n = r.rng.below(bad.len());
                bad[n] ^= 1 << r.rng.below(8);
                refused(r, y, false, &bad, "a changed transport message", &ctx);
                refused(r, y, false, &c[1..], "a transport message without its first byte", &ctx);
                refused(r, y, false, &c[..c.len() - 1], "a transport message without its last byte", &ctx);
                let kept = c.clone();
                let got = r.guard("recv_message", &ctx, || y.recv_message(&mut c));
                r.check(matches!(got, Some(Ok(()))) && c[..p.len()] == p[..], || format!("{}: a message does not arrive as it was sent", who), ctx);
                sy.recv.1 += 1;
                refused(r, y, false, &kept, "a repeated transport message", &ctx);
                refused(r, x, false, &kept, "a message sent back to its sender", &ctx);
            } else {
                return;
            }
        }
        // every byte of the second message is authenticated
        let (pa, pb) = (r.rng.bytes(16), r.rng.bytes(3));
        let mut m = Model::new(&k.prologue);
        m.message_a(&public(&k.ei), &pa);
        let wb = k.model_b(&mut m, &pb);
        for n in 0..wb.len() {
            if round > 3 && !r.rng.chance(20) {
                continue;
            }
            let mut i = k.initiator();
            let mut a = [&[0u8; 32][..], &pa[..]].concat();
            if !matches!(r.guard("send_message", &ctx, || i.send_message(&mut a)), Some(Ok(()))) {
                r.fail("the initiator cannot send its first message", ctx());
                return;
            }
            let mut bad = wb.clone();
            bad[n] ^= if n == 31 && r.rng.chance(2) { 0x80 } else { 1 << r.rng.below(8) };
            refused(r, &mut i, false, &bad, "a second message with a changed byte", &|| format!("{}; byte {} changed", ctx(), n));
        }
        // every byte of the first message enters the transcript
        for n in 0..48 {
            if round > 3 && !r.rng.chance(10) {
                continue;
            }
            let (mut i, mut s) = (k.initiator(), k.responder());
            let mut a = [&[0u8; 32][..], &pa[..]].concat();
            let go = r.guard("first message", &ctx, || i.send_message(&mut a).is_ok());
            a[n] ^= if n == 31 && r.rng.chance(2) { 0x80 } else { 1 << r.rng.below(8) };
            let cx = || format!("{}; byte {} of the first message changed in transit", ctx(), n);
            let go2 = r.guard("first message", &cx, || s.recv_message(&mut a).is_ok());
            if go == Some(true) && go2 == Some(true) {
                let mut b = vec![0u8; 120];
                if r.guard("second message", &cx, || s.send_message(&mut b).is_ok()) == Some(true) {
                    refused(r, &mut i, false, &b, "the answer to a changed first message", &cx);
                }
            }
        }
        // different prologues or a man in the middle's static key do not agree
        let mut k2 = k.clone();
        k2.prologue.push(1);
        let mut i = k.initiator();
        let mut s = k2.responder();
        let mut a = [&[0u8; 32][..], &pa[..]].concat();
        let go = r.guard("first message", &ctx, || i.send_message(&mut a).is_ok() && s.recv_message(&mut a).is_ok());
        let mut b = vec![0u8; 120];
        if go == Some(true) && r.guard("second message", &ctx, || s.send_message(&mut b).is_ok()) == Some(true) {
            refused(r, &mut i, false, &b, "the answer of a responder with another prologue", &ctx);
        }
        // a message b whose es does not belong to its static key
        let _ = after_a;
        let mut m = Model::new(&k.prologue);
        m.message_a(&public(&k.ei), &pa);
        let es = r.rng.arr32();
        let b = m.message_b(&public(&k.er), &k.ee(), &public(&k.sr), &es, &pb);
        let mut i = k.initiator();
        let mut a = [&[0u8; 32][..], &pa[..]].concat();
        if r.guard("first message", &ctx, || i.send_message(&mut a).is_ok()) == Some(true) {
            refused(r, &mut i, false, &b, "a responder that does not know its static private key", &ctx);
        }
    }
}

// ---- C16 -----------------------------------------------------------------------------------------
/// offset of the only 8-byte counter in the session that equals `n`, `n+1`, .. as it sends or receives
fn counter_offset(s: &mut NoiseSession, side: &mut Side, send: bool) -> Option<usize> {
    let mut cand: Option<Vec<usize>> = None;
    for _ in 0..4 {
        let (k, n) = if send { side.send } else { side.recv };
        let mut b = if send { vec![1u8; 20] } else { aead(&k, &nonce(n), &[], &[1u8; 4]) };
        if send {
            s.send_message(&mut b).ok()?;
            side.send.1 += 1;
        } else {
            s.recv_message(&mut b).ok()?;
            side.recv.1 += 1;
        }
        let v = raw(s);
        let want = (n + 1).to_le_bytes();
        let hits: Vec<usize> = (0..v.len() / 8).map(|i| i * 8).filter(|i| v[*i..*i + 8] == want).collect();
        cand = Some(match cand {
            None => hits,
            Some(c) => c.into_iter().filter(|x| hits.contains(x)).collect(),
        });
    }
    match cand {
        Some(c) if c.len() == 1 => Some(c[0]),
        _ => None,
    }
}
fn poke(s: &mut NoiseSession, at: usize, n: u64) {
    let p = s as *mut NoiseSession as *mut u8;
    for (i, b) in n.to_le_bytes().iter().enumerate() {
        unsafe { std::ptr::write_volatile(p.add(at + i), *b) }
    }
}

pub fn c16(r: &mut Rec) {
    let mut first = true;
    while first || r.more() && r.evals < r.cap(60_000) {
        first = false;
        if r.full() {
            return;
        }
        let k = keys(&mut r.rng);
        let ctx = || k.show();
        let mut m = Model::new(&k.prologue);
        m.message_a(&public(&k.ei), &[5; 16]);
        k.model_b(&mut m, &[6; 3]);
        let (mut i, mut s, _, _) = match r.guard("handshake", &ctx, || connected(&k, &[5; 16], &[6; 3])) {
            Some(Some(x)) => x,
            _ => {
                r.fail("an unmodified handshake fails", ctx());
                return;
            }
        };
        let (mut mi, mut ms) = sides(&m);
        for (x, side, who) in vec![(&mut i, &mut mi, "initiator"), (&mut s, &mut ms, "responder")] {
            // counters advance by one per success, in both directions independently; equal
            // plaintexts never give equal ciphertexts
            let mut seen: Vec<Vec<u8>> = vec![];
            for n in 0..7 {
                // empty messages and messages of one cipher block or less count too
                let p = vec![0u8; [40, 0, 0, 1, 64, 40, 0][n]];
                r.case(&(who, n, 1));
                match send_ok(r, x, side, &p, who, &ctx) {
                    Some(c) => {
                        r.check(!seen.contains(&c), || "two messages are encrypted under the same key and counter".into(), ctx);
                        seen.push(c);
                    }
                    None => return,
                }
                if r.rng.chance(2) {
                    recv_ok(r, x, side, &p, who, &ctx);
                }
                if r.rng.chance(3) {
                    refused(r, x, true, &[0; 15], "a short message", &ctx);
                    refused(r, x, false, &[9; 60], "a forged message", &ctx);
                }
            }
            // exhaustion
            for send in [true, false].iter() {
                let got = r.guard("transport", &ctx, || counter_offset(x, side, *send)).unwrap_or(None);
                let at = match got {
                    Some(at) => at,
                    None => continue,
                };
                for start in [u64::MAX - 2, u64::MAX - 1].iter() {
                    poke(x, at, *start);
                    let mut n = *start;
                    while n < u64::MAX {
                        if *send {
                            side.send.1 = n;
                        } else {
                            side.recv.1 = n;
                        }
                        r.case(&(who, n, send));
                        let cx = || format!("{}; {} counter at {}", ctx(), if *send { "sending" } else { "receiving" }, n);
                        let key = if *send { side.send.0 } else { side.recv.0 };
                        let sealed = aead(&key, &nonce(n), &[], &[7u8; 30]);
                        let mut b = if *send { [&[7u8; 30][..], &[0u8; 16][..]].concat() } else { sealed.clone() };
                        let res = r.guard("transport at the last counters", &cx, || if *send { x.send_message(&mut b) } else { x.recv_message(&mut b) });
                        r.check(matches!(res, Some(Ok(()))), || format!("{}: a counter below the maximum is refused", who), cx);
                        if *send {
                            r.check(b == sealed, || format!("{}: the last counters do not encrypt with the counter as nonce", who), cx);
                        } else {
                            r.check(b[..30] == [7u8; 30][..], || format!("{}: the last counters do not decrypt with the counter as nonce", who), cx);
                        }
                        n += 1;
                    }
                    let cx = || format!("{}; {} counter at its maximum", ctx(), if *send { "sending" } else { "receiving" });
                    let before = raw(x);
                    for nn in [u64::MAX, 0, 1].iter() {
                        let key = if *send { side.send.0 } else { side.recv.0 };
                        let b = if *send { vec![7u8; 46] } else { aead(&key, &nonce(*nn), &[], &[7u8; 30]) };
                        refused(r, x, *send, &b, "an operation at the maximum counter", &cx);
                    }
                    r.check(raw(x)[at..at + 8] == before[at..at + 8], || "an operation refused at the maximum counter changes the counter".into(), cx);
                }
                // the other direction still works
                let c = 3;
                poke(x, at, c);
                if *send {
                    side.send.1 = c
                } else {
                    side.recv.1 = c
                }
            }
            let p = vec![1u8; 9];
            recv_ok(r, x, side, &p, who, &ctx);
            send_ok(r, x, side, &p, who, &ctx);
            // no key
            let wipe_send = r.rng.chance(2);
            let local = wipe_send == (who == "initiator");
            if local {
                x.clear_local_cipherstate()
            } else {
                x.clear_remote_cipherstate()
            }
            let b = if wipe_send { vec![0u8; 40] } else { aead(&side.recv.0, &nonce(side.recv.1), &[], &[1; 24]) };
            refused(r, x, wipe_send, &b, "an operation without a key", &ctx);
            if !wipe_send {
                let b = aead(&[0; 32], &nonce(0), &[], &[1; 24]);
                refused(r, x, false, &b, "a message under the all-zero key", &ctx);
                send_ok(r, x, side, &p, who, &ctx);
            } else {
                recv_ok(r, x, side, &p, who, &ctx);
            }
        }
    }
}

// ---- C17 -----------------------------------------------------------------------------------------
pub fn c17(r: &mut Rec) {
    r.rule = "every length of a boundary list at every stage of a session (both roles, also out of role), random, zero and genuine contents, and the wrapper; a panic is a failure; non-trivial: a new stage, operation, length and content".into();
    let mut lens: Vec<usize> = (0..200).collect();
    lens.extend(&[255, 256, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2063, 2064, 2065, 2127, 2128, 2129, 2143, 2144, 2145, 4096, 65518, 65519, 65520, 65533, 65534, 65535, 65536, 65537, 70000, 1 << 20]);
    // ways to reach a stage: a list of operations
    let stages: Vec<(&str, Vec<u8>)> = vec![
        ("new initiator", vec![]),
        ("new responder", vec![]),
        ("initiator after its first message", vec![1]),
        ("responder after the first message", vec![2]),
        ("initiator in transport", vec![1, 3]),
        ("responder in transport", vec![2, 3]),
        ("initiator after a refused second message", vec![1, 4]),
        ("responder after a refused answer", vec![2, 5]),
        ("initiator with both directions cleared", vec![1, 3, 6]),
        ("responder with both directions cleared", vec![2, 3, 6]),
        ("initiator after rekeying", vec![1, 3, 7]),
        ("responder cleared and rekeyed", vec![2, 3, 6, 7]),
        ("initiator cleared before the handshake", vec![6]),
        ("initiator rekeyed before the handshake", vec![7, 1]),
        ("initiator that received first", vec![2]),
        ("responder that sent first", vec![1]),
        ("initiator without an ephemeral key that received first", vec![8, 2]),
        ("responder with an empty static key", vec![9, 2]),
    ];
    let k = keys(&mut r.rng);
    let mut pass = 0;
    while pass < 1 || r.more() && r.evals < r.cap(400_000) {
        pass += 1;
        for (who, ops) in &stages {
            for len in &lens {
                if pass > 1 && !r.rng.chance(6) {
                    continue;
                }
                for op in 0..2 {
                    if r.full() {
                        return;
                    }
                    if pass == 1 && *len > 100_000 && op == 1 && ops.len() > 2 {
                        continue;
                    }
                    let init = who.starts_with("init");
                    let inp = || format!("{}, then {} of {} bytes", who, if op == 0 { "send" } else { "recv" }, len);
                    let mut x = match r.guard("init_session", &inp, || {
                        if ops.contains(&9) {
                            NoiseSession::init_session(init, &k.prologue, Keypair::new_empty())
                        } else if ops.contains(&8) {
                            NoiseSession::init_session(init, &k.prologue, pair(&k.si))
                        } else if init {
                            k.initiator()
                        } else {
                            k.responder()
                        }
                    }) {
                        Some(x) => x,
                        None => return,
                    };
                    let mut m = Model::new(&k.prologue);
                    for o in ops {
                        let res = r.guard(&format!("reaching: {}", who), &inp, || match o {
                            1 => {
                                let mut a = vec![1u8; 64];
                                let _ = x.send_message(&mut a);
                                m.message_a(&public(if init { &k.ei } else { &k.er }), &a[32..]);
                            }
                            2 => {
                                let mut a = m.message_a(&public(&k.ei), &[1; 32]);
                                let _ = x.recv_message(&mut a);
                            }
                            3 => {
                                if init {
                                    let mut b = k.model_b(&mut m, &[1, 2]);
                                    let _ = x.recv_message(&mut b);
                                } else {
                                    let _ = x.send_message(&mut vec![0; 100]);
                                }
                            }
                            4 => {
                                let mut b = k.model_b(&mut m, &[1, 2]);
                                let l = b.len();
                                b[l - 1] ^= 1;
                                let _ = x.recv_message(&mut b);
                            }
                            5 => {
                                let _ = x.send_message(&mut vec![0; 90]);
                            }
                            6 => {
                                x.clear_local_cipherstate();
                                x.clear_remote_cipherstate();
                            }
                            7 => {
                                x.rekey_local_cipherstate();
                                x.rekey_remote_cipherstate();
                            }
                            _ => {}
                        });
                        if res.is_none() {
                            return;
                        }
                    }
                    let fill = r.rng.below(3);
                    let mut b = match fill {
                        0 => vec![0u8; *len],
                        1 => r.rng.bytes(*len),
                        _ => {
                            // genuine as far as it goes
                            let n = len.saturating_sub(96);
                            let mut v = if init { k.model_b(&mut m, &vec![4u8; n]) } else { m_first(&k, &vec![4u8; n]) };
                            v.resize(*len, 0x55);
                            v
                        }
                    };
                    r.case(&(who, op, len, fill));
                    let before = x.get_message_count();
                    let got = r.guard(if op == 0 { "send_message" } else { "recv_message" }, &|| format!("{} {}", inp(), hex(&b[..b.len().min(100)])), || unsafe {
                        // the buffer may be changed by a panicking call
                        let p = std::slice::from_raw_parts_mut(b.as_ptr() as *mut u8, b.len());
                        if op == 0 { x.send_message(p) } else { x.recv_message(p) }
                    });
                    match got {
                        None => return,
                        Some(res) => {
                            let after = x.get_message_count();
                            r.check(after == before + res.is_ok() as u128, || "the message count does not follow success".into(), inp);
                            if *len < 16 || *len > 65535 {
                                r.check(res.is_err(), || format!("a message of {} bytes is accepted", len), inp);
                            }
                        }
                    }
                    let _ = &mut b;
                    // and the session is still usable without panicking
                    let mut c = vec![2u8; 64];
                    r.guard("send_message after that", &inp, || x.send_message(&mut c).is_ok());
                    let mut c = vec![2u8; 64];
                    r.guard("recv_message after that", &inp, || x.recv_message(&mut c).is_ok());
                    r.guard("end_session", &inp, || x.end_session());
                }
            }
        }
        // the wrapper
        for len in &lens {
            if pass > 1 && !r.rng.chance(6) {
                continue;
            }
            for role in 0..4 {
                if r.full() {
                    return;
                }
                let inp = || format!("ConnectionEncryptor {} recv_handshake of {} bytes", ["inbound", "outbound", "outbound after init_handshake", "inbound twice"][role], len);
                let mut e = if role == 1 || role == 2 { ConnectionEncryptor::new_outbound() } else { ConnectionEncryptor::new_inbound(None) };
                if role == 2 {
                    r.guard("init_handshake", &inp, || e.init_handshake().is_ok());
                }
                let fill = r.rng.below(2);
                let mut b = if fill == 0 { r.rng.bytes(*len) } else { let mut v = m_first(&k, &vec![4u8; len.saturating_sub(32)]); v.truncate(*len); v };
                r.case(&("wrapper", role, len, fill));
                r.guard("recv_handshake", &inp, || e.recv_handshake(&mut b).is_ok());
                if role == 3 {
                    r.guard("recv_handshake", &inp, || e.recv_handshake(&mut b).is_ok());
                    r.guard("recv_handshake", &inp, || e.recv_handshake(&mut b).is_ok());
                }
                r.guard("init_handshake", &inp, || e.init_handshake().is_ok());
            }
        }
        r.sample(|| format!("stages {:?}", stages.iter().map(|s| s.0).collect::<Vec<_>>()));
    }
}

// ---- C18 -----------------------------------------------------------------------------------------
pub fn c18(r: &mut Rec) {
    let bad = forbidden();
    // built from bytes: exactly the twelve are refused
    let check_bytes = |r: &mut Rec, b: K| {
        let want = bad.contains(&b);
        r.case(&b);
        let inp = || format!("public key bytes {}", hex(&b));
        if let Some(got) = r.guard("PublicKey::from_bytes", &inp, || PublicKey::from_bytes(b)) {
            match got {
                Ok(k) => {
                    r.check(!want, || "a forbidden public key is accepted".into(), inp);
                    r.check(k.as_bytes() == b, || "a public key is not kept byte for byte".into(), inp);
                }
                Err(_) => {
                    r.check(want, || "a public key that is not forbidden is refused".into(), inp);
                }
            }
        }
    };
    for b in &bad {
        check_bytes(r, *b);
        for i in 0..256 {
            let mut c = *b;
            c[i / 8] ^= 1 << (i % 8);
            check_bytes(r, c);
        }
    }
    let mut first = true;
    while first || r.more() && r.evals < r.cap(100_000) {
        if r.full() {
            return;
        }
        let k = keys(&mut r.rng);
        let x = r.rng.arr32();
        check_bytes(r, x);
        let ctx = || k.show();
        let pa = [5u8; 20];
        // as the ephemeral key of the first message, of the second, and as the encrypted static key
        for (n, b) in bad.iter().enumerate() {
            if !first && !r.rng.chance(6) {
                continue;
            }
            let cx = || format!("{}; forbidden key {}", ctx(), hex(b));
            let mut s = k.responder();
            refused(r, &mut s, false, &[&b[..], &pa[..]].concat(), "a first message whose key is forbidden", &cx);
            let start = |r: &mut Rec| {
                let mut i = k.initiator();
                let mut a = [&[0u8; 32][..], &pa[..]].concat();
                if r.guard("send_message", &ctx, || i.send_message(&mut a).is_ok()) != Some(true) {
                    r.fail("the initiator cannot send its first message", ctx());
                }
                let mut m = Model::new(&k.prologue);
                m.message_a(&public(&k.ei), &pa);
                (i, m)
            };
            let (mut i, mut m) = start(r);
            let w = m.message_b(b, &dh(&k.ei, b), &public(&k.sr), &k.es(), &[1, 2, 3]);
            refused(r, &mut i, false, &w, "a second message whose ephemeral key is forbidden", &cx);
            let (mut i, mut m) = start(r);
            let w = m.message_b(&public(&k.er), &k.ee(), b, &dh(&k.ei, b), &[1, 2, 3]);
            refused(r, &mut i, false, &w, "a second message whose static key is forbidden", &cx);
            r.case(&("hs", n));
        }
        // any other static key is reported exactly
        for n in 0..3 {
            let mut s_pub = public(&k.sr);
            if n == 1 {
                // not the canonical encoding, but not forbidden
                s_pub[31] |= 0x80;
            }
            if n == 2 {
                s_pub = r.rng.arr32();
            }
            let mut i = k.initiator();
            let mut a = [&[0u8; 32][..], &pa[..]].concat();
            if r.guard("send_message", &ctx, || i.send_message(&mut a).is_ok()) != Some(true) {
                break;
            }
            let mut m = Model::new(&k.prologue);
            m.message_a(&public(&k.ei), &pa);
            let mut w = m.message_b(&public(&k.er), &k.ee(), &s_pub, &dh(&k.ei, &s_pub), &[1, 2, 3]);
            let cx = || format!("{}; static key {}", ctx(), hex(&s_pub));
            r.case(&("report", n, s_pub));
            let ok = r.guard("recv_message", &cx, || i.recv_message(&mut w));
            r.check(matches!(ok, Some(Ok(()))), || "a second message with a permitted static key is refused".into(), cx);
            let got = i.get_remote_static_public_key().map(|k| k.as_bytes());
            r.check(got == Some(s_pub), || "the reported peer key is not the one proven in the handshake".into(), || format!("{} reported {:?}", cx(), got.map(|g| hex(&g))));
            if matches!(ok, Some(Ok(()))) {
                let (mut mi, _) = sides(&m);
                send_ok(r, &mut i, &mut mi, &[1; 5], "initiator", &cx);
                recv_ok(r, &mut i, &mut mi, &[1; 5], "initiator", &cx);
                let got = i.get_remote_static_public_key().map(|k| k.as_bytes());
                r.check(got == Some(s_pub), || "the reported peer key changes in transport".into(), cx);
            }
        }
        // the first message's key is used byte for byte
        first = false;
    }
}

// ---- C19 -----------------------------------------------------------------------------------------
pub fn c19(r: &mut Rec) {
    r.rule = "handshakes with chosen keys; the bytes of the session object are searched for the private keys, chaining keys and handshake keys afterwards and for the direction's key after clearing; non-trivial: new keys and payload sizes".into();
    let mut first = true;
    while first || r.more() && r.evals < r.cap(20_000) {
        first = false;
        if r.full() {
            return;
        }
        let k = keys(&mut r.rng);
        let (pa, pb) = (payload(&mut r.rng, 16), payload(&mut r.rng, 0));
        let ctx = || k.show();
        let mut m = Model::new(&k.prologue);
        m.message_a(&public(&k.ei), &pa);
        k.model_b(&mut m, &pb);
        let (mut i, mut s, _, _) = match r.guard("handshake", &ctx, || connected(&k, &pa, &pb)) {
            Some(Some(x)) => x,
            _ => {
                r.fail("an unmodified handshake fails", ctx());
                return;
            }
        };
        r.case(&(pa.len(), pb.len(), k.ei));
        r.sample(|| ctx());
        for (x, who, sp, ep) in vec![(&i, "initiator", k.si, k.ei), (&s, "responder", k.sr, k.er)] {
            let v = raw(x);
            r.check(find(&v, &sp).is_none(), || format!("the {}'s static private key is still in the session after the handshake", who), ctx);
            r.check(find(&v, &ep).is_none(), || format!("the {}'s ephemeral private key is still in the session after the handshake", who), ctx);
            for c in &m.keys[1..] {
                r.check(find(&v, c).is_none(), || format!("a chaining or handshake key is still in the {}'s session after the handshake", who), ctx);
            }
            r.check(find(&v, &m.ck).is_none(), || format!("the chaining key is still in the {}'s session after the handshake", who), ctx);
            r.check(x.get_handshake_hash() == Some(m.h), || format!("the {}'s handshake hash is not kept", who), ctx);
        }
        r.check(i.get_remote_static_public_key().map(|k| k.as_bytes()) == Some(public(&k.sr)), || "the peer's static key is not kept".into(), ctx);
        let (mut mi, mut ms) = sides(&m);
        let (k1, k2) = m.split();
        for _ in 0..1 + r.rng.below(3) {
            send_ok(r, &mut i, &mut mi, &[1; 9], "initiator", &ctx);
            recv_ok(r, &mut i, &mut mi, &[1; 9], "initiator", &ctx);
            send_ok(r, &mut s, &mut ms, &[1; 9], "responder", &ctx);
            recv_ok(r, &mut s, &mut ms, &[1; 9], "responder", &ctx);
        }
        for (x, side, who) in vec![(&mut i, &mut mi, "initiator"), (&mut s, &mut ms, "responder")] {
            let local = r.rng.chance(2);
            if local {
                x.clear_local_cipherstate();
            } else {
                x.clear_remote_cipherstate();
            }
            let (gone, kept) = if local { (k1, k2) } else { (k2, k1) };
            let _ = kept;
            let v = raw(x);
            let cx = || format!("{}; {} clears its {} direction", ctx(), who, if local { "local" } else { "remote" });
            r.check(find(&v, &gone).is_none(), || format!("the {}'s key is still in the session after clearing", who), cx);
            let sends = local == (who == "initiator");
            if sends {
                refused(r, x, true, &[0; 50], "sending in a cleared direction", &cx);
                recv_ok(r, x, side, &[3; 20], who, &cx);
            } else {
                let b = aead(&side.recv.0, &nonce(side.recv.1), &[], &[3; 20]);
                refused(r, x, false, &b, "receiving in a cleared direction", &cx);
                let b = aead(&[0; 32], &nonce(0), &[], &[3; 20]);
                refused(r, x, false, &b, "receiving in a cleared direction", &cx);
                send_ok(r, x, side, &[3; 20], who, &cx);
            }
            // the other one as well
            x.clear_local_cipherstate();
            x.clear_remote_cipherstate();
            let v = raw(x);
            r.check(find(&v, &k1).is_none() && find(&v, &k2).is_none(), || format!("a key is still in the {}'s session after clearing both directions", who), cx);
            refused(r, x, true, &[0; 50], "sending in a cleared session", &cx);
            let b = aead(&[0; 32], &nonce(0), &[], &[3; 20]);
            refused(r, x, false, &b, "receiving in a cleared session", &cx);
        }
        r.guard("end_session", &ctx, || {
            i.end_session();
            s.end_session();
        });
    }
}

// ---- C21 -----------------------------------------------------------------------------------------
pub fn c21(r: &mut Rec) {
    let mut first = true;
    while first || r.more() && r.evals < r.cap(60_000) {
        first = false;
        if r.full() {
            return;
        }
        let k = keys(&mut r.rng);
        let ctx0 = k.show();
        let mut m = Model::new(&k.prologue);
        m.message_a(&public(&k.ei), &[5; 16]);
        k.model_b(&mut m, &[6; 3]);
        let (mut i, mut s, _, _) = match r.guard("handshake", &|| ctx0.clone(), || connected(&k, &[5; 16], &[6; 3])) {
            Some(Some(x)) => x,
            _ => {
                r.fail("an unmodified handshake fails", ctx0);
                return;
            }
        };
        let (mut mi, mut ms) = sides(&m);
        let mut trace = String::new();
        for _ in 0..10 {
            let what = r.rng.below(6);
            trace.push_str(&format!(" {}", ["send", "send", "both rekey local", "both rekey remote", "one side rekeys", "receive"][what]));
            let t = trace.clone();
            let ctx = || format!("{};{}", ctx0, t);
            r.case(&trace);
            match what {
                2 | 3 | 4 => {
                    let local = if what == 4 { r.rng.chance(2) } else { what == 2 };
                    let on_i = what != 4 || r.rng.chance(2);
                    let on_s = what != 4 || !on_i;
                    let before = (status(&i), status(&s));
                    let g = r.guard("rekey", &ctx, || {
                        if on_i {
                            if local { i.rekey_local_cipherstate() } else { i.rekey_remote_cipherstate() }
                        }
                        if on_s {
                            if local { s.rekey_local_cipherstate() } else { s.rekey_remote_cipherstate() }
                        }
                    });
                    if g.is_none() {
                        return;
                    }
                    r.check(before == (status(&i), status(&s)), || "rekeying changes the message count, phase, hash or peer key".into(), ctx);
                    if on_i {
                        if local { mi.send.0 = rekeyed(&mi.send.0) } else { mi.recv.0 = rekeyed(&mi.recv.0) }
                    }
                    if on_s {
                        if local { ms.recv.0 = rekeyed(&ms.recv.0) } else { ms.send.0 = rekeyed(&ms.send.0) }
                    }
                }
                5 => {
                    let p = payload(&mut r.rng, 0);
                    recv_ok(r, &mut i, &mut mi, &p, "after rekeying, initiator", &ctx);
                    recv_ok(r, &mut s, &mut ms, &p, "after rekeying, responder", &ctx);
                }
                _ => {
                    let p = payload(&mut r.rng, 0);
                    send_ok(r, &mut i, &mut mi, &p, "after rekeying, initiator", &ctx);
                    send_ok(r, &mut s, &mut ms, &p, "after rekeying, responder", &ctx);
                }
            }
            if r.full() {
                return;
            }
        }
        r.sample(|| trace.clone());
        let t = trace.clone();
        let ctx = || format!("{};{}", ctx0, t);
        recv_ok(r, &mut i, &mut mi, &[1; 5], "after rekeying, initiator", &ctx);
        recv_ok(r, &mut s, &mut ms, &[1; 5], "after rekeying, responder", &ctx);
        send_ok(r, &mut i, &mut mi, &[1; 5], "after rekeying, initiator", &ctx);
        send_ok(r, &mut s, &mut ms, &[1; 5], "after rekeying, responder", &ctx);
    }
}

// ---- C22 -----------------------------------------------------------------------------------------
pub fn c22(r: &mut Rec) {
    let parse = |r: &mut Rec, t: &str| {
        let b = t.as_bytes();
        let want = if b.len() == 64 && b.iter().all(|c| c.is_ascii_hexdigit()) { Some(unhex(t)) } else { None };
        let inp = || format!("key text {:?} ({} bytes)", t, t.len());
        r.case(&t);
        let got: Vec<(&str, Option<Result<K, ()>>)> = vec![
            ("Key", r.guard("Key::from_str", &inp, || Key::from_str(t).map(|k| to32(&k)).map_err(|_| ()))),
            ("Psk", r.guard("Psk::from_str", &inp, || Psk::from_str(t).map(|k| to32(&k)).map_err(|_| ()))),
            ("PrivateKey", r.guard("PrivateKey::from_str", &inp, || PrivateKey::from_str(t).map(|k| to32(&k)).map_err(|_| ()))),
            ("PublicKey", r.guard("PublicKey::from_str", &inp, || PublicKey::from_str(t).map(|k| k.as_bytes()).map_err(|_| ()))),
        ];
        for (n, g) in got {
            if let Some(g) = g {
                r.check(
                    g.ok() == want,
                    || if want.is_none() { format!("{} accepts a text that is not 64 hexadecimal digits", n) } else { format!("{} does not parse 64 hexadecimal digits to their bytes", n) },
                    || format!("{} got {:?}", inp(), g.ok().map(|k| hex(&k))),
                );
            }
        }
    };
    let base = "4a3acbfdb163dec651dfa3194dece676d437029c62a408b4c5ea9114246e4893";
    let mut texts: Vec<String> = vec![
        String::new(), "0".into(), "00".into(), base.into(), base.to_uppercase(), format!("{}\n", base), format!(" {}", base), format!("0x{}", &base[2..]),
        format!("0x{}", base), base[..62].into(), base[..63].into(), format!("{}0", base), format!("{}00", base), "0".repeat(64), "f".repeat(64), "F".repeat(64),
        "zz".repeat(32), format!("{}g", &base[..63]), format!("g{}", &base[1..]), format!("{}é", &base[..62]), "é".repeat(32), format!("{}+1", &base[..62]), format!("-{}", &base[1..]),
        base.repeat(2), "\0".repeat(64), FORBIDDEN[4].into(), " ".repeat(64), format!("{}_{}", &base[..32], &base[33..]), "0".repeat(1 << 16),
    ];
    for c in (0u8..128).map(|c| c as char) {
        let mut s = base.to_string();
        let at = r.rng.below(64);
        s.replace_range(at..at + 1, &c.to_string());
        texts.push(s);
    }
    for t in &texts {
        parse(r, t);
    }
    let empties = |r: &mut Rec, k: K| {
        let zero = k == [0u8; 32];
        let inp = || format!("key bytes {}", hex(&k));
        r.case(&k);
        let got = r.guard("is_empty", &inp, || (Key::from_bytes(k).is_empty(), Psk::from_bytes(k).is_empty(), PrivateKey::from_bytes(k).is_empty()));
        r.check(got == Some((zero, zero, zero)), || "emptiness is not exactly all bytes zero".into(), || format!("{} got {:?}", inp(), got));
        if let Some(Ok(p)) = r.guard("PublicKey::from_str", &inp, || PublicKey::from_str(&k.iter().map(|b| format!("{:02x}", b)).collect::<String>())) {
            r.check(p.is_empty() == zero, || "emptiness is not exactly all bytes zero".into(), inp);
        }
        let g = r.guard("from_private_key", &inp, || (Keypair::from_private_key(PrivateKey::from_bytes(k)), Keypair::from_key(PrivateKey::from_bytes(k)), PrivateKey::from_bytes(k).generate_public_key()));
        if let Some((a, b, c)) = g {
            if zero {
                r.check(a.is_err() && b.is_err() && c.is_err(), || "an all-zero private key is accepted".into(), inp);
            } else {
                let want = public(&k);
                for x in vec![a, b] {
                    match x {
                        Ok(p) => {
                            r.check(p.get_public_key().as_bytes() == want, || "a key pair's public key is not derived from its private key".into(), inp);
                            r.check(!p.is_empty(), || "a key pair with a private key counts as empty".into(), inp);
                            r.check(std::mem::size_of::<Keypair>() != 64 || find(&raw(&p), &k).is_some(), || "a key pair does not hold its private key".into(), inp);
                        }
                        Err(_) => r.fail("a private key that is not zero is refused", inp()),
                    }
                }
                r.check(matches!(&c, Ok(c) if c.as_bytes() == want), || "a private key's public key is not derived from it".into(), inp);
            }
            let kp = r.guard("Key::generate_public_key", &inp, || Key::generate_public_key(&k).as_bytes());
            r.check(kp == Some(public(&k)), || "a key's public key is not derived from it".into(), inp);
            r.check(to32(&Key::from_bytes(k)) == k && to32(&Psk::from_bytes(k)) == k && to32(&PrivateKey::from_bytes(k)) == k, || "a key is not kept byte for byte".into(), inp);
        }
    };
    empties(r, [0; 32]);
    for i in 0..256 {
        let mut k = [0u8; 32];
        k[i / 8] = 1 << (i % 8);
        empties(r, k);
    }
    r.check(Keypair::new_empty().is_empty() && Key::new().is_empty() && Psk::default().is_empty() && PrivateKey::empty().is_empty() && PublicKey::empty().is_empty(), || "an empty key is not empty".into(), || "new_empty".into());
    for _ in 0..4 {
        let p = Keypair::default();
        let v = raw(&p);
        if v.len() == 64 {
            let mut a = [0u8; 32];
            let mut b = [0u8; 32];
            a.copy_from_slice(&v[..32]);
            b.copy_from_slice(&v[32..]);
            let q = p.get_public_key().as_bytes();
            r.check((q == b && public(&a) == b) || (q == a && public(&b) == a), || "a generated key pair is inconsistent".into(), || hex(&v));
        }
    }
    while r.more() && r.evals < r.cap(200_000) {
        if r.full() {
            return;
        }
        let k = r.rng.arr32();
        empties(r, k);
        let mut t: String = k.iter().map(|b| if b & 1 == 0 { format!("{:02x}", b) } else { format!("{:02X}", b) }).collect();
        match r.rng.below(6) {
            0 => t.truncate(r.rng.below(65)),
            1 => t.push_str(&"a".repeat(1 + r.rng.below(4))),
            2 => {
                let at = r.rng.below(64);
                let c = (r.rng.u64() & 127) as u8 as char;
                t.replace_range(at..at + 1, &c.to_string());
            }
            _ => {}
        }
        parse(r, &t);
    }
}
fn to32<T>(t: &T) -> K {
    let v = raw(t);
    let mut k = [0u8; 32];
    if v.len() == 32 {
        k.copy_from_slice(&v);
    }
    k
}

// ---- C31: generated keys and channel ids ------------------------------------------------------

/// the private key next to a public key in the memory of something generated
fn private_of(mem: &[u8], public_key: &[u8; 32], hint: &mut Option<usize>) -> Option<K> {
    let at = |i: usize| -> Option<K> {
        let mut k = [0u8; 32];
        k.copy_from_slice(mem.get(i..i + 32)?);
        if k != [0u8; 32] && public(&k) == *public_key {
            Some(k)
        } else {
            None
        }
    };
    if let Some(h) = *hint {
        if let Some(k) = at(h) {
            return Some(k);
        }
    }
    for i in 0..mem.len().saturating_sub(31) {
        if let Some(k) = at(i) {
            *hint = Some(i);
            return Some(k);
        }
    }
    None
}

/// samples of one source: none repeats, no bit is fixed, no half is repeated
fn fresh_values(r: &mut Rec, name: &str, v: &[Vec<u8>], fixed: &dyn Fn(usize) -> bool) {
    let all = || v.iter().take(8).map(|x| hex(x)).collect::<Vec<_>>().join(" ");
    let n = v[0].len();
    for bit in 0..8 * n {
        if fixed(bit) {
            continue;
        }
        let ones = v.iter().filter(|x| x[bit / 8] >> (bit % 8) & 1 == 1).count();
        if ones == 0 || ones == v.len() {
            r.fail(format!("{}: bit {} of byte {} is the same in all of {} values", name, bit % 8, bit / 8, v.len()), all());
            return;
        }
    }
    let step = if n >= 32 { 16 } else { n };
    let mut seen = std::collections::HashSet::new();
    let mut again = 0;
    for x in v {
        for h in x.chunks(step) {
            if !seen.insert(h.to_vec()) {
                again += 1;
            }
        }
    }
    // 2^-32 per pair for a channel id; nothing for 16 bytes
    if again > if step < 16 { 5 } else { 0 } {
        r.fail(format!("{}: {} of {} values repeat", name, again, v.len()), all());
    }
    // consecutive values: their differences must not be all the same
    if v.len() > 8 && v.windows(2).map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| b.wrapping_sub(*a)).collect::<Vec<u8>>()).collect::<std::collections::HashSet<_>>().len() < v.len() / 2 {
        r.fail(format!("{}: the values follow a pattern", name), all());
    }
}

/// what one process generates: (kind, value)
fn generated(n: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mut out = vec![];
    let (mut h0, mut h1) = (None, None);
    let mut peer = NoiseSession::init_session(true, &[], pair(&[7; 32]));
    let mut a = [0u8; 64];
    peer.send_message(&mut a).unwrap();
    for _ in 0..n {
        let k = Keypair::default();
        match private_of(&raw(&k), &k.get_public_key().as_bytes(), &mut h0) {
            Some(s) => out.push(("Keypair::default", s.to_vec())),
            None => out.push(("Keypair::default (public)", k.get_public_key().as_bytes().to_vec())),
        }
        let a = stratumv2::noise::generate_authority_keypair();
        out.push(("generate_authority_keypair", a.secret.to_bytes().to_vec()));
        out.push(("new_channel_id", stratumv2::network::new_channel_id().to_le_bytes().to_vec()));
    }
    for j in 0..n {
        // initiator: static key and ephemeral key
        let mut i = stratumv2::noise::new_noise_initiator();
        let mut b = vec![0u8; 64];
        let before = raw(&i);
        if i.send_message(&mut b).is_ok() {
            let mut e = [0u8; 32];
            e.copy_from_slice(&b[..32]);
            out.push(("ephemeral key sent by an initiator", e.to_vec()));
            if j == 0 || h1.is_some() {
                if let Some(s) = private_of(&raw(&i), &e, &mut h1) {
                    out.push(("ephemeral private key of an initiator", s.to_vec()));
                    if let Some(p) = find(&before, &s) {
                        out.push(("ephemeral private key held before it was generated", vec![p as u8]));
                    }
                }
            }
        }
        // responder: with and without a given static key
        let st = if j % 2 == 0 { None } else { Some(pair(&[9; 32])) };
        let given = st.is_some();
        let mut q = stratumv2::noise::new_noise_responder(st);
        let mut c = a.to_vec();
        let mut b = vec![0u8; 96];
        if q.recv_message(&mut c).is_ok() && q.send_message(&mut b).is_ok() {
            out.push(("ephemeral key sent by a responder", b[..32].to_vec()));
            let mut p2 = NoiseSession::init_session(true, &[], pair(&[7; 32]));
            p2.set_ephemeral_keypair(pair(&[8; 32]));
            let mut c = vec![0u8; 64];
            let mut q = stratumv2::noise::new_noise_responder(if given { Some(pair(&[9; 32])) } else { None });
            let mut b = vec![0u8; 96];
            if p2.send_message(&mut c).is_ok() && q.recv_message(&mut c).is_ok() && q.send_message(&mut b).is_ok() && p2.recv_message(&mut b).is_ok() {
                if let (false, Some(k)) = (given, p2.get_remote_static_public_key()) {
                    out.push(("static key of a responder", k.as_bytes().to_vec()));
                }
            }
        }
    }
    out
}

pub fn c31_child() {
    for (k, v) in generated(12) {
        println!("{}\t{}", k, hex(&v));
    }
}

pub fn c31(r: &mut Rec) {
    let g = match r.guard("generating keys", &|| String::new(), || generated(200)) {
        Some(g) => g,
        None => return,
    };
    let mut by: std::collections::BTreeMap<&str, Vec<Vec<u8>>> = Default::default();
    for (k, v) in g {
        r.case(&(k, &v));
        r.sample(|| format!("{} {}", k, hex(&v)));
        if k.ends_with("before it was generated") {
            r.fail("an initiator's ephemeral key is not new: the session held it already", k);
            continue;
        }
        by.entry(k).or_default().push(v);
    }
    for (k, v) in by.iter() {
        // clamping, should the private keys ever be stored clamped; the top bit of a public key is 0
        let fixed = |b: usize| v[0].len() == 32 && (b < 3 || b >= 254);
        fresh_values(r, k, v, &fixed);
    }
    // other threads, and other processes, do not repeat them
    let mut seen: std::collections::HashSet<String> = by.iter().filter(|x| *x.0 != "new_channel_id").flat_map(|x| x.1.iter().map(|v| hex(v)).collect::<Vec<_>>()).collect();
    for _ in 0..2 {
        if let Ok(v) = std::thread::spawn(|| generated(12)).join() {
            for (k, v) in v.iter().filter(|x| x.1.len() >= 32) {
                r.case(&(k, v));
                if !seen.insert(hex(v)) {
                    r.fail(format!("{} repeats in another thread", k), hex(v));
                }
            }
        }
    }
    if let Ok(me) = std::env::current_exe() {
        for _ in 0..2 {
            if let Ok(o) = std::process::Command::new(&me).args(&["C31-child", "0", "1", "-"]).output() {
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    let mut f = l.split('\t');
                    if let (Some(k), Some(v)) = (f.next(), f.next()) {
                        r.case(&(k.to_string(), v.to_string()));
                        if v.len() >= 64 && !seen.insert(v.to_string()) {
                            r.fail(format!("{} repeats in another process", k), v);
                        }
                    }
                }
            }
        }
    }
}
