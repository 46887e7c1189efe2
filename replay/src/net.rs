//! certificates, time, peers (C12, C13, C20, C30)
use crate::codec::to_odd;
use crate::harness::{hex, Rec, Rng};
use ed25519_dalek::{Signer, Verifier};
use noiseexplorer_nx::types::{Keypair, PrivateKey, PublicKey};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier};
use std::time::{Duration, SystemTime};
use stratumv2::bitcoin::util::base58;
use stratumv2::codec::{serialize, Message};
use stratumv2::network::{ConnectionEncryptor, Peer};
use stratumv2::noise::{AuthorityKeyPair, CertificateFormat, Signature, SignatureNoiseMessage, SignedCertificate};
use stratumv2::types::unix_timestamp::{system_unix_time_to_u32, unix_u32_now};
use stratumv2::types::MessageType;

fn authority(rng: &mut Rng) -> AuthorityKeyPair {
    let sec = ed25519_dalek::SecretKey::from_bytes(&rng.arr32()).unwrap();
    let pb: ed25519_dalek::PublicKey = (&sec).into();
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&sec.to_bytes());
    b[32..].copy_from_slice(&pb.to_bytes());
    AuthorityKeyPair::from_bytes(&b).unwrap()
}

fn static_key(rng: &mut Rng) -> PublicKey {
    Keypair::from_private_key(PrivateKey::from_bytes(rng.arr32())).unwrap().get_public_key()
}

/// the bytes the authority signs
fn signed_bytes(version: u16, from: u32, until: u32, key: &[u8; 32]) -> Vec<u8> {
    let mut v = version.to_le_bytes().to_vec();
    v.extend_from_slice(&from.to_le_bytes());
    v.extend_from_slice(&until.to_le_bytes());
    v.extend_from_slice(key);
    v
}

fn clock() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs()
}

pub fn odd_certs(r: &mut Rec) {
    let a = authority(&mut r.rng);
    let k = static_key(&mut r.rng);
    let from = r.rng.u64() as u32 / 2;
    let until = from + 1 + (r.rng.u64() as u32 >> 2);
    let version = r.rng.u64() as u16;
    let want = signed_bytes(version, from, until, &k.as_bytes());
    let inp = || format!("version {} from {} until {} key {}", version, from, until, hex(&k.as_bytes()));
    to_odd(r, "StaticPublicKey", &k, &k.as_bytes(), &inp);
    if let Some(Ok(cert)) = r.guard("SignedCertificate::new", &inp, || SignedCertificate::new(version, from, until, &k)) {
        to_odd(r, "SignedCertificate", &cert, &want, &inp);
        let sig = a.sign(&want);
        let m = SignatureNoiseMessage::new(&cert, sig);
        let ap = base58::encode_slice(&a.public.to_bytes());
        if let Some(Ok(cf)) = r.guard("CertificateFormat::new", &inp, || CertificateFormat::new(&ap, &k, &m)) {
            to_odd(r, "CertificateFormat", &cf, &want, &inp);
        }
    }
}

pub fn c12(r: &mut Rec) {
    // construction: exactly when from < until
    let edge = [0u32, 1, 2, 1000, u32::MAX - 1, u32::MAX];
    let k = static_key(&mut r.rng);
    for &f in edge.iter() {
        for &u in edge.iter() {
            r.case(&(f, u));
            let inp = || format!("valid_from {} not_valid_after {}", f, u);
            if let Some(c) = r.guard("SignedCertificate::new", &inp, || SignedCertificate::new(3, f, u, &k)) {
                r.check(c.is_ok() == (f < u), || "a certificate can be created exactly when its start is before its end".into(), inp);
                if let Ok(c) = c {
                    r.check(
                        c.version == 3 && c.valid_from == f && c.not_valid_after == u && c.public_key.as_bytes() == k.as_bytes(),
                        || "a certificate keeps the arguments it was created with".into(),
                        inp,
                    );
                }
            }
        }
    }
    let mut first = true;
    while first || r.more() && r.evals < r.cap(60_000) {
        first = false;
        let a = authority(&mut r.rng);
        let k = static_key(&mut r.rng);
        let version = *r.rng.pick(&[0u16, 1, 255, 256, 0x0102, 65535]);
        let now = clock();
        let shift: i64 = *r.rng.pick(&[1i64, 2, 3, 60, 3600, 86400, 1_000_000]);
        // (from, until) relative to now
        for (f, u) in vec![
            (0i64, 1i64), (0, shift + 1), (-shift, 1), (-shift, shift + 1), (-(now as i64), u32::MAX as i64 - now as i64),
            (0, 3), (-1, 1), (-shift, 0), (-shift - 1, -1), (1, 1 + shift), (2, 3), (shift, shift + 1), (-2, -1), (shift, u32::MAX as i64 - now as i64),
            (1, 2), (-(now as i64), 0), (-(now as i64), 1 - now as i64),
        ] {
            if r.full() {
                return;
            }
            let now = clock();
            let from = (now as i64 + f).max(0).min(u32::MAX as i64) as u32;
            let until = (now as i64 + u).max(0).min(u32::MAX as i64) as u32;
            if from >= until {
                continue;
            }
            let bytes = signed_bytes(version, from, until, &k.as_bytes());
            let inp = || format!("now {} version {} from {} until {} key {} authority {}", now, version, from, until, hex(&k.as_bytes()), hex(&a.public.to_bytes()));
            r.case(&(f, u, version, now));
            let cert = match r.guard("SignedCertificate::new", &inp, || SignedCertificate::new(version, from, until, &k)) {
                Some(Ok(c)) => c,
                Some(Err(_)) => {
                    r.fail("a certificate whose start is before its end is refused", inp());
                    continue;
                }
                None => continue,
            };
            let m = match r.guard("from_auth_key", &inp, || SignatureNoiseMessage::from_auth_key(&a, &cert)) {
                Some(Ok(m)) => m,
                Some(Err(e)) => {
                    r.fail("the authority cannot sign a certificate", format!("{} {}", inp(), e));
                    continue;
                }
                None => continue,
            };
            r.check(
                m.version == version && m.valid_from == from && m.not_valid_after == until,
                || "the message handed to the client carries the certificate's fields".into(),
                inp,
            );
            r.check(a.public.verify(&bytes, &m.signature).is_ok(), || "the signature is not over exactly version, start, end, static key".into(), inp);
            let mine = a.sign(&bytes);
            let m2 = SignatureNoiseMessage::new(&cert, mine);
            r.check(
                m2.version == version && m2.valid_from == from && m2.not_valid_after == until && m2.signature == mine,
                || "SignatureNoiseMessage::new carries the certificate's fields and the signature".into(),
                inp,
            );
            if let Some(Ok(w)) = r.guard("serialize", &inp, || serialize(&cert)) {
                r.check(w == bytes, || "the signed bytes are version, start, end, static key".into(), inp);
            }
            let ap = base58::encode_slice(&a.public.to_bytes());
            let good = SignatureNoiseMessage { version, valid_from: from, not_valid_after: until, signature: mine };
            let verify = |r: &mut Rec, ap: &str, k: &PublicKey, m: &SignatureNoiseMessage, what: &str, want: Option<bool>| {
                let t0 = clock();
                let got = r.guard("verify", &inp, || CertificateFormat::new(ap, k, m).and_then(|c| c.verify()).is_ok());
                let t1 = clock();
                r.case(&(what, f, u, version, t0));
                if t0 != t1 {
                    return;
                }
                let inside = t0 >= m.valid_from as u64 && t0 < m.not_valid_after as u64;
                if let Some(got) = got {
                    let want = want.unwrap_or(true) && inside;
                    r.check(
                        got == want,
                        || {
                            let d0 = m.valid_from as i64 - t0 as i64;
                            let d1 = m.not_valid_after as i64 - t0 as i64;
                            let pos = if !inside { if d0 > 0 { "before its start" } else { "at or after its end" } } else { "inside its window" };
                            let _ = d1;
                            format!("a certificate ({}) is {} {}", what, if got { "accepted" } else { "refused" }, pos)
                        },
                        || format!("{} clock {}", inp(), t0),
                    );
                }
            };
            r.sample(|| inp());
            verify(r, &ap, &k, &good, "correctly signed", None);
            verify(r, &ap, &k, &m, "signed by the library", None);
            // correctly signed, but the window ends before it begins or is empty
            for (f2, u2) in vec![(until, from), (from, from), (until, until), (u32::MAX, 0), (until, 0), (u32::MAX, from), (from.saturating_add(1), from)] {
                let s2 = a.sign(&signed_bytes(version, f2, u2, &k.as_bytes()));
                let x = SignatureNoiseMessage { version, valid_from: f2, not_valid_after: u2, signature: s2 };
                verify(r, &ap, &k, &x, "correctly signed, start not before end", None);
            }
            // any other version, time, key, authority or signature
            let mut x = good.clone();
            x.version ^= 1 << r.rng.below(16);
            verify(r, &ap, &k, &x, "version changed after signing", Some(false));
            for bit in [0u32, 7, 8, 15, 16, 23, 24, 31].iter() {
                let mut x = good.clone();
                x.valid_from ^= 1 << bit;
                verify(r, &ap, &k, &x, "start changed after signing", Some(false));
                let mut x = good.clone();
                x.not_valid_after ^= 1 << bit;
                verify(r, &ap, &k, &x, "end changed after signing", Some(false));
            }
            let mut x = good.clone();
            x.valid_from = 0;
            verify(r, &ap, &k, &x, "start changed after signing", Some(from == 0));
            let mut x = good.clone();
            x.not_valid_after = u32::MAX;
            verify(r, &ap, &k, &x, "end changed after signing", Some(until == u32::MAX));
            for i in [0usize, 1, 15, 16, 30, 31].iter() {
                let mut kb = k.as_bytes();
                kb[*i] ^= 1 << r.rng.below(8);
                if let Ok(k2) = PublicKey::from_bytes(kb) {
                    verify(r, &ap, &k2, &good, "static key changed after signing", Some(false));
                }
            }
            let k3 = static_key(&mut r.rng);
            verify(r, &ap, &k3, &good, "another static key", Some(false));
            let other = authority(&mut r.rng);
            verify(r, &base58::encode_slice(&other.public.to_bytes()), &k, &good, "another authority", Some(false));
            let mut sb = mine.to_bytes();
            let i = r.rng.below(64);
            sb[i] ^= 1 << r.rng.below(8);
            if let Ok(s) = Signature::from_bytes(&sb) {
                let mut x = good.clone();
                x.signature = s;
                verify(r, &ap, &k, &x, "signature changed", Some(false));
            }
            let mut x = good.clone();
            x.signature = other.sign(&bytes);
            verify(r, &ap, &k, &x, "signed by another authority", Some(false));
            // signed over a prefix, a permutation, with a trailing byte
            for (bad, what) in vec![
                (bytes[2..].to_vec(), "signed without the version"),
                (bytes[..10].to_vec(), "signed without the static key"),
                ([&bytes[..2], &bytes[6..10], &bytes[2..6], &bytes[10..]].concat(), "signed with start and end exchanged"),
                ([&bytes[..], &[0u8][..]].concat(), "signed with a byte more"),
                (bytes[..41].to_vec(), "signed with a byte less"),
                (vec![], "signed over nothing"),
            ] {
                let mut x = good.clone();
                x.signature = a.sign(&bad);
                verify(r, &ap, &k, &x, what, Some(false));
            }
        }
        // authority strings that are no 32-byte base58 key are errors, never a panic
        let cert = SignedCertificate { version, valid_from: 0, not_valid_after: u32::MAX, public_key: &k };
        let m = SignatureNoiseMessage::new(&cert, a.sign(&signed_bytes(version, 0, u32::MAX, &k.as_bytes())));
        let pk = a.public.to_bytes();
        let texts = vec![
            String::new(),
            "0".into(),
            "not base58 !".into(),
            base58::encode_slice(&pk[..31]),
            base58::encode_slice(&[&pk[..], &[0u8][..]].concat()),
            base58::encode_slice(&[&[0u8][..], &pk[..]].concat()),
            format!("{} ", base58::encode_slice(&pk)),
            "é".into(),
        ];
        for t in texts {
            r.case(&t);
            let inp = || format!("authority key text {:?}", t);
            if let Some(g) = r.guard("CertificateFormat::new", &inp, || CertificateFormat::new(&t, &k, &m).and_then(|c| c.verify()).is_ok()) {
                r.check(!g, || "a certificate verifies under a text that is not the authority's key".into(), inp);
            }
        }
    }
}

pub fn c13(r: &mut Rec) {
    let max = u32::MAX as u64;
    let mut secs: Vec<i128> = vec![];
    for b in [0i128, 1, 5, 59, 1_600_000_000, 1 << 31, max as i128, 1 << 32, (1 << 32) + 1_600_000_000, 1 << 33, 1 << 40, (i64::MAX / 2) as i128].iter() {
        for d in -2..=2 {
            secs.push(b + d);
            secs.push(-b + d);
        }
    }
    let one = |r: &mut Rec, s: i128, ns: u32| {
        // the instant s + ns/10^9 seconds from the epoch
        let t = if s >= 0 {
            SystemTime::UNIX_EPOCH.checked_add(Duration::new(s as u64, ns))
        } else {
            SystemTime::UNIX_EPOCH.checked_sub(Duration::new((-s) as u64, 0)).and_then(|t| t.checked_add(Duration::new(0, ns)))
        };
        let t = match t {
            Some(t) => t,
            None => return,
        };
        r.case(&(s, ns));
        let inp = || format!("{} seconds and {} ns from the epoch", s, ns);
        let want = if s >= 0 && s <= max as i128 { Some(s as u32) } else { None };
        if let Some(got) = r.guard("system_unix_time_to_u32", &inp, || system_unix_time_to_u32(&t)) {
            r.check(
                got.as_ref().ok() == want.as_ref(),
                || {
                    if s < 0 { "a time before the epoch is converted".into() }
                    else if s > max as i128 { "a time beyond 2^32-1 seconds is converted".into() }
                    else { "a time is not converted to its whole seconds".into() }
                },
                || format!("{}: got {:?}", inp(), got.as_ref().ok()),
            );
        }
    };
    for s in secs {
        for ns in [0u32, 1, 499_999_999, 500_000_000, 999_999_999].iter() {
            one(r, s, *ns);
        }
    }
    while r.more() && r.evals < r.cap(400_000) {
        let s = (r.rng.u64() >> (1 + r.rng.below(60))) as i128;
        let ns = (r.rng.u64() % 1_000_000_000) as u32;
        let s = if r.rng.chance(4) { -s } else { s };
        one(r, s, ns);
        if r.evals % 16 == 0 {
            let a = clock();
            let g = r.guard("unix_u32_now", &|| String::new(), || unix_u32_now());
            let b = clock();
            if let Some(g) = g {
                r.case(&(a, 7));
                r.check(matches!(g, Ok(g) if a <= g as u64 && g as u64 <= b), || "unix_u32_now is not the current second".into(), || format!("clock {}..{}, got {:?}", a, b, g.as_ref().ok()));
            }
        }
    }
}

const TYPES: [MessageType; 4] = [MessageType::SetupConnection, MessageType::OpenStandardMiningChannel, MessageType::UpdateChannel, MessageType::ChannelEndpointChanged];

fn msg(rng: &mut Rng) -> Message {
    let n = *rng.pick(&[0usize, 1, 2, 3, 17, 200]);
    let t = rng.pick(&TYPES).clone();
    Message::new(t, rng.bytes(n))
}
fn same(a: &Message, b: &Message) -> bool {
    a.payload == b.payload && a.message_type == b.message_type
}
fn copy(a: &Message) -> Message {
    Message::new(a.message_type.clone(), a.payload.clone())
}

pub fn c20(r: &mut Rec) {
    while r.more() && r.evals < r.cap(20_000) {
        let p = match r.guard("Peer::new", &|| String::new(), || Peer::new(ConnectionEncryptor::new_outbound())) {
            Some(p) => p,
            None => return,
        };
        r.check(p.setup_conn_msg.is_none(), || "a new peer has a setup message".into(), || "Peer::new".into());
        r.check(p.pending_msg_buffer.lock().unwrap().is_empty(), || "a new peer has pending messages".into(), || "Peer::new".into());
        let steps = 1 + r.rng.below(12);
        let mut queued: Vec<Message> = vec![];
        let mut trace = String::new();
        for _ in 0..steps {
            r.case(&(trace.len(), queued.len(), r.rng.0 & 0xFFFF));
            if r.rng.chance(3) {
                trace.push_str(" take");
                let t = trace.clone();
                if let Some(got) = r.guard("get_pending_msgs", &|| t.clone(), || p.get_pending_msgs()) {
                    let ok = got.len() == queued.len() && got.iter().zip(queued.iter()).all(|(a, b)| same(a, b));
                    r.check(
                        ok,
                        || "taking does not return exactly the queued messages in order".into(),
                        || format!("{}: {} queued, {} taken, payloads {:?}", trace, queued.len(), got.len(), got.iter().map(|m| m.payload.len()).collect::<Vec<_>>()),
                    );
                    match p.pending_msg_buffer.try_lock() {
                        Ok(q) => {
                            r.check(q.is_empty(), || "taking leaves messages in the queue".into(), || trace.clone());
                        }
                        Err(_) => r.fail("taking leaves the queue locked", trace.clone()),
                    }
                    queued.clear();
                } else {
                    return;
                }
            } else {
                let n = match r.rng.below(40) {
                    0 => 1000,
                    1 => 17,
                    2 => 64,
                    3 => 65,
                    _ => 1 + r.rng.below(4),
                };
                trace.push_str(&format!(" queue{}", n));
                for _ in 0..n {
                    let m = msg(&mut r.rng);
                    queued.push(copy(&m));
                    p.pending_msg_buffer.lock().unwrap().push(m);
                }
            }
        }
        r.sample(|| trace.clone());
    }
}

/// messages (producer, sequence number); every one must be taken once and every taker must see
/// each producer's in increasing order
pub fn c30(r: &mut Rec) {
    r.rule = "threads queue and take at the same time, real schedules; every message must be taken exactly once, in its producer's order within each taker; non-trivial: rounds in which a take and a queue overlapped".into();
    while r.more() && r.evals < r.cap(4_000) {
        let producers = 1 + r.rng.below(4);
        let takers = 1 + r.rng.below(3);
        let each = *r.rng.pick(&[1usize, 5, 50, 400, 2000]);
        let p = Arc::new(Peer::new(ConnectionEncryptor::new_outbound()));
        let done = Arc::new(AtomicBool::new(false));
        let bar = Arc::new(Barrier::new(producers + takers));
        let mut ps = vec![];
        for id in 0..producers {
            let (p, bar) = (p.clone(), bar.clone());
            ps.push(std::thread::spawn(move || {
                bar.wait();
                for s in 0..each {
                    let m = Message::new(MessageType::UpdateChannel, [&(id as u32).to_le_bytes()[..], &(s as u32).to_le_bytes()[..]].concat());
                    p.pending_msg_buffer.lock().unwrap().push(m);
                    if s % 16 == id {
                        std::thread::yield_now();
                    }
                }
            }));
        }
        let mut ts = vec![];
        for _ in 0..takers {
            let (p, bar, done) = (p.clone(), bar.clone(), done.clone());
            ts.push(std::thread::spawn(move || {
                bar.wait();
                let mut all: Vec<(u32, u32)> = vec![];
                loop {
                    let last = done.load(Ordering::SeqCst);
                    for m in p.get_pending_msgs() {
                        let mut a = [0u8; 4];
                        let mut b = [0u8; 4];
                        a.copy_from_slice(&m.payload[..4]);
                        b.copy_from_slice(&m.payload[4..8]);
                        all.push((u32::from_le_bytes(a), u32::from_le_bytes(b)));
                    }
                    if last {
                        return all;
                    }
                }
            }));
        }
        let inp = || format!("{} producers of {} messages each, {} takers", producers, each, takers);
        let mut dead = false;
        for t in ps {
            dead |= t.join().is_err();
        }
        done.store(true, Ordering::SeqCst);
        let mut got: Vec<Vec<(u32, u32)>> = vec![];
        for t in ts {
            match t.join() {
                Ok(v) => got.push(v),
                Err(_) => dead = true,
            }
        }
        r.case(&(producers, takers, each, got.iter().map(|g| g.len()).collect::<Vec<_>>()));
        r.sample(|| inp());
        if dead {
            r.fail("a thread queueing or taking messages panics", inp());
            return;
        }
        let mut seen = std::collections::HashSet::new();
        for g in &got {
            let mut next = vec![0u32; producers];
            for (id, s) in g {
                if !seen.insert((*id, *s)) {
                    r.fail("a message was delivered twice", inp());
                }
                if *s < next[*id as usize] {
                    r.fail("a producer's messages are delivered out of order", inp());
                }
                next[*id as usize] = s + 1;
            }
        }
        if seen.len() != producers * each {
            r.fail("a queued message was never delivered", format!("{}: {} delivered", inp(), seen.len()));
        }
    }
}
