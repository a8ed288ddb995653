//! Scenarios about dumps.
use super::core::*;
use super::ops::*;
use crate::driver::*;
use crate::runner::{scn, Scn};
use chacha20poly1305::aead::{Aead, KeyInit};
use chacha20poly1305::{ChaCha20Poly1305, Key, Nonce};
use vstd::explore::choose;
use O::*;

/// Token states a dump may be taken in.
fn sources() -> Vec<(&'static str, Vec<O>)> {
    let both = plus(&st("active"), &[Show("b"), Auth("b"), Ans(R::Slow)]);
    let mut v = states();
    v.extend([
        ("both", both),
        ("odd", vec![Show("a"), Auth("a"), Ans(R::Odd)]),
        ("big", vec![Show("a"), Auth("a"), Ans(R::Big), Show("b"), Auth("b"), AnsLast(R::Big)]),
        ("tiny", vec![Show("a"), Auth("a"), Ans(R::Tiny)]),
        ("colon", vec![Show("a"), Auth("a"), Ans(R::Colon)]),
        ("huge", vec![Show("a"), Auth("a"), Ans(R::Huge)]),
        ("long", vec![Show("a"), Auth("a"), Ans(R::Long)]),
        ("short", vec![Show("a"), Auth("a"), Ans(R::Short)]),
        ("expired", vec![Show("a"), Auth("a"), Ans(R::Short), UntilReq, Ans(R::Rst), Wait(25)]),
        ("expirednort", vec![Show("a"), Auth("a"), Ans(R::ShortNoRt), Wait(25)]),
        ("refreshed", plus(&st("refresh"), &[Ans(R::GrantNoRt)])),
        ("nullrt", plus(&st("refresh"), &[Ans(R::NullRt)])),
        ("failing", plus(&st("refresh"), &[Ans(R::Rst)])),
        ("revoked", plus(&st("active"), &[Revoke("a")])),
        ("restored", plus(&st("active"), &[Dump, Kill, Start(0), Restore(0)])),
    ]);
    v
}
pub fn c18(t: bool) -> Vec<Scn> {
    let c = ab();
    let mut fast = ab();
    fast.before = Some(5);
    let other = c.without("b");
    let mut v = vec![];
    for (n, pre) in sources() {
        for (k, c) in [("", &c), ("fast", &fast)] {
            let mut at: Vec<Vec<O>> = vec![vec![]];
            at.extend([10, 100].map(|s| vec![Wait(s)]));
            let down: Vec<Vec<O>> = vec![
                vec![],
                vec![Wait(60)],
                vec![Wait(193)],
                vec![Suspend(150)],
                vec![Suspend(500)],
                vec![Clock(30)],
                vec![Clock(-30)],
                vec![Clock(100000), Wait(30)],
                vec![Clock(-100000)],
            ];
            let after = [vec![], vec![Show("a")], vec![Show("a"), Show("b")], vec![Clock(50)], vec![Wait(20)]];
            let fin = [Wait(37), Suspend(60), Clock(-500), Clock(500), Ans(R::Grant), Due];
            v.push(plan(
                &format!("restart{k}-{n}"),
                0,
                &[c.clone()],
                &["a", "b"],
                &[P::Do(pre.clone()), P::One(at), P::Do(vec![Dump, Kill]), P::One(down), P::Do(vec![Start(0)]), P::One(after.to_vec()), P::Do(vec![ResLast, Show("a")]), P::Any(fin.to_vec(), if t { 2 } else { 1 })],
                true,
            ));
        }
        // Taken while something else happens.
        for o in [Ans(R::Grant), Revoke("a"), Reload(1), Auth("a"), Refresh("a"), Show("b"), Tick, Dump, Ans(R::Status(400)), AuthErr("a")] {
            if !fits(n, &o) {
                continue;
            }
            v.push(plan(
                &format!("during-{n}-{o:?}").replace('"', ""),
                if t { 2 } else { 1 },
                &[c.clone(), other.clone()],
                &["a", "b"],
                &[P::Do(pre.clone()), P::Par(vec![Dump, o]), P::Do(vec![Kill, Start(0), ResLast])],
                true,
            ));
        }
    }
    // Reuse of old dumps, dumps of dumps, dumps under load.
    let ops = [Dump, Kill, Start(0), Start(1), ResLast, Restore(0), Refresh("a"), Ans(R::Grant), Ans(R::GrantNoRt), Revoke("a"), Wait(45), Show("a")];
    for (n, pre) in [("active", st("active")), ("refresh", st("refresh")), ("both", sources()[6].1.clone())] {
        v.push(hist(&format!("life-{n}"), &[c.clone(), other.clone()], &["a", "b"], &plus(&pre, &[Dump]), &ops, if t { 5 } else { 3 }, true));
    }
    v
}

pub fn c19(t: bool) -> Vec<Scn> {
    let c = ab();
    let mut v = vec![];
    // Every state of the server against every dump of the same or another server.
    let targets = || {
        let mut v = states();
        v.push(("expired", vec![Show("a"), Auth("a"), Ans(R::Short), UntilReq, Ans(R::Rst), Wait(25)]));
        v.push(("expirednort", vec![Show("a"), Auth("a"), Ans(R::ShortNoRt), Wait(25)]));
        v.push(("ongoing", vec![Show("a"), Auth("a"), Ans(R::Short), Wait(25), Show("a")]));
        v.push(("b", vec![Show("b"), Auth("b"), Ans(R::Grant)]));
        v
    };
    for (n, pre) in sources() {
        for (m, tgt) in targets() {
            let restart: Vec<O> = plus(&[Dump, Kill, Start(0)], &tgt);
            let mut steps = vec![P::Do(pre.clone()), P::Do(restart)];
            steps.push(P::Do(vec![ResLast]));
            steps.push(P::Any(vec![ResLast, Show("a"), Stale("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst), Due, Revoke("a")], if t { 3 } else { 2 }));
            v.push(plan(&format!("fill-{n}-{m}"), 0, &[c.clone()], &["a", "b"], &steps, true));
        }
    }
    // On the server that made it.
    let ops = [ResLast, Restore(0), Show("a"), Stale("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst), Due, Revoke("a"), Refresh("a"), Reload(1), Reload(0)];
    for (n, pre) in sources() {
        v.push(hist(&format!("same-{n}"), &[c.clone(), c.without("b")], &["a", "b"], &plus(&pre, &[Dump]), &ops, if t { 4 } else { 3 }, true));
    }
    // Another setting is another account; other settings are not.
    let mut vars = secure_variants(&c);
    vars.extend(harmless(&c));
    for (n, x) in vars {
        for (src, pre) in [("active", st("active")), ("nort", st("nort")), ("both", sources()[6].1.clone())] {
            for (tgt, post) in [("empty", vec![]), ("pending", vec![Show("a")]), ("exchange", vec![Show("a"), Auth("a")])] {
                let post = if n == "removed" { vec![] } else { post };
                for dir in [0, 1] {
                    let confs = if dir == 0 { [c.clone(), x.clone()] } else { [x.clone(), c.clone()] };
                    if dir == 1 && (n == "removed" || n == "bremoved" && src == "both") {
                        continue;
                    }
                    let mut s = vec![P::Do(pre.clone()), P::Do(vec![Dump])];
                    s.push(P::One(vec![vec![Kill, Start(1)], vec![Revoke("a"), Reload(1)], vec![Reload(1)]]));
                    s.push(P::Do(post.clone()));
                    s.push(P::Do(vec![ResLast]));
                    s.push(P::Any(vec![Reload(0), ResLast, Nop, Ans(R::Grant), Ans(R::GrantNoRt)], if t { 2 } else { 1 }));
                    v.push(plan(&format!("other-{n}-{src}-{tgt}-{dir}"), 0, &confs, &["a", "b"], &s, true));
                }
            }
        }
    }
    for (n, x, y) in near_variants(&c) {
        for (src, pre) in [("active", st("active")), ("nort", st("nort"))] {
            for dir in [0, 1] {
                let confs = if dir == 0 { [x.clone(), y.clone()] } else { [y.clone(), x.clone()] };
                let mut s = vec![P::Do(pre.clone()), P::Do(vec![Dump])];
                s.push(P::One(vec![vec![Kill, Start(1)], vec![Reload(1)]]));
                s.push(P::Do(vec![ResLast]));
                s.push(P::Any(vec![Reload(0), ResLast, Nop], if t { 2 } else { 1 }));
                v.push(plan(&format!("near-{n}-{src}-{dir}"), 0, &confs, &["a", "b"], &s, true));
            }
        }
    }
    // Together with something else.
    for (m, tgt) in targets() {
        for o in [Ans(R::Grant), Ans(R::Status(400)), Revoke("a"), Reload(1), Reload(2), Auth("a"), Refresh("a"), Show("a"), Tick, ResLast, AuthErr("a"), Dump] {
            if !(fits(m, &o) || m == "ongoing") {
                continue;
            }
            let mut other = ab();
            other.acct("a").client_id = "CID.other".into();
            v.push(plan(
                &format!("during-{m}-{o:?}").replace('"', ""),
                if t { 2 } else { 1 },
                &[c.clone(), c.without("b"), other],
                &["a", "b"],
                &[P::Do(plus(&st("active"), &[Dump, Kill, Start(0)])), P::Do(tgt.clone()), P::Par(vec![ResLast, o])],
                true,
            ));
        }
    }
    v
}

const KEY: &[u8; 32] = b"\x66\xa2\x47\xa8\x5e\x48\xcf\xec\xaa\xed\x9b\x36\xeb\xa9\x7d\x53\x50\xd4\x28\x63\x75\x09\x7a\x44\xee\xff\xb9\xc4\x54\x6b\x65\xa3";
/// The plain contents of a dump, if it is sealed as version 1 dumps are.
fn unseal(d: &[u8]) -> Option<Vec<u8>> {
    let c = ChaCha20Poly1305::new(Key::from_slice(KEY));
    c.decrypt(Nonce::from_slice(d.get(..12)?), &d[12..]).ok()
}
fn seal(p: &[u8]) -> Vec<u8> {
    let c = ChaCha20Poly1305::new(Key::from_slice(KEY));
    let n = [7u8; 12];
    let mut v = n.to_vec();
    v.extend(c.encrypt(Nonce::from_slice(&n), p).unwrap());
    v
}
pub fn c20(t: bool) -> Vec<Scn> {
    let c = ab();
    let mut v = vec![];
    let srcs = || vec![("a", st("active")), ("both", plus(&st("active"), &[Show("b"), Auth("b"), Ans(R::Slow)])), ("none", vec![])];
    let targets = || {
        let mut v = states();
        v.push(("expirednort", vec![Show("a"), Auth("a"), Ans(R::ShortNoRt), Wait(25)]));
        v
    };
    for (n, pre) in srcs() {
        for (m, tgt) in targets() {
            let all = t || m == "empty" || m == "pending";
            for kind in ["cut", "alter", "extend", "short", "sealed"] {
                let (c, pre, tgt) = (c.clone(), pre.clone(), tgt.clone());
                v.push(scn(&format!("{kind}-{n}-{m}"), 0, move || {
                    let cx = Cx { confs: vec![c.clone()] };
                    boot(&c);
                    setup(&cx, &pre);
                    setup(&cx, &[Dump, Kill, Start(0)]);
                    setup(&cx, &tgt);
                    let d = last_dump().unwrap_or_default();
                    if d.is_empty() {
                        return;
                    }
                    let mut bad: Vec<Vec<u8>> = vec![];
                    match kind {
                        // The first bytes only.
                        "cut" => bad.extend((0..d.len()).map(|i| d[..i].to_vec())),
                        // Lacking the first bytes, or any one byte.
                        "short" => {
                            bad.extend((1..d.len()).map(|i| d[i..].to_vec()));
                            for i in 0..d.len() {
                                let mut x = d.clone();
                                x.remove(i);
                                if x != d {
                                    bad.push(x);
                                }
                            }
                        }
                        "alter" => {
                            let vals: Vec<u8> = if t { (1..=255).collect() } else { vec![1, 2, 4, 8, 16, 32, 64, 128, 255] };
                            for i in 0..d.len() {
                                for x in &vals {
                                    let mut b = d.clone();
                                    b[i] ^= x;
                                    bad.push(b);
                                }
                            }
                        }
                        "extend" => {
                            for x in 0..=255u8 {
                                let mut b = d.clone();
                                b.push(x);
                                bad.push(b);
                                let mut b = vec![x];
                                b.extend(&d);
                                bad.push(b);
                            }
                            let mut b = d.clone();
                            b.extend(&d);
                            bad.push(b);
                            let mut b = d.clone();
                            b.extend(vec![0; 70000]);
                            bad.push(b);
                        }
                        // Truncated contents or another version under a valid seal.
                        _ => {
                            let Some(p) = unseal(&d) else { return };
                            bad.extend((0..p.len()).map(|i| seal(&p[..i])));
                            for ver in [0u64, 2, 3, 4, 10, 255, 256, 257, 1 << 16, 1 << 32, (1 << 32) + 1, u64::MAX, u64::MAX - 1, 1 << 63] {
                                let mut b = p.clone();
                                b[..8].copy_from_slice(&ver.to_le_bytes());
                                bad.push(seal(&b));
                            }
                            // A number of accounts that is not there.
                            for k in [3u64, 1 << 20, u64::MAX] {
                                let mut b = p.clone();
                                b[8..16].copy_from_slice(&k.to_le_bytes());
                                bad.push(seal(&b));
                            }
                        }
                    }
                    let per = 150;
                    let parts = if all { bad.len().div_ceil(per) } else { bad.len().div_ceil(per).min(2) };
                    let k = choose(parts, "part");
                    for b in bad.into_iter().skip(k * per).take(per) {
                        cmd_in(&["restore"], b);
                        quiet();
                    }
                    probe(&cx, &["a", "b"], true);
                    if server_up() && d.len() > 20 {
                        apply(&cx, &ResLast);
                        apply(&cx, &Show("a"));
                    }
                }));
            }
        }
    }
    // Whatever is under a valid seal, the server survives it.
    for (n, pre) in srcs() {
        for val in [0xffu8, 0x80, 0x01] {
            let (c, pre) = (c.clone(), pre.clone());
            v.push(scn(&format!("forged{val}-{n}"), 0, move || {
                note("nospec".into());
                let cx = Cx { confs: vec![c.clone()] };
                boot(&c);
                setup(&cx, &pre);
                setup(&cx, &[Dump]);
                let Some(p) = last_dump().and_then(|d| unseal(&d)) else { return };
                let per = 12;
                let k = choose(p.len().div_ceil(per), "part");
                for i in (k * per..p.len()).take(per) {
                    let mut b = p.clone();
                    b[i] ^= val;
                    setup(&cx, &[Kill, Start(0)]);
                    cmd_in(&["restore"], seal(&b));
                    quiet();
                    for o in [Status, Show("a"), Show("b"), Refresh("a"), Dump, Wait(40), Status] {
                        apply(&cx, &o);
                    }
                    let r = run(&["status"]);
                    if !r.ok() {
                        bad("C20,C27", "no-answer", format!("after a restore with byte {i} of the contents changed, status says {:?} {:?}", r.code, r.err));
                    }
                }
            }));
        }
    }
    // Between other things.
    let ops = [RestoreBad(0), RestoreBad(1), RestoreBad(2), RestoreBad(3), RestoreBad(4), Show("a"), ResLast, Ans(R::Grant), Auth("a"), Revoke("a"), Due];
    for (n, pre) in states() {
        v.push(hist(&format!("bad-{n}"), &[c.clone()], &["a", "b"], &plus(&plus(&st("active"), &[Dump, Kill, Start(0)]), &pre), &ops, if t { 4 } else { 3 }, true));
        for o in [Show("a"), Ans(R::Grant), Auth("a"), Revoke("a"), Tick, ResLast] {
            if fits(n, &o) {
                let pre = plus(&plus(&st("active"), &[Dump, Kill, Start(0)]), &pre);
                v.push(race_l(&format!("bad-{n}"), &[c.clone()], &["a", "b"], &pre, &[RestoreBad(3), o], if t { 2 } else { 1 }));
            }
        }
    }
    v
}
