//! Scenarios about accounts, tokens and requests.
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use vstd::explore::choose;
use CmdKind::{Auth as KAuth, Err as KErr, Event as KEvent, Trans as KTrans};
use O::*;

/// States of account "a" that later operations can meet, reached by these operations.
pub fn states() -> Vec<(&'static str, Vec<O>)> {
    vec![
        ("empty", vec![]),
        ("pending", vec![Show("a")]),
        ("exchange", vec![Show("a"), Auth("a")]),
        ("active", vec![Show("a"), Auth("a"), Ans(R::Grant)]),
        ("nort", vec![Show("a"), Auth("a"), Ans(R::GrantNoRt)]),
        ("refresh", vec![Show("a"), Auth("a"), Ans(R::Grant), Refresh("a")]),
    ]
}
pub fn st(n: &str) -> Vec<O> {
    states().into_iter().find(|x| x.0 == n).unwrap().1
}
pub fn plus(a: &[O], b: &[O]) -> Vec<O> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}
/// Does it make sense to begin `o` in the state named `n`?
pub fn fits(n: &str, o: &O) -> bool {
    match o {
        Ans(_) | AnsLast(_) => matches!(n, "exchange" | "refresh"),
        Auth(_) | AuthErr(_) | Wrong(..) => n != "empty",
        Tick => n != "empty",
        _ => true,
    }
}
pub fn ab() -> Conf {
    Conf::new(&["a", "b"])
}
/// One variant of account a per security-relevant setting.
pub fn secure_variants(c: &Conf) -> Vec<(&'static str, Conf)> {
    let m = |f: &dyn Fn(&mut Acct)| {
        let mut d = c.clone();
        f(d.acct("a"));
        d
    };
    vec![
        ("auth_uri", m(&|a| a.auth_uri = "http://auth.a.test/auth2".into())),
        ("fields", m(&|a| a.fields = vec![("k".into(), "v".into())])),
        ("client_id", m(&|a| a.client_id = "CID.other".into())),
        ("secret", m(&|a| a.secret = Some("SECRET.a.2".into()))),
        ("nosecret", m(&|a| a.secret = None)),
        ("redirect", m(&|a| a.redirect = Some("http://localhost/r".into()))),
        ("scopes", m(&|a| a.scopes = vec!["s1".into()])),
        ("scopeorder", m(&|a| a.scopes = vec!["s2".into(), "s1".into()])),
        ("token_uri", m(&|a| a.token_uri = "http://tok.a.test/token2".into())),
        ("tokenhost", m(&|a| a.token_uri = "http://tok.x.test/token".into())),
        ("hint", m(&|a| a.login_hint = Some("h".into()))),
        ("removed", c.without("a")),
    ]
}
/// Pairs of versions of account a which differ in one setting, but only slightly.
pub fn near_variants(c: &Conf) -> Vec<(String, Conf, Conf)> {
    let mut v = vec![];
    let mut add = |n: &str, f: &dyn Fn(&mut Acct), g: &dyn Fn(&mut Acct)| {
        let (mut x, mut y) = (c.clone(), c.clone());
        f(x.acct("a"));
        g(y.acct("a"));
        assert!(x.get("a").unwrap().secure() != y.get("a").unwrap().secure());
        v.push((n.to_string(), x, y));
    };
    let same = |_: &mut Acct| ();
    for (n, x, y) in [
        ("case", "/auth", "/AUTH"),
        ("slash", "/auth", "/auth/"),
        ("query", "/auth?x=1", "/auth?x=2"),
        ("noquery", "/auth", "/auth?x=1"),
        ("short", "/auth", "/"),
        ("port", ":81/auth", ":82/auth"),
    ] {
        let au = |s: &str| format!("http://auth.a.test{s}");
        let tu = |s: &str| format!("http://tok.a.test{}", s.replace("auth", "token").replace("AUTH", "TOKEN"));
        add(&format!("auth-{n}"), &|a| a.auth_uri = au(x), &|a| a.auth_uri = au(y));
        add(&format!("token-{n}"), &|a| a.token_uri = tu(x), &|a| a.token_uri = tu(y));
    }
    add("auth-host", &same, &|a| a.auth_uri = "http://auth.x.test/auth".into());
    add("auth-https", &same, &|a| a.auth_uri = "https://auth.a.test/auth".into());
    let l = "http://localhost";
    for (n, x, y) in [
        ("path", Some("/a"), Some("/b")),
        ("case", Some("/a"), Some("/A")),
        ("slash", Some("/a"), Some("/a/")),
        ("query", Some("/?x=1"), Some("/?x=2")),
        ("noquery", None, Some("/?x=1")),
    ] {
        add(&format!("redirect-{n}"), &|a| a.redirect = x.map(|x| format!("{l}{x}")), &|a| a.redirect = y.map(|x| format!("{l}{x}")));
    }
    add("redirect-host", &|a| a.redirect = Some("http://localhost/".into()), &|a| a.redirect = Some("http://127.0.0.1/".into()));
    for (n, x, y) in [
        ("none", vec![], vec!["s1"]),
        ("joined", vec!["s1", "s2"], vec!["s1 s2"]),
        ("more", vec!["s1", "s2"], vec!["s1", "s2", "s3"]),
        ("front", vec!["s1", "s2"], vec!["s0", "s1", "s2"]),
        ("case", vec!["s1", "s2"], vec!["s1", "S2"]),
        ("twice", vec!["s1", "s2"], vec!["s1", "s2", "s2"]),
        ("last", vec!["s1", "s2"], vec!["s1", "s3"]),
        ("first", vec!["s1", "s2"], vec!["s3", "s2"]),
    ] {
        let f = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        add(&format!("scopes-{n}"), &|a| a.scopes = f(&x), &|a| a.scopes = f(&y));
    }
    for (n, x, y) in [("case", "CID.a", "cid.a"), ("longer", "CID.a", "CID.a1"), ("space", "CID.a", "CID.a "), ("before", "CID.a", " CID.a")] {
        add(&format!("id-{n}"), &|a| a.client_id = x.into(), &|a| a.client_id = y.into());
    }
    for (n, x, y) in [("case", Some("SECRET.a.x"), Some("SECRET.a.X")), ("longer", Some("SECRET.a.1"), Some("SECRET.a.12")), ("space", Some("SECRET.a.1"), Some("SECRET.a.1 ")), ("added", None, Some("SECRET.a.1")), ("empty", None, Some("")), ("emptied", Some("SECRET.a.1"), Some(""))] {
        add(&format!("secret-{n}"), &|a| a.secret = x.map(|x| x.into()), &|a| a.secret = y.map(|x| x.into()));
    }
    for (n, x, y) in [
        ("value", vec![("k", "v")], vec![("k", "w")]),
        ("key", vec![("k", "v")], vec![("l", "v")]),
        ("case", vec![("k", "v")], vec![("k", "V")]),
        ("keycase", vec![("k", "v")], vec![("K", "v")]),
        ("more", vec![("k", "v")], vec![("k", "v"), ("l", "w")]),
        ("swapped", vec![("k", "v"), ("l", "w")], vec![("k", "w"), ("l", "v")]),
        ("order", vec![("k", "v"), ("l", "w")], vec![("l", "w"), ("k", "v")]),
        ("last", vec![("k", "v"), ("l", "w")], vec![("k", "v"), ("l", "x")]),
    ] {
        let f = |x: &[(&str, &str)]| x.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect::<Vec<_>>();
        add(&format!("fields-{n}"), &|a| a.fields = f(&x), &|a| a.fields = f(&y));
    }
    add("hint-other", &|a| a.login_hint = Some("h1".into()), &|a| a.login_hint = Some("h2".into()));
    v
}
pub fn c01(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut v = vec![];
    for (n, x, y) in near_variants(&base) {
        for s in ["pending", "exchange", "active", "refresh"] {
            let ops = if s == "active" { [Reload(1), Reload(0), Show("a"), Refresh("a")] } else { [Reload(1), Reload(0), Ans(R::Grant), Auth("a")] };
            v.push(hist(&format!("near-{n}"), &[x.clone(), y.clone()], &["a", "b"], &st(s), &ops, if t { 4 } else { 2 }, true));
            v.push(hist(&format!("raen-{n}"), &[y.clone(), x.clone()], &["a", "b"], &st(s), &ops, if t { 4 } else { 2 }, true));
        }
    }
    for (n, c) in secure_variants(&base) {
        let confs = [base.clone(), c];
        // Every sequence of operations around a change of this setting.
        let ops = [Reload(1), Reload(0), Ans(R::Grant), Auth("a"), Stale("a"), Show("a"), Ans(R::Status(400)), Refresh("a")];
        let d = if t { 5 } else { 3 };
        for s in ["pending", "exchange", "active", "refresh"] {
            v.push(hist(n, &confs, &["a", "b"], &st(s), &ops, d, true));
        }
        // The change at the same time as something else.
        for s in ["pending", "exchange", "active", "refresh"] {
            for o in [Ans(R::Grant), Ans(R::Status(400)), Auth("a"), Show("a"), Refresh("a"), Dump] {
                if !fits(s, &o) || (!t && n != "token_uri" && n != "removed" && !matches!(o, Ans(R::Grant) | Auth(_))) {
                    continue;
                }
                let d = if t { 2 } else if n == "token_uri" { 2 } else { 1 };
                v.push(race_l(n, &confs, &["a", "b"], &st(s), &[Reload(1), o.clone()], d));
            }
        }
        // An exchange that is being retried, a refresh that failed, a pending reminder.
        v.push(hist(&format!("retry-{n}"), &confs, &["a"], &plus(&st("pending"), &[Net("a", NetMode::Refused), Auth("a"), Reload(1), Net("a", NetMode::Ok)]), &[Due, Reload(0), Wait(60)], 3, true));
        v.push(hist(&format!("rfail-{n}"), &confs, &["a"], &plus(&st("refresh"), &[Ans(R::Rst), Reload(1)]), &[Due, Reload(0), Wait(60)], 3, true));
        // A dump taken before and restored after the change.
        v.push(hist(&format!("dump-{n}"), &confs, &["a"], &plus(&st("active"), &[Dump, Reload(1)]), &[Restore(0), Reload(0), Show("a")], 3, true));
        // The same setting is changed and changed back at once.
        for s in ["exchange", "refresh", "active", "pending"] {
            let o = if matches!(s, "exchange" | "refresh") { Ans(R::Grant) } else { Show("a") };
            v.push(race_l(&format!("back-{n}"), &confs, &["a"], &plus(&st(s), &[Reload(1)]), &[Reload(0), o], 1));
        }
    }
    v
}
/// Changes that leave account a alone.
pub fn harmless(c: &Conf) -> Vec<(&'static str, Conf)> {
    let m = |f: &dyn Fn(&mut Conf)| {
        let mut d = c.clone();
        f(&mut d);
        d
    };
    let mut more = Conf::new(&["0", "a", "aa", "b", "c"]);
    more.accts.retain(|x| c.get(&x.name).is_none());
    vec![
        ("order", m(&|d| d.accts.reverse())),
        ("added", m(&|d| d.accts.extend(more.accts.clone()))),
        ("before", m(&|d| {
            let mut x = more.accts.clone();
            x.extend(d.accts.clone());
            d.accts = x
        })),
        ("bremoved", c.without("b")),
        ("bchanged", m(&|d| d.acct("b").client_id = "CID.other".into())),
        ("cmds", m(&|d| {
            d.auth = Some("authcmd2".into());
            d.err = Some("errcmd2".into());
            d.event = Some("eventcmd2".into())
        })),
        ("nocmds", m(&|d| {
            d.auth = None;
            d.err = None;
            d.event = None
        })),
        ("times", m(&|d| {
            d.interval = Some(300);
            d.before = Some(60);
            d.retry = Some(15);
            d.at_least = Some(100)
        })),
        ("atimes", m(&|d| {
            d.acct("a").before = Some(120);
            d.acct("a").retry = Some(20);
            d.acct("a").at_least = Some(30)
        })),
        ("same", c.clone()),
    ]
}
pub fn c02(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut v = vec![];
    for (n, c) in harmless(&base) {
        let confs = [base.clone(), c];
        let ops = [Reload(1), Reload(0), Ans(R::Grant), Auth("a"), Show("a"), Due, Ans(R::Status(400)), Ans(R::Rst), Wait(40)];
        let d = if t { 5 } else { 3 };
        for s in ["pending", "exchange", "active", "refresh"] {
            let ops: Vec<O> = ops.iter().filter(|o| t || fits(s, o) || matches!(o, Due)).cloned().collect();
            v.push(hist(n, &confs, &["a", "b"], &st(s), &ops, d, true));
        }
        for s in ["pending", "exchange", "active", "refresh"] {
            for o in [Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst), Auth("a"), Show("a"), Refresh("a"), Tick, Revoke("a")] {
                if !fits(s, &o) {
                    continue;
                }
                let key = matches!(n, "order" | "times" | "added");
                if !t && !key && !matches!(o, Ans(R::Grant) | Auth(_)) {
                    continue;
                }
                v.push(race_l(n, &confs, &["a", "b"], &st(s), &[Reload(1), o.clone()], if t || (n == "added" && matches!(o, Ans(R::Grant) | Auth(_))) { 2 } else { 1 }));
            }
        }
        v.push(race_l(&format!("twice-{n}"), &confs, &["a", "b"], &st("active"), &[Reload(1), Reload(0)], if t { 2 } else { 1 }));
        // Both accounts have something to lose.
        let both = [Show("a"), Auth("a"), Ans(R::Grant), Show("b"), Auth("b"), Ans(R::Grant)];
        v.push(hist(&format!("both-{n}"), &confs, &["a", "b"], &both, &[Reload(1), Reload(0), Refresh("a"), Refresh("b"), AnsLast(R::Grant), Ans(R::Status(400))], if t { 4 } else { 3 }, true));
        // Some failures so far, some more to come.
        if matches!(n, "order" | "times" | "same" | "cmds" | "bremoved" | "atimes") {
            for k in [1, 5] {
                let mut f = confs.clone();
                f.iter_mut().for_each(|c| {
                    c.trans = Some("transcmd".into());
                    c.accts.iter_mut().filter(|a| a.name == "a").for_each(|a| a.retry = Some(20));
                });
                let mut pre = vec![Pol(KTrans, 1), Show("a"), Auth("a"), Ans(R::Huge), Refresh("a")];
                for i in 0..6 {
                    if i == k {
                        pre.push(Reload(1));
                    }
                    pre.extend([Ans(R::Rst), UntilReq]);
                }
                // What is counted here goes on across a reload.
                v.push(hist(&format!("count{k}-{n}"), &f, &["a"], &pre, &[Ans(R::Rst), Due, Reload(0)], 2, true).blame("C02"));
            }
        }
        // Waiting for a retry.
        v.push(hist(&format!("rfail-{n}"), &confs, &["a"], &plus(&st("refresh"), &[Ans(R::Rst), Reload(1)]), &[Due, Reload(0), Wait(10), Wait(60)], if t { 4 } else { 3 }, true));
        v.push(hist(&format!("retry-{n}"), &confs, &["a"], &plus(&st("pending"), &[Net("a", NetMode::Refused), Auth("a"), Reload(1), Net("a", NetMode::Ok)]), &[Due, Reload(0), Wait(60)], 3, true));
    }
    v
}
pub fn c03(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut other = ab();
    other.event = None;
    other.err = None;
    other.interval = Some(100);
    other.before = Some(20);
    other.accts.reverse();
    let mut third = ab();
    third.acct("a").client_id = "CID.third".into();
    third.event = Some("eventcmd3".into());
    let confs = [base, other, third];
    let mut v = vec![];
    for (n, s) in states() {
        for k in 0..=NBAD {
            v.push(hist(&format!("bad{k}"), &confs, &["a", "b"], &s, &[BadReload(k), Reload(1), Reload(2), Show("a"), Ans(R::Grant), Due, Auth("a")], if t { 4 } else { 2 }, true));
            for o in [Ans(R::Grant), Ans(R::Status(400)), Auth("a"), Show("a"), Refresh("a"), Revoke("a"), Tick, Status] {
                if !fits(n, &o) || (!t && k != 2) {
                    continue;
                }
                v.push(race(&confs, &["a", "b"], &s, &[BadReload(k), o], if t { 2 } else { 1 }));
            }
        }
        // Each setting is added, changed and removed.
        let all: [(&str, fn(&mut Conf, u64)); 10] = [
            ("auth", |c, k| c.auth = (k > 0).then(|| format!("authcmd{k}"))),
            ("err", |c, k| c.err = (k > 0).then(|| format!("errcmd{k}"))),
            ("event", |c, k| c.event = (k > 0).then(|| format!("eventcmd{k}"))),
            ("interval", |c, k| c.interval = (k > 0).then_some(100 * k)),
            ("before", |c, k| c.before = (k > 0).then_some(20 * k)),
            ("least", |c, k| c.at_least = (k > 0).then_some(30 * k)),
            ("retry", |c, k| c.retry = (k > 0).then_some(15 * k)),
            ("abefore", |c, k| c.acct("a").before = (k > 0).then_some(20 * k)),
            ("aleast", |c, k| c.acct("a").at_least = (k > 0).then_some(30 * k)),
            ("aretry", |c, k| c.acct("a").retry = (k > 0).then_some(15 * k)),
        ];
        for (what, f) in all {
            for (from, to) in [(0, 1), (1, 0), (1, 2)] {
                let (mut x, mut y) = (ab(), ab());
                f(&mut x, from);
                f(&mut y, to);
                let ops = match n {
                    "empty" => [Show("a"), Due, Nop],
                    "pending" => [AuthErr("a"), Auth("a"), Due],
                    "active" | "nort" => [Refresh("a"), Revoke("a"), Due],
                    _ => [Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst)],
                };
                let mut ops = ops.to_vec();
                if t {
                    ops.extend([Reload(0), Reload(1)]);
                } else {
                    ops.push(Due);
                }
                v.push(hist(&format!("set-{what}{from}{to}"), &[x, y], &["a", "b"], &plus(&s, &[Reload(1)]), &ops, if t { 4 } else { 2 }, true).blame("C03"));
            }
        }
        v.push(hist("put", &confs, &["a", "b"], &s, &[Put(1), Put(2), BadReload(1), Reload(0), Show("a"), Due, Status], if t { 4 } else { 3 }, true));
    }
    // transient_error_if_cmd takes six failures.
    for (from, to) in [(0, 1), (1, 0), (1, 2)] {
        let f = |k: usize| {
            let mut c = ab();
            c.trans = (k > 0).then(|| format!("transcmd{k}"));
            c.acct("a").retry = Some(20);
            c
        };
        for k in [1, 5] {
            let mut pre = vec![Pol(KTrans, 1), Show("a"), Auth("a"), Ans(R::Huge), Refresh("a")];
            for i in 0..5 {
                if i == k {
                    pre.push(Reload(1));
                }
                pre.extend([Ans(R::Rst), UntilReq]);
            }
            if k == 5 {
                pre.push(Reload(1));
            }
            v.push(hist(&format!("set-trans{k}{from}{to}"), &[f(from), f(to)], &["a"], &pre, &[Ans(R::Rst), Due, Show("a")], if t { 4 } else { 3 }, true).blame("C03"));
        }
    }
    v
}
pub fn c04(t: bool) -> Vec<Scn> {
    let base = ab();
    let confs = [base];
    let mut v = vec![];
    let twice = plus(&st("pending"), &[Revoke("a"), Show("a")]);
    let superseded = plus(&st("pending"), &[Refresh("a")]);
    let used = plus(&st("active"), &[Revoke("a"), Show("a")]);
    let revoked = plus(&st("pending"), &[Revoke("a")]);
    let both = plus(&st("pending"), &[Show("b")]);
    let mut pres: Vec<(&str, Vec<O>)> = states().into_iter().filter(|x| x.0 != "empty").collect();
    pres.extend([("twice", twice), ("superseded", superseded), ("used", used), ("revoked", revoked), ("both", both)]);
    for (n, s) in &pres {
        let mut ops = vec![Auth("a"), Stale("a"), StaleErr("a"), AuthErr("a"), Ans(R::Grant), Refresh("a"), Revoke("a"), Show("a")];
        if t {
            ops.extend([Auth("b"), Show("b"), Ans(R::Status(400))]);
        }
        for k in 0..NWRONG {
            v.push(hist(&format!("{n}-wrong{k}"), &confs, &["a", "b"], s, &[Wrong("a", k), Auth("a"), Stale("a"), Show("a"), Ans(R::Grant)], if t { 4 } else { 2 }, true));
        }
        // With both listeners, and either kind of redirect.
        for scheme in ["http", "https"] {
            let mut c = ab();
            c.https = None;
            c.acct("a").redirect = Some(format!("{scheme}://localhost/"));
            for k in [0, 1, 5, 6, 15, 18] {
                v.push(hist(&format!("{n}-{scheme}-wrong{k}"), &[c.clone()], &["a", "b"], s, &[Wrong("a", k), Auth("a"), Show("a")], if t { 3 } else { 2 }, true));
            }
        }
        v.push(hist(n, &confs, &["a", "b"], s, &ops, if t { 5 } else { 3 }, true));
        let d = if t { 2 } else { 1 };
        for p in [vec![Auth("a"), Auth("a")], vec![Auth("a"), Stale("a")], vec![Auth("a"), Wrong("a", 1)], vec![Auth("a"), Refresh("a")], vec![Stale("a"), Ans(R::Grant)], vec![AuthErr("a"), Auth("a")], vec![Auth("a"), AuthErr("a"), Revoke("a")]] {
            v.push(race_l(n, &confs, &["a", "b"], s, &p, d));
        }
        v.push(race_l(n, &confs, &["a", "b"], &plus(s, &[Show("b")]), &[Auth("a"), Auth("b")], d));
    }
    v
}
pub fn c05(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut fast = ab();
    fast.interval = Some(15);
    let mut added = Conf::new(&["0", "a", "b", "c"]);
    added.before = Some(60);
    let confs = [base.clone(), added];
    let mut v = vec![];
    let others = [Show("a"), ShowU("a"), Status, Dump, Reload(1), BadReload(1), Tick, Show("b"), Revoke("b"), Refresh("b"), Wrong("a", 1), Info];
    for o in &others {
        v.push(race(&confs, &["a", "b"], &st("exchange"), &[Ans(R::Grant), o.clone()], 2));
        v.push(race(&confs, &["a", "b"], &st("pending"), &[Auth("a"), o.clone()], if t { 2 } else { 1 }));
        if t {
            for o2 in &others {
                v.push(race(&confs, &["a", "b"], &st("exchange"), &[Ans(R::Grant), o.clone(), o2.clone()], 1));
            }
        }
    }
    for r in [R::Grant, R::GrantNoRt, R::Slow, R::Short, R::Huge, R::NullErr, R::NullRt, R::NumRt, R::Odd, R::Long, R::Same, R::ShortNoRt] {
        v.push(race(&confs, &["a", "b"], &st("exchange"), &[Ans(r.clone()), Show("a")], 1));
        v.push(race(&confs, &["a", "b"], &plus(&st("active"), &[Revoke("a"), Show("a"), Auth("a")]), &[Ans(r.clone()), Show("a")], 1));
    }
    // The redirect is followed twice; another account at the same time.
    v.push(race(&confs, &["a", "b"], &plus(&st("exchange"), &[Show("b"), Auth("b")]), &[AnsOf("a", R::Grant), AnsOf("b", R::Grant)], 2));
    v.push(race(&confs, &["a", "b"], &plus(&st("pending"), &[Show("b")]), &[Auth("a"), Auth("b")], if t { 2 } else { 1 }));
    // Nobody is told about anything; the reminders' thread has not run yet.
    let mut quietly = ab();
    quietly.auth = None;
    quietly.err = None;
    quietly.event = None;
    for s in ["pending", "exchange"] {
        v.push(hist("nocmds", &[quietly.clone(), base.clone()], &["a", "b"], &st(s), &[Auth("a"), Ans(R::Grant), Ans(R::Rst), Show("a"), Reload(1), Due], if t { 5 } else { 3 }, true));
    }
    for c in [&quietly, &base] {
        v.push(race_l("early", &[c.clone()], &["a"], &[Show("a"), Auth("a"), Revoke("a")], &[Show("a"), Show("b")], 1));
        let c = c.clone();
        v.push(scn(&format!("early{}", c.auth.is_some()), 1, move || {
            boot(&c);
            grant_next("a", resp(&R::Grant));
            devs(true);
            run(&["show", "a"]);
            if url_of("a").is_some() {
                authorise("a");
            }
            quiet();
            probe(&Cx { confs: vec![c.clone()] }, &["a", "b"], true);
        }).stalls(2));
    }
    // Reminders while the exchange is under way.
    let fc = [fast];
    let ops = [Due, Ans(R::Grant), Ans(R::Rst), Show("a"), Suspend(3600), Net("a", NetMode::Refused), Net("a", NetMode::Dns), Net("a", NetMode::Ok), Wait(40)];
    for s in ["pending", "exchange"] {
        v.push(hist("reminders", &fc, &["a"], &plus(&st(s), if s == "pending" { &[] } else { &[] }), &plus(&ops, &[Auth("a")]), if t { 5 } else { 4 }, true));
    }
    v.push(race_l("fast", &fc, &["a", "b"], &st("exchange"), &[Ans(R::Grant), Tick], 2));
    v.push(race_l("fast", &fc, &["a", "b"], &plus(&st("exchange"), &[Show("b")]), &[Ans(R::Grant), Tick, Show("a")], if t { 2 } else { 1 }));
    // Failures that are retried.
    for m in [NetMode::Refused, NetMode::Dns, NetMode::Hang] {
        let pre = plus(&st("pending"), &[Net("a", m), Auth("a"), Net("a", NetMode::Ok)]);
        v.push(hist(&format!("retry{m:?}"), &confs, &["a"], &pre, &[Due, Ans(R::Grant), Show("a"), Net("a", m), Net("a", NetMode::Ok), Reload(1)], if t { 6 } else { 4 }, true));
    }
    for r in [R::Rst, R::Fin, R::Partial] {
        let pre = plus(&st("exchange"), &[Ans(r.clone())]);
        v.push(hist(&format!("broken{r:?}"), &confs, &["a"], &pre, &[Due, Ans(R::Grant), Ans(r), Show("a"), Reload(1)], if t { 6 } else { 4 }, true));
    }
    v
}
pub fn bad_answers() -> Vec<R> {
    vec![R::Status(400), R::Status(401), R::Status(500), R::ErrBody, R::BadJson, R::NoToken, R::BadType, R::Huge2]
}
/// Each of the many ways to grant nothing.
/// Every answer a token server gives in any scenario.
pub fn all_answers() -> Vec<R> {
    let mut v = vec![R::Grant, R::GrantNoRt, R::Short, R::ShortNoRt, R::Huge, R::Long, R::Max, R::Huge2, R::Odd, R::Tiny, R::Big, R::Colon, R::NullRt, R::NumRt, R::Same, R::SameAt, R::NullErr, R::ErrBody, R::BadJson, R::NoToken, R::BadType, R::Rst, R::Fin, R::Partial, R::Slow];
    v.extend(USELESS.iter().map(|b| R::Useless(b)));
    v.extend([400, 401, 402, 403, 404, 409, 410, 418, 429, 500, 501, 502, 503, 504, 599].map(R::Status));
    for c in [200, 400, 401, 503] {
        v.extend(ERRORS.iter().map(|e| R::StatusErr(c, e)));
    }
    v
}
/// Each of these, followed by each of `ops`.
pub fn every_answer(c: &Conf, t: bool, ops: &[O]) -> Vec<Scn> {
    let mut v = vec![];
    for s in ["exchange", "refresh"] {
        for (i, r) in all_answers().iter().enumerate() {
            v.push(hist(&format!("every{i}"), &[c.clone()], &["a", "b"], &plus(&st(s), &[Ans(r.clone())]), ops, if t { 3 } else { 1 }, true));
        }
    }
    v
}
pub fn useless_answers(name: &'static str, from: &'static str, t: bool) -> Vec<Scn> {
    let c = ab();
    let mut all: Vec<R> = USELESS.iter().map(|b| R::Useless(b)).collect();
    all.extend([402, 403, 404, 409, 410, 418, 429, 501, 502, 503, 504, 599].map(R::Status));
    for c in [200, 400, 401, 403, 429, 500, 503] {
        all.extend(ERRORS.iter().map(|e| R::StatusErr(c, e)));
    }
    all.iter().enumerate().map(|(i, r)| hist(&format!("{name}{i}"), &[c.clone()], &["a", "b"], &st(from), &[Ans(r.clone()), Show("a"), Due], if t { 4 } else { 2 }, true)).collect()
}
pub fn c06(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut log = ab();
    log.err = None;
    let mut other = ab();
    other.acct("a").client_id = "CID.other".into();
    let mut v = useless_answers("useless", "exchange", t);
    for (n, confs) in [("cmd", [base.clone(), other.clone()]), ("log", [log, other])] {
        for r in bad_answers() {
            v.push(hist(&format!("{n}-{r:?}"), &confs, &["a", "b"], &plus(&st("exchange"), &[]), &[Ans(r.clone()), Show("a"), Revoke("a"), Refresh("a"), Auth("a"), Reload(1)], if t { 5 } else { 3 }, true));
        }
        v.push(hist(&format!("{n}-err"), &confs, &["a", "b"], &st("pending"), &[AuthErr("a"), StaleErr("a"), Auth("a"), Refresh("a"), Revoke("a"), Show("a"), Ans(R::Status(400)), Show("b"), Auth("b")], if t { 5 } else { 4 }, true));
        {
            let c = confs[0].clone();
            v.push(scn(&format!("{n}-reasons"), 0, move || {
                boot(&c);
                setup(&Cx { confs: vec![c.clone()] }, &st("pending"));
                let mut r = redir(&url_of("a").unwrap(), "CODE.a.3.zzq");
                if choose(2, "code") == 0 {
                    r.code = None;
                }
                let e = choose(REASONS.len() + 1, "reason");
                r.error = Some(if e < REASONS.len() { REASONS[e].to_string() } else { "y".repeat(6000) });
                follow(&r);
                quiet();
                probe(&Cx { confs: vec![c.clone()] }, &["a", "b"], true);
            }));
        }
        for m in [NetMode::Refused, NetMode::Dns, NetMode::Hang] {
            let pre = plus(&st("pending"), &[Net("a", m), Auth("a")]);
            v.push(hist(&format!("{n}-net{m:?}"), &confs, &["a", "b"], &pre, &[Due, Wait(400), Show("a"), Revoke("a"), Refresh("a")], if t { 5 } else { 3 }, true));
        }
        for p in [AuthErr("a"), Ans(R::Status(400)), Ans(R::BadJson)] {
            let s = if matches!(p, AuthErr(_)) { "pending" } else { "exchange" };
            for o in [Revoke("a"), Refresh("a"), Show("a"), Reload(1), Auth("a"), AuthErr("a"), Refresh("b"), Tick, Status] {
                v.push(race_l(n, &confs, &["a", "b"], &st(s), &[p.clone(), o], if t || n == "cmd" { 2 } else { 1 }));
            }
        }
        // A lifetime that cannot be represented.
        let never: Vec<Conf> = confs.iter().map(|c| Conf { at_least: Some(u64::MAX), ..c.clone() }).collect();
        for (m, cs) in [("max", &confs[..]), ("never", &never[..])] {
            v.push(hist(&format!("{n}-{m}"), cs, &["a", "b"], &st("exchange"), &[Ans(R::Max), Show("a"), Refresh("a"), Due, Status, Ans(R::Grant), Auth("a")], if t { 5 } else { 4 }, true));
        }
        // Two exchanges of the same request.
        v.push(race_l(n, &confs, &["a", "b"], &plus(&st("exchange"), &[Auth("a")]), &[Ans(R::Status(400)), AnsLast(R::Status(400))], 1));
        v.push(race_l(n, &confs, &["a", "b"], &plus(&st("exchange"), &[Auth("a")]), &[Ans(R::Grant), AnsLast(R::Status(400))], 1));
        v.push(race_l(n, &confs, &["a", "b"], &plus(&st("exchange"), &[Show("b"), Auth("b")]), &[AnsOf("a", R::Status(400)), AnsOf("b", R::Status(400))], 1));
    }
    v
}
pub fn c07(t: bool) -> Vec<Scn> {
    let confs = [ab()];
    let mut v = vec![];
    let d = if t { 3 } else { 2 };
    for (n, pre) in &states() {
        for o in [Show("a"), Refresh("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst), AuthErr("a"), Dump, Tick] {
            if !fits(n, &o) {
                continue;
            }
            v.push(race(&confs, &["a", "b"], pre, &[Revoke("a"), o], d));
        }
        v.push(hist(n, &confs, &["a", "b"], pre, &[Revoke("a"), Show("a"), Auth("a"), Stale("a"), Ans(R::Grant), Ans(R::Status(400)), Refresh("a"), Due], if t { 5 } else { 4 }, true));
        // The other account has everything the revoked one has.
        let both = plus(pre, &pre.iter().map(swap).collect::<Vec<_>>());
        v.push(hist(&format!("both-{n}"), &confs, &["a", "b"], &both, &[Revoke("a"), Revoke("b"), Ans(R::Grant), AnsLast(R::Status(400)), Show("b")], if t { 4 } else { 3 }, true));
        if t {
            for o in [Ans(R::Grant), Show("a"), Refresh("a")] {
                if fits(n, &o) {
                    v.push(race(&confs, &["a", "b"], pre, &[Revoke("a"), Revoke("a"), o.clone()], 2));
                    v.push(race(&confs, &["a", "b"], pre, &[Revoke("a"), Show("a"), o], 2));
                }
            }
        }
    }
    let net = plus(&st("pending"), &[Net("a", NetMode::Refused), Auth("a")]);
    v.push(hist("retry", &confs, &["a"], &net, &[Revoke("a"), Net("a", NetMode::Ok), Due, Show("a"), Ans(R::Grant)], if t { 6 } else { 4 }, true));
    let net = plus(&st("refresh"), &[Ans(R::Rst)]);
    v.push(hist("rretry", &confs, &["a"], &net, &[Revoke("a"), Due, Show("a"), Ans(R::Grant), Ans(R::Rst)], if t { 6 } else { 4 }, true));
    v
}
fn swap(o: &O) -> O {
    match o {
        Show(_) => Show("b"),
        Auth(_) => Auth("b"),
        Refresh(_) => Refresh("b"),
        x => x.clone(),
    }
}
pub fn c08(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut slow = ab();
    slow.retry = Some(5);
    let confs = [base, slow];
    let mut v = vec![];
    let expired = [Show("a"), Auth("a"), Ans(R::Short), Ans(R::Rst), Wait(25)];
    let failed = plus(&st("refresh"), &[Ans(R::Rst)]);
    let d = if t { 3 } else { 2 };
    for (n, pre) in [("active", st("active")), ("refresh", st("refresh")), ("failed", failed.clone()), ("expired", expired.to_vec())] {
        for p in [
            vec![Refresh("a"), Refresh("a")],
            vec![Refresh("a"), Tick],
            vec![Refresh("a"), Show("a")],
            vec![Show("a"), Show("a")],
            vec![Tick, Show("a")],
            vec![Refresh("a"), Revoke("a")],
        ] {
            v.push(race_l(n, &confs, &["a"], &pre, &p, d));
        }
        for p in [vec![Refresh("a"), Refresh("a"), Tick], vec![Refresh("a"), Show("a"), Tick], vec![Refresh("a"), Refresh("b"), Tick]] {
            v.push(race_l(n, &confs, &["a"], &pre, &p, if t { 2 } else { 1 }));
        }
        v.push(hist(n, &confs, &["a"], &pre, &[Refresh("a"), Show("a"), Ans(R::Grant), Ans(R::Rst), Due, Ans(R::GrantNoRt), Suspend(300)], if t { 6 } else { 4 }, true));
    }
    for r in [R::Grant, R::Rst, R::Status(400), R::GrantNoRt] {
        for o in [Refresh("a"), Show("a"), Tick, Revoke("a")] {
            v.push(race(&confs, &["a"], &st("refresh"), &[Ans(r.clone()), o], d));
        }
    }
    // After transient_error_if_cmd.
    let mut with = ab();
    with.trans = Some("transcmd".into());
    with.retry = Some(20);
    for p in [0, 1, -1] {
        v.push(hist(&format!("six{p}"), &[with.clone()], &["a"], &plus(&[Pol(KTrans, p)], &six_failures()), &[Refresh("a"), Show("a"), Due, End(KTrans, 0), Ans(R::Grant), Ans(R::Rst)], if t { 5 } else { 3 }, true));
    }
    for r in [R::Tiny, R::Big, R::Colon, R::Same] {
        v.push(hist(&format!("rt{r:?}"), &confs, &["a"], &st("refresh"), &[Ans(r), Refresh("a"), Ans(R::Grant), Due, Ans(R::Rst)], if t { 6 } else { 4 }, true));
    }
    // Another token of the same account while the refresh of the old one is under way.
    let again = plus(&st("refresh"), &[Revoke("a"), Show("a"), Auth("a"), AnsLast(R::Grant)]);
    v.push(hist("again", &confs, &["a"], &again, &[Refresh("a"), Ans(R::Grant), AnsLast(R::Grant), Ans(R::Rst), AnsLast(R::Rst), Due], if t { 5 } else { 4 }, true));
    v.push(race_l("again", &confs, &["a"], &again, &[Ans(R::Rst), Refresh("a")], 2));
    v.push(race_l("again", &confs, &["a"], &again, &[Ans(R::Grant), Tick], 2));
    v
}
pub fn c09(t: bool) -> Vec<Scn> {
    let base = ab();
    let m = |f: &dyn Fn(&mut Conf)| {
        let mut d = base.clone();
        f(&mut d);
        d
    };
    let variants = vec![
        ("default", base.clone()),
        ("global", m(&|d| {
            d.at_least = Some(50);
            d.before = Some(30)
        })),
        ("account", m(&|d| {
            d.at_least = Some(100);
            d.before = Some(130);
            d.acct("a").at_least = Some(70);
            d.acct("a").before = Some(10)
        })),
        ("accountb", m(&|d| {
            d.acct("a").before = Some(150);
            d.acct("b").before = Some(40)
        })),
        ("atleast", m(&|d| d.acct("a").at_least = Some(60))),
    ];
    let mut v = vec![];
    for (n, c) in &variants {
        let other = variants[(variants.iter().position(|x| x.0 == *n).unwrap() + 1) % variants.len()].1.clone();
        let confs = [c.clone(), other];
        let both = [Show("a"), Auth("a"), Ans(R::Grant), Wait(7), Show("b"), Auth("b"), Ans(R::Grant)];
        v.push(hist(n, &confs, &["a", "b"], &both, &[Due, Wait(61), Suspend(30), Suspend(400), Ans(R::Grant), Ans(R::GrantNoRt), Reload(1), Refresh("a")], if t { 5 } else { 4 }, true));
        for o in [Reload(1), Refresh("b"), Revoke("b"), Show("a"), Ans(R::Grant)] {
            v.push(race_l(n, &confs, &["a", "b"], &plus(&both, &[Due]), &[Tick, o], if t { 2 } else { 1 }));
        }
        v.push(race_l(n, &confs, &["a", "b"], &st("exchange"), &[Ans(R::Grant), Reload(1)], if t { 2 } else { 1 }));
        v.push(race_l(n, &confs, &["a", "b"], &plus(&st("active"), &[Dump, Revoke("a")]), &[Restore(0), Tick], 1));
        v.push(hist(&format!("{n}-restore"), &confs, &["a"], &plus(&st("active"), &[Dump, Wait(50), Revoke("a"), Restore(0)]), &[Due, Wait(37), Suspend(100), Ans(R::Grant)], if t { 5 } else { 4 }, true));
    }
    // Long lifetimes: the refresh is due after refresh_at_least.
    let confs = [base];
    v.push(hist("huge", &confs, &["a"], &[Show("a"), Auth("a"), Ans(R::Huge)], &[Wait(5000), Wait(390), Suspend(5400), Due, Ans(R::Huge), Ans(R::Grant)], if t { 5 } else { 4 }, true));
    // Tokens that are due as soon as they arrive.
    v.push(hist("short", &confs, &["a"], &[Show("a"), Auth("a"), Ans(R::Short)], &[Ans(R::Grant), Ans(R::Short), Ans(R::Rst), Due, Wait(25)], if t { 5 } else { 4 }, true));
    // Due at once, whatever the lifetime is.
    for (n, b, ab) in [("u64", Some(u64::MAX / 60), None), ("i64", Some(i64::MAX as u64), None), ("account", None, Some(u64::MAX)), ("big", Some(10_000_000_000), None)] {
        let mut c = Conf::new(&["a", "b"]);
        c.before = b;
        c.acct("a").before = ab;
        v.push(hist(&format!("before-{n}"), &[c], &["a"], &st("exchange"), &[Ans(R::Grant), Ans(R::Huge), Ans(R::Rst), Wait(61), Suspend(100)], if t { 5 } else { 4 }, false));
    }
    // The same tokens for longer.
    v.push(hist("same", &confs, &["a"], &st("refresh"), &[Ans(R::Same), Ans(R::SameAt), Due, Wait(105), Suspend(110), Refresh("a"), Reload(0)], if t { 6 } else { 4 }, true));
    // Something new becomes due while the refresher is going to sleep.
    for o in [Ans(R::Grant), Ans(R::Short)] {
        v.push(race(&confs, &["a"], &st("exchange"), &[o.clone(), Tick], 2));
        v.push(race(&confs, &["a"], &st("refresh"), &[o, Tick], 2));
    }
    v
}
/// Six network failures of a refresh in a row.
fn six_failures() -> Vec<O> {
    let mut p = vec![Show("a"), Auth("a"), Ans(R::Huge), Refresh("a")];
    for i in 0..6 {
        p.push(Ans(R::Rst));
        if i < 5 {
            p.push(UntilReq);
        }
    }
    p
}
pub fn c10(t: bool) -> Vec<Scn> {
    let mut with = ab();
    with.trans = Some("transcmd".into());
    with.acct("a").retry = Some(20);
    let mut without = ab();
    without.acct("a").retry = Some(20);
    let mut v = vec![];
    let fails = |k: usize, r: &[R]| -> Vec<O> {
        let mut p = vec![Show("a"), Auth("a"), Ans(R::Huge), Refresh("a")];
        for i in 0..k {
            p.push(Ans(r[i % r.len()].clone()));
            p.push(UntilReq);
        }
        p
    };
    for (n, c) in [("with", with.clone()), ("without", without.clone())] {
        let confs = [c.clone(), if n == "with" { without.clone() } else { with.clone() }];
        for (k, m) in [NetMode::Refused, NetMode::Dns, NetMode::Hang].into_iter().enumerate() {
            let _ = k;
            let pre = [Show("a"), Auth("a"), Ans(R::Grant), Net("a", m), Refresh("a")];
            v.push(hist(&format!("{n}-{m:?}"), &confs, &["a"], &pre, &[Due, Wait(15), Show("a"), Net("a", NetMode::Ok), Ans(R::Grant), Wait(130)], if t { 6 } else { 4 }, true));
        }
        // Around the sixth failure, with every kind of failure and every fate of the command.
        for p in [0, 1, -1, -2, 2, 127, 255, -9, -15] {
            let pre = plus(&[Pol(KTrans, p)], &fails(5, &[R::Rst, R::Fin, R::Partial]));
            v.push(hist(&format!("{n}-six{p}"), &confs, &["a"], &pre, &[Ans(R::Rst), Ans(R::Grant), Due, End(KTrans, 0), End(KTrans, 1), Show("a"), Wait(100)], if t { 5 } else { 4 }, true));
            if !t && !matches!(p, -2..=1) {
                continue;
            }
            v.push(race_l(&format!("{n}-six{p}"), &confs, &["a"], &pre, &[Ans(R::Rst), Revoke("a")], 1));
            v.push(race_l(&format!("{n}-six{p}"), &confs, &["a"], &pre, &[Ans(R::Rst), Refresh("a")], 1));
            v.push(race_l(&format!("{n}-six{p}"), &confs, &["a"], &pre, &[Ans(R::Rst), Reload(1)], 1));
        }
        // Twelve failures in a row; a success in between resets the count.
        v.push(hist(&format!("{n}-twelve"), &confs, &["a"], &plus(&[Pol(KTrans, 0)], &fails(10, &[R::Rst])), &[Ans(R::Rst), Due, Ans(R::Grant)], if t { 7 } else { 5 }, true));
        v.push(hist(&format!("{n}-reset"), &confs, &["a"], &plus(&[Pol(KTrans, 1)], &plus(&fails(4, &[R::Rst]), &[Ans(R::Huge), Refresh("a")])), &[Ans(R::Rst), Due, Ans(R::Huge)], if t { 8 } else { 6 }, true));
    }
    // Very many failures.
    for (n, c) in [("with", &with), ("without", &without)] {
        v.push(hist(&format!("{n}-many"), &[c.clone()], &["a"], &plus(&[Pol(KTrans, 0)], &fails(if t { 300 } else { 80 }, &[R::Rst])), &[Ans(R::Rst), Due, Ans(R::Grant)], 2, false));
    }
    // The count goes on across whatever else happens.
    for k in 1..6 {
        for (n, o) in [("show", Show("a")), ("refresh", Refresh("a")), ("reload", Reload(0)), ("changed", Reload(1)), ("dump", Dump), ("restore", ResLast), ("status", Status), ("other", Show("b")), ("wait", Wait(1)), ("suspend", Suspend(3600))] {
            if !t && k != 3 && !matches!(n, "refresh" | "reload" | "restore") {
                continue;
            }
            let mut pre = vec![Pol(KTrans, 1)];
            pre.extend(fails(k, &[R::Rst]));
            if n == "restore" {
                pre.insert(4, Dump);
            }
            pre.push(o);
            for _ in k..5 {
                pre.extend([Ans(R::Rst), UntilReq]);
            }
            let mut times = with.clone();
            times.before = Some(60);
            times.accts.reverse();
            v.push(hist(&format!("count{k}-{n}"), &[with.clone(), times], &["a", "b"], &pre, &[Ans(R::Rst), Due, Show("a")], 3, true));
        }
    }
    // The command hangs while other things happen.
    let confs = [with, without];
    let pre = plus(&[Pol(KTrans, -1)], &plus(&fails(5, &[R::Rst]), &[Ans(R::Rst)]));
    v.push(hist("hang", &confs, &["a", "b"], &pre, &[End(KTrans, 0), End(KTrans, 1), Revoke("a"), Refresh("a"), Show("a"), Reload(1), Wait(100)], if t { 5 } else { 4 }, true));
    for o in [Revoke("a"), Refresh("a"), Show("a"), Reload(1), Tick] {
        v.push(race_l("hang", &confs, &["a", "b"], &pre, &[End(KTrans, 1), o.clone()], if t { 2 } else { 1 }));
        v.push(race_l("hang", &confs, &["a", "b"], &pre, &[End(KTrans, 0), o], if t { 2 } else { 1 }));
    }
    // One account fails, the other does not.
    let pre = plus(&[Show("b"), Auth("b"), Ans(R::Grant)], &fails(2, &[R::Rst]));
    v.push(hist("other", &confs, &["a", "b"], &pre, &[Refresh("b"), AnsOf("b", R::Grant), AnsOf("a", R::Rst), Due, AnsOf("b", R::Rst)], if t { 6 } else { 4 }, true));
    v
}
pub fn c11(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut other = ab();
    other.acct("a").client_id = "CID.other".into();
    let confs = [base, other];
    let mut v = useless_answers("useless", "refresh", t);
    for r in bad_answers() {
        v.push(hist(&format!("{r:?}"), &confs, &["a", "b"], &st("refresh"), &[Ans(r.clone()), Show("a"), Due, Refresh("a"), Revoke("a"), Reload(1), Reload(0)], if t { 5 } else { 3 }, true));
        for o in [Revoke("a"), Show("a"), Refresh("a"), Reload(1), Tick, Dump] {
            if !t && r != R::Status(400) && !matches!(o, Revoke(_) | Refresh(_)) {
                continue;
            }
            v.push(race(&confs, &["a", "b"], &st("refresh"), &[Ans(r.clone()), o], if t || r == R::Status(400) { 2 } else { 1 }));
        }
    }
    // The token was replaced meanwhile.
    for again in [
        plus(&st("refresh"), &[Revoke("a"), Show("a"), Auth("a"), AnsLast(R::Grant)]),
        plus(&st("refresh"), &[Revoke("a"), Show("a")]),
        plus(&st("refresh"), &[Revoke("a"), Show("a"), Auth("a"), AnsLast(R::Grant), Refresh("a")]),
        plus(&st("active"), &[Dump, Refresh("a"), Revoke("a"), Restore(0)]),
        plus(&st("refresh"), &[Reload(1), Reload(0)]),
        plus(&st("refresh"), &[Show("b"), Auth("b"), AnsLast(R::Grant), Refresh("b")]),
    ] {
        v.push(hist("again", &confs, &["a", "b"], &again, &[Ans(R::Status(400)), AnsLast(R::Status(400)), Ans(R::ErrBody), Show("a"), Due, Refresh("a")], if t { 5 } else { 3 }, true));
        v.push(race_l("again", &confs, &["a", "b"], &again, &[Ans(R::Status(400)), Show("a")], if t { 2 } else { 1 }));
    }
    v
}
pub fn c12(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut nos = ab();
    nos.acct("a").secret = None;
    let mut odd = ab();
    odd.acct("a").client_id = "C I&D=+%é\"\\".into();
    odd.acct("a").secret = Some("SEC RET&=+%é\"\\".into());
    odd.acct("a").token_uri = "http://tok.a.test/to/ken?x=y&z=1".into();
    let uri = |s: &str| {
        let mut c = ab();
        c.acct("a").token_uri = format!("http://tok.a.test{s}");
        c
    };
    let mut empty = ab();
    empty.acct("a").secret = Some(String::new());
    empty.acct("a").scopes = vec![];
    let mut v = vec![];
    for (n, c) in [("plain", base), ("nosecret", nos), ("odd", odd), ("empty", empty), ("slash", uri("/token/")), ("root", uri("/")), ("noroot", uri("")), ("query", uri("/token/?a=b/")), ("port", uri(":8080/t"))] {
        let confs = [c];
        let plain = matches!(n, "plain" | "nosecret" | "odd" | "empty");
        if !plain && !t {
            v.push(hist(n, &confs, &["a", "b"], &st("refresh"), &[Ans(R::Grant), Ans(R::GrantNoRt), Refresh("a"), Due], 2, true));
            continue;
        }
        v.push(hist(&format!("{n}-sizes"), &confs, &["a", "b"], &st("refresh"), &[Ans(R::Tiny), Ans(R::Big), Ans(R::Colon), Ans(R::Grant), Ans(R::GrantNoRt), Refresh("a"), Show("a"), Due], if t { 6 } else { 4 }, true));
        for r in [R::Tiny, R::Big, R::Colon, R::Odd, R::NullRt, R::NumRt, R::GrantNoRt] {
            v.push(hist(&format!("{n}-first{r:?}"), &confs, &["a"], &plus(&st("exchange"), &[Ans(r)]), &[Refresh("a"), Ans(R::Tiny), Ans(R::Big), Ans(R::Grant), Show("a"), Due], if t { 5 } else { 3 }, true));
        }
        v.push(hist(n, &confs, &["a", "b"], &st("refresh"), &[Ans(R::Grant), Ans(R::GrantNoRt), Ans(R::Short), Ans(R::Rst), Refresh("a"), Due, Show("a"), Ans(R::Odd)], if t { 6 } else { 4 }, true));
        v.push(hist(&format!("{n}-null"), &confs, &["a"], &st("refresh"), &[Ans(R::NullRt), Ans(R::NumRt), Ans(R::NullErr), Ans(R::Grant), Refresh("a"), Due], if t { 6 } else { 4 }, true));
        v.push(hist(&format!("{n}-same"), &confs, &["a"], &st("refresh"), &[Ans(R::Same), Ans(R::SameAt), Ans(R::GrantNoRt), Ans(R::Grant), Refresh("a"), Due, Show("a"), Wait(120)], if t { 6 } else { 4 }, true));
        for r in [R::Grant, R::GrantNoRt, R::Slow, R::Odd, R::Same] {
            for o in [Show("a"), Refresh("a"), Tick, Dump, Status] {
                v.push(race_l(n, &confs, &["a", "b"], &st("refresh"), &[Ans(r.clone()), o], if t || n == "plain" { 2 } else { 1 }));
            }
        }
        let both = plus(&st("refresh"), &[Show("b"), Auth("b"), AnsLast(R::Grant), Refresh("b")]);
        v.push(race_l(n, &confs, &["a", "b"], &both, &[AnsOf("a", R::Grant), AnsOf("b", R::Grant)], if t { 2 } else { 1 }));
        v.push(hist(&format!("{n}-dump"), &confs, &["a"], &plus(&st("active"), &[Dump]), &[Refresh("a"), Ans(R::Grant), Ans(R::GrantNoRt), Revoke("a"), Restore(0), Show("a")], if t { 6 } else { 4 }, true));
    }
    v
}
pub fn c13(t: bool) -> Vec<Scn> {
    let base = ab();
    let confs = [base];
    let mut v = vec![];
    let ops = [Show("a"), ShowU("a"), Show("nope"), Auth("a"), Ans(R::Grant), Ans(R::Short), Ans(R::ShortNoRt), Ans(R::Odd), Wait(25), Suspend(250), Refresh("a")];
    for (n, s) in states() {
        v.push(hist(n, &confs, &["a", "b"], &s, &ops, if t { 5 } else { 3 }, true));
    }
    for r in [R::Tiny, R::Big, R::Colon, R::Odd, R::NullRt] {
        v.push(hist(&format!("token{r:?}"), &confs, &["a", "b"], &plus(&st("exchange"), &[Ans(r.clone())]), &[Show("a"), ShowU("a"), Refresh("a"), Ans(r.clone()), Ans(R::Grant), Due, Dump, ResLast, Revoke("a")], if t { 5 } else { 3 }, true));
    }
    let expired = [Show("a"), Auth("a"), Ans(R::Short), Ans(R::Rst), Wait(25)];
    let exp_ref = [Show("a"), Auth("a"), Ans(R::Short), Wait(25)];
    let exp_nort = [Show("a"), Auth("a"), Ans(R::ShortNoRt), Wait(25)];
    for (n, pre) in [("expired", &expired[..]), ("exp_ref", &exp_ref), ("exp_nort", &exp_nort)] {
        v.push(hist(n, &confs, &["a"], pre, &[Show("a"), ShowU("a"), Ans(R::Grant), Ans(R::Rst), Ans(R::Status(400)), Refresh("a"), Due, Revoke("a")], if t { 5 } else { 4 }, true));
        for p in [vec![Show("a"), Show("a")], vec![Show("a"), Tick], vec![Show("a"), Refresh("a")], vec![Show("a"), Revoke("a")]] {
            v.push(race_l(n, &confs, &["a"], pre, &p, 2));
        }
        v.push(race_l(n, &confs, &["a"], pre, &[Show("a"), Ans(R::Grant)], 2));
    }
    // Two accounts: never the other one's token.
    let both = [Show("a"), Auth("a"), Ans(R::Grant), Show("b"), Auth("b"), Ans(R::Grant)];
    v.push(race_l("both", &confs, &["a", "b"], &both, &[Show("a"), Show("b")], 2));
    v.push(race_l("both", &confs, &["a", "b"], &both, &[Refresh("a"), Refresh("b"), Show("a")], 1));
    v.push(race_l("both", &confs, &["a", "b"], &[], &[Show("a"), Show("b")], 2));
    v.push(race_l("both", &confs, &["a", "b"], &[], &[Show("a"), Show("a")], 2));
    v.push(race_l("both", &confs, &["a", "b"], &[], &[Show("a"), Refresh("a")], 2));
    for e in [0i64, 1, 2] {
        // Just before, at and after the expiry.
        v.push(super::special::expiry_edge(e));
    }
    v
}
pub fn c14(t: bool) -> Vec<Scn> {
    let mut base = ab();
    base.trans = Some("transcmd".into());
    base.interval = Some(60);
    let mut other = base.clone();
    other.accts.reverse();
    let confs = [base, other];
    let mut v = vec![];
    // Everything of account a hangs; b is fully served.
    let hangs: Vec<(&str, Vec<O>)> = vec![
        ("exchange", st("exchange")),
        ("connect", plus(&st("pending"), &[Net("a", NetMode::Hang), Auth("a")])),
        ("refresh", st("refresh")),
        ("rconnect", plus(&st("active"), &[Net("a", NetMode::Hang), Refresh("a")])),
        ("authcmd", vec![Pol(KAuth, -1), Show("a")]),
        ("errcmd", plus(&st("pending"), &[Pol(KErr, -1), AuthErr("a")])),
        ("eventcmd", vec![Pol(KEvent, -1), Show("a"), Auth("a"), Ans(R::Grant)]),
        ("eventburst", vec![Pol(KEvent, -1), Revoke("a"), Revoke("a"), Revoke("a"), Show("a")]),
        ("trans", plus(&[Pol(KTrans, -1)], &six_failures())),
        ("all", vec![Pol(KEvent, -1), Pol(KAuth, -1), Pol(KErr, -1), Show("a"), Auth("a"), Ans(R::Grant), Refresh("a"), Show("b"), Auth("b")]),
    ];
    for (n, pre) in &hangs {
        v.push(hist(n, &confs, &["b", "a"], pre, &[Show("a"), Show("b"), Refresh("b"), Refresh("a"), Auth("b"), AnsOf("b", R::Grant), Status, Due, Dump, Reload(1), Revoke("a")], if t { 4 } else { 3 }, true));
        let d = if t { 2 } else { 1 };
        for p in [vec![Show("a"), Status], vec![Show("b"), Reload(1)], vec![Revoke("a"), Dump], vec![Refresh("b"), Tick], vec![Show("b"), Tick]] {
            v.push(race_l(n, &confs, &["a", "b"], pre, &p, d));
        }
    }
    // A browser that connects and says nothing, or not all.
    v.extend(super::special::browser_hangs(t));
    v
}
pub fn c15(t: bool) -> Vec<Scn> {
    let mut base = ab();
    base.trans = Some("transcmd".into());
    let mut none = ab();
    none.event = None;
    let mut other = ab();
    other.acct("a").client_id = "CID.other".into();
    let confs = [base, none, other];
    let mut v = vec![];
    let ops = [Show("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst), Refresh("a"), Revoke("a"), Due, Reload(2), AuthErr("a")];
    for (n, s) in states() {
        v.push(hist(n, &confs, &["a", "b"], &s, &ops, if t { 5 } else { 3 }, true));
        for p in [
            vec![Revoke("a"), Ans(R::Grant)],
            vec![Revoke("a"), Ans(R::Status(400))],
            vec![Reload(2), Ans(R::Grant)],
            vec![Reload(2), Ans(R::Status(400))],
            vec![Revoke("a"), Refresh("a")],
            vec![Revoke("a"), Revoke("a")],
            vec![Refresh("a"), Show("a")],
            vec![Refresh("a"), Ans(R::Grant)],
            vec![Revoke("a"), Revoke("b"), Tick],
        ] {
            if p.iter().all(|o| fits(n, o)) {
                v.push(race_l(n, &confs, &["a", "b"], &s, &p, if p.len() < 3 { 2 } else { 1 }));
            }
        }
        v.push(hist(&format!("none-{n}"), &confs, &["a", "b"], &s, &[Reload(0), Reload(1), Revoke("a"), Refresh("a"), Ans(R::Grant)], if t { 5 } else { 3 }, true));
    }
    v.extend(every_answer(&confs[0], t, &[Show("a"), Refresh("a"), Due, Revoke("a")]));
    // A result that is discarded.
    let again = plus(&st("refresh"), &[Revoke("a"), Show("a"), Auth("a"), AnsLast(R::Grant)]);
    v.push(hist("again", &confs, &["a"], &again, &[Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst), Refresh("a"), Due], if t { 5 } else { 3 }, true));
    // The result of the command after the sixth failure counts only if nothing changed meanwhile.
    let tr = plus(&[Pol(KTrans, -1)], &six_failures());
    v.push(hist("trans", &confs, &["a", "b"], &tr, &[End(KTrans, 1), End(KTrans, 0), Revoke("a"), Show("a"), Auth("a"), AnsLast(R::Grant), Reload(2), Wait(200)], if t { 6 } else { 4 }, true));
    for o in [Revoke("a"), Refresh("a"), Reload(2), Tick] {
        v.push(race_l("trans", &confs, &["a", "b"], &tr, &[End(KTrans, 1), o], if t { 2 } else { 1 }));
    }
    let nort = [Show("a"), Auth("a"), Ans(R::ShortNoRt)];
    v.push(hist("nort", &confs, &["a"], &nort, &[Show("a"), Refresh("a"), Due, Wait(25), Revoke("a"), Auth("a")], if t { 5 } else { 4 }, true));
    v.push(race_l("nort", &confs, &["a"], &nort, &[Show("a"), Tick], 2));
    v.push(race_l("nort", &confs, &["a"], &nort, &[Refresh("a"), Tick], 2));
    v.push(race_l("nort", &confs, &["a"], &nort, &[Refresh("a"), Refresh("a")], 2));
    // What is granted is what the account has already, or part of it.
    v.push(hist("same", &confs, &["a", "b"], &st("refresh"), &[Ans(R::Same), Ans(R::SameAt), Ans(R::GrantNoRt), Ans(R::Grant), Refresh("a"), Due, Show("a")], if t { 6 } else { 4 }, true));
    for r in [R::Same, R::SameAt] {
        for o in [Show("a"), Refresh("a"), Revoke("a"), Tick, Reload(2), Dump] {
            v.push(race_l("same", &confs, &["a", "b"], &st("refresh"), &[Ans(r.clone()), o], if t { 2 } else { 1 }));
        }
    }
    v.push(hist("same2", &confs, &["a", "b"], &plus(&st("active"), &[Revoke("a"), Show("a"), Auth("a")]), &[Ans(R::Same), Ans(R::SameAt), Refresh("a"), Due, Show("a")], if t { 5 } else { 4 }, true));
    // Restore is no event.
    v.push(hist("restore", &confs, &["a"], &plus(&st("active"), &[Dump]), &[Revoke("a"), Restore(0), Refresh("a"), Ans(R::Grant)], if t { 5 } else { 4 }, true));
    v
}
pub fn c16(t: bool) -> Vec<Scn> {
    let base = ab();
    let mut none = ab();
    none.event = None;
    let mut cmd2 = ab();
    cmd2.event = Some("eventcmd2".into());
    let confs = [base, none, cmd2];
    let mut v = vec![];
    for p in [0, 1, -1, -2] {
        let pre = [Pol(KEvent, p)];
        let ops = [Revoke("a"), Revoke("b"), End(KEvent, 0), End(KEvent, 1), Wait(4), Wait(11), Show("a"), Reload(2), Reload(1)];
        v.push(hist(&format!("pol{p}"), &confs, &["a", "b"], &pre, &ops, if t { 5 } else { 4 }, true));
        let d = if t { 3 } else { 2 };
        v.push(race_l(&format!("pol{p}"), &confs, &["a", "b"], &pre, &[Revoke("a"), Revoke("b")], d));
        v.push(race_l(&format!("pol{p}"), &confs, &["a", "b"], &pre, &[Revoke("a"), Revoke("b"), Revoke("a")], if t { 2 } else { 1 }));
        let busy = plus(&pre, &[Revoke("a")]);
        v.push(race_l(&format!("busy{p}"), &confs, &["a", "b"], &busy, &[End(KEvent, 0), Revoke("b")], d));
        v.push(race_l(&format!("busy{p}"), &confs, &["a", "b"], &busy, &[Tick, Revoke("b")], d));
        v.push(race_l(&format!("busy{p}"), &confs, &["a", "b"], &plus(&busy, &[Revoke("b")]), &[Reload(2), End(KEvent, 0)], d));
        v.push(race_l(&format!("ex{p}"), &confs, &["a", "b"], &plus(&pre, &st("exchange")), &[Ans(R::Grant), Revoke("b")], d));
        v.push(race_l(&format!("rf{p}"), &confs, &["a", "b"], &plus(&pre, &st("refresh")), &[Ans(R::Grant), Revoke("b")], d));
        v.push(race_l(&format!("rf{p}"), &confs, &["a", "b"], &plus(&pre, &st("refresh")), &[Ans(R::Status(400)), Revoke("b")], d));
        // A burst during a hanging command.
        let burst = plus(&pre, &[Revoke("a"), Revoke("b"), Revoke("a"), Revoke("b"), Revoke("b")]);
        v.push(hist(&format!("burst{p}"), &confs, &["a", "b"], &burst, &[Wait(11), End(KEvent, 0), Pol(KEvent, 0), Revoke("a"), Due], if t { 6 } else { 4 }, true));
    }
    v.push(race_l("spurious", &confs, &["a", "b"], &[], &[Revoke("a"), Revoke("b")], 1).spurious());
    v.push(hist("none", &confs, &["a", "b"], &[Reload(1)], &[Revoke("a"), Revoke("b"), Reload(0), Reload(2), Reload(1)], if t { 6 } else { 4 }, true));
    v.push(race_l("none", &confs, &["a", "b"], &[Reload(1)], &[Revoke("a"), Reload(0), Revoke("b")], if t { 2 } else { 1 }));
    v
}
pub fn c17(t: bool) -> Vec<Scn> {
    let mut base = ab();
    base.interval = Some(50);
    let mut slow = base.clone();
    slow.interval = Some(300);
    let mut nocmd = base.clone();
    nocmd.auth = None;
    let mut other = base.clone();
    other.acct("a").client_id = "CID.other".into();
    let mut three = Conf::new(&["a", "b", "c"]);
    three.interval = Some(50);
    let confs = [base, slow, nocmd, other, three];
    let mut v = vec![];
    let ops = [Show("a"), Refresh("a"), Show("b"), Due, Wait(23), Wait(70), Suspend(100), Revoke("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Reload(1), Reload(3)];
    v.push(hist("ops", &confs, &["a", "b"], &[], &ops, if t { 5 } else { 4 }, true));
    let two = [Show("a"), Wait(20), Show("b")];
    v.push(hist("two", &confs, &["a", "b"], &two, &[Due, Wait(30), Wait(55), Suspend(45), Refresh("b"), Revoke("a"), Reload(1), Reload(0), Reload(2), Reload(4), Show("c")], if t { 5 } else { 4 }, true));
    let d = if t { 3 } else { 2 };
    for o in [Show("a"), Refresh("a"), Revoke("a"), Auth("a"), AuthErr("a"), Show("b"), Reload(1), Reload(3), Reload(2)] {
        v.push(race(&confs, &["a", "b"], &[Show("a")], &[Tick, o.clone()], d));
        v.push(race(&confs, &["a", "b"], &[Show("a"), Auth("a")], &[Ans(R::Grant), Tick, o.clone()], 1));
        v.push(race(&confs, &["a", "b"], &two, &[Tick, o], if t { 2 } else { 1 }));
    }
    v.push(race(&confs, &["a", "b"], &[], &[Show("a"), Show("b")], d));
    v.push(race(&confs, &["a", "b"], &[], &[Refresh("a"), Refresh("a")], d));
    v.push(race(&confs, &["a", "b"], &[Show("a"), Auth("a")], &[Ans(R::Grant), Tick], d));
    v.push(race(&confs, &["a", "b"], &[Show("a"), Auth("a")], &[Ans(R::Status(400)), Tick], d));
    v.push(race_l("spurious", &confs, &["a", "b"], &[Show("a")], &[Tick, Show("b")], 1).spurious());
    v.push(hist("failing", &confs, &["a"], &[Pol(KAuth, -2)], &[Show("a"), Show("b"), Due, Wait(60)], 4, true));
    v.push(hist("hanging", &confs, &["a"], &[Pol(KAuth, -1)], &[Show("a"), Show("b"), Due, Wait(60), End(KAuth, 1)], 4, true));
    let _ = KErr;
    // The URL ends with all kinds of things.
    for (k, f) in [("k", ""), ("k", "="), ("k", "v "), ("k", "/"), ("", ""), ("k", "&"), ("k", "\u{e9}"), ("k", "'\"`$x\\")] {
        let mut c = ab();
        c.interval = Some(50);
        c.acct("a").fields = vec![(k.into(), f.into())];
        v.push(hist(&format!("url{k}{f}"), &[c], &["a", "b"], &[Show("a")], &[Show("a"), Refresh("a"), Due, Auth("a")], if t { 4 } else { 2 }, true));
    }
    v
}

/// Sequences of operations while some thread of the server is late.
pub fn delayed(prop: &str, t: bool) -> Vec<Scn> {
    let base = ab();
    let mut other = ab();
    other.acct("a").client_id = "CID.other".into();
    let mut same = Conf::new(&["0", "a", "b", "c"]);
    same.before = Some(60);
    let mut fast = ab();
    fast.interval = Some(15);
    let mut trans = ab();
    trans.trans = Some("transcmd".into());
    trans.acct("a").retry = Some(20);
    let all = ["empty", "pending", "exchange", "active", "refresh"];
    let (confs, at, ops): (Vec<Conf>, &[&str], Vec<O>) = match prop {
        "C01" => (vec![base, other], &all[1..], vec![Reload(1), Reload(0), Ans(R::Grant), Auth("a"), Show("a"), Refresh("a")]),
        "C02" => (vec![base, same], &all[1..], vec![Reload(1), Reload(0), Ans(R::Grant), Auth("a"), Show("a"), Refresh("a")]),
        "C05" => (vec![base, same], &all[..3], vec![Show("a"), Auth("a"), Ans(R::Grant), Ans(R::Rst), Reload(1), Due, Dump, ShowU("b")]),
        "C06" => (vec![base, other], &all[1..3], vec![Auth("a"), AuthErr("a"), Ans(R::Status(400)), Ans(R::BadJson), Show("a"), Revoke("a"), Reload(1)]),
        "C07" => (vec![base], &all[..], vec![Revoke("a"), Show("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Refresh("a"), Stale("a")]),
        "C08" => (vec![base], &all[3..], vec![Refresh("a"), Ans(R::Grant), Ans(R::Rst), Due, Show("a"), Revoke("a")]),
        "C09" => (vec![base, same], &all[2..], vec![Ans(R::Short), Ans(R::Grant), Due, Wait(15), Reload(1), Suspend(300)]),
        "C10" => (vec![trans], &all[3..], vec![Ans(R::Rst), Due, Refresh("a"), Ans(R::Grant), Net("a", NetMode::Refused), Net("a", NetMode::Ok)]),
        "C11" => (vec![base, same], &all[3..], vec![Ans(R::Status(400)), Ans(R::BadJson), Refresh("a"), Show("a"), Auth("a"), Reload(1)]),
        "C12" => (vec![base], &all[3..], vec![Ans(R::Grant), Ans(R::ShortNoRt), Refresh("a"), Due, Dump, ResLast]),
        "C13" => (vec![base], &all[..], vec![Show("a"), ShowU("a"), Auth("a"), Ans(R::Grant), Ans(R::Short), Wait(25), Refresh("a")]),
        "C15" => (vec![base, other], &all[..], vec![Show("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Revoke("a"), Reload(1), Refresh("a")]),
        "C16" => (vec![base], &all[3..], vec![Refresh("a"), Ans(R::Grant), Revoke("a"), Revoke("b"), Show("a"), Wait(11)]),
        "C17" => (vec![fast, other], &all[..3], vec![Show("a"), Show("b"), Due, Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Revoke("a"), Reload(1)]),
        "C18" | "C19" => (vec![base], &all[..], vec![Dump, ResLast, Ans(R::Grant), Auth("a"), Show("a"), Revoke("a")]),
        "C28" => (vec![base], &all[..], vec![Status, Show("a"), Ans(R::Grant), Revoke("a"), Due]),
        _ => return vec![],
    };
    at.iter().map(|s| late(s, &confs, &["a", "b"], &st(s), &ops, if t { 3 } else { 2 })).collect()
}
