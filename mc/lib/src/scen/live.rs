//! The server stays alive under every schedule; what `status` says.
use super::core::{ab, fits, harmless, plus, st, states};
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use vstd::explore::choose;
use vstd::world::w;
use CmdKind::{Auth as KAuth, Err as KErr, Event as KEvent, Trans as KTrans};
use O::*;

const TOUCH: u64 = 6 * 3600;
/// The socket must be touched at least every six hours while the server runs.
fn touched(since: u64) {
    let now = w().mono;
    let mut last = since;
    let p = sock();
    let mut gap = 0;
    for e in ee().trace.iter() {
        if let K::Utime { pid, path } = &e.k {
            if *path == p && Some(*pid) == the_server() && e.t.mono >= since {
                gap = gap.max(e.t.mono - last);
                last = e.t.mono;
            }
        }
    }
    gap = gap.max(now - last);
    if gap > (TOUCH + 60) * SEC {
        bad("C27", "socket-not-touched", format!("the socket was not touched for {} s", gap / SEC));
    }
}
/// Everything that runs in the background still does.
fn alive(cx: &Cx, accts: &[&'static str]) {
    probe(cx, accts, true);
    // Reminders.
    for a in accts {
        apply(cx, &Revoke(a));
        apply(cx, &Show(a));
    }
    sleep(cx.confs[0].interval() / SEC + 5);
    // A second round of everything.
    for a in accts {
        grant_next(a, resp(&R::Grant));
        apply(cx, &Auth(a));
        ee().answers.remove(&host(a));
        apply(cx, &Show(a));
        apply(cx, &Refresh(a));
        apply(cx, &Show(a));
    }
    apply(cx, &Status);
    apply(cx, &Dump);
    apply(cx, &Reload(0));
    apply(cx, &Info);
}
/// `pre`, then `par` all at once.
fn rush(label: &str, confs: &[Conf], accts: &[&'static str], pre: &[O], par: &[O], d: u32) -> Scn {
    let cx = Cx { confs: confs.to_vec() };
    let (pre, par) = (pre.to_vec(), par.to_vec());
    let accts = accts.to_vec();
    let nm = format!("rush{label}:{}", par.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("+")).replace('"', "").replace(' ', "");
    scn(&nm, d, move || {
        boot(&cx.confs[0]);
        setup(&cx, &pre);
        let mut rest: Vec<O> = par.clone();
        devs(true);
        while !rest.is_empty() {
            let i = choose(rest.len(), "order");
            let o = rest.remove(i);
            begin(&cx, &o);
        }
        quiet();
        quiet();
        devs(false);
        alive(&cx, &accts);
    })
}
pub fn c27(t: bool) -> Vec<Scn> {
    let mut base = ab();
    base.trans = Some("transcmd".into());
    base.interval = Some(60);
    let mut sec = base.clone();
    sec.acct("a").client_id = "CID.other".into();
    let mut gone = base.clone().without("b");
    gone.event = None;
    let confs = [base.clone(), sec, gone];
    let mut v = vec![];
    let mut st5 = states();
    st5.push(("failed", plus(&st("refresh"), &[Ans(R::Rst)])));
    st5.push(("retry", plus(&st("pending"), &[Net("a", NetMode::Refused), Auth("a"), Net("a", NetMode::Ok)])));
    st5.push(("both", vec![Show("a"), Auth("a"), Ans(R::Grant), Show("b"), Auth("b"), Ans(R::Grant), Refresh("a"), Refresh("b")]));
    let ops = [Show("a"), Refresh("a"), Revoke("a"), Reload(0), Reload(1), Reload(2), Status, Dump, ResLast, Auth("a"), AuthErr("a"), Ans(R::Grant), Ans(R::Status(400)), Ans(R::Rst), Tick, Show("b"), Revoke("b"), AnsLast(R::Grant), Info];
    let ok = |n: &str, o: &O| match o {
        Ans(_) => matches!(n, "exchange" | "refresh" | "both"),
        AnsLast(_) => n == "both",
        Auth(_) | AuthErr(_) => n != "empty",
        ResLast => false,
        _ => fits(n, o),
    };
    // Two of everything.
    for (n, pre) in &st5 {
        for (i, x) in ops.iter().enumerate() {
            for (j, y) in ops.iter().enumerate().skip(i) {
                if !ok(n, x) || !ok(n, y) || (i == j && matches!(x, Tick | Status | Dump | Info)) {
                    continue;
                }
                let answers = |o: &O| matches!(o, Ans(_) | AnsLast(_));
                if answers(x) && answers(y) && *n != "both" {
                    continue;
                }
                // What only reads is the same in all.
                let quiet = |o: &O| matches!(o, Status | Dump | Info);
                if !t && (quiet(x) && quiet(y) || quiet(x) && !matches!(y, Reload(_) | Revoke(_) | Ans(_) | Tick) || matches!(x, Info) || matches!(y, Info)) {
                    continue;
                }
                v.push(rush(&format!("2:{n}"), &confs, &["a", "b"], pre, &[x.clone(), y.clone()], if t { 2 } else { 1 }));
            }
        }
    }
    // The background threads against everything, deeper, with stalls and spurious wake-ups.
    for (n, pre) in &st5 {
        for o in [Show("a"), Refresh("a"), Revoke("a"), Reload(1), Reload(0), Auth("a"), Ans(R::Grant), Ans(R::Rst), Ans(R::Status(400))] {
            if !ok(n, &o) {
                continue;
            }
            let d = if t { 3 } else { 2 };
            if *n != "empty" {
                v.push(rush(&format!("t:{n}"), &confs, &["a"], pre, &[o.clone(), Tick], d).stalls(1));
            }
            v.push(rush(&format!("w:{n}"), &confs, &["a"], pre, &[o.clone()], d).stalls(2).spurious());
        }
    }
    // Three and four at once.
    let more: Vec<Vec<O>> = vec![
        vec![Revoke("a"), Reload(1), Tick],
        vec![Refresh("a"), Revoke("a"), Tick],
        vec![Show("a"), Reload(1), Revoke("a")],
        vec![Show("a"), Show("b"), Tick],
        vec![Ans(R::Grant), Reload(1), Tick],
        vec![Ans(R::Rst), Revoke("a"), Tick],
        vec![Ans(R::Grant), AnsLast(R::Grant), Tick],
        vec![Ans(R::Rst), AnsLast(R::Status(400)), Reload(1)],
        vec![Auth("a"), Reload(1), Show("a")],
        vec![Auth("a"), Auth("a"), Revoke("a")],
        vec![Dump, Reload(2), Ans(R::Grant)],
        vec![Reload(0), Reload(1), Reload(2)],
        vec![Status, Reload(2), Revoke("b"), Tick],
        vec![Refresh("a"), Refresh("b"), Tick, Reload(0)],
        vec![Ans(R::Grant), AnsLast(R::Rst), Revoke("a"), Tick],
        vec![Auth("a"), Reload(1), Tick, Dump],
    ];
    for (n, pre) in &st5 {
        for p in &more {
            if p.iter().all(|o| ok(n, o)) && (t || matches!(*n, "pending" | "exchange" | "active" | "refresh" | "both")) {
                let d = match (t, p.len()) {
                    (true, 3) => 2,
                    (true, _) => 1,
                    (_, 3) => 1,
                    _ => 0,
                };
                v.push(rush(&format!("m:{n}"), &confs, &["a", "b"], pre, p, d));
            }
        }
    }
    // Whatever runs outside fails, hangs or is slow.
    let faults: Vec<(&str, Vec<O>)> = vec![
        ("fork", vec![Pol(KAuth, -2), Pol(KErr, -2), Pol(KEvent, -2), Pol(KTrans, -2)]),
        ("exit", vec![Pol(KAuth, 1), Pol(KErr, 1), Pol(KEvent, 1), Pol(KTrans, 1)]),
        ("hang", vec![Pol(KAuth, -1), Pol(KErr, -1), Pol(KEvent, -1), Pol(KTrans, -1)]),
        ("signal", vec![Pol(KAuth, -1), Pol(KErr, -1), Pol(KEvent, -1)]),
        ("dns", vec![Net("a", NetMode::Dns)]),
        ("refused", vec![Net("a", NetMode::Refused)]),
        ("nohost", vec![Net("a", NetMode::Hang)]),
    ];
    for (n, pre) in &faults {
        let mut hops = vec![Show("a"), Auth("a"), Ans(R::Grant), Ans(R::Rst), Refresh("a"), Due, Revoke("a"), AuthErr("a"), Reload(1), Show("b")];
        if *n == "signal" {
            hops.extend([End(KAuth, -9), End(KErr, 0), End(KEvent, -11)]);
        }
        v.push(hist(n, &confs, &["a", "b"], pre, &hops, if t { 6 } else { 4 }, true));
    }
    // Answers of all kinds, on their own and with the timers.
    let mut answers: Vec<R> = USELESS.iter().map(|b| R::Useless(b)).collect();
    answers.extend(super::core::bad_answers());
    answers.extend([R::Fin, R::Partial, R::Max, R::Huge2, R::Odd, R::NullRt, R::NumRt, R::NullErr, R::Same, R::SameAt, R::Slow, R::Short, R::ShortNoRt]);
    for s in ["exchange", "refresh"] {
        for (i, r) in answers.iter().enumerate() {
            for o in if t { vec![Nop, Tick, Show("a"), Refresh("a"), Reload(1), Dump] } else { vec![Nop] } {
                v.push(rush(&format!("ans{i}:{s}"), &confs, &["a", "b"], &st(s), &[Ans(r.clone()), o], 1));
            }
        }
    }
    for s in ["pending", "exchange"] {
        for (i, e) in REASONS.iter().enumerate() {
            let c = base.clone();
            v.push(scn(&format!("reason{i}:{s}"), 0, move || {
                let cx = Cx { confs: vec![c.clone()] };
                boot(&c);
                setup(&cx, &st(s));
                let mut r = redir(&url_of("a").unwrap(), "CODE.a.3.zzq");
                if choose(2, "code") == 0 {
                    r.code = None;
                }
                r.error = Some(e.to_string());
                follow(&r);
                quiet();
                alive(&cx, &["a", "b"]);
            }));
        }
    }
    // Clocks.
    for jump in [-100_000i64, -200, 200, 100_000] {
        for s in ["pending", "active", "refresh", "failed"] {
            let pre = &st5.iter().find(|x| x.0 == s).unwrap().1;
            v.push(hist(&format!("clock{jump}"), &confs, &["a", "b"], &plus(pre, &[Clock(jump)]), &[Show("a"), Refresh("a"), Due, Suspend(100), Status, Clock(-jump), Dump, ResLast], if t { 5 } else { 3 }, true));
        }
    }
    for s in ["empty", "pending", "active", "refresh", "failed", "exchange"] {
        let pre = st5.iter().find(|x| x.0 == s).unwrap().1.clone();
        for x in [1, 70, 109, 111, 199, 201, 100_000] {
            v.push(hist(&format!("sleep{x}"), &confs, &["a", "b"], &plus(&pre, &[Suspend(x)]), &[Show("a"), Refresh("a"), Due, Suspend(x), Ans(R::Grant), Wait(1)], if t { 4 } else { 3 }, true));
        }
    }
    // Days go by.
    for (n, pre) in states() {
        for bg in [true, false] {
            let (c, pre) = (base.clone(), pre.clone());
            v.push(scn(&format!("days:{n}:{bg}"), 0, move || {
                let mut c = c.clone();
                c.interval = pick(&[None, Some(100_000)], "interval");
                let cx = Cx { confs: vec![c.clone()] };
                let i = write_conf(&c);
                let t0 = w().mono;
                start_any(if bg { &[] } else { &["-d"] }, penv(), Some(i));
                quiet();
                setup(&cx, &pre);
                for a in ["a", "b"] {
                    auto(a, Some(resp(&R::Long)));
                }
                let o = pick(&[Nop, Suspend(50_000), Clock(-500_000), Clock(500_000), Reload(0)], "event");
                sleep(20_000);
                apply(&cx, &o);
                if choose(2, "fault") == 1 {
                    for _ in 0..3 {
                        w().fs.faults.push(("utimensat", libc::ENOENT));
                    }
                    sleep(3 * TOUCH + 100);
                    let t1 = w().mono;
                    sleep(2 * TOUCH + 1000);
                    touched(t1);
                } else {
                    sleep(3 * TOUCH);
                    touched(t0);
                }
                run(&["status"]);
                run(&["show", "a"]);
                run(&["show", "b"]);
            }));
        }
    }
    v
}

/// Every state of both accounts, every time of looking.
pub fn c28(t: bool) -> Vec<Scn> {
    let mut v = vec![];
    let base = ab();
    let confs: Vec<Conf> = std::iter::once(base.clone()).chain(harmless(&base).into_iter().map(|x| x.1)).collect();
    let mut st5 = states();
    st5.push(("failed", plus(&st("refresh"), &[Ans(R::Rst)])));
    st5.push(("expired", plus(&[Show("a"), Auth("a"), Ans(R::ShortNoRt)], &[Wait(25)])));
    st5.push(("expired2", plus(&[Show("a"), Auth("a"), Ans(R::Short)], &[Net("a", NetMode::Refused), Wait(25)])));
    st5.push(("reminded", vec![Show("a"), Wait(1000)]));
    let d = if t { 5 } else { 3 };
    for (n, pre) in &st5 {
        v.push(look(n, &confs[..1], pre, &[Show("a"), Auth("a"), Ans(R::Grant), Ans(R::Rst), Ans(R::Status(400)), Refresh("a"), Revoke("a"), Due, Show("b"), Dump, ResLast, AuthErr("a")], d));
        v.push(look(&format!("clock-{n}"), &confs[..1], pre, &[Clock(5000), Clock(-5000), Clock(86_400 * 3), Suspend(60), Suspend(300), Due, Refresh("a"), Ans(R::Grant), Show("a")], d));
        v.push(look(&format!("conf-{n}"), &confs, pre, &(0..confs.len()).map(Reload).chain([Show("a"), Auth("b")]).collect::<Vec<_>>(), d));
        // While things happen.
        for o in [Show("a"), Refresh("a"), Revoke("a"), Reload(0), Reload(2), Ans(R::Grant), Ans(R::Rst), Auth("a"), Tick, Dump] {
            if fits(n, &o) || matches!(o, Tick) {
                v.push(race_l(&format!("-{n}"), &confs, &["a", "b"], pre, &[Status, o], if t { 3 } else { 2 }));
            }
        }
    }
    // Lifetimes, and a look at every moment that matters.
    for exp in [0u64, 1, 2, 19, 20, 59, 60, 61, 89, 90, 91, 3599, 3600, 86_400, 315_360_000, 1 << 31, (1 << 31) - 1, 1 << 32, 253_402_300_799, 253_402_300_800, 8_210_266_876_799, 8_210_266_876_800, 1 << 43, 1 << 53, i64::MAX as u64 / 1_000_000_000, i64::MAX as u64 / 1000, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX / 2, u64::MAX - 1_700_000_000, u64::MAX - 1, u64::MAX] {
        for rt in [true, false] {
            let c = base.clone();
            v.push(scn(&format!("life:{exp}:{rt}"), 0, move || {
                let mut c = c.clone();
                // No refresh gets in the way, or one does.
                c.before = pick(&[None, Some(0), Some(1)], "refresh_before_expiry");
                c.at_least = pick(&[None, Some(1_000_000), Some(u64::MAX)], "refresh_at_least");
                let cx = Cx { confs: vec![c.clone()] };
                boot(&c);
                setup(&cx, &[Show("a"), Auth("a")]);
                answer(held()[0], Resp::Grant { exp, rt });
                quiet();
                run(&["status"]);
                run(&["show", "-u", "a"]);
                for _ in 0..2 {
                    if choose(2, "more") == 1 {
                        break;
                    }
                    let far = match exp {
                        0..=4000 => exp,
                        _ => 4000,
                    };
                    let at = pick(&[0u64, far.saturating_sub(90), far.saturating_sub(2), far, far + 2], "when");
                    if at > 0 {
                        sleep(at);
                    }
                    run(&["status"]);
                    run(&["show", "-u", "a"]);
                    if let Some(r) = held().first() {
                        answer(*r, if choose(2, "refreshed") == 1 { Resp::Grant { exp, rt } } else { Resp::Rst });
                        quiet();
                        run(&["status"]);
                    }
                }
            }));
        }
    }
    // Things that happened long ago.
    for days in [1u64, 2] {
        for (n, c) in [("never", Conf { at_least: Some(u64::MAX), interval: Some(5_000_000), ..base.clone() }), ("often", Conf { at_least: Some(50_000), ..base.clone() })] {
            v.push(scn(&format!("old:{days}:{n}"), 0, move || {
                let cx = Cx { confs: vec![c.clone()] };
                boot(&c);
                if choose(2, "pending") == 1 {
                    setup(&cx, &[Show("a")]);
                } else {
                    setup(&cx, &[Show("a"), Auth("a")]);
                    answer(held()[0], Resp::Grant { exp: 315_360_000, rt: true });
                    quiet();
                    if choose(2, "refresh") == 1 {
                        run(&["refresh", "a"]);
                        if let Some(r) = held().first() {
                            answer(*r, if choose(2, "refreshed") == 1 { Resp::Grant { exp: 315_360_000, rt: true } } else { Resp::Rst });
                            quiet();
                        }
                    }
                }
                for k in 0..days * 4 + 1 {
                    sleep(21_611);
                    if k % 3 == days % 3 {
                        run(&["status"]);
                    }
                }
                run(&["status"]);
                run(&["show", "-u", "a"]);
                run(&["status"]);
            }));
        }
    }
    // Names.
    let names = ["a", "b", "B", "aa", "a.b", "a@x.org", "a b", "\u{e9}", "zz", "0", "a:", ": ", "No access token", "-", "_", "{}", "%s", "a\tb", "ab", "A"];
    for k in 0..names.len() {
        v.push(scn(&format!("names:{k}"), 0, move || {
            let (i, j) = (choose(names.len(), "second"), choose(names.len(), "third"));
            if i == k || j == k || i == j {
                return;
            }
            let c = Conf::new(&[names[k], names[i], names[j]]);
            boot(&c);
            let n = names[k];
            run(&["status"]);
            run(&["show", n]);
            run(&["status"]);
            grant_next(n, resp(&R::Grant));
            authorise(n);
            quiet();
            run(&["status"]);
        }));
    }
    v
}
/// Look at the status after each of `depth` operations, and at what `show` says.
fn look(nm: &str, confs: &[Conf], pre: &[O], ops: &[O], depth: usize) -> Scn {
    let cx = Cx { confs: confs.to_vec() };
    let (pre, ops) = (pre.to_vec(), ops.to_vec());
    scn(&format!("look:{nm}"), 0, move || {
        boot(&cx.confs[0]);
        setup(&cx, &pre);
        run(&["status"]);
        for _ in 0..depth {
            let v: Vec<&O> = ops.iter().filter(|o| able(o)).collect();
            let o = v[choose(v.len(), "operation")];
            apply(&cx, o);
            run(&["status"]);
        }
        run(&["show", "-u", "a"]);
        run(&["show", "-u", "b"]);
        run(&["status"]);
    })
}
