//! The alphabet of the scenarios: what users, browsers, token servers and time can do.
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use crate::util::*;
use std::rc::Rc;
use vstd::explore::choose;
use vstd::world::{self, w};

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Grant,
    GrantNoRt,
    /// A lifetime of 20 s.
    Short,
    ShortNoRt,
    Huge,
    /// Ten years.
    Long,
    /// A lifetime no clock can represent.
    Max,
    /// One that isn't even a number of 64 bits.
    Huge2,
    /// Tokens full of odd characters.
    Odd,
    /// Short tokens, long ones, tokens that look like something else.
    Tiny,
    Big,
    Colon,
    /// Granted, with a refresh token that is none.
    NullRt,
    NumRt,
    /// The tokens the account has, for longer.
    Same,
    /// The same access token with another refresh token.
    SameAt,
    /// Granted, with an error that is none and other members.
    NullErr,
    Status(u16),
    /// A status with this OAuth error.
    StatusErr(u16, &'static str),
    /// Status 200, and a body that is no grant.
    Useless(&'static str),
    ErrBody,
    BadJson,
    NoToken,
    BadType,
    Rst,
    Fin,
    Partial,
    Slow,
}
/// Bodies which are no grant.
pub const USELESS: &[&str] = &[
    "",
    "null",
    "[]",
    "\"error\"",
    "{}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\"}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":\"3600\"}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":-1}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":null}",
    "{\"access_token\":5,\"token_type\":\"Bearer\",\"expires_in\":3600}",
    "{\"access_token\":null,\"token_type\":\"Bearer\",\"expires_in\":3600,\"refresh_token\":\"zz\"}",
    "{\"access_token\":\"zz\",\"expires_in\":3600}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600,\"error\":\"temporarily_unavailable\"}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600",
    "{\"access_token\":\"zz\",\"token_type\":\"\",\"expires_in\":3600}",
    "{\"access_token\":\"zz\",\"token_type\":5,\"expires_in\":3600}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600.5}",
    "{\"access_token\":[\"zz\"],\"token_type\":\"Bearer\",\"expires_in\":3600}",
    "[{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600}]",
    "access_token=zz&token_type=Bearer&expires_in=3600",
    "{\"error\":\"\"}",
    "{\"error\":\"a\\u0000b\"}",
    "{\"error\":\"a\\n'b' \\\"c\\\" $(d) \u{e9}\"}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600,\"error\":\"invalid_grant\"}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600,\"error\":\"invalid_client\"}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600,\"refresh_token\":\"zy\",\"error\":\"\"}",
    "{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":3600,\"error\":\"unauthorized_client\",\"error_description\":\"x\"}",
    "{\"error\":5,\"error_description\":{}}",
];
/// What an authorisation server may give as the reason of a failure.
pub const REASONS: &[&str] = &["access_denied", "", "a\0b", "\n", "\u{e9}\u{4e2d} 'x' \"y\" $(z) `z` &=%", "\u{1b}[0m\r", "temporarily_unavailable", "server_error", "invalid_request", "unauthorized_client", "unsupported_response_type", "invalid_scope", "interaction_required", "login_required", "consent_required", "account_selection_required"];
/// The errors of token servers.
pub const ERRORS: &[&str] = &["invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "invalid_scope", "temporarily_unavailable", "server_error", "slow_down", "authorization_pending", "interaction_required"];
/// Seconds an ordinary token is valid; with default settings it is refreshed 90 s before.
pub const LIFE: u64 = 200;
pub fn resp(r: &R) -> Resp {
    match r {
        R::Grant => Resp::Grant { exp: LIFE, rt: true },
        R::GrantNoRt => Resp::Grant { exp: LIFE, rt: false },
        R::Short => Resp::Grant { exp: 20, rt: true },
        R::ShortNoRt => Resp::Grant { exp: 20, rt: false },
        R::Huge => Resp::Grant { exp: 1_000_000_000_000, rt: true },
        R::Long => Resp::Grant { exp: 315_360_000, rt: true },
        R::Max => Resp::Grant { exp: u64::MAX, rt: true },
        R::Huge2 => Resp::Body("{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":18446744073709551616}".into()),
        R::Odd => {
            let n = ee().trace.len();
            Resp::GrantAs { at: format!("A T&=+%41é\"\\'/{n}.zzq "), rt: Some(format!("R T&=+%41é\"\\'/{n}.zzq ")), exp: LIFE }
        }
        R::Tiny => {
            let n = ee().trace.len();
            Resp::GrantAs { at: format!("a{n}.zzq"), rt: Some(format!("r{n}.zzq")), exp: LIFE }
        }
        R::Big => {
            let n = ee().trace.len();
            Resp::GrantAs { at: format!("A{}{n}.zzq", "x".repeat(5000)), rt: Some(format!("R{}{n}.zzq", "y".repeat(9000))), exp: LIFE }
        }
        R::Colon => {
            let n = ee().trace.len();
            Resp::GrantAs { at: format!("error:x:pending: {n}.zzq:\n:ok"), rt: Some(format!(":R:{n}.zzq:\n:\r\n")), exp: LIFE }
        }
        R::Same | R::SameAt => {
            // Those granted last.
            let last = ee().trace.iter().rev().find_map(|e| match &e.k {
                K::TokEnd { class: Class::Grant { at, rt, .. }, .. } => Some((at.clone(), rt.clone())),
                _ => None,
            });
            match last {
                Some((at, rt)) if *r == R::Same => Resp::GrantAs { at, rt, exp: LIFE + 7 },
                Some((at, _)) => Resp::GrantAs { at, rt: Some(format!("RT.other.{}.zzq", ee().trace.len())), exp: LIFE + 7 },
                None => Resp::Grant { exp: LIFE, rt: true },
            }
        }
        R::NullRt => Resp::GrantPlus { exp: LIFE, more: "\"refresh_token\":null" },
        R::NumRt => Resp::GrantPlus { exp: LIFE, more: "\"refresh_token\":[1]" },
        R::NullErr => Resp::GrantPlus { exp: LIFE, more: "\"error\":null,\"x\":{\"access_token\":\"zz\"},\"Expires_in\":1" },
        R::Useless(b) => Resp::Body(b.to_string()),
        R::Status(c) => Resp::Status(*c, "{\"error\":\"x\"}".into()),
        R::StatusErr(200, e) => Resp::Body(format!("{{\"error\":\"{e}\",\"error_description\":\"d\"}}")),
        R::StatusErr(c, e) => Resp::Status(*c, format!("{{\"error\":\"{e}\",\"error_description\":\"d\"}}")),
        R::ErrBody => Resp::Body("{\"error\":\"invalid_grant\"}".into()),
        R::BadJson => Resp::Body("<html>".into()),
        R::NoToken => Resp::Body("{\"token_type\":\"Bearer\",\"expires_in\":3600}".into()),
        R::BadType => Resp::Body("{\"access_token\":\"zz\",\"token_type\":\"mac\",\"expires_in\":3600}".into()),
        R::Rst => Resp::Rst,
        R::Fin => Resp::Fin,
        R::Partial => Resp::Partial,
        R::Slow => Resp::Slow { exp: LIFE, rt: true },
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum O {
    Show(&'static str),
    ShowU(&'static str),
    Refresh(&'static str),
    RefreshU(&'static str),
    Revoke(&'static str),
    /// Put configuration `n` of the scenario in place and reload.
    Reload(usize),
    /// Only put it in place.
    Put(usize),
    /// A broken configuration, then reload.
    BadReload(usize),
    Status,
    Info,
    Dump,
    /// Restore dump number `n`.
    Restore(usize),
    RestoreBad(usize),
    /// Restore the latest dump.
    ResLast,
    Shutdown,
    /// Follow the newest URL of the account.
    Auth(&'static str),
    /// Follow the oldest one.
    Stale(&'static str),
    /// Report an error to the newest one.
    AuthErr(&'static str),
    /// Error redirect for the oldest URL.
    StaleErr(&'static str),
    /// A redirect that is wrong in some way.
    Wrong(&'static str, usize),
    /// Answer the oldest/newest unanswered request.
    Ans(R),
    AnsLast(R),
    /// Answer the oldest unanswered request of an account.
    AnsOf(&'static str, R),
    /// Time passes until something is due.
    Due,
    /// The same, without letting anything run yet.
    Tick,
    Wait(u64),
    /// Time passes until a token server has something to answer.
    UntilReq,
    Suspend(u64),
    Net(&'static str, NetMode),
    End(CmdKind, i32),
    Pol(CmdKind, i32),
    Clock(i64),
    /// The server is killed.
    Kill,
    /// A server is started with configuration `n`.
    Start(usize),
    Nop,
}
pub fn net(m: NetMode) -> Option<NetMode> {
    if m == NetMode::Ok {
        None
    } else {
        Some(m)
    }
}

/// What one scenario needs to remember.
#[derive(Default)]
pub struct Cx {
    pub confs: Vec<Conf>,
}
pub const NBAD: usize = 7;
fn put_bad(cx: &Cx, k: usize) {
    let t = cx.confs[0].text();
    match k {
        0 => write_bad_conf(None),
        1 => write_bad_conf(Some("account \"a\" {")),
        2 => {
            // Syntactically fine, but lacking a mandatory field at the very end.
            write_bad_conf(Some(&format!("{t}\naccount \"zz\" {{ auth_uri = \"http://x.test/\"; client_id = \"x\"; }}\n")))
        }
        3 => {
            put_file(CONF, t.as_bytes());
            w().fs.nodes.get_mut(CONF).unwrap().unreadable = true;
            ee().push(K::File { conf: None });
        }
        4 => write_bad_conf(Some("")),
        // Not UTF-8: within a string, in a comment, at the very end.
        k => {
            let mut b = t.into_bytes();
            match k {
                5 => {
                    let i = find(&b, b"client_secret = \"").unwrap() + 17;
                    b.insert(i, 0xff);
                }
                6 => b.splice(0..0, *b"// caf\xe9\n").for_each(drop),
                _ => b.extend(b"// \xc3"),
            }
            put_file(CONF, &b);
            ee().push(K::File { conf: None });
        }
    }
}
fn find(b: &[u8], p: &[u8]) -> Option<usize> {
    b.windows(p.len()).position(|x| x == p)
}
fn dumps() -> Vec<Vec<u8>> {
    ee().trace
        .iter()
        .filter_map(|e| match &e.k {
            K::CmdEnd { pid, code: 0, out, .. } if w().procs[*pid].args.get(1).map(|x| x.as_str()) == Some("dump") => Some(out.clone()),
            _ => None,
        })
        .collect()
}
pub fn dump(n: usize) -> Option<Vec<u8>> {
    dumps().get(n).cloned()
}
pub fn last_dump() -> Option<Vec<u8>> {
    dumps().pop()
}
pub fn due_in() -> Option<u64> {
    world::next_deadline().map(|d| d.saturating_sub(w().mono))
}

pub fn server_up() -> bool {
    the_server().is_some()
}
/// Can the operation do anything now?
pub fn able(o: &O) -> bool {
    match o {
        O::Auth(a) | O::AuthErr(a) | O::Wrong(a, _) => url_of(a).is_some() && server_up(),
        O::Stale(a) | O::StaleErr(a) => urls_of(a).len() > 1 && server_up(),
        O::Ans(_) | O::AnsLast(_) => !held().is_empty(),
        O::AnsOf(a, _) => ee().reqs.iter().any(|r| r.open && r.host == host(a)),
        O::Restore(n) => dump(*n).is_some(),
        O::ResLast => last_dump().is_some(),
        O::RestoreBad(k) => *k < 2 || last_dump().is_some(),
        O::End(k, _) => !held_cmds(k.clone()).is_empty(),
        O::Kill => server_up(),
        O::Start(_) => !server_up(),
        O::Due | O::Tick => due_in().map_or(false, |d| d < 1_000_000 * SEC),
        O::Net(h, m) => ee().net.get(&host(h)).copied() != net(*m),
        _ => true,
    }
}
/// Begin an operation; nothing of the program has run when this returns.
pub fn begin(cx: &Cx, o: &O) {
    if !able(o) {
        return;
    }
    let n = ee().brows.len();
    match o {
        O::Show(a) => drop(cmd(&["show", a])),
        O::ShowU(a) => drop(cmd(&["show", "-u", a])),
        O::Refresh(a) => drop(cmd(&["refresh", a])),
        O::RefreshU(a) => drop(cmd(&["refresh", "-u", a])),
        O::Revoke(a) => drop(cmd(&["revoke", a])),
        O::Reload(i) => {
            write_conf(&cx.confs[*i]);
            cmd(&["reload"]);
        }
        O::Put(i) => drop(write_conf(&cx.confs[*i])),
        O::BadReload(k) => {
            put_bad(cx, *k);
            cmd(&["reload"]);
        }
        O::Status => drop(cmd(&["status"])),
        O::Info => drop(cmd(&["info"])),
        O::Dump => drop(cmd(&["dump"])),
        O::Restore(n) => drop(cmd_in(&["restore"], dump(*n).unwrap())),
        O::ResLast => drop(cmd_in(&["restore"], last_dump().unwrap())),
        O::RestoreBad(k) => {
            let d = last_dump().unwrap_or_default();
            let b = match k {
                0 => vec![],
                1 => b"not a dump at all, but quite long".to_vec(),
                2 => d[..d.len() - 1].to_vec(),
                3 => {
                    let mut x = d.clone();
                    let m = x.len() / 2;
                    x[m] ^= 1;
                    x
                }
                _ => {
                    let mut x = d.clone();
                    x.push(0);
                    x
                }
            };
            cmd_in(&["restore"], b);
        }
        O::Shutdown => drop(cmd(&["shutdown"])),
        O::Auth(a) => {
            authorise(a);
        }
        O::Stale(a) => {
            let u = urls_of(a)[0].clone();
            follow(&redir(&u, &format!("CODE.{a}.{n}.zzq")));
        }
        O::AuthErr(a) | O::StaleErr(a) => {
            let u = if let O::AuthErr(_) = o { url_of(a).unwrap() } else { urls_of(a)[0].clone() };
            let mut r = redir(&u, "x");
            r.code = None;
            r.error = Some("access_denied".into());
            follow(&r);
        }
        O::Wrong(a, k) => wrong(a, *k),
        O::Ans(r) => answer(held()[0], resp(r)),
        O::AnsLast(r) => answer(*held().last().unwrap(), resp(r)),
        O::AnsOf(a, r) => {
            let id = ee().reqs.iter().find(|r| r.open && r.host == host(a)).unwrap().rid;
            answer(id, resp(r))
        }
        O::Tick => {
            let d = world::next_deadline().unwrap();
            if d >= w().mono {
                w().mono = d + 1000;
            }
            world::fire_timers();
        }
        O::Due => sleep_ns(due_in().unwrap() + 2000),
        O::Wait(s) => sleep(*s),
        O::UntilReq => {
            for _ in 0..60 {
                if !held().is_empty() {
                    break;
                }
                sleep_ns(due_in().unwrap() + 2000);
            }
        }
        O::Suspend(s) => {
            w().susp += s * SEC;
            ee().push(K::Suspend { ns: s * SEC });
        }
        O::Net(h, m) => {
            if *m == NetMode::Ok {
                ee().net.remove(&host(h));
            } else {
                ee().net.insert(host(h), *m);
            }
        }
        O::End(k, c) => end_cmd(held_cmds(k.clone())[0], *c),
        O::Pol(k, c) => {
            let p = match c {
                -1 => Pol::Hold,
                -2 => Pol::Fail,
                c => Pol::Exit(*c),
            };
            ee().pol.insert(k.clone(), p);
        }
        O::Clock(s) => {
            w().real_base = (w().real_base as i64 + s * SEC as i64) as u64;
            ee().push(K::Wall { ns: s * SEC as i64 });
        }
        O::Kill => {
            kill_server(the_server().unwrap());
        }
        O::Start(i) => {
            let i = write_conf(&cx.confs[*i]);
            start_server_nowait(i);
        }
        O::Nop => (),
    }
}
pub const NWRONG: usize = 19;
/// A redirect for the newest URL of `a` that must not be accepted.
fn wrong(a: &str, k: usize) {
    let n = ee().brows.len();
    let u = url_of(a).unwrap();
    let mut r = redir(&u, &format!("CODE.{a}.{n}.zzq"));
    match k {
        0 => r.state = None,
        1 => r.state = r.state.map(|x| format!("{x}A")),
        2 => r.state = r.state.map(|x| x[..x.len() - 1].to_string()),
        3 => r.state = Some(String::new()),
        4 => r.host = "127.0.0.1".into(),
        5 => r.port = r.port.map(|p| p + 1),
        6 => r.port = None,
        7 => {
            r.code = None;
        }
        8 => {
            r.state = r.state.map(|x| x.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
        }
        9 => r.state = r.state.map(|x| format!("{x}=")),
        10 => r.state = r.state.map(|x| format!(" {x}")),
        11 => r.state = r.state.map(|x| format!("{x} ")),
        12 => r.state = r.state.map(|x| x[..x.len() / 2].to_string()),
        13 => r.state = r.state.map(|x| x[1..].to_string()),
        14 => r.state = r.state.map(|x| format!("{x}{x}")),
        15 => r.host = format!("x{}", r.host),
        16 => r.host = format!("{}.x.test", r.host),
        17 => r.host = "x.test".into(),
        18 => return follow_cross(&r),
        _ => unreachable!(),
    }
    let p = redir(&u, "x").port;
    let Some(l) = p.and_then(listener_port).or_else(|| listener_of(&r.scheme)) else { return };
    follow_at(l, &r);
}
pub fn apply(cx: &Cx, o: &O) {
    begin(cx, o);
    quiet();
}

/// A state to start from: a sequence of operations.
pub fn setup(cx: &Cx, ops: &[O]) {
    for o in ops {
        if !able(o) {
            panic!("setup operation {o:?} cannot be applied");
        }
        apply(cx, o);
    }
}
/// Look at everything: old and new URLs, tokens, refreshes, events.
pub fn probe(cx: &Cx, accts: &[&'static str], full: bool) {
    devs(false);
    quiet();
    apply(cx, &O::Status);
    for a in accts {
        apply(cx, &O::ShowU(a));
    }
    if full {
        // Every old URL is dead.
        for a in accts {
            let us = urls_of(a);
            for u in us.iter().take(us.len().saturating_sub(1)) {
                let n = ee().brows.len();
                follow(&redir(u, &format!("CODE.{a}.{n}.zzq")));
                quiet();
            }
        }
        // Late answers, in the opposite order.
        for (i, rid) in held().into_iter().rev().enumerate() {
            answer(rid, if i % 2 == 0 { resp(&R::Grant) } else { Resp::Status(400, "{\"error\":\"invalid_grant\"}".into()) });
            quiet();
        }
        for a in accts {
            apply(cx, &O::Show(a));
            if url_of(a).is_some() {
                grant_next(a, resp(&R::Grant));
                apply(cx, &O::Auth(a));
                apply(cx, &O::Show(a));
            }
            ee().answers.remove(&host(a));
        }
        for a in accts {
            auto(a, Some(resp(&R::Grant)));
        }
        sleep(LIFE - 90 + 5);
        for a in accts {
            apply(cx, &O::Show(a));
        }
        apply(cx, &O::Status);
    }
}

fn name(ops: &[O]) -> String {
    ops.iter().map(|o| format!("{o:?}").replace('"', "").replace(' ', "")).collect::<Vec<_>>().join("+")
}

/// `pre`, then `par` all at once under every schedule within the bound, then look at everything.
pub fn race(confs: &[Conf], accts: &[&'static str], pre: &[O], par: &[O], d: u32) -> Scn {
    race_l("", confs, accts, pre, par, d)
}
pub fn race_l(label: &str, confs: &[Conf], accts: &[&'static str], pre: &[O], par: &[O], d: u32) -> Scn {
    let cx = Cx { confs: confs.to_vec() };
    let (pre, par): (Vec<O>, Vec<O>) = (pre.to_vec(), par.to_vec());
    let accts = accts.to_vec();
    let nm = format!("race{label}:{}>{}", name(&pre), name(&par));
    scn(&nm, d, move || {
        boot(&cx.confs[0]);
        setup(&cx, &pre);
        // Every order of the operations.
        let mut rest: Vec<O> = par.clone();
        devs(true);
        while !rest.is_empty() {
            let i = choose(rest.len(), "order");
            let o = rest.remove(i);
            begin(&cx, &o);
        }
        quiet();
        quiet();
        probe(&cx, &accts, true);
    })
}
/// `pre`, then every sequence of `depth` operations from `ops`, each let run to quiescence.
pub fn hist(nm: &str, confs: &[Conf], accts: &[&'static str], pre: &[O], ops: &[O], depth: usize, full: bool) -> Scn {
    let cx = Cx { confs: confs.to_vec() };
    let (pre, ops): (Vec<O>, Vec<O>) = (pre.to_vec(), ops.to_vec());
    let accts = accts.to_vec();
    scn(&format!("hist:{nm}:{}x{depth}", name(&pre)), 0, move || {
        boot(&cx.confs[0]);
        setup(&cx, &pre);
        for _ in 0..depth {
            let v: Vec<&O> = ops.iter().filter(|o| able(o)).collect();
            let o = v[choose(v.len(), "operation")];
            apply(&cx, o);
        }
        probe(&cx, &accts, full);
    })
}
/// Sequences of operations while some thread of the server sits out one of them.
pub fn late(nm: &str, confs: &[Conf], accts: &[&'static str], pre: &[O], ops: &[O], depth: usize) -> Scn {
    let cx = Cx { confs: confs.to_vec() };
    let (pre, ops): (Vec<O>, Vec<O>) = (pre.to_vec(), ops.to_vec());
    let accts = accts.to_vec();
    scn(&format!("late:{nm}:{}x{depth}", name(&pre)), 1, move || {
        boot(&cx.confs[0]);
        setup(&cx, &pre);
        devs(true);
        for _ in 0..depth {
            let v: Vec<&O> = ops.iter().filter(|o| able(o)).collect();
            let o = v[choose(v.len(), "operation")];
            apply(&cx, o);
        }
        devs(false);
        quiet();
        quiet();
        quiet();
        probe(&cx, &accts, true);
    })
    .stalls(2)
}
/// One step of a longer plan.
#[derive(Clone)]
pub enum P {
    Do(Vec<O>),
    /// One of these sequences.
    One(Vec<Vec<O>>),
    /// All of these at once, in every order and (within the bound) schedule.
    Par(Vec<O>),
    /// So many of these, one after the other.
    Any(Vec<O>, usize),
}
pub fn plan(nm: &str, d: u32, confs: &[Conf], accts: &[&'static str], steps: &[P], full: bool) -> Scn {
    let cx = Cx { confs: confs.to_vec() };
    let steps = steps.to_vec();
    let accts = accts.to_vec();
    scn(&format!("plan:{nm}"), d, move || {
        boot(&cx.confs[0]);
        for s in &steps {
            match s {
                P::Do(v) => setup(&cx, v),
                P::One(v) => {
                    for o in &v[choose(v.len(), "sequence")] {
                        apply(&cx, o);
                    }
                }
                P::Par(v) => {
                    let mut rest = v.clone();
                    devs(true);
                    while !rest.is_empty() {
                        let i = choose(rest.len(), "order");
                        let o = rest.remove(i);
                        begin(&cx, &o);
                    }
                    quiet();
                    quiet();
                    devs(false);
                }
                P::Any(ops, n) => {
                    for _ in 0..*n {
                        let v: Vec<&O> = ops.iter().filter(|o| able(o)).collect();
                        let o = v[choose(v.len(), "operation")];
                        apply(&cx, o);
                    }
                }
            }
        }
        probe(&cx, &accts, full);
    })
}
pub fn f(s: Scn) -> Vec<Scn> {
    vec![s]
}
pub type F = Rc<dyn Fn()>;
pub fn u(s: &str) -> Option<Url> {
    url(s)
}
