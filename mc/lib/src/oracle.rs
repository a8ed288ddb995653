//! The specification, as a transition system. A trace of the program is accepted if the
//! specification, taking internal steps of its own between the recorded events, can produce it. All
//! the states the specification may be in are tracked at once; when none is left the program has
//! done something it must not do (or, at a moment of quiescence, has not done something it must).
use crate::env::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use vstd::world::w;

use crate::runner::Viol;

const TOL: u64 = 20_000;
/// A timer may be served this much (running time) after it is due: "under a minute".
const LATE: u64 = 60 * SEC;
/// How long the program waits for an answer of a token server, at the least.
const TIMEOUT: u64 = 30 * SEC;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum St {
    Empty,
    Pending { uid: u32, last: Option<u64> },
    Active { uid: u32, at: String, rt: Option<String>, obt: u64, exp: u64, ongoing: bool, fails: u32, last: Option<u64> },
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Expect {
    Token(String),
    /// Fails, naming the URL of request `uid` if `url`.
    Pending { uid: u32, url: bool },
    Fail,
    Ok,
    Any,
    Status(Vec<(String, St)>),
    /// The server died: this, if it was sent before, or else a failure.
    Maybe(Box<Expect>),
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Op {
    Start,
    Done(Expect),
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Ph {
    Start,
    Hang,
    Sent(usize),
    Got(Class),
    Retry,
    Trans(String),
    TransRun(usize),
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Ex {
    acct: String,
    uid: u32,
    /// The account's settings when the redirect was accepted.
    a: Acct,
    code: String,
    ph: Ph,
    n: u32,
    since: u64,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Rf {
    acct: String,
    uid: u32,
    a: Acct,
    rt: String,
    ph: Ph,
    since: u64,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Nq {
    Auth { acct: String, cmd: String, uid: u32 },
    Err { acct: String, cmds: Vec<Option<String>> },
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum EvRun {
    None,
    Expect { acct: String, ev: &'static str, cmd: String },
    Running { id: usize, since: u64 },
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Bs {
    Start,
    /// Answered with status 200 before anything else happens / anything.
    Accept,
    Any,
}
type Secure = (String, Vec<(String, String)>, String, Option<String>, String, Vec<String>, String);
/// What a dump holds: times are wall-clock times.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Snap {
    acct: String,
    secure: Secure,
    tok: Option<(String, Option<String>, u64, u64)>,
}
/// A server that is starting.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Starting {
    conf: Option<usize>,
    daemon: bool,
    /// Other servers which were there during the start.
    rivals: BTreeSet<usize>,
    /// One of them was, but has ended.
    excuse: bool,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct S {
    up: Option<usize>,
    starting: BTreeMap<usize, Starting>,
    /// A server which has yet to go into the background.
    detach: Option<usize>,
    conf: usize,
    pub accts: BTreeMap<String, St>,
    uid: u32,
    urls: BTreeMap<u32, String>,
    /// Configuration under which a request whose URL is not known yet was made.
    made: BTreeMap<u32, (String, usize)>,
    ops: BTreeMap<usize, Op>,
    brow: BTreeMap<usize, Bs>,
    ex: Vec<Ex>,
    rf: Vec<Rf>,
    want: Vec<(String, u32, bool)>,
    nq: Vec<Nq>,
    evq: Vec<(String, &'static str, bool)>,
    evrun: EvRun,
    dumps: BTreeMap<usize, Vec<Snap>>,
    overdue: BTreeMap<(String, bool), u64>,
    shut: bool,
}
impl S {
    fn new() -> S {
        S {
            up: None,
            starting: BTreeMap::new(),
            detach: None,
            conf: 0,
            accts: BTreeMap::new(),
            uid: 0,
            urls: BTreeMap::new(),
            made: BTreeMap::new(),
            ops: BTreeMap::new(),
            brow: BTreeMap::new(),
            ex: vec![],
            rf: vec![],
            want: vec![],
            nq: vec![],
            evq: vec![],
            evrun: EvRun::None,
            dumps: BTreeMap::new(),
            overdue: BTreeMap::new(),
            shut: false,
        }
    }
    fn down(&mut self) {
        let pid = self.up.take();
        self.detach = None;
        for x in self.starting.values_mut() {
            x.excuse |= pid.map_or(false, |p| x.rivals.contains(&p));
        }
        for x in self.ops.values_mut() {
            *x = match x {
                Op::Start => Op::Start,
                Op::Done(e @ (Expect::Maybe(_) | Expect::Fail)) => Op::Done(e.clone()),
                Op::Done(e) => Op::Done(Expect::Maybe(Box::new(e.clone()))),
            };
        }
        self.accts.clear();
        self.brow.clear();
        self.ex.clear();
        self.rf.clear();
        self.want.clear();
        self.nq.clear();
        self.evq.clear();
        self.evrun = EvRun::None;
        self.overdue.clear();
        self.shut = false;
        self.urls.clear();
        self.made.clear();
    }
}

pub struct Reject {
    pub kind: String,
    pub acct: String,
    pub why: String,
}

pub struct Oracle<'a> {
    trace: &'a [Ev],
    confs: &'a [Conf],
    set: BTreeSet<S>,
    t: T,
    prev_quiet: T,
    /// When the machine last was suspended, in running time.
    suspended: Option<u64>,
    /// Configuration on disk.
    disk: Option<usize>,
    cmds: BTreeMap<usize, (Vec<String>, Vec<u8>)>,
    brows: BTreeMap<usize, Brow>,
    dump_bytes: Vec<(Vec<u8>, usize)>,
    rejects: Vec<Reject>,
    seen_states: usize,
    http_port: Option<u16>,
    https_port: Option<u16>,
    pub final_states: Vec<S>,
    kills: BTreeSet<usize>,
    whole: BTreeSet<usize>,
    deaf: bool,
}

fn s(x: &str) -> String {
    x.to_string()
}
impl<'a> Oracle<'a> {
    fn conf(&self, st: &S) -> &'a Conf {
        &self.confs[st.conf]
    }
    /// When an account's token is due for a refresh.
    fn due(&self, st: &S, acct: &str) -> Option<u64> {
        let c = self.conf(st);
        let a = c.get(acct)?;
        match st.accts.get(acct)? {
            St::Active { ongoing: false, obt, exp, last, .. } => Some(match last {
                Some(l) => l.saturating_add(c.retry_of(a)),
                None => {
                    let b = match exp.checked_sub(c.before_of(a)) {
                        Some(x) => x,
                        None => (*exp).min(self.t.boot),
                    };
                    b.min(obt.saturating_add(c.at_least_of(a)))
                }
            }),
            _ => None,
        }
    }
    /// How long a token is taken to be valid for which the token server gives `exp` seconds: if no
    /// clock can represent it, until it is to be refreshed; if that neither, it's of no use.
    fn life(&self, st: &S, acct: &str, exp: u64) -> Option<u64> {
        const MAX: u64 = 1 << 62;
        let mut l = Some(exp);
        if exp > MAX {
            let c = self.conf(st);
            l = c.get(acct).and_then(|a| a.at_least).or(c.at_least).or(Some(90 * 60)).filter(|x| *x < MAX);
        }
        l.map(|x| x.saturating_mul(SEC))
    }
    fn notify_due(&self, st: &S, acct: &str) -> Option<u64> {
        match st.accts.get(acct)? {
            St::Pending { last: None, .. } => Some(0),
            St::Pending { last: Some(l), .. } => Some(l.saturating_add(self.conf(st).interval())),
            _ => None,
        }
    }
    fn event(&self, st: &mut S, acct: &str, ev: &'static str) {
        if self.deaf {
            return;
        }
        let must = self.conf(st).event.is_some();
        st.evq.push((s(acct), ev, must));
    }
    fn err(&self, st: &mut S, acct: &str) {
        if self.deaf {
            return;
        }
        let c = self.conf(st).err.clone();
        st.nq.push(Nq::Err { acct: s(acct), cmds: vec![c] });
    }
    fn start_refresh(&self, st: &mut S, acct: &str) {
        let a = self.conf(st).get(acct).unwrap().clone();
        let t = self.t;
        if let Some(St::Active { uid, rt, ongoing, last, .. }) = st.accts.get_mut(acct) {
            let uid = *uid;
            match rt.clone() {
                Some(rt) => {
                    *ongoing = true;
                    *last = Some(t.boot);
                    st.rf.push(Rf { acct: s(acct), uid, a, rt, ph: Ph::Start, since: t.mono });
                    for x in st.want.iter_mut() {
                        if x.0 == acct && x.1 == uid {
                            x.2 = true;
                        }
                    }
                }
                None => {
                    st.accts.insert(s(acct), St::Empty);
                    self.event(st, acct, "token_invalidated");
                }
            }
        }
        st.overdue.remove(&(s(acct), false));
    }
    fn valid_ex(st: &S, x: &Ex) -> bool {
        matches!(st.accts.get(&x.acct), Some(St::Pending { uid, .. }) if *uid == x.uid)
    }
    fn valid_rf(st: &S, x: &Rf) -> bool {
        matches!(st.accts.get(&x.acct), Some(St::Active { uid, .. }) if *uid == x.uid)
    }
    fn fresh(st: &mut S) -> u32 {
        st.uid += 1;
        st.uid
    }
    fn pending(&self, st: &mut S, acct: &str) -> u32 {
        let uid = Self::fresh(st);
        st.accts.insert(s(acct), St::Pending { uid, last: None });
        st.overdue.remove(&(s(acct), true));
        let c = st.conf;
        st.made.insert(uid, (s(acct), c));
        uid
    }
    /// Bind request `uid` to a URL the program showed.
    fn unify(&mut self, st: &mut S, uid: u32, url: &str) -> bool {
        match st.urls.get(&uid) {
            Some(u) => u == url,
            None => {
                if st.urls.values().any(|u| u == url) {
                    return false;
                }
                if let Some((acct, c)) = st.made.remove(&uid) {
                    let a = self.confs[c].get(&acct).unwrap();
                    if let Err(e) = self.url_ok(a, url) {
                        self.rej("url-wrong", &acct, format!("authorisation URL {url} of {acct}: {e}"));
                        return false;
                    }
                }
                st.urls.insert(uid, s(url));
                true
            }
        }
    }
    /// Is this an authorisation URL as account `a` must have it?
    fn url_ok(&self, a: &Acct, txt: &str) -> Result<(), String> {
        let base = url(&a.auth_uri).ok_or("the auth_uri is not a URL")?;
        let u = url(txt).ok_or("not a URL")?;
        if (&u.scheme, &u.host, u.port, pct_decode(&u.path, false)) != (&base.scheme, &base.host, base.port, pct_decode(&base.path, false)) {
            return Err(format!("does not lead to {}", a.auth_uri));
        }
        let (bp, mut p) = (base.params(), u.params());
        if p.len() < bp.len() || p[..bp.len()] != bp[..] {
            return Err(s("does not keep the parameters of auth_uri"));
        }
        p.drain(..bp.len());
        let mut take = |k: &str| -> Result<String, String> {
            match p.iter().position(|x| x.0 == k) {
                Some(i) => Ok(p.remove(i).1),
                None => Err(format!("lacks {k}")),
            }
        };
        let mut want = vec![
            ("client_id", a.client_id.clone()),
            ("response_type", s("code")),
            ("code_challenge_method", s("S256")),
            ("access_type", s("offline")),
        ];
        if !a.scopes.is_empty() {
            want.push(("scope", a.scopes.join(" ")));
        }
        for (k, v) in want {
            let x = take(k)?;
            if x != v {
                return Err(format!("{k} is {x:?} and not {v:?}"));
            }
        }
        let r = url(&take("redirect_uri")?).ok_or("redirect_uri is not a URL")?;
        let w = self.redirect_of(a);
        if w.port.is_none() {
            return Err(format!("no listener for its redirect_uri {r:?} is running"));
        }
        if (&r.scheme, &r.host, r.port, pct_decode(&r.path, false), r.params()) != (&w.scheme, &w.host, w.port, pct_decode(&w.path, false), w.params()) {
            return Err(format!("redirect_uri {r:?} is not {w:?}"));
        }
        let tok = |x: &str| x.chars().all(|c| c.is_ascii_alphanumeric() || "-._~".contains(c));
        let (state, chal) = (take("state")?, take("code_challenge")?);
        if state.len() < 8 || !tok(&state) {
            return Err(format!("the state {state:?} is too short or not plain text"));
        }
        if chal.len() != 43 || !tok(&chal) {
            return Err(format!("{chal:?} is not an S256 challenge"));
        }
        let mut fields = a.fields.clone();
        if let Some(h) = &a.login_hint {
            fields.push((s("login_hint"), h.clone()));
        }
        if p != fields {
            return Err(format!("further fields {p:?} instead of {fields:?}"));
        }
        Ok(())
    }
    fn redirect_of(&self, a: &Acct) -> Url {
        let mut r = url(&a.redirect_cfg()).unwrap_or_default();
        match r.scheme.as_str() {
            "https" => r.port = self.https_port,
            _ => r.port = self.http_port,
        }
        r
    }

    /// The effect of a command; what it must then report.
    fn effect(&self, st: &S, pid: usize) -> Vec<S> {
        let (args, stdin) = &self.cmds[&pid];
        let mut n = st.clone();
        let mut out = vec![];
        let mut done = |mut n: S, e: Expect| {
            n.ops.insert(pid, Op::Done(e));
            out.push(n);
        };
        let nourl = args.iter().any(|x| x == "-u");
        let acct = args.iter().skip(1).find(|x| *x != "-u").cloned().unwrap_or_default();
        match args[0].as_str() {
            "show" => match st.accts.get(&acct) {
                None => done(n, Expect::Fail),
                Some(St::Empty) => {
                    let uid = self.pending(&mut n, &acct);
                    done(n, Expect::Pending { uid, url: !nourl });
                }
                Some(St::Pending { uid, .. }) => done(n, Expect::Pending { uid: *uid, url: !nourl }),
                Some(St::Active { at, exp, ongoing, uid, .. }) => {
                    if exp.saturating_add(TOL) > self.t.boot {
                        done(n.clone(), Expect::Token(at.clone()));
                    }
                    if *exp <= self.t.boot + TOL {
                        if !ongoing {
                            n.want.push((acct, *uid, false));
                        }
                        done(n, Expect::Fail);
                    }
                }
            },
            "refresh" => match st.accts.get(&acct) {
                None => done(n, Expect::Fail),
                Some(St::Empty | St::Pending { .. }) => {
                    let uid = self.pending(&mut n, &acct);
                    done(n, Expect::Pending { uid, url: !nourl });
                }
                Some(St::Active { uid, ongoing, .. }) => {
                    n.want.push((acct, *uid, *ongoing));
                    done(n, Expect::Ok);
                }
            },
            "revoke" => {
                if st.accts.contains_key(&acct) {
                    n.accts.insert(acct.clone(), St::Empty);
                    self.event(&mut n, &acct, "token_revoked");
                    done(n, Expect::Ok);
                } else {
                    done(n, Expect::Fail);
                }
            }
            "reload" => match self.disk {
                None => done(n, Expect::Fail),
                // Listeners are never started later.
                Some(c) if self.confs[c].accts.iter().any(|a| self.redirect_of(a).port.is_none()) => done(n, Expect::Fail),
                Some(c) => {
                    self.reload(&mut n, c);
                    done(n, Expect::Ok);
                }
            },
            "dump" => {
                let c = self.conf(st);
                let off = self.t.real - self.t.boot;
                let snap = st
                    .accts
                    .iter()
                    .map(|(k, v)| Snap {
                        acct: k.clone(),
                        secure: c.get(k).unwrap().secure(),
                        tok: match v {
                            St::Active { at, rt, obt, exp, .. } => Some((at.clone(), rt.clone(), obt + off, exp.saturating_add(off))),
                            _ => None,
                        },
                    })
                    .collect();
                n.dumps.insert(pid, snap);
                done(n, Expect::Any);
            }
            "restore" => match self.dump_bytes.iter().find(|x| x.0 == *stdin) {
                None => done(n, Expect::Fail),
                Some((_, d)) => {
                    if let Some(snap) = st.dumps.get(d) {
                        let c = self.conf(st);
                        let off = self.t.real - self.t.boot;
                        for x in snap {
                            if let (Some(St::Empty | St::Pending { .. }), Some(a), Some((at, rt, obt, exp))) =
                                (st.accts.get(&x.acct), c.get(&x.acct), &x.tok)
                            {
                                if a.secure() == x.secure {
                                    let uid = Self::fresh(&mut n);
                                    n.accts.insert(
                                        x.acct.clone(),
                                        St::Active {
                                            uid,
                                            at: at.clone(),
                                            rt: rt.clone(),
                                            obt: obt.saturating_sub(off),
                                            exp: exp.saturating_sub(off),
                                            ongoing: false,
                                            fails: 0,
                                            last: None,
                                        },
                                    );
                                    n.overdue.remove(&(x.acct.clone(), false));
                                }
                            }
                        }
                        done(n, Expect::Ok);
                    }
                }
            },
            "status" => {
                let v = st.accts.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                done(n, Expect::Status(v));
            }
            "shutdown" => {
                n.shut = true;
                done(n, Expect::Ok);
            }
            "info" => done(n, Expect::Any),
            _ => done(n, Expect::Fail),
        }
        out
    }
    fn reload(&self, n: &mut S, c: usize) {
        let old = self.conf(n);
        let new = &self.confs[c];
        let mut m = BTreeMap::new();
        for a in &new.accts {
            let keep = old.get(&a.name).map_or(false, |o| o.secure() == a.secure());
            let st = if keep { n.accts.get(&a.name).cloned().unwrap_or(St::Empty) } else { St::Empty };
            m.insert(a.name.clone(), st);
        }
        n.accts = m;
        n.conf = c;
        n.overdue.clear();
        for x in n.nq.iter_mut() {
            if let Nq::Err { cmds, .. } = x {
                if !cmds.contains(&new.err) {
                    cmds.push(new.err.clone());
                }
            }
        }
        if new.event.is_none() {
            for x in n.evq.iter_mut() {
                x.2 = false;
            }
        }
    }
    fn brow_effect(&self, st: &S, bid: usize) -> Vec<S> {
        let mut n = st.clone();
        let mut d = &self.brows[&bid];
        n.brow.insert(bid, Bs::Any);
        let mut lax = false;
        if let Brow::Either(x) | Brow::Lost(x) = d {
            lax = matches!(d, Brow::Either(_));
            d = &**x;
        }
        if let Brow::Redirect { scheme, host, port, state: Some(state), code, error } = d {
            let hit = st.accts.iter().find_map(|(k, v)| match v {
                St::Pending { uid, .. } => {
                    let u = st.urls.get(uid)?;
                    let u = url(u)?;
                    if get(&u.params(), "state") == Some(state.as_str()) {
                        Some((k.clone(), *uid))
                    } else {
                        None
                    }
                }
                _ => None,
            });
            if let Some((acct, uid)) = hit {
                let a = self.conf(st).get(&acct).unwrap().clone();
                let r = self.redirect_of(&a);
                let dport = |s: &str| if s == "https" { 443 } else { 80 };
                if lax || r.scheme == *scheme && r.host == *host && r.port.unwrap_or(dport(&r.scheme)) == port.unwrap_or(dport(scheme)) {
                    if error.is_some() {
                        n.accts.insert(acct.clone(), St::Empty);
                        self.err(&mut n, &acct);
                    } else if let Some(code) = code {
                        n.brow.insert(bid, Bs::Accept);
                        n.ex.push(Ex { acct, uid, a, code: code.clone(), ph: Ph::Start, n: 0, since: self.t.mono });
                    }
                }
            }
        }
        vec![n]
    }

    /// All single internal steps from `st`.
    fn internal(&self, st: &S, out: &mut Vec<S>) {
        let t = self.t;
        for (pid, op) in &st.ops {
            if *op == Op::Start {
                if st.up.is_some() {
                    out.extend(self.effect(st, *pid));
                } else {
                    // No server has come up yet.
                    let mut n = st.clone();
                    n.ops.insert(*pid, Op::Done(if self.cmds[pid].0[0] == "info" { Expect::Any } else { Expect::Fail }));
                    out.push(n);
                }
            }
        }
        if st.up.is_none() {
            return;
        }
        for (bid, b) in &st.brow {
            if *b == Bs::Start && !matches!(self.brows[bid], Brow::Bad | Brow::Error) {
                out.extend(self.brow_effect(st, *bid));
            }
        }
        for (i, x) in st.ex.iter().enumerate() {
            let valid = Self::valid_ex(st, x);
            if matches!(&x.ph, Ph::Got(c) if *c != Class::Broken) && t.mono + SEC > x.since + TIMEOUT {
                // The answer came when the program had just given up waiting for it.
                let mut n = st.clone();
                n.ex[i].ph = Ph::Got(Class::Broken);
                out.push(n);
            }
            let fail = |out: &mut Vec<S>| {
                let mut n = st.clone();
                n.ex.remove(i);
                if valid {
                    n.accts.insert(x.acct.clone(), St::Empty);
                    self.err(&mut n, &x.acct);
                }
                out.push(n);
            };
            match &x.ph {
                Ph::Got(Class::Grant { exp, .. }) if valid && self.life(st, &x.acct, *exp).is_none() => fail(out),
                Ph::Got(Class::Grant { at, rt, exp }) => {
                    let mut n = st.clone();
                    n.ex.remove(i);
                    if valid {
                        let uid = Self::fresh(&mut n);
                        n.accts.insert(
                            x.acct.clone(),
                            St::Active {
                                uid,
                                at: at.clone(),
                                rt: rt.clone().filter(|x| x != NO_RT),
                                obt: t.boot,
                                exp: t.boot.saturating_add(self.life(st, &x.acct, *exp).unwrap()),
                                ongoing: false,
                                fails: 0,
                                last: None,
                            },
                        );
                        n.overdue.remove(&(x.acct.clone(), false));
                        self.event(&mut n, &x.acct, "token_new");
                    }
                    out.push(n);
                }
                Ph::Got(Class::Refuse) => fail(out),
                Ph::Got(Class::Broken) => {
                    fail(out);
                    let mut n = st.clone();
                    n.ex[i].ph = Ph::Retry;
                    n.ex[i].n = (n.ex[i].n + 1).min(3);
                    n.ex[i].since = t.mono;
                    out.push(n);
                }
                Ph::Retry => {
                    if x.n >= 3 || !valid {
                        fail(out);
                    }
                }
                _ => (),
            }
        }
        for (i, x) in st.rf.iter().enumerate() {
            let valid = Self::valid_rf(st, x);
            if matches!(&x.ph, Ph::Got(c) if *c != Class::Broken) && t.mono + SEC > x.since + TIMEOUT {
                let mut n = st.clone();
                n.rf[i].ph = Ph::Got(Class::Broken);
                out.push(n);
            }
            match &x.ph {
                Ph::Got(c) if *c == Class::Refuse || matches!(c, Class::Grant { exp, .. } if valid && self.life(st, &x.acct, *exp).is_none()) => {
                    let mut n = st.clone();
                    n.rf.remove(i);
                    if valid {
                        n.accts.insert(x.acct.clone(), St::Empty);
                        self.event(&mut n, &x.acct, "token_invalidated");
                    }
                    out.push(n);
                }
                Ph::Got(Class::Grant { at, rt, exp }) => {
                    let mut n = st.clone();
                    n.rf.remove(i);
                    if valid {
                        let uid = Self::fresh(&mut n);
                        n.accts.insert(
                            x.acct.clone(),
                            St::Active {
                                uid,
                                at: at.clone(),
                                rt: Some(rt.clone().unwrap_or_else(|| x.rt.clone())).filter(|x| x != NO_RT),
                                obt: t.boot,
                                exp: t.boot.saturating_add(self.life(st, &x.acct, *exp).unwrap()),
                                ongoing: false,
                                fails: 0,
                                last: None,
                            },
                        );
                        n.overdue.remove(&(x.acct.clone(), false));
                        self.event(&mut n, &x.acct, "token_refreshed");
                    }
                    out.push(n);
                }
                Ph::Got(Class::Broken) => {
                    let mut n = st.clone();
                    n.rf.remove(i);
                    if valid {
                        let trans = self.conf(st).trans.clone();
                        if let Some(St::Active { fails, last, ongoing, .. }) = n.accts.get_mut(&x.acct) {
                            *fails += 1;
                            *last = Some(t.boot);
                            match trans {
                                Some(cmd) if *fails % 6 == 0 => {
                                    let mut y = x.clone();
                                    y.ph = Ph::Trans(cmd);
                                    y.since = t.mono;
                                    n.rf.push(y);
                                }
                                _ => *ongoing = false,
                            }
                        }
                    }
                    out.push(n);
                }
                _ => (),
            }
        }
        for (i, (acct, uid, opt)) in st.want.iter().enumerate() {
            let mut n = st.clone();
            n.want.remove(i);
            match st.accts.get(acct) {
                Some(St::Active { uid: u, ongoing: false, .. }) if u == uid => {
                    if *opt {
                        out.push(n.clone());
                    }
                    self.start_refresh(&mut n, acct);
                    out.push(n);
                }
                _ => out.push(n),
            }
        }
        for (acct, v) in &st.accts {
            match v {
                St::Active { ongoing: false, .. } => {
                    if self.due(st, acct).map_or(false, |d| d <= t.boot + TOL) {
                        let mut n = st.clone();
                        self.start_refresh(&mut n, acct);
                        out.push(n);
                    }
                }
                St::Pending { uid, .. } => {
                    if self.notify_due(st, acct).map_or(false, |d| d <= t.boot + TOL) {
                        let mut n = st.clone();
                        n.accts.insert(acct.clone(), St::Pending { uid: *uid, last: Some(t.boot) });
                        n.overdue.remove(&(acct.clone(), true));
                        if let Some(cmd) = &self.conf(st).auth {
                            if !self.deaf {
                                n.nq.push(Nq::Auth { acct: acct.clone(), cmd: cmd.clone(), uid: *uid });
                            }
                        }
                        out.push(n);
                    }
                }
                _ => (),
            }
        }
        if st.evrun == EvRun::None {
            if let Some((acct, ev, must)) = st.evq.first() {
                let mut n = st.clone();
                n.evq.remove(0);
                match &self.conf(st).event {
                    None => out.push(n),
                    Some(cmd) => {
                        if !*must {
                            out.push(n.clone());
                        }
                        n.evrun = EvRun::Expect { acct: acct.clone(), ev, cmd: cmd.clone() };
                        out.push(n);
                    }
                }
            }
        }
    }
    fn close(&mut self) {
        let mut todo: Vec<S> = self.set.iter().cloned().collect();
        let mut out = vec![];
        while let Some(x) = todo.pop() {
            out.clear();
            self.internal(&x, &mut out);
            for y in out.drain(..) {
                if self.set.insert(y.clone()) {
                    todo.push(y);
                }
            }
            if self.set.len() > 60_000 {
                let n = self.set.iter().next_back().unwrap();
                vstd::world::die(&format!("specification state explosion at {:?}\n{:#?}", self.t, n));
            }
        }
        self.seen_states = self.seen_states.max(self.set.len());
    }

    fn form_of_code(&self, st: &S, x: &Ex) -> Option<(Form, String)> {
        let u = url(st.urls.get(&x.uid)?)?;
        let p = u.params();
        let mut f = vec![
            (s("client_id"), x.a.client_id.clone()),
            (s("code"), x.code.clone()),
            (s("grant_type"), s("authorization_code")),
            (s("redirect_uri"), get(&p, "redirect_uri").unwrap_or("").to_string()),
        ];
        if let Some(y) = &x.a.secret {
            f.push((s("client_secret"), y.clone()));
        }
        Some((f, get(&p, "code_challenge").unwrap_or("").to_string()))
    }
    fn match_code(&self, st: &S, x: &Ex, host: &str, path: &str, form: &Form) -> Result<(), String> {
        let u = url(&x.a.token_uri).unwrap();
        let full = match &u.query {
            Some(q) => format!("{}?{q}", u.path),
            None => u.path.clone(),
        };
        if u.host != host || full != path {
            return Err(format!("sent to {host}{path} instead of {}", x.a.token_uri));
        }
        let Some((mut want, chal)) = self.form_of_code(st, x) else { return Err(s("URL unknown")) };
        let mut got: Form = form.iter().filter(|p| p.0 != "code_verifier").cloned().collect();
        want.sort();
        got.sort();
        if want != got {
            return Err(format!("fields {got:?} instead of {want:?}"));
        }
        let v: Vec<&str> = form.iter().filter(|p| p.0 == "code_verifier").map(|p| p.1.as_str()).collect();
        if v.len() != 1 || b64url(&sha256(v[0].as_bytes())) != chal {
            return Err(s("code verifier does not match the request's challenge"));
        }
        Ok(())
    }
    fn match_refresh(&self, x: &Rf, host: &str, path: &str, form: &Form) -> Result<(), String> {
        let u = url(&x.a.token_uri).unwrap();
        let full = match &u.query {
            Some(q) => format!("{}?{q}", u.path),
            None => u.path.clone(),
        };
        if u.host != host || full != path {
            return Err(format!("sent to {host}{path} instead of {}", x.a.token_uri));
        }
        let mut want = vec![(s("client_id"), x.a.client_id.clone()), (s("refresh_token"), x.rt.clone()), (s("grant_type"), s("refresh_token"))];
        if let Some(y) = &x.a.secret {
            want.push((s("client_secret"), y.clone()));
        }
        let mut got = form.clone();
        want.sort();
        got.sort();
        if want != got {
            return Err(format!("fields {got:?} instead of {want:?}"));
        }
        Ok(())
    }

    fn rej(&mut self, kind: &str, acct: &str, why: String) {
        if self.rejects.len() < 200 {
            self.rejects.push(Reject { kind: s(kind), acct: s(acct), why });
        }
    }

    /// Successors of every state under the recorded event.
    fn event_step(&mut self, ev: &Ev) {
        let old: Vec<S> = std::mem::take(&mut self.set).into_iter().collect();
        let mut new = BTreeSet::new();
        for st in old {
            for n in self.on(st, &ev.k) {
                new.insert(n);
            }
        }
        self.set = new;
    }
    fn on(&mut self, st: S, k: &K) -> Vec<S> {
        let mut n = st.clone();
        match k {
            K::Server { pid, conf } => {
                if st.up.is_none() {
                    for x in n.starting.values_mut() {
                        x.rivals.insert(*pid);
                    }
                    n.up = Some(*pid);
                    n.conf = *conf;
                    for a in &self.confs[*conf].accts {
                        n.accts.insert(a.name.clone(), St::Empty);
                    }
                }
                vec![n]
            }
            K::Start { pid, conf, daemon } => {
                let rivals = st.up.iter().chain(st.starting.keys()).copied().collect();
                for x in n.starting.values_mut() {
                    x.rivals.insert(*pid);
                }
                n.starting.insert(*pid, Starting { conf: *conf, daemon: *daemon, rivals, excuse: false });
                vec![n]
            }
            K::Bind { pid, path, .. } if st.starting.contains_key(pid) => {
                let x = n.starting.remove(pid).unwrap();
                if let Some(o) = st.up {
                    self.rej("second-server", "", format!("server {pid} creates {path} although server {o} is running"));
                    return vec![];
                }
                let Some(conf) = x.conf else {
                    self.rej("server-start-bad", "", format!("server {pid} creates {path} although it cannot start"));
                    return vec![];
                };
                n.up = Some(*pid);
                n.conf = conf;
                if x.daemon {
                    n.detach = Some(*pid);
                }
                for a in &self.confs[conf].accts {
                    n.accts.insert(a.name.clone(), St::Empty);
                }
                vec![n]
            }
            K::Daemon { pid } => {
                if st.starting.contains_key(pid) {
                    self.rej("server-start-early", "", format!("'server' reports success before the server is up"));
                    return vec![];
                }
                if st.up == Some(*pid) && st.detach != Some(*pid) && self.trace.iter().any(|e| matches!(&e.k, K::Start { pid: p, .. } if p == pid)) {
                    self.rej("server-detached", "", format!("server {pid} goes into the background although it was told not to"));
                    return vec![];
                }
                n.detach = None;
                vec![n]
            }
            K::Exit { pid, code, out, err } if st.starting.contains_key(pid) => {
                let x = n.starting.remove(pid).unwrap();
                if *code != 137 {
                    let rival = x.excuse || x.rivals.iter().any(|r| st.up == Some(*r) || st.starting.contains_key(r));
                    if *code != 1 || x.conf.is_some() && !rival {
                        self.rej("server-start-failed", "", format!("'server' ends with status {code} ({:?}) although nothing prevents its start", String::from_utf8_lossy(err)));
                        return vec![];
                    }
                    if err.is_empty() || !out.is_empty() {
                        self.rej("server-start-quiet", "", format!("'server' fails with {:?} on stderr and {:?} on stdout", String::from_utf8_lossy(err), String::from_utf8_lossy(out)));
                        return vec![];
                    }
                }
                if *code == 137 || x.conf.is_none() {
                    for y in n.starting.values_mut() {
                        y.excuse |= y.rivals.contains(pid);
                    }
                }
                vec![n]
            }
            K::Exit { pid, code, .. } => {
                if st.up == Some(*pid) {
                    if *code == 137 || st.shut {
                        n.down();
                        return vec![n];
                    }
                    self.rej("server-died", "", format!("the server ended with status {code}"));
                    return vec![];
                }
                vec![n]
            }
            K::Cmd { pid, .. } => {
                n.ops.insert(*pid, Op::Start);
                vec![n]
            }
            K::CmdEnd { pid, code, out, err } => self.cmd_end(st, *pid, *code, out, err),
            K::Brow { bid, .. } => {
                if st.up.is_some() {
                    n.brow.insert(*bid, Bs::Start);
                }
                vec![n]
            }
            K::BrowEnd { bid, reply } => match st.brow.get(bid) {
                None => vec![n],
                Some(b) => {
                    let d = self.brows[bid].clone();
                    let r = String::from_utf8_lossy(reply);
                    let status: u32 = r.split(' ').nth(1).and_then(|x| x.get(..3).and_then(|y| y.parse().ok())).unwrap_or(0);
                    let r: String = r.chars().take(60).collect();
                    match b {
                        Bs::Start => {
                            let ok = match d {
                                Brow::Bad | Brow::Lost(_) => true,
                                Brow::Error | Brow::Either(_) => (400..600).contains(&status),
                                _ => false,
                            };
                            if matches!(d, Brow::Error) && !ok {
                                self.rej("browser-reply", "", format!("a malformed request was answered with {r:?}"));
                                return vec![];
                            }
                            if !ok {
                                self.rej("browser-early", "", format!("browser request {bid} was answered without being handled"));
                                return vec![];
                            }
                        }
                        Bs::Accept if !(200..300).contains(&status) && !matches!(d, Brow::Lost(_)) => {
                            self.rej("browser-reply", "", format!("a valid redirect was answered with {r:?}"));
                            return vec![];
                        }
                        _ => {
                            if status == 0 && !matches!(d, Brow::Lost(_)) {
                                self.rej("browser-reply", "", format!("browser request {bid} got no answer: {r:?}"));
                                return vec![];
                            }
                        }
                    }
                    n.brow.remove(bid);
                    vec![n]
                }
            },
            K::NetFail { host } | K::NetHang { host } => {
                let hang = matches!(k, K::NetHang { .. });
                let mut v = vec![];
                let host_of = |x: &Ex| url(&x.a.token_uri).map_or(String::new(), |u| u.host);
                let mut again = false;
                for (i, x) in st.ex.iter().enumerate() {
                    if host_of(x) == *host && matches!(x.ph, Ph::Start | Ph::Retry | Ph::Hang) && (!hang || x.ph != Ph::Hang) {
                        let mut n = st.clone();
                        if !hang && x.ph == Ph::Retry {
                            // Which of several exchanges this was cannot be seen and does not matter.
                            if !again {
                                again = true;
                                for y in n.ex.iter_mut().filter(|y| y.ph == Ph::Retry && host_of(y) == *host) {
                                    y.n = (y.n + 1).min(3);
                                    y.since = self.t.mono;
                                }
                                v.push(n);
                            }
                            continue;
                        }
                        n.ex[i].ph = if hang { Ph::Hang } else { Ph::Retry };
                        if !hang {
                            n.ex[i].n = (n.ex[i].n + 1).min(3);
                        }
                        n.ex[i].since = self.t.mono;
                        v.push(n);
                    }
                }
                for (i, x) in st.rf.iter().enumerate() {
                    let h = url(&x.a.token_uri).map_or(String::new(), |u| u.host);
                    if h == *host && matches!(x.ph, Ph::Start | Ph::Hang) && (!hang || x.ph != Ph::Hang) {
                        let mut n = st.clone();
                        n.rf[i].ph = if hang { Ph::Hang } else { Ph::Got(Class::Broken) };
                        n.rf[i].since = self.t.mono;
                        v.push(n);
                    }
                }
                if v.is_empty() {
                    let a = acct_of_host(self.confs, host);
                    self.rej("attempt-unexpected", &a, format!("the program contacted {host} when no request to it was due"));
                }
                v
            }
            K::Tok { rid, host, path, form, .. } => {
                let mut v = vec![];
                let mut whys = vec![];
                let refresh = get(form, "grant_type") == Some("refresh_token");
                for (i, x) in st.ex.iter().enumerate() {
                    if matches!(x.ph, Ph::Start | Ph::Retry) && !refresh {
                        match self.match_code(&st, x, host, path, form) {
                            Ok(()) => {
                                let mut n = st.clone();
                                n.ex[i].ph = Ph::Sent(*rid);
                                n.ex[i].since = self.t.mono;
                                v.push(n);
                            }
                            Err(e) => whys.push((s("code-mismatch"), x.acct.clone(), e)),
                        }
                    }
                }
                for (i, x) in st.rf.iter().enumerate() {
                    if x.ph == Ph::Start && refresh {
                        match self.match_refresh(x, host, path, form) {
                            Ok(()) => {
                                let mut n = st.clone();
                                n.rf[i].ph = Ph::Sent(*rid);
                                n.rf[i].since = self.t.mono;
                                v.push(n);
                            }
                            Err(e) => whys.push((s("refresh-mismatch"), x.acct.clone(), e)),
                        }
                    }
                }
                if v.is_empty() {
                    if whys.is_empty() {
                        let a = acct_of_host(self.confs, host);
                        whys.push((s(if refresh { "refresh-unexpected" } else { "code-unexpected" }), a.clone(), format!("request to {host} that nothing asked for: {form:?}; account {a} is {:?}", st.accts.get(&a))));
                    }
                    for (k, a, y) in whys {
                        self.rej(&k, &a, y);
                    }
                }
                v
            }
            K::TokEnd { rid, class } => {
                for x in n.ex.iter_mut() {
                    if x.ph == Ph::Sent(*rid) {
                        x.ph = Ph::Got(class.clone());
                    }
                }
                for x in n.rf.iter_mut() {
                    if x.ph == Ph::Sent(*rid) {
                        x.ph = Ph::Got(class.clone());
                    }
                }
                vec![n]
            }
            K::TokClosed { rid } => {
                for x in n.ex.iter_mut() {
                    if x.ph == Ph::Sent(*rid) {
                        x.ph = Ph::Got(Class::Broken);
                    }
                }
                for x in n.rf.iter_mut() {
                    if x.ph == Ph::Sent(*rid) {
                        x.ph = Ph::Got(Class::Broken);
                    }
                }
                vec![n]
            }
            K::Spawn { id, kind, cmd, acct, arg, failed, .. } => self.spawn(st, *id, kind, cmd, acct, arg, *failed),
            K::SpawnEnd { id, code, killed } => {
                if let EvRun::Running { id: x, since } = &st.evrun {
                    if x == id {
                        if *killed && self.t.mono < since + 10 * SEC {
                            self.rej("event-killed-early", "", format!("an event command was killed after {} ms", (self.t.mono - since) / 1_000_000));
                            return vec![];
                        }
                        n.evrun = EvRun::None;
                    }
                }
                let mut alt = vec![];
                for i in (0..st.rf.len()).rev() {
                    if st.rf[i].ph == Ph::TransRun(*id) {
                        let x = st.rf[i].clone();
                        if *killed && self.t.mono + SEC < x.since + 180 * SEC {
                            self.rej("trans-killed-early", &x.acct, s("transient_error_if_cmd was killed before three minutes"));
                            return vec![];
                        }
                        n.rf.remove(i);
                        if Self::valid_rf(&n, &x) {
                            // A command which ends just when its time is up may be seen either way.
                            let late = self.t.mono + SEC >= x.since + 180 * SEC;
                            if *code == 0 && !*killed && late {
                                let mut m = n.clone();
                                m.accts.insert(x.acct.clone(), St::Empty);
                                self.event(&mut m, &x.acct, "token_invalidated");
                                alt.push(m);
                            }
                            if *code == 0 && !*killed {
                                if let Some(St::Active { ongoing, .. }) = n.accts.get_mut(&x.acct) {
                                    *ongoing = false;
                                }
                            } else {
                                n.accts.insert(x.acct.clone(), St::Empty);
                                self.event(&mut n, &x.acct, "token_invalidated");
                            }
                        }
                    }
                }
                alt.push(n);
                alt
            }
            K::Log { level, msg } => {
                let mut v = vec![];
                if *level == log::Level::Error {
                    for (i, x) in st.nq.iter().enumerate() {
                        if let Nq::Err { acct, cmds } = x {
                            if cmds.contains(&None) && msg.contains(acct.as_str()) {
                                let mut m = n.clone();
                                m.nq.remove(i);
                                v.push(m);
                            }
                        }
                    }
                }
                v.push(n);
                v
            }
            K::Quiet => self.quiet(st),
            K::Suspend { .. } => vec![n],
            _ => vec![n],
        }
    }
    fn spawn(&mut self, st: S, id: usize, kind: &CmdKind, cmd: &str, acct: &str, arg: &str, failed: bool) -> Vec<S> {
        let mut v = vec![];
        if self.deaf && !matches!(kind, CmdKind::Trans) {
            return vec![st];
        }
        match kind {
            CmdKind::Auth => {
                for (i, x) in st.nq.iter().enumerate() {
                    if let Nq::Auth { acct: a, cmd: c, uid } = x {
                        if a == acct && c == cmd {
                            let mut n = st.clone();
                            n.nq.remove(i);
                            if self.unify(&mut n, *uid, arg) {
                                v.push(n);
                            }
                        }
                    }
                }
                if v.is_empty() {
                    self.rej("notify-unexpected", acct, format!("auth_notify_cmd {cmd:?} run for {acct} with {arg} while it is {:?} and due {:?}", st.accts.get(acct), st.nq));
                }
            }
            CmdKind::Err => {
                for (i, x) in st.nq.iter().enumerate() {
                    if let Nq::Err { acct: a, cmds } = x {
                        if a == acct && cmds.contains(&Some(s(cmd))) {
                            let mut n = st.clone();
                            n.nq.remove(i);
                            v.push(n);
                        }
                    }
                }
                if v.is_empty() {
                    self.rej("error-unexpected", acct, format!("error_notify_cmd {cmd:?} run for {acct}: {arg}"));
                }
            }
            CmdKind::Event => {
                if let EvRun::Expect { acct: a, ev, cmd: c } = &st.evrun {
                    if a == acct && *ev == arg && c == cmd {
                        let mut n = st.clone();
                        n.evrun = if failed { EvRun::None } else { EvRun::Running { id, since: self.t.mono } };
                        v.push(n);
                    }
                }
                if v.is_empty() {
                    self.rej("event-unexpected", acct, format!("event {arg} run for {acct} ({cmd:?}); expected {:?} then {:?}", st.evrun, st.evq));
                }
            }
            CmdKind::Trans => {
                for (i, x) in st.rf.iter().enumerate() {
                    if x.acct == acct && x.ph == Ph::Trans(s(cmd)) {
                        let mut n = st.clone();
                        if failed {
                            let x = n.rf.remove(i);
                            if Self::valid_rf(&n, &x) {
                                n.accts.insert(x.acct.clone(), St::Empty);
                                self.event(&mut n, &x.acct, "token_invalidated");
                            }
                        } else {
                            n.rf[i].ph = Ph::TransRun(id);
                            n.rf[i].since = self.t.mono;
                        }
                        v.push(n);
                    }
                }
                if v.is_empty() {
                    self.rej("trans-unexpected", acct, format!("transient_error_if_cmd {cmd:?} run for {acct}, which is {:?}", st.accts.get(acct)));
                }
            }
        }
        v
    }
    fn cmd_end(&mut self, st: S, pid: usize, code: i32, out: &[u8], err: &[u8]) -> Vec<S> {
        let args = self.cmds[&pid].0.clone();
        let sub = args[0].clone();
        let acct = args.iter().skip(1).find(|x| *x != "-u").cloned().unwrap_or_default();
        let mut n = st.clone();
        let o = String::from_utf8_lossy(out).into_owned();
        let er = String::from_utf8_lossy(err).into_owned();
        if code == -1 {
            // Nobody waited for the answer.
            n.ops.remove(&pid);
            return vec![n];
        }
        let got = if code == 0 { format!("success {o:?}") } else { format!("failure {code} {er:?} {o:?}") };
        match st.ops.get(&pid) {
            None => return vec![n],
            Some(Op::Start) => {
                self.rej(&format!("{sub}-early"), &acct, format!("'{}' reported {got} without taking effect", args.join(" ")));
                return vec![];
            }
            Some(Op::Done(e)) => {
                let u = find_url(&er);
                if let Expect::Maybe(x) = e {
                    if code == 1 && out.is_empty() && !err.is_empty() {
                        n.ops.remove(&pid);
                        return vec![n];
                    }
                    n.ops.insert(pid, Op::Done((**x).clone()));
                    return self.cmd_end(n, pid, code, out, err);
                }
                let ok = match e {
                    Expect::Maybe(_) => unreachable!(),
                    Expect::Token(at) => code == 0 && o == format!("{at}\n"),
                    Expect::Pending { uid, url: true } => {
                        code == 1 && out.is_empty() && u.is_some() && self.unify(&mut n, *uid, u.as_ref().unwrap())
                    }
                    Expect::Pending { url: false, .. } => code == 1 && out.is_empty() && u.is_none(),
                    Expect::Fail => code == 1 && out.is_empty() && !err.is_empty(),
                    Expect::Ok => code == 0 && out.is_empty(),
                    Expect::Any => code == 0 && !out.is_empty(),
                    Expect::Status(v) => code == 0 && self.status_ok(v, &o),
                };
                if !ok {
                    let e = format!("{e:?}");
                    self.rej(&format!("{sub}-result"), &acct, format!("'{}' reported {got}, expected {e}; account is {:?}", args.join(" "), st.accts.get(&acct)));
                    return vec![];
                }
                n.ops.remove(&pid);
            }
        }
        vec![n]
    }
    fn status_ok(&self, v: &[(String, St)], out: &str) -> bool {
        let real = |b: u64| -> Option<i64> {
            let off = self.t.real - self.t.boot;
            b.checked_add(off).map(|x| (x / SEC) as i64)
        };
        let lines: Vec<&str> = out.trim_end_matches('\n').split('\n').collect();
        if lines.len() != v.len() {
            return false;
        }
        // In the order of the names, or of the lines.
        let mut vs: Vec<&(String, St)> = v.iter().collect();
        vs.sort_by_key(|x| format!("{}: ", x.0));
        let mut ws: Vec<&(String, St)> = v.iter().collect();
        ws.sort_by_key(|x| x.0.clone());
        self.status_lines(&vs, &lines, &real) || self.status_lines(&ws, &lines, &real)
    }
    fn status_lines(&self, vs: &[&(String, St)], lines: &[&str], real: &dyn Fn(u64) -> Option<i64>) -> bool {
        for (l, (name, st)) in lines.iter().zip(vs) {
            let Some(r) = l.strip_prefix(&format!("{name}: ")) else { return false };
            let low = r.to_lowercase();
            let near = |txt: Option<&str>, b: u64| -> bool {
                match (txt.and_then(rfc2822), real(b)) {
                    (Some(x), Some(y)) => (x - y).abs() <= 1,
                    (None, _) => b > 1 << 62,
                    _ => false,
                }
            };
            let after = |k: &str| low.find(k).map(|i| &r[i + k.len()..]).map(|x| x.trim_start().split(|c| c == ';' || c == ')').next().unwrap());
            let ok = match st {
                St::Empty => low.starts_with("no access token"),
                St::Pending { last: None, .. } => low.contains("pending"),
                St::Pending { last: Some(t), .. } => low.contains("pending") && (self.deaf || near(after("last notification"), *t)),
                St::Active { obt, exp, last, .. } => {
                    let act = low.starts_with("active access token") && near(after("obtained"), *obt) && near(after("expires"), *exp);
                    let exd = low.contains("expired")
                        && match last {
                            Some(t) => near(after("last refresh attempt"), *t),
                            None => true,
                        };
                    (act && exp.saturating_add(TOL) > self.t.boot) || (exd && *exp <= self.t.boot + TOL)
                }
            };
            if !ok {
                return false;
            }
        }
        true
    }
    /// Nothing moves any more without the environment or time: everything urgent must be done.
    fn quiet(&mut self, mut st: S) -> Vec<S> {
        let t = self.t;
        let mut bad: Option<(&str, String, String)> = None;
        let mut b = |k: &'static str, a: &str, y: String| {
            if bad.is_none() {
                bad = Some((k, s(a), y));
            }
        };
        for (pid, _) in &st.starting {
            b("server-start-hangs", "", format!("server {pid} is neither up nor has it failed"));
        }
        if let Some(pid) = st.detach {
            b("server-not-detached", "", format!("server {pid} does not go into the background"));
        }
        for (pid, _) in &st.ops {
            b("cmd-unanswered", "", format!("'{}' is not answered", self.cmds[pid].0.join(" ")));
        }
        for (bid, _) in &st.brow {
            if !matches!(self.brows[bid], Brow::Bad) && self.whole.contains(bid) {
                b("browser-unanswered", "", format!("browser request {bid} is not answered"));
            }
        }
        for x in &st.ex {
            match x.ph {
                Ph::Start => b("exchange-missing", &x.acct, s("the code was not sent to the token server")),
                Ph::Got(_) => b("exchange-unapplied", &x.acct, s("the token server's answer had no effect")),
                Ph::Retry if t.mono > x.since + LATE => b("exchange-no-retry", &x.acct, s("the exchange is neither retried nor given up")),
                _ => (),
            }
        }
        for x in &st.rf {
            match x.ph {
                Ph::Start => b("refresh-missing", &x.acct, s("the refresh request was not sent")),
                Ph::Got(_) => b("refresh-unapplied", &x.acct, s("the token server's answer to a refresh had no effect")),
                Ph::Trans(_) => b("trans-missing", &x.acct, s("transient_error_if_cmd was not run")),
                Ph::TransRun(_) if t.mono > x.since + 180 * SEC + LATE => b("trans-not-killed", &x.acct, s("transient_error_if_cmd runs for more than three minutes")),
                _ => (),
            }
        }
        for x in &st.want {
            if !x.2 {
                b("refresh-not-started", &x.0, s("the refresh that was asked for is not under way"));
            }
        }
        st.want.clear();
        for x in &st.nq {
            match x {
                Nq::Auth { acct, .. } => b("notify-missing", acct, s("auth_notify_cmd was not run")),
                Nq::Err { acct, .. } => b("error-missing", acct, s("the failure was not reported to the user")),
            }
        }
        if let EvRun::Expect { acct, ev, .. } = &st.evrun {
            b("event-missing", acct, format!("event {ev} of {acct} was not run"));
        }
        if let EvRun::Running { since, .. } = &st.evrun {
            if t.mono > since + 35 * SEC {
                b("event-not-killed", "", s("a hanging event command delays events for more than half a minute"));
            }
        }
        if st.evrun == EvRun::None && st.up.is_some() && self.conf(&st).event.is_some() {
            if let Some((a, e, _)) = st.evq.iter().find(|x| x.2) {
                b("event-missing", a, format!("event {e} of {a} was not run"));
            }
        }
        if st.evrun == EvRun::None {
            // Events that need not be run will not be run later either.
            st.evq.clear();
        }
        let names: Vec<String> = st.accts.keys().cloned().collect();
        for acct in names {
            for notify in [false, true] {
                if notify && self.deaf {
                    continue;
                }
                let d = if notify { self.notify_due(&st, &acct) } else { self.due(&st, &acct) };
                let key = (acct.clone(), notify);
                match d {
                    Some(d) if d <= t.boot => {
                        if notify && d == 0 {
                            if self.conf(&st).auth.is_some() {
                                b("notify-missing", &acct, s("a new authorisation request was not announced at once"));
                            }
                            continue;
                        }
                        let since = t.mono - (t.boot - d).min(t.mono - self.prev_quiet.mono);
                        let since = *st.overdue.entry(key).or_insert(since);
                        // The periodic wake-up is there for suspends; otherwise timers are exact.
                        let exact = self.suspended.map_or(true, |x| t.mono > x + LATE);
                        if t.mono > since + if exact { 2 * SEC } else { LATE } {
                            if notify {
                                if self.conf(&st).auth.is_some() {
                                    b("notify-late", &acct, format!("no reminder for {} s after it was due", (t.mono - since) / SEC));
                                }
                            } else {
                                b("refresh-late", &acct, format!("no refresh for {} s after it was due", (t.mono - since) / SEC));
                            }
                        }
                    }
                    _ => {
                        st.overdue.remove(&key);
                    }
                }
            }
        }
        match bad {
            None => vec![st],
            Some((k, a, y)) => {
                self.rej(k, &a, y);
                vec![]
            }
        }
    }
    pub fn new(trace: &'a [Ev], confs: &'a [Conf]) -> Oracle<'a> {
        let mut set = BTreeSet::new();
        set.insert(S::new());
        let t0 = trace.first().map_or(T { mono: 0, boot: 0, real: 0 }, |e| e.t);
        Oracle {
            trace,
            confs,
            set,
            t: t0,
            prev_quiet: t0,
            suspended: None,
            disk: None,
            cmds: BTreeMap::new(),
            brows: BTreeMap::new(),
            dump_bytes: vec![],
            rejects: vec![],
            seen_states: 0,
            http_port: None,
            https_port: None,
            final_states: vec![],
            kills: BTreeSet::new(),
            whole: BTreeSet::new(),
            deaf: false,
        }
    }
    /// As if no user command told anyone anything: what is left concerns the accounts themselves.
    fn deaf(mut self) -> Oracle<'a> {
        self.deaf = true;
        self
    }
    /// Index of the first event the specification cannot produce, and why.
    pub fn run(&mut self) -> Option<(usize, Vec<Reject>)> {
        for (i, ev) in self.trace.iter().enumerate() {
            // Internal steps happen before the event, at the time of the previous or of this one.
            self.close();
            if ev.t.mono > self.t.mono + TOL || ev.t.boot > self.t.boot + TOL {
                self.t = ev.t;
                self.close();
            }
            self.t = ev.t;
            match &ev.k {
                K::Cmd { pid, args, stdin } => {
                    self.cmds.insert(*pid, (args.clone(), stdin.clone()));
                }
                K::Brow { bid, d } => {
                    self.brows.insert(*bid, d.clone());
                }
                K::BrowAll { bid } => {
                    self.whole.insert(*bid);
                }
                K::File { conf } => self.disk = *conf,
                K::Server { .. } => (),
                K::CmdEnd { pid, code: 0, out, .. } if self.cmds.get(pid).map_or(false, |c| c.0[0] == "dump") => {
                    self.dump_bytes.push((out.clone(), *pid));
                }
                K::Bind { pid, .. } => {
                    // Ports are known once the server is up.
                    let mut it = w().net.listeners.iter().filter(|l| l.pid == *pid).filter_map(|l| l.addr);
                    let c = self.set.iter().next().map(|x| x.starting.get(pid).and_then(|y| y.conf).unwrap_or(x.conf)).unwrap_or(0);
                    let c = &self.confs[c];
                    self.http_port = if c.http.as_deref() == Some("none") { None } else { it.next().map(|a| a.port()) };
                    self.https_port = if c.https.as_deref() == Some("none") { None } else { it.next().map(|a| a.port()) };
                }
                _ => (),
            }
            if std::env::var_os("MC_SETS").is_some() {
                eprintln!("{i} {} {}", self.set.len(), short(&ev.k));
            }
            self.rejects.clear();
            self.event_step(ev);
            if let K::Quiet | K::Suspend { .. } = ev.k {
                self.prev_quiet = ev.t;
            }
            if let K::Suspend { .. } = ev.k {
                self.suspended = Some(ev.t.mono);
            }
            if self.set.is_empty() {
                return Some((i, std::mem::take(&mut self.rejects)));
            }
        }
        self.close();
        self.final_states = self.set.iter().cloned().collect();
        None
    }
}

fn acct_of_host(confs: &[Conf], host: &str) -> String {
    for c in confs {
        for a in &c.accts {
            if url(&a.token_uri).map_or(false, |u| u.host == host) {
                return a.name.clone();
            }
        }
    }
    String::new()
}

/// Which properties a deviation from the specification concerns, given what happened before.
fn blame(trace: &[Ev], confs: &[Conf], kind: &str, acct: &str) -> Vec<String> {
    let mut v: Vec<&str> = vec![];
    let facts = Facts::new(trace, confs, acct);
    let state = |v: &mut Vec<&str>| {
        let f = &facts;
        for (c, p) in [
            (f.revoked, "C07"),
            (f.secure, "C01"),
            (f.reload, "C02"),
            (f.rejected, "C03"),
            (f.badredir, "C04"),
            (f.exchange, "C05"),
            (f.exfail, "C06"),
            (f.transient, "C10"),
            (f.refused, "C11"),
            (f.refreshed, "C12"),
            (f.restore, "C18"),
            (f.restore, "C19"),
            (f.badrestore, "C20"),
            (f.raw, "C21"),
            (f.badbrow, "C22"),
        ] {
            if c {
                v.push(p);
            }
        }
    };
    match kind {
        "server-died" => v.push("*"),
        "show-result" | "show-early" => {
            v.extend(["C13", "C24", "C26"]);
            state(&mut v);
        }
        "refresh-result" | "refresh-early" => {
            v.extend(["C13", "C26", "C08"]);
            state(&mut v);
        }
        "revoke-result" | "revoke-early" => v.extend(["C07", "C26", "C21"]),
        "reload-result" | "reload-early" => v.extend(["C03", "C26", "C02", "C01"]),
        "dump-result" | "dump-early" => v.extend(["C18", "C26"]),
        "restore-result" | "restore-early" => v.extend(["C18", "C19", "C20", "C26"]),
        "status-result" | "status-early" => {
            v.extend(["C28", "C26"]);
            state(&mut v);
        }
        "url-wrong" => {
            v.extend(["C24", "C23", "C26"]);
            if facts.reload {
                v.push("C02");
                v.push("C01");
            }
        }
        "code-mismatch" => v.extend(["C04", "C24", "C25"]),
        "code-unexpected" => {
            v.extend(["C04", "C25"]);
            state(&mut v);
        }
        "refresh-mismatch" => {
            v.extend(["C12", "C08", "C25"]);
            state(&mut v);
        }
        "refresh-unexpected" | "attempt-unexpected" => {
            v.extend(["C08", "C09", "C12"]);
            state(&mut v);
        }
        "refresh-late" => {
            v.extend(["C09", "C08", "C14", "C27"]);
            state(&mut v);
        }
        "refresh-not-started" => {
            v.extend(["C08", "C13", "C14"]);
            state(&mut v);
        }
        "refresh-missing" | "refresh-unapplied" => {
            v.extend(["C12", "C27", "C14", "C10", "C11"]);
        }
        "exchange-missing" | "exchange-unapplied" | "exchange-no-retry" => v.extend(["C05", "C06", "C27", "C14"]),
        "notify-unexpected" => {
            v.extend(["C17", "C24"]);
            state(&mut v);
        }
        "notify-missing" | "notify-late" => {
            v.extend(["C17", "C14", "C27"]);
            if facts.reload {
                v.push("C02");
            }
        }
        "error-unexpected" | "error-missing" => {
            v.push("C06");
            if facts.badredir {
                v.push("C04");
            }
            if facts.revoked {
                v.push("C07");
            }
        }
        "event-unexpected" => {
            v.extend(["C15", "C16"]);
            state(&mut v);
        }
        "event-missing" => v.extend(["C15", "C16", "C27"]),
        "event-not-killed" | "event-killed-early" => v.extend(["C16"]),
        "trans-unexpected" | "trans-missing" | "trans-not-killed" | "trans-killed-early" => v.extend(["C10"]),
        "second-server" => v.extend(["C29"]),
        "server-start-bad" => v.extend(["C29", "C30", "C26", "C23"]),
        "server-start-early" | "server-start-failed" | "server-start-hangs" | "server-start-quiet" | "server-detached" | "server-not-detached" => v.extend(["C29", "C26"]),
        "cmd-unanswered" => v.extend(["C14", "C27", "C21", "C26"]),
        "browser-unanswered" | "browser-reply" | "browser-early" => v.extend(["C22", "C27", "C14"]),
        _ => v.push("*"),
    }
    if facts.conf {
        v.push("C23");
    }
    v.extend(facts.also.iter().map(|x| x.as_str()));
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x.to_string()).collect()
}
#[derive(Default, Debug)]
struct Facts {
    revoked: bool,
    secure: bool,
    reload: bool,
    rejected: bool,
    badredir: bool,
    exchange: bool,
    exfail: bool,
    transient: bool,
    refused: bool,
    refreshed: bool,
    restore: bool,
    badrestore: bool,
    raw: bool,
    badbrow: bool,
    conf: bool,
    /// Properties the scenario is about.
    also: Vec<String>,
}
impl Facts {
    fn new(trace: &[Ev], confs: &[Conf], acct: &str) -> Facts {
        let mut f = Facts::default();
        let mut disk: Option<usize> = None;
        let mut conf: Option<usize> = None;
        let mut kinds: BTreeMap<usize, (bool, String)> = BTreeMap::new();
        let mut dumps: Vec<&[u8]> = vec![];
        let any = acct.is_empty();
        for e in trace {
            match &e.k {
                K::File { conf } => disk = *conf,
                K::Server { conf: c, .. } | K::Start { conf: Some(c), .. } => {
                    conf = Some(*c);
                }
                K::Cmd { args, stdin, .. } => match args[0].as_str() {
                    "revoke" => f.revoked |= any || args.last().map(|x| x.as_str()) == Some(acct),
                    "reload" => match disk {
                        None => f.rejected = true,
                        Some(c) => {
                            f.reload = true;
                            if let Some(o) = conf {
                                let x = confs[o].get(acct).map(|a| a.secure());
                                let y = confs[c].get(acct).map(|a| a.secure());
                                if x != y || any {
                                    f.secure = true;
                                }
                            }
                            conf = Some(c);
                        }
                    },
                    "restore" => {
                        if dumps.contains(&stdin.as_slice()) {
                            f.restore = true;
                        } else {
                            f.badrestore = true;
                        }
                    }
                    _ => (),
                },
                K::CmdEnd { out, code: 0, .. } if out.len() > 12 => dumps.push(out),
                K::Brow { d, .. } => match d {
                    Brow::Bad | Brow::Error | Brow::Either(_) | Brow::Lost(_) => f.badbrow = true,
                    Brow::Redirect { error, .. } => {
                        f.badredir = true;
                        f.exfail |= error.is_some();
                    }
                },
                K::Tok { rid, form, host, .. } => {
                    let a = acct_of_host(confs, host);
                    let r = get(form, "grant_type") == Some("refresh_token");
                    if any || a == acct {
                        if r {
                            f.refreshed = true;
                        } else {
                            f.exchange = true;
                        }
                    }
                    kinds.insert(*rid, (r, a));
                }
                K::TokEnd { rid, class } => {
                    let (r, a) = kinds.get(rid).cloned().unwrap_or_default();
                    if any || a == acct {
                        match class {
                            Class::Refuse => {
                                if r {
                                    f.refused = true
                                } else {
                                    f.exfail = true
                                }
                            }
                            Class::Broken => {
                                if r {
                                    f.transient = true
                                } else {
                                    f.exfail = true
                                }
                            }
                            _ => (),
                        }
                    }
                }
                K::TokClosed { rid } => {
                    let (r, a) = kinds.get(rid).cloned().unwrap_or_default();
                    if any || a == acct {
                        if r {
                            f.transient = true
                        } else {
                            f.exfail = true
                        }
                    }
                }
                K::NetFail { host } => {
                    if any || acct_of_host(confs, host) == acct {
                        f.transient = true;
                        f.exfail = true;
                        f.exchange = true;
                    }
                }
                K::Note(x) if x.starts_with("raw") => f.raw = true,
                K::Note(x) if x.starts_with("conf") => f.conf = true,
                K::Note(x) if x.starts_with("blame ") => f.also.push(x[6..].into()),
                _ => (),
            }
        }
        f
    }
}

pub fn judge(trace: &[Ev], prop: &str) -> Vec<Viol> {
    let mut out = vec![];
    let confs = &ee().confs;
    for (i, e) in trace.iter().enumerate() {
        match &e.k {
            K::Bad { prop, kind, text } => out.push(Viol { props: prop.split(',').map(|x| x.to_string()).collect(), kind: kind.clone(), text: text.clone(), at: i }),
            // What the standard library does if the terminal is gone.
            K::Panic { pid, msg, .. } if ee().free.contains(pid) && msg.starts_with("failed printing to stdout") => (),
            K::Panic { pid, task, msg } if *pid != 0 => {
                out.push(Viol { props: vec!["*".into()], kind: "panic".into(), text: format!("thread {task} of process {pid} panicked: {msg}"), at: i })
            }
            K::StepLimit => out.push(Viol { props: vec!["*".into()], kind: "livelock".into(), text: "the program takes steps without end".into(), at: i }),
            K::Deadlock { what } if what.starts_with("mutex: ") => out.push(Viol { props: vec!["C27".into(), "C14".into()], kind: "deadlock".into(), text: what.clone(), at: i }),
            K::Deadlock { what } => out.push(Viol { props: vec!["*".into()], kind: "deadlock".into(), text: what.clone(), at: i }),
            _ => (),
        }
    }
    let nospec = trace.iter().any(|e| matches!(&e.k, K::Note(x) if x == "nospec"));
    if !nospec {
        let mut o = Oracle::new(trace, confs);
        if let Some((i, rs)) = o.run() {
            let mut seen: Vec<(String, String)> = vec![];
            let mut more: Option<(String, Vec<String>)> = None;
            for r in rs {
                if seen.contains(&(r.kind.clone(), r.acct.clone())) {
                    continue;
                }
                seen.push((r.kind.clone(), r.acct.clone()));
                let mut props = blame(&trace[..=i], confs, &r.kind, &r.acct);
                if matches!(r.kind.split('-').next(), Some("event" | "notify" | "error")) && more.is_none() {
                    // Is this all, or does it only show that an account is not what it should be?
                    more = Some(Oracle::new(trace, confs).deaf().run().map_or((String::new(), vec![]), |(i, rs)| {
                        let why = rs.first().map_or(String::new(), |r| format!("; moreover, at event {i}: {}", r.why));
                        (why, rs.iter().flat_map(|r| blame(&trace[..=i], confs, &r.kind, &r.acct)).collect())
                    }));
                }
                let (also, m) = more.clone().unwrap_or_default();
                props.extend(m);
                props.sort();
                props.dedup();
                out.push(Viol { props, kind: r.kind, text: format!("at event {i} {:?}: {}{also}", short(&trace[i].k), r.why), at: i });
            }
        }
    }
    out.extend(crate::monitors::all(trace, confs, prop));
    out
}
fn short(k: &K) -> String {
    format!("{k:?}").chars().take(200).collect()
}
