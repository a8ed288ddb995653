//! What scenarios are written in: the user, the browser and the token servers at work.
use crate::env::*;
use crate::util::*;
use std::collections::BTreeMap;
use vstd::explore::choose;
use vstd::vnet;
use vstd::world::{self, w};

pub const RUN: &str = "/v/run";
pub const HOME: &str = "/v/home";
pub const CONF: &str = "/v/home/.config/pizauth.conf";
pub const SOCK: &str = "/v/run/pizauth/pizauth.sock";

#[derive(Clone, Debug, Default)]
pub struct Res {
    pub code: Option<i32>,
    pub out: String,
    pub raw: Vec<u8>,
    pub err: String,
}
impl Res {
    pub fn url(&self) -> Option<String> {
        find_url(&self.err)
    }
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
}

pub fn mkdirs() {
    use vstd::interpose::{Kind, Node};
    for d in ["/v/run", "/v/home", "/v/home/.config"] {
        w().fs.nodes.insert(d.into(), Node { kind: Kind::Dir, mode: 0o700, foreign: false, unreadable: false });
    }
}
pub fn put_file(path: &str, text: &[u8]) {
    use vstd::interpose::{Kind, Node};
    vstd::interpose::fs_touch();
    w().fs.nodes.insert(path.into(), Node { kind: Kind::File(text.to_vec()), mode: 0o600, foreign: false, unreadable: false });
}
/// Put a configuration in place; returns its number.
pub fn write_conf(c: &Conf) -> usize {
    let e = ee();
    let i = match e.confs.iter().position(|x| x == c) {
        Some(i) => i,
        None => {
            e.confs.push(c.clone());
            e.confs.len() - 1
        }
    };
    for a in &c.accts {
        if let Some(s) = &a.secret {
            let h = url(&a.token_uri).map_or(String::new(), |u| u.host);
            if !e.secrets.iter().any(|x| x.0 == *s && x.2 == h) {
                e.secrets.push((s.clone(), Secret::ClientSecret, h));
            }
        }
    }
    put_file(CONF, c.text().as_bytes());
    e.push(K::File { conf: Some(i) });
    i
}
pub fn write_bad_conf(text: Option<&str>) {
    match text {
        Some(t) => put_file(CONF, t.as_bytes()),
        None => {
            vstd::interpose::fs_touch();
            w().fs.nodes.remove(CONF);
        }
    }
    ee().push(K::File { conf: None });
}
pub fn penv() -> BTreeMap<String, String> {
    if let Some(x) = &ee().penv {
        return x.clone();
    }
    [("XDG_RUNTIME_DIR", RUN), ("HOME", HOME), ("SHELL", "/bin/sh"), ("PATH", "/bin")]
        .iter()
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect()
}
pub fn server_args() -> Vec<&'static str> {
    vec!["pizauth", "server", "-d"]
}
/// Start a server on the configuration in place and let it come up.
pub fn start_server(conf: usize) -> usize {
    let pid = start_server_nowait(conf);
    quiet();
    pid
}
pub fn start_server_nowait(conf: usize) -> usize {
    let pid = world::spawn_proc(true, &server_args(), penv(), vec![]);
    ee().servers.push(pid);
    ee().push(K::Server { pid, conf });
    pid
}
/// Start a server which may fail to come up; `conf` is what it must run with, if it can at all.
pub fn start_any(args: &[&str], env: BTreeMap<String, String>, conf: Option<usize>) -> usize {
    let pid = start_init(args, env, conf);
    world::start_proc(pid);
    pid
}
/// The same, but `start_proc` is up to the caller.
pub fn start_init(args: &[&str], env: BTreeMap<String, String>, conf: Option<usize>) -> usize {
    let mut a = vec!["pizauth".to_string(), "server".to_string()];
    a.extend(args.iter().map(|x| x.to_string()));
    let daemon = !args.iter().any(|x| x.starts_with('-') && !x.starts_with("--") && x.contains('d') && !x.starts_with("-c"));
    let pid = world::new_proc(true, a, env, vec![]);
    ee().servers.push(pid);
    ee().push(K::Start { pid, conf, daemon });
    pid
}
/// Start a process whose outcome the scenario itself looks at.
pub fn start_free(args: &[&str], env: BTreeMap<String, String>, stdin: Vec<u8>) -> usize {
    let mut a = vec!["pizauth".to_string()];
    a.extend(args.iter().map(|x| x.to_string()));
    let pid = world::new_proc(false, a, env, stdin);
    ee().free.insert(pid);
    world::start_proc(pid);
    pid
}
/// Where the control socket belongs.
pub fn sock() -> String {
    let e = penv();
    match (e.get("XDG_RUNTIME_DIR"), e.get("TMPDIR")) {
        (Some(x), _) => format!("{x}/pizauth/pizauth.sock"),
        (_, x) => format!("{}/runtime-{}/pizauth/pizauth.sock", x.map_or("/tmp", |x| x.as_str()), user()),
    }
}
/// The name of the user as whom this runs.
pub fn user() -> String {
    unsafe {
        let p = libc::getpwuid(libc::geteuid());
        if p.is_null() {
            return "Unknown".into();
        }
        std::ffi::CStr::from_ptr((*p).pw_name).to_string_lossy().into_owned()
    }
}
/// The server which is running, or being started.
pub fn the_server() -> Option<usize> {
    let bound = || {
        let l = vstd::interpose::socket_at(&sock()).ok()?;
        let l = &w().net.listeners[l];
        Some(l.pid).filter(|_| l.live)
    };
    bound().or_else(|| ee().servers.iter().rev().copied().find(|p| w().procs[*p].exit.is_none()))
}
pub fn boot(c: &Conf) -> usize {
    let i = write_conf(c);
    start_server(i)
}
pub fn kill_server(pid: usize) {
    world::exit_proc(pid, 137);
}
/// Start a command; `quiet` or `sleep` lets it run.
pub fn cmd_in(args: &[&str], stdin: Vec<u8>) -> usize {
    let mut a = vec!["pizauth"];
    a.extend_from_slice(args);
    let pid = world::new_proc(false, a.iter().map(|x| x.to_string()).collect(), penv(), stdin.clone());
    ee().push(K::Cmd { pid, args: args.iter().map(|x| x.to_string()).collect(), stdin });
    ee().cli.push(pid);
    world::start_proc(pid);
    pid
}
pub fn cmd(args: &[&str]) -> usize {
    cmd_in(args, vec![])
}
pub fn result(pid: usize) -> Res {
    let p = &w().procs[pid];
    Res {
        code: p.exit,
        out: String::from_utf8_lossy(&p.stdout).into_owned(),
        raw: p.stdout.clone(),
        err: String::from_utf8_lossy(&p.stderr).into_owned(),
    }
}
/// Run a command to its end (or as far as it gets without time passing).
pub fn run(args: &[&str]) -> Res {
    let p = cmd(args);
    quiet();
    result(p)
}
pub fn run_in(args: &[&str], stdin: Vec<u8>) -> Res {
    let p = cmd_in(args, stdin);
    quiet();
    result(p)
}
pub fn quiet() {
    world::wait_quiet();
}
/// Let virtual time pass.
pub fn sleep(secs: u64) {
    sleep_ns(secs * SEC);
}
pub fn sleep_ns(ns: u64) {
    let dl = w().mono + ns;
    while !world::block(world::key(world::K_USER, 1), Some(dl), "driver:sleep") {}
    quiet();
}
/// Time passes until something happens in the program or `secs` have passed.
pub fn suspend(secs: u64) {
    quiet();
    w().susp += secs * SEC;
    ee().push(K::Suspend { ns: secs * SEC });
    quiet();
}
pub fn devs(on: bool) {
    w().devs_on = on;
}

/// URL last announced or shown for an account.
pub fn url_of(acct: &str) -> Option<String> {
    for e in ee().trace.iter().rev() {
        match &e.k {
            K::Spawn { kind: CmdKind::Auth, acct: a, arg, .. } if a == acct => return Some(arg.clone()),
            K::CmdEnd { pid, err, .. } => {
                let a = &w().procs[*pid].args;
                if a.len() >= 3 && (a[1] == "show" || a[1] == "refresh") && a.last().map(|x| x.as_str()) == Some(acct) {
                    if let Some(u) = find_url(&String::from_utf8_lossy(err)) {
                        return Some(u);
                    }
                }
            }
            _ => (),
        }
    }
    None
}
/// All different authorisation URLs seen for an account, oldest first.
pub fn urls_of(acct: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |u: String| {
        if !v.contains(&u) {
            v.push(u)
        }
    };
    for e in ee().trace.iter() {
        match &e.k {
            K::Spawn { kind: CmdKind::Auth, acct: a, arg, .. } if a == acct => add(arg.clone()),
            K::CmdEnd { pid, err, .. } => {
                let a = &w().procs[*pid].args;
                if a.len() >= 3 && (a[1] == "show" || a[1] == "refresh") && a.last().map(|x| x.as_str()) == Some(acct) {
                    if let Some(u) = find_url(&String::from_utf8_lossy(err)) {
                        add(u)
                    }
                }
            }
            _ => (),
        }
    }
    v
}
#[derive(Clone, Debug)]
pub struct Redir {
    pub scheme: String,
    pub host: String,
    pub port: Option<u16>,
    pub path: String,
    pub state: Option<String>,
    pub code: Option<String>,
    pub error: Option<String>,
}
/// The redirect a browser would follow after the user authorised `auth_url`.
pub fn redir(auth_url: &str, code: &str) -> Redir {
    let u = url(auth_url).expect("authorisation URL");
    let p = u.params();
    let r = url(get(&p, "redirect_uri").unwrap_or("http://localhost/")).expect("redirect URI");
    Redir {
        scheme: r.scheme.clone(),
        host: r.host.clone(),
        port: r.port,
        path: r.query.as_ref().map_or(r.path.clone(), |q| format!("{}?{q}", r.path)),
        state: get(&p, "state").map(|x| x.to_string()),
        code: Some(code.to_string()),
        error: None,
    }
}
impl Redir {
    pub fn target(&self) -> String {
        let mut q = vec![];
        if let Some(x) = &self.state {
            q.push(format!("state={}", pct_encode(x)));
        }
        if let Some(x) = &self.code {
            q.push(format!("code={}", pct_encode(x)));
        }
        if let Some(x) = &self.error {
            q.push(format!("error={}", pct_encode(x)));
        }
        if q.is_empty() {
            self.path.clone()
        } else {
            format!("{}{}{}", self.path, if self.path.contains('?') { "&" } else { "?" }, q.join("&"))
        }
    }
    pub fn hostport(&self) -> String {
        match self.port {
            Some(p) => format!("{}:{p}", self.host),
            None => self.host.clone(),
        }
    }
    pub fn brow(&self) -> Brow {
        Brow::Redirect {
            scheme: self.scheme.clone(),
            host: self.host.clone(),
            port: self.port,
            state: self.state.clone(),
            code: self.code.clone(),
            error: self.error.clone(),
        }
    }
}
/// Port of a live plain TCP listener: the `n`th the program opened.
pub fn listener(n: usize) -> Option<usize> {
    let s = the_server();
    w().net.listeners.iter().enumerate().filter(|(_, l)| l.live && l.addr.is_some() && Some(l.pid) == s).map(|(i, _)| i).nth(n)
}
pub fn listener_port(port: u16) -> Option<usize> {
    w().net.listeners.iter().position(|l| l.live && l.addr.map_or(false, |a| a.port() == port))
}
/// Send bytes to a listener as one browser request with the given meaning.
pub fn browse(l: usize, bytes: &[u8], d: Brow, fin: bool) -> usize {
    let b = browse_open(l, d);
    browse_send(b, bytes);
    browse_all(b);
    if fin {
        browse_fin(b);
    }
    b
}
/// The same, speaking TLS.
pub fn browse_tls(l: usize, d: Brow) -> usize {
    let b = browse_open(l, d);
    let conn = ee().brows[b].conn;
    let mut t = Box::new(crate::tls::Client::new());
    let x = crate::env::Tls::feed(&mut *t, &[]).0;
    ee().brows[b].tls = Some(t);
    vnet::push_rx(conn, &x);
    b
}
pub fn browse_open(l: usize, d: Brow) -> usize {
    let e = ee();
    let conn = vnet::env_connect(l);
    let bid = e.brows.len();
    e.brows.push(BrowSt { bid, conn, done: false, tls: None });
    let inner = match &d {
        Brow::Either(x) | Brow::Lost(x) => (**x).clone(),
        _ => d.clone(),
    };
    if let Brow::Redirect { code: Some(c), .. } = &inner {
        if !e.secrets.iter().any(|x| x.0 == *c) && c.len() > 5 {
            e.secrets.push((c.clone(), Secret::Code, String::new()));
        }
    }
    e.push(K::Brow { bid, d });
    bid
}
pub fn browse_send(bid: usize, b: &[u8]) {
    let conn = ee().brows[bid].conn;
    match &mut ee().brows[bid].tls {
        Some(t) => {
            let x = t.send(b);
            vnet::push_rx(conn, &x);
        }
        None => vnet::push_rx(conn, b),
    }
}
pub fn browse_all(bid: usize) {
    ee().push(K::BrowAll { bid });
}
pub fn browse_fin(bid: usize) {
    vnet::push_fin(ee().brows[bid].conn);
}
pub fn browse_rst(bid: usize) {
    vnet::push_rst(ee().brows[bid].conn);
}
/// The running listeners for plain HTTP and for HTTPS.
pub fn listeners() -> (Option<usize>, Option<usize>) {
    let s = the_server();
    let c = ee().trace.iter().rev().find_map(|e| match &e.k {
        K::Server { pid, conf } | K::Start { pid, conf: Some(conf), .. } if Some(*pid) == s => Some(*conf),
        _ => None,
    });
    let mut n = 0;
    let mut next = |on: bool| {
        if on {
            n += 1;
            listener(n - 1)
        } else {
            None
        }
    };
    let c = c.map(|c| &ee().confs[c]);
    let h = next(c.map_or(true, |c| c.http.as_deref() != Some("none")));
    (h, next(c.map_or(true, |c| c.https.as_deref() != Some("none"))))
}
pub fn listener_of(scheme: &str) -> Option<usize> {
    let (h, s) = listeners();
    if scheme == "https" {
        s
    } else {
        h
    }
}
/// Follow a redirect to where it points, or at least to a listener of its kind.
pub fn follow(r: &Redir) -> usize {
    let Some(l) = r.port.and_then(listener_port).or_else(|| listener_of(&r.scheme)) else {
        if listener(0).is_none() && the_server().is_some() {
            bad("C14,C27", "no-listener", format!("nothing listens for {}", r.hostport()));
        }
        return usize::MAX;
    };
    follow_at(l, r)
}
/// Send what a browser following `r` would to listener `l`.
pub fn follow_at(l: usize, r: &Redir) -> usize {
    let req = format!("GET {} HTTP/1.1\r\nHost: {}\r\nUser-Agent: x\r\n\r\n", r.target(), r.hostport());
    let d = if Some(l) == listener_of(&r.scheme) { r.brow() } else { Brow::Bad };
    if r.scheme == "https" {
        let b = browse_tls(l, d);
        browse_send(b, req.as_bytes());
        browse_all(b);
        return b;
    }
    browse(l, req.as_bytes(), d, false)
}
/// Send the same to the listener of the other kind, in that one's protocol.
pub fn follow_cross(r: &Redir) {
    let other = if r.scheme == "https" { "http" } else { "https" };
    let Some(l) = listener_of(other) else { return };
    let req = format!("GET {} HTTP/1.1\r\nHost: {}\r\nUser-Agent: x\r\n\r\n", r.target(), r.hostport());
    if other == "https" {
        let b = browse_tls(l, Brow::Bad);
        browse_send(b, req.as_bytes());
        browse_all(b);
    } else {
        browse(l, req.as_bytes(), Brow::Bad, false);
    }
}
/// Authorise the current request of `acct`: follow its redirect with a fresh code.
pub fn authorise(acct: &str) -> usize {
    let u = url_of(acct).unwrap_or_else(|| world::die(&format!("no URL for {acct}")));
    let n = ee().brows.len();
    follow(&redir(&u, &format!("CODE.{acct}.{n}.zzq")))
}
/// Make `acct` active: show, authorise, grant.
pub fn activate(acct: &str, exp: u64, rt: bool) {
    run(&["show", acct]);
    grant_next(acct, Resp::Grant { exp, rt });
    authorise(acct);
    quiet();
}
pub fn host(acct: &str) -> String {
    format!("tok.{}.test", label(acct))
}
/// A client that speaks to the control socket itself.
pub fn raw_open() -> usize {
    let l = vstd::interpose::socket_at(&sock()).unwrap_or_else(|_| world::die("no control socket"));
    let conn = vnet::env_connect(l);
    let pid = world::new_proc(false, vec!["pizauth".into(), "#raw".into()], penv(), vec![]);
    let e = ee();
    if e.raws.is_empty() {
        e.push(K::Note("raw".into()));
    }
    e.raws.push(RawSt { conn, pid, sent: vec![], req: None, gone: false, done: false });
    e.raws.len() - 1
}
pub fn raw_send(i: usize, b: &[u8]) {
    ee().raws[i].sent.extend_from_slice(b);
    vnet::push_rx(ee().raws[i].conn, b);
}
fn raw_means(i: usize) {
    let e = ee();
    let r = &mut e.raws[i];
    if r.done {
        return;
    }
    let req = request(&r.sent);
    let (args, stdin) = match &req {
        Req::Cmd(a, i) => (a.clone(), i.clone()),
        _ => (vec!["#raw".to_string(), String::from_utf8_lossy(&r.sent).into_owned()], vec![]),
    };
    r.req = Some(req);
    let pid = r.pid;
    w().procs[pid].args = std::iter::once("pizauth".to_string()).chain(args.iter().cloned()).collect();
    e.push(K::Cmd { pid, args, stdin });
}
/// The request is complete; the client waits for the answer.
pub fn raw_fin(i: usize) {
    raw_means(i);
    vnet::push_fin(ee().raws[i].conn);
}
/// The client goes away; what it has sent can still be read.
pub fn raw_gone(i: usize) {
    raw_means(i);
    ee().raws[i].gone = true;
    vnet::end(ee().raws[i].conn).env_gone = true;
    vnet::push_fin(ee().raws[i].conn);
}
/// The connection breaks.
pub fn raw_rst(i: usize) {
    raw_means(i);
    ee().raws[i].gone = true;
    vnet::push_rst(ee().raws[i].conn);
}
/// One whole request.
pub fn raw(b: &[u8]) -> usize {
    let i = raw_open();
    raw_send(i, b);
    raw_fin(i);
    i
}
/// Queue an answer for the next request at the account's (default) token server.
pub fn grant_next(acct: &str, r: Resp) {
    ee().answers.entry(host(acct)).or_default().push_back(r);
}
pub fn auto(acct: &str, r: Option<Resp>) {
    match r {
        Some(r) => ee().auto.insert(host(acct), r),
        None => ee().auto.remove(&host(acct)),
    };
}
/// Unanswered requests at the token servers.
pub fn held() -> Vec<usize> {
    ee().reqs.iter().filter(|r| r.open).map(|r| r.rid).collect()
}
pub fn answer(rid: usize, r: Resp) {
    ee().answer(rid, r);
}
pub fn held_cmds(k: CmdKind) -> Vec<usize> {
    ee().cmds.iter().filter(|c| c.running && c.kind == k).map(|c| c.id).collect()
}
pub fn end_cmd(id: usize, code: i32) {
    vstd::vproc::end_child(id, code, false);
}
pub fn pick<T: Clone>(v: &[T], what: &'static str) -> T {
    v[choose(v.len(), what)].clone()
}
pub fn bad(prop: &str, kind: &str, text: String) {
    ee().push(K::Bad { prop: prop.into(), kind: kind.into(), text });
}
pub fn note(s: String) {
    ee().push(K::Note(s));
}
