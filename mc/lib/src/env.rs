//! The environment of the program: token servers, browsers, shell commands, the user. Everything it
//! does and sees is recorded in one trace, which the oracles read.
use crate::util::*;
use std::any::Any;
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use vstd::vnet;
use vstd::world::{self, w, ConnectRes, Env, SpawnReq, SpawnRes, SysEv};

pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct T {
    pub mono: u64,
    pub boot: u64,
    pub real: u64,
}
pub fn now() -> T {
    T { mono: w().mono, boot: world::boot_now(), real: world::real_now() }
}

/// What an answer of the token server means, as the specification sees it.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Grant { at: String, rt: Option<String>, exp: u64 },
    Refuse,
    Broken,
}
/// In place of a refresh token: the answer has a refresh_token which is not a string.
pub const NO_RT: &str = "<none>";
#[derive(Clone, Debug)]
pub enum Resp {
    /// A token valid for `exp` seconds; with a new refresh token if `rt`.
    Grant { exp: u64, rt: bool },
    GrantAs { at: String, rt: Option<String>, exp: u64 },
    /// A grant whose body has these extra members; a refresh_token among them is not a string.
    GrantPlus { exp: u64, more: &'static str },
    /// Status 200 with this body, which is a refusal.
    Body(String),
    Status(u16, String),
    /// Any bytes, with their meaning.
    Raw(Vec<u8>, Class),
    Rst,
    Fin,
    /// The answer breaks off in the middle of the body.
    Partial,
    /// Several reads' worth: the body is sent in pieces.
    Slow { exp: u64, rt: bool },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NetMode {
    Ok,
    Dns,
    Refused,
    Hang,
}
#[derive(Clone, Debug)]
pub enum Pol {
    Exit(i32),
    Hold,
    Fail,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CmdKind {
    Auth,
    Err,
    Event,
    Trans,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Brow {
    /// Not a redirect the program could recognise; any answer, or none.
    Bad,
    /// Must be answered with an error.
    Error,
    /// An error, or this.
    Either(Box<Brow>),
    /// The client goes away: this or nothing, answered or not.
    Lost(Box<Brow>),
    Redirect { scheme: String, host: String, port: Option<u16>, state: Option<String>, code: Option<String>, error: Option<String> },
}

#[derive(Clone, Debug)]
pub enum K {
    Server { pid: usize, conf: usize },
    /// A server is started which may not come up; `conf` is `None` if it cannot.
    Start { pid: usize, conf: Option<usize>, daemon: bool },
    Exit { pid: usize, code: i32, out: Vec<u8>, err: Vec<u8> },
    /// The server goes into the background.
    Daemon { pid: usize },
    Utime { pid: usize, path: String },
    Cmd { pid: usize, args: Vec<String>, stdin: Vec<u8> },
    CmdEnd { pid: usize, code: i32, out: Vec<u8>, err: Vec<u8> },
    Tok { rid: usize, host: String, path: String, form: Form, head: String },
    TokEnd { rid: usize, class: Class },
    TokClosed { rid: usize },
    NetFail { host: String },
    NetHang { host: String },
    Brow { bid: usize, d: Brow },
    /// All of a browser's request is sent.
    BrowAll { bid: usize },
    BrowEnd { bid: usize, reply: Vec<u8> },
    Spawn { id: usize, kind: CmdKind, cmd: String, acct: String, arg: String, env: String, failed: bool },
    SpawnEnd { id: usize, code: i32, killed: bool },
    Log { level: log::Level, msg: String },
    File { conf: Option<usize> },
    Quiet,
    Suspend { ns: u64 },
    Wall { ns: i64 },
    Panic { pid: usize, task: String, msg: String },
    Deadlock { what: String },
    StepLimit,
    Bind { pid: usize, path: String, modes: Vec<(String, u32, bool)>, umask: u32 },
    Unlink { pid: usize, path: String, live: bool },
    Note(String),
    /// A violation found by the scenario itself: property, kind, text.
    Bad { prop: String, kind: String, text: String },
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub t: T,
    pub k: K,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Acct {
    pub name: String,
    pub auth_uri: String,
    pub fields: Vec<(String, String)>,
    pub client_id: String,
    pub secret: Option<String>,
    pub redirect: Option<String>,
    pub scopes: Vec<String>,
    pub token_uri: String,
    pub at_least: Option<u64>,
    pub before: Option<u64>,
    pub retry: Option<u64>,
    pub login_hint: Option<String>,
}
/// An account's name as part of a host name.
pub fn label(name: &str) -> String {
    if !name.is_empty() && name.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) {
        name.into()
    } else {
        format!("x{}", name.bytes().map(|b| format!("{b:02x}")).collect::<String>())
    }
}
impl Acct {
    pub fn new(name: &str) -> Acct {
        let l = label(name);
        Acct {
            name: name.into(),
            auth_uri: format!("http://auth.{l}.test/auth"),
            fields: vec![],
            client_id: format!("CID.{name}"),
            secret: Some(format!("SECRET.{name}.1")),
            redirect: None,
            scopes: vec!["s1".into(), "s2".into()],
            token_uri: format!("http://tok.{l}.test/token"),
            at_least: None,
            before: None,
            retry: None,
            login_hint: None,
        }
    }
    /// The settings whose change makes it another account.
    pub fn secure(&self) -> (String, Vec<(String, String)>, String, Option<String>, String, Vec<String>, String) {
        (
            self.auth_uri.clone(),
            self.fields.iter().cloned().chain(self.login_hint.iter().map(|h| ("login_hint".to_string(), h.clone()))).collect(),
            self.client_id.clone(),
            self.secret.clone(),
            self.redirect_cfg(),
            self.scopes.clone(),
            self.token_uri.clone(),
        )
    }
    pub fn redirect_cfg(&self) -> String {
        self.redirect.clone().unwrap_or_else(|| "http://localhost/".into())
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Conf {
    pub accts: Vec<Acct>,
    pub auth: Option<String>,
    pub interval: Option<u64>,
    pub err: Option<String>,
    pub event: Option<String>,
    pub trans: Option<String>,
    pub http: Option<String>,
    pub https: Option<String>,
    pub at_least: Option<u64>,
    pub before: Option<u64>,
    pub retry: Option<u64>,
    /// Appended to the text as it is.
    pub extra: String,
}
pub fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
impl Conf {
    /// A configuration with these accounts, every command set and no HTTPS listener.
    pub fn new(names: &[&str]) -> Conf {
        Conf {
            accts: names.iter().map(|n| Acct::new(n)).collect(),
            auth: Some("authcmd".into()),
            err: Some("errcmd".into()),
            event: Some("eventcmd".into()),
            https: Some("none".into()),
            ..Conf::default()
        }
    }
    pub fn acct(&mut self, n: &str) -> &mut Acct {
        self.accts.iter_mut().find(|a| a.name == n).unwrap()
    }
    pub fn get(&self, n: &str) -> Option<&Acct> {
        self.accts.iter().find(|a| a.name == n)
    }
    pub fn without(&self, n: &str) -> Conf {
        let mut c = self.clone();
        c.accts.retain(|a| a.name != n);
        c
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let mut cmd = |k: &str, v: &Option<String>| {
            if let Some(x) = v {
                s.push_str(&format!("{k} = {};\n", q(x)));
            }
        };
        cmd("auth_notify_cmd", &self.auth);
        cmd("error_notify_cmd", &self.err);
        cmd("token_event_cmd", &self.event);
        cmd("transient_error_if_cmd", &self.trans);
        for (k, v) in [("http_listen", &self.http), ("https_listen", &self.https)] {
            match v.as_deref() {
                None => (),
                Some("none") => s.push_str(&format!("{k} = none;\n")),
                Some(x) => s.push_str(&format!("{k} = {};\n", q(x))),
            }
        }
        let tm = |k: &str, v: &Option<u64>| v.map_or(String::new(), |x| format!("{k} = {x}s;\n"));
        s.push_str(&tm("auth_notify_interval", &self.interval));
        s.push_str(&tm("refresh_at_least", &self.at_least));
        s.push_str(&tm("refresh_before_expiry", &self.before));
        s.push_str(&tm("refresh_retry", &self.retry));
        for a in &self.accts {
            s.push_str(&format!("account {} {{\n", q(&a.name)));
            s.push_str(&format!("auth_uri = {};\n", q(&a.auth_uri)));
            if !a.fields.is_empty() {
                let v: Vec<String> = a.fields.iter().map(|(k, v)| format!("{}: {}", q(k), q(v))).collect();
                s.push_str(&format!("auth_uri_fields = {{ {} }};\n", v.join(", ")));
            }
            s.push_str(&format!("client_id = {};\n", q(&a.client_id)));
            if let Some(x) = &a.secret {
                s.push_str(&format!("client_secret = {};\n", q(x)));
            }
            if let Some(x) = &a.login_hint {
                s.push_str(&format!("login_hint = {};\n", q(x)));
            }
            if let Some(x) = &a.redirect {
                s.push_str(&format!("redirect_uri = {};\n", q(x)));
            }
            if !a.scopes.is_empty() {
                let v: Vec<String> = a.scopes.iter().map(|x| q(x)).collect();
                s.push_str(&format!("scopes = [ {} ];\n", v.join(", ")));
            }
            s.push_str(&tm("refresh_at_least", &a.at_least));
            s.push_str(&tm("refresh_before_expiry", &a.before));
            s.push_str(&tm("refresh_retry", &a.retry));
            s.push_str(&format!("token_uri = {};\n}}\n", q(&a.token_uri)));
        }
        s.push_str(&self.extra);
        s
    }
    pub fn interval(&self) -> u64 {
        self.interval.unwrap_or(15 * 60) * SEC
    }
    pub fn at_least_of(&self, a: &Acct) -> u64 {
        a.at_least.or(self.at_least).unwrap_or(90 * 60).saturating_mul(SEC)
    }
    pub fn before_of(&self, a: &Acct) -> u64 {
        a.before.or(self.before).unwrap_or(90).saturating_mul(SEC)
    }
    pub fn retry_of(&self, a: &Acct) -> u64 {
        a.retry.or(self.retry).unwrap_or(40).saturating_mul(SEC)
    }
}

pub struct TokReq {
    pub rid: usize,
    pub conn: usize,
    pub host: String,
    pub form: Form,
    /// No complete answer yet and the connection is open.
    pub open: bool,
}
pub struct BrowSt {
    pub bid: usize,
    pub conn: usize,
    pub done: bool,
    pub tls: Option<Box<dyn Tls>>,
}
/// A client of the control socket that is not the program.
pub struct RawSt {
    pub conn: usize,
    /// Reserved for the command it turns out to be.
    pub pid: usize,
    pub sent: Vec<u8>,
    pub req: Option<Req>,
    /// It went away without waiting for the answer.
    pub gone: bool,
    pub done: bool,
}
/// What bytes on the control socket mean.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Req {
    /// A command of the program with these arguments and standard input.
    Cmd(Vec<String>, Vec<u8>),
    /// Must be answered with an error.
    Unknown,
    /// An error, or no answer.
    Malformed,
}
pub fn request(b: &[u8]) -> Req {
    let Some(i) = b.iter().position(|x| *x == b':') else { return Req::Malformed };
    let (Ok(cmd), rest) = (std::str::from_utf8(&b[..i]), &b[i + 1..]) else { return Req::Malformed };
    let c = |v: &[&str]| Req::Cmd(v.iter().map(|x| x.to_string()).collect(), vec![]);
    match cmd {
        "dump" | "info" | "reload" | "shutdown" | "status" => {
            if rest.is_empty() {
                c(&[cmd])
            } else {
                Req::Malformed
            }
        }
        "restore" => Req::Cmd(vec!["restore".into()], rest.to_vec()),
        "refresh" | "showtoken" | "revoke" => {
            let Ok(r) = std::str::from_utf8(rest) else { return Req::Malformed };
            if cmd == "revoke" {
                return c(&["revoke", r]);
            }
            let sub = if cmd == "refresh" { cmd } else { "show" };
            if let Some(n) = r.strip_prefix("withurl ") {
                c(&[sub, n])
            } else if let Some(n) = r.strip_prefix("withouturl ") {
                c(&[sub, "-u", n])
            } else {
                Req::Malformed
            }
        }
        _ => Req::Unknown,
    }
}
/// A TLS client over the environment's end of a connection.
pub trait Tls {
    fn feed(&mut self, b: &[u8]) -> (Vec<u8>, Vec<u8>);
    fn send(&mut self, b: &[u8]) -> Vec<u8>;
}
#[derive(Clone, Debug)]
pub struct CmdSt {
    pub id: usize,
    pub kind: CmdKind,
    pub cmd: String,
    pub acct: String,
    pub arg: String,
    pub running: bool,
}

pub struct E {
    pub trace: Vec<Ev>,
    pub confs: Vec<Conf>,
    pub hosts: Vec<String>,
    pub net: BTreeMap<String, NetMode>,
    /// Queued answers per host; then `auto` answers; without either the request is held.
    pub answers: BTreeMap<String, VecDeque<Resp>>,
    pub auto: BTreeMap<String, Resp>,
    pub reqs: Vec<TokReq>,
    pub conn_req: BTreeMap<usize, usize>,
    pub serial: BTreeMap<String, usize>,
    pub brows: Vec<BrowSt>,
    pub raws: Vec<RawSt>,
    pub cmds: Vec<CmdSt>,
    pub pol: BTreeMap<CmdKind, Pol>,
    pub secrets: Vec<(String, Secret, String)>,
    pub quiet_skip: bool,
    pub cli: Vec<usize>,
    /// Processes whose outcome the scenario judges itself.
    pub free: std::collections::BTreeSet<usize>,
    pub servers: Vec<usize>,
    /// The environment variables of processes, if not the usual ones.
    pub penv: Option<std::collections::BTreeMap<String, String>>,
    pub last_quiet: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Secret {
    At,
    Rt,
    ClientSecret,
    Code,
    Verifier,
}

static mut EP: *mut E = std::ptr::null_mut();
pub fn ee() -> &'static mut E {
    unsafe { &mut *EP }
}

impl E {
    pub fn boxed() -> Box<dyn Env> {
        let mut b = Box::new(E {
            trace: vec![],
            confs: vec![],
            hosts: vec![],
            net: BTreeMap::new(),
            answers: BTreeMap::new(),
            auto: BTreeMap::new(),
            reqs: vec![],
            conn_req: BTreeMap::new(),
            serial: BTreeMap::new(),
            brows: vec![],
            raws: vec![],
            cmds: vec![],
            pol: BTreeMap::new(),
            secrets: vec![],
            quiet_skip: false,
            cli: vec![],
            servers: vec![],
            penv: None,
            free: Default::default(),
            last_quiet: usize::MAX,
        });
        unsafe { EP = &mut *b };
        b
    }
    pub fn push(&mut self, k: K) {
        let h = world::hash_bytes(format!("{k:?}").as_bytes());
        world::touch_trace(h);
        self.trace.push(Ev { t: now(), k });
    }
    fn host_of(&self, ip: IpAddr) -> String {
        match ip {
            IpAddr::V4(x) if x.octets()[0] == 10 => self.hosts[x.octets()[3] as usize].clone(),
            x => x.to_string(),
        }
    }
    fn fresh(&mut self, host: &str, kind: &str) -> String {
        let n = self.serial.entry(format!("{host}/{kind}")).or_insert(0);
        *n += 1;
        format!("{kind}.{}.{n}.zzq", host.trim_start_matches("tok.").trim_end_matches(".test"))
    }
    /// Send an answer to request `rid`.
    pub fn answer(&mut self, rid: usize, r: Resp) {
        if !self.reqs[rid].open {
            return;
        }
        let host = self.reqs[rid].host.clone();
        let conn = self.reqs[rid].conn;
        let (bytes, class, fin, rst, slow) = self.encode(&host, r);
        if let Class::Grant { at, rt, .. } = &class {
            self.secrets.push((at.clone(), Secret::At, host.clone()));
            if let Some(r) = rt {
                self.secrets.push((r.clone(), Secret::Rt, host.clone()));
            }
        }
        self.reqs[rid].open = false;
        self.push(K::TokEnd { rid, class });
        if slow {
            vnet::end(conn).max_read = 7;
        }
        vnet::push_rx(conn, &bytes);
        if rst {
            vnet::push_rst(conn);
        } else if fin {
            vnet::push_fin(conn);
        }
    }
    fn encode(&mut self, host: &str, r: Resp) -> (Vec<u8>, Class, bool, bool, bool) {
        fn ok(b: &str) -> Vec<u8> {
            format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{b}", b.len()).into_bytes()
        }
        let grant = |at: String, rt: Option<String>, exp: u64| {
            let mut b = format!("{{\"access_token\":{},\"token_type\":\"Bearer\",\"expires_in\":{exp}", jstr(&at));
            if let Some(r) = &rt {
                b.push_str(&format!(",\"refresh_token\":{}", jstr(r)));
            }
            b.push_str(",\"scope\":\"x\"}");
            (ok(&b), Class::Grant { at, rt, exp }, true, false, false)
        };
        match r {
            Resp::Grant { exp, rt } | Resp::Slow { exp, rt } => {
                let slow = matches!(r, Resp::Slow { .. });
                let at = self.fresh(host, "AT");
                let rt = if rt { Some(self.fresh(host, "RT")) } else { None };
                let mut x = grant(at, rt, exp);
                x.4 = slow;
                x
            }
            Resp::GrantAs { at, rt, exp } => grant(at, rt, exp),
            Resp::GrantPlus { exp, more } => {
                let at = self.fresh(host, "AT");
                let b = format!("{{{more},\"expires_in\":{exp},\"token_type\":\"Bearer\",\"access_token\":{}}}", jstr(&at));
                let rt = more.contains("refresh_token").then(|| NO_RT.to_string());
                (ok(&b), Class::Grant { at, rt, exp }, true, false, false)
            }
            Resp::Body(b) => (ok(&b), Class::Refuse, true, false, false),
            Resp::Status(c, b) => (
                format!("HTTP/1.1 {c} Some Reason\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{b}", b.len()).into_bytes(),
                Class::Refuse,
                true,
                false,
                false,
            ),
            Resp::Raw(b, c) => (b, c, true, false, false),
            Resp::Rst => (vec![], Class::Broken, false, true, false),
            Resp::Fin => (vec![], Class::Broken, true, false, false),
            Resp::Partial => (
                b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 200\r\nConnection: close\r\n\r\n{\"access_token\":".to_vec(),
                Class::Broken,
                true,
                false,
                false,
            ),
        }
    }
    /// A client of the control socket has its answer: say it as the command would.
    pub fn raw_end(&mut self, i: usize) {
        let r = &mut self.raws[i];
        if r.done {
            return;
        }
        r.done = true;
        let pid = r.pid;
        let reply = vnet::end(r.conn).out.clone();
        let text = String::from_utf8_lossy(&reply).into_owned();
        let req = r.req.clone();
        let (head, rest) = text.split_once(':').unwrap_or((&text, ""));
        let rest = rest.to_string();
        let (mut code, mut out, mut err) = (1, vec![], vec![]);
        let odd = format!("odd answer {text:?}").into_bytes();
        if r.gone {
            code = -1;
        } else {
            match &req {
                None => {
                    if text.is_empty() {
                        return;
                    }
                    self.push(K::Bad { prop: "C21".into(), kind: "raw-answer".into(), text: format!("a client that has not finished its request is answered {text:?}") });
                    return;
                }
                Some(Req::Unknown | Req::Malformed) => {
                    if !(head == "error" && !rest.is_empty() || text.is_empty() && req == Some(Req::Malformed)) {
                        let sent = String::from_utf8_lossy(&self.raws[i].sent).into_owned();
                        self.push(K::Bad { prop: "C21,C26".into(), kind: "raw-answer".into(), text: format!("{sent:?} is answered {text:?}") });
                    }
                    err = format!("error {rest}").into_bytes();
                }
                Some(Req::Cmd(args, _)) => match (args[0].as_str(), head) {
                    ("dump" | "info", _) if !text.is_empty() => {
                        code = 0;
                        out = reply.clone();
                    }
                    ("status", "ok") => {
                        code = 0;
                        out = format!("{rest}\n").into_bytes();
                    }
                    ("show", "access_token") => {
                        code = 0;
                        out = format!("{rest}\n").into_bytes();
                    }
                    ("show" | "refresh", "pending") => err = format!("Access token unavailable until authorised with URL {rest}").into_bytes(),
                    ("refresh", "scheduled") | ("reload" | "restore" | "revoke", "ok") if rest.is_empty() => code = 0,
                    ("shutdown", _) if text.is_empty() => code = 0,
                    (_, "error") => err = rest.clone().into_bytes(),
                    _ => {
                        code = 99;
                        err = odd;
                    }
                },
            }
        }
        let p = &mut w().procs[pid];
        p.exit = Some(code);
        p.stdout = out.clone();
        p.stderr = err.clone();
        if req.is_some() {
            self.push(K::CmdEnd { pid, code, out, err });
        }
    }
    fn tok_data(&mut self, conn: usize) {
        if self.conn_req.contains_key(&conn) {
            return;
        }
        let Some(m) = http(&vnet::end(conn).out) else { return };
        let host = self.host_of(vnet::end(conn).remote.ip());
        let rid = self.reqs.len();
        let path = m.line.split(' ').nth(1).unwrap_or("").to_string();
        let form = form(&String::from_utf8_lossy(&m.body));
        self.reqs.push(TokReq { rid, conn, host: host.clone(), form: form.clone(), open: true });
        self.conn_req.insert(conn, rid);
        if let Some(v) = get(&form, "code_verifier") {
            self.secrets.push((v.to_string(), Secret::Verifier, host.clone()));
        }
        let head = format!("{} | {}", m.line, m.headers.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join("; "));
        self.push(K::Tok { rid, host: host.clone(), path, form, head });
        if let Some(r) = self.answers.get_mut(&host).and_then(|q| q.pop_front()) {
            self.answer(rid, r);
        } else if let Some(r) = self.auto.get(&host).cloned() {
            self.answer(rid, r);
        }
    }
}

impl Env for E {
    fn sys(&mut self, ev: SysEv) {
        match ev {
            SysEv::ProcStart { .. } => (),
            SysEv::ProcExit { pid, code } => {
                let p = &w().procs[pid];
                if p.server {
                    let (out, err) = (p.stdout.clone(), p.stderr.clone());
                    self.push(K::Exit { pid, code, out, err });
                } else if self.free.contains(&pid) {
                    self.push(K::Note(format!("free {code}")));
                } else {
                    let (out, err) = (p.stdout.clone(), p.stderr.clone());
                    self.cli.retain(|x| *x != pid);
                    self.push(K::CmdEnd { pid, code, out, err });
                }
            }
            SysEv::Panic { pid, task, msg } => self.push(K::Panic { pid, task: task.into(), msg: msg.into() }),
            SysEv::Log { level, msg, .. } => self.push(K::Log { level, msg: msg.into() }),
            SysEv::Deadlock { blocked } => self.push(K::Deadlock { what: blocked.join(", ") }),
            SysEv::StepLimit => self.push(K::StepLimit),
            SysEv::Bind { pid, path, modes, umask } => self.push(K::Bind { pid, path: path.into(), modes, umask }),
            SysEv::Utime { pid, path } => self.push(K::Utime { pid, path: path.into() }),
            SysEv::Daemon { pid } => self.push(K::Daemon { pid }),
            SysEv::Unlink { pid, path, live_socket } => self.push(K::Unlink { pid, path: path.into(), live: live_socket }),
            SysEv::ChildEnd { id, code, killed } => {
                if let Some(c) = self.cmds.iter_mut().find(|c| c.id == id) {
                    c.running = false;
                }
                self.push(K::SpawnEnd { id, code, killed });
            }
            SysEv::ConnClosed { conn } => {
                if let Some(rid) = self.conn_req.get(&conn).copied() {
                    if self.reqs[rid].open {
                        self.reqs[rid].open = false;
                        self.push(K::TokClosed { rid });
                    }
                } else if let Some(i) = self.brows.iter().position(|b| b.conn == conn) {
                    if !self.brows[i].done {
                        self.brows[i].done = true;
                        let mut reply = vnet::end(conn).out.clone();
                        let bid = self.brows[i].bid;
                        if let Some(t) = &mut self.brows[i].tls {
                            reply = t.feed(&[]).1;
                        }
                        self.push(K::BrowEnd { bid, reply });
                    }
                } else if let Some(i) = self.raws.iter().position(|r| r.conn == conn) {
                    self.raw_end(i);
                }
            }
            SysEv::ConnFail { conn } => {
                let host = self.host_of(vnet::end(conn).remote.ip());
                self.push(K::NetFail { host });
            }
            SysEv::Quiet => {
                if self.last_quiet != self.trace.len() || self.trace.last().map_or(true, |e| e.t.mono + SEC < w().mono) {
                    self.push(K::Quiet);
                    self.last_quiet = self.trace.len();
                }
            }
            SysEv::Advance => (),
        }
    }
    fn dns(&mut self, name: &str) -> io::Result<Vec<IpAddr>> {
        if name == "localhost" {
            return Ok(vec![IpAddr::V4(Ipv4Addr::LOCALHOST)]);
        }
        match self.net.get(name) {
            Some(NetMode::Dns) => {
                self.push(K::NetFail { host: name.to_string() });
                Err(io::Error::new(io::ErrorKind::Other, "failed to lookup address information: Temporary failure in name resolution"))
            }
            _ => {
                let i = match self.hosts.iter().position(|h| h == name) {
                    Some(i) => i,
                    None => {
                        self.hosts.push(name.to_string());
                        self.hosts.len() - 1
                    }
                };
                Ok(vec![IpAddr::V4(Ipv4Addr::new(10, 9, 0, i as u8))])
            }
        }
    }
    fn connect(&mut self, addr: SocketAddr, _conn: usize) -> ConnectRes {
        let host = self.host_of(addr.ip());
        match self.net.get(&host) {
            Some(NetMode::Refused) => {
                self.push(K::NetFail { host });
                ConnectRes::Err(io::ErrorKind::ConnectionRefused)
            }
            Some(NetMode::Hang) => {
                self.push(K::NetHang { host });
                ConnectRes::Hang
            }
            _ => ConnectRes::Ok,
        }
    }
    fn data(&mut self, conn: usize) {
        if let Some(i) = self.brows.iter().position(|b| b.conn == conn) {
            if let Some(t) = &mut self.brows[i].tls {
                let b = std::mem::take(&mut vnet::end(conn).out);
                let (tx, _) = t.feed(&b);
                if !tx.is_empty() {
                    vnet::push_rx(conn, &tx);
                }
            }
            return;
        }
        self.tok_data(conn);
    }
    fn spawn(&mut self, r: SpawnReq) -> SpawnRes {
        let g = |k: &str| r.env.get(k).cloned();
        let acct = g("PIZAUTH_ACCOUNT").unwrap_or_default();
        let (kind, arg) = if let Some(x) = g("PIZAUTH_EVENT") {
            (CmdKind::Event, x)
        } else if let Some(x) = g("PIZAUTH_URL") {
            (CmdKind::Auth, x)
        } else if let Some(x) = g("PIZAUTH_MSG") {
            (CmdKind::Err, x)
        } else {
            (CmdKind::Trans, String::new())
        };
        let cmd = if r.args.len() == 2 && r.args[0] == "-c" { r.args[1].clone() } else { format!("?{:?}", r.args) };
        let pol = self.pol.get(&kind).cloned().unwrap_or(Pol::Exit(0));
        let failed = matches!(pol, Pol::Fail);
        let env = format!("{} {:?} {:?}", r.prog, r.args, r.env);
        self.push(K::Spawn { id: r.id, kind: kind.clone(), cmd: cmd.clone(), acct: acct.clone(), arg: arg.clone(), env, failed });
        self.cmds.push(CmdSt { id: r.id, kind, cmd, acct, arg, running: !failed });
        match pol {
            Pol::Exit(c) => {
                // The end is recorded here: [world::sys] cannot be re-entered.
                let _ = c;
                SpawnRes::Exit(c)
            }
            Pol::Hold => SpawnRes::Hold,
            Pol::Fail => SpawnRes::Fail(libc::ENOENT),
        }
    }
    fn as_any(&mut self) -> &mut dyn Any {
        self
    }
}
