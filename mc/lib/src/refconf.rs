//! A reference for the configuration language, written from its documentation.
use crate::env::{Acct, Conf};
use crate::util;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Accept(Conf),
    Reject(String),
    /// Not settled by the documentation.
    Either(String),
}
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Str(String),
    Time(u128),
    P(char),
    Bad,
}
const WORDS: &[&str] = &[
    "account", "auth_notify_cmd", "auth_notify_interval", "auth_uri", "auth_uri_fields", "client_id", "client_secret", "error_notify_cmd",
    "http_listen", "https_listen", "login_hint", "none", "refresh_retry", "redirect_uri", "refresh_before_expiry", "refresh_at_least",
    "scopes", "token_event_cmd", "token_uri", "transient_error_if_cmd",
];
fn lex(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut o) = (0, vec![]);
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\n' | '\r' => i += 1,
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '=' | ',' | '{' | '}' | '[' | ']' | ';' | ':' => {
                o.push(Tok::P(c[i]));
                i += 1;
            }
            '"' => {
                let mut v = String::new();
                let mut j = i + 1;
                loop {
                    match c.get(j) {
                        None => break,
                        Some('"') => break,
                        Some('\\') => match c.get(j + 1) {
                            Some(x @ ('"' | '\\')) => {
                                v.push(*x);
                                j += 2;
                            }
                            _ => break,
                        },
                        Some(x) => {
                            v.push(*x);
                            j += 1;
                        }
                    }
                }
                if c.get(j) == Some(&'"') {
                    o.push(Tok::Str(v));
                    i = j + 1;
                } else {
                    o.push(Tok::Bad);
                    return o;
                }
            }
            x if x.is_ascii_digit() => {
                let mut n: u128 = 0;
                while i < c.len() && c[i].is_ascii_digit() {
                    n = (n * 10 + c[i].to_digit(10).unwrap() as u128).min(1 << 100);
                    i += 1;
                }
                let m = match c.get(i) {
                    Some('s') => 1,
                    Some('m') => 60,
                    Some('h') => 3600,
                    Some('d') => 86400,
                    _ => 0,
                };
                o.push(if m == 0 { Tok::Bad } else { Tok::Time(n * m) });
                i += (m > 0) as usize;
            }
            x if x.is_ascii_lowercase() => {
                let rest: String = c[i..c.len().min(i + 40)].iter().collect();
                match WORDS.iter().filter(|w| rest.starts_with(**w)).max_by_key(|w| w.len()) {
                    Some(w) => {
                        o.push(Tok::Word(w.to_string()));
                        i += w.len();
                    }
                    None => {
                        o.push(Tok::Bad);
                        i += 1;
                    }
                }
            }
            _ => {
                o.push(Tok::Bad);
                i += 1;
            }
        }
    }
    o
}
/// Is it the URI of something on the web?
pub fn web(s: &str) -> Option<bool> {
    let scheme: String = s.split(':').next().unwrap_or("").into();
    if s.contains(|c: char| c.is_control()) {
        return None;
    }
    if !s.contains(':') || scheme.is_empty() || !scheme.starts_with(|c: char| c.is_ascii_alphabetic()) || !scheme.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)) {
        return if s.trim() == s && !s.contains(['\t', '\n', '\r', ':']) && s.chars().all(|c| !c.is_control()) { Some(false) } else { None };
    }
    let l = scheme.to_ascii_lowercase();
    if l != "http" && l != "https" {
        return Some(false);
    }
    let rest = &s[scheme.len() + 1..];
    let Some(r) = rest.strip_prefix("//") else { return if rest.is_empty() { Some(false) } else { None } };
    let auth = r.split(['/', '?', '#']).next().unwrap();
    let tail = &r[auth.len()..];
    if auth.contains('@') {
        return None;
    }
    if !tail.chars().all(|c| c.is_ascii_graphic() && !"\\".contains(c)) {
        return None;
    }
    if tail.to_ascii_lowercase().replace("%2e", ".").split(['/', '?', '#']).any(|x| x == "." || x == "..") {
        return None;
    }
    let (h, p) = match auth.rfind(':') {
        Some(i) => (&auth[..i], Some(&auth[i + 1..])),
        None => (auth, None),
    };
    if h.is_empty() {
        return if tail.trim_start_matches('/').is_empty() { Some(false) } else { None };
    }
    if !h.chars().all(|c| c.is_ascii_alphanumeric() || "-.".contains(c)) {
        return if h.contains(' ') { Some(false) } else { None };
    }
    // Names that could be numeric addresses are another matter.
    if !h.starts_with(|c: char| c.is_ascii_alphabetic()) || h.rsplit('.').next().unwrap().starts_with(|c: char| c.is_ascii_digit()) {
        let q: Vec<&str> = h.split('.').collect();
        let ok = q.len() == 4 && q.iter().all(|x| (x == &"0" || !x.starts_with('0')) && x.parse::<u8>().is_ok());
        if !ok {
            return None;
        }
    }
    if h.split('.').any(|x| x.is_empty() || x.starts_with("xn--") || x.starts_with('-') || x.ends_with('-')) {
        return None;
    }
    match p {
        None => Some(true),
        Some(p) if p.chars().all(|c| c.is_ascii_digit()) => match p.parse::<u32>() {
            Ok(n) if n < 65536 => Some(true),
            Ok(_) => Some(false),
            Err(_) => None,
        },
        Some(_) => Some(false),
    }
}
struct Ps {
    t: Vec<Tok>,
    i: usize,
    either: Option<String>,
}
type R<T> = Result<T, String>;
impl Ps {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let x = self.peek().cloned().ok_or("ends too early")?;
        self.i += 1;
        Ok(x)
    }
    fn p(&mut self, c: char) -> R<()> {
        match self.next()? {
            Tok::P(x) if x == c => Ok(()),
            x => Err(format!("{x:?} instead of {c}")),
        }
    }
    fn st(&mut self) -> R<String> {
        match self.next()? {
            Tok::Str(x) => Ok(x),
            x => Err(format!("{x:?} instead of a string")),
        }
    }
    fn time(&mut self) -> R<u128> {
        match self.next()? {
            Tok::Time(x) => Ok(x),
            x => Err(format!("{x:?} instead of a time")),
        }
    }
    fn list<T>(&mut self, open: char, close: char, item: fn(&mut Ps) -> R<T>) -> R<Vec<T>> {
        self.p(open)?;
        let mut v = vec![];
        if self.peek() == Some(&Tok::P(',')) {
            self.either = Some("a list that begins with a comma".into());
            self.i += 1;
            v.push(item(self)?);
        } else if self.peek() != Some(&Tok::P(close)) {
            v.push(item(self)?);
        }
        while self.peek() == Some(&Tok::P(',')) {
            self.i += 1;
            v.push(item(self)?);
        }
        self.p(close)?;
        Ok(v)
    }
}
fn once<T>(o: &mut Option<T>, v: T, bad: &mut Vec<String>, k: &str) {
    if o.replace(v).is_some() {
        bad.push(format!("{k} is there twice"));
    }
}
pub fn read(b: &[u8]) -> V {
    let Ok(s) = std::str::from_utf8(b) else { return V::Reject("not UTF-8".into()) };
    let mut p = Ps { t: lex(s), i: 0, either: None };
    // What is wrong with it, though it can be read.
    let mut bad = vec![];
    match top(&mut p, &mut bad) {
        Err(e) => V::Reject(e),
        Ok(_) if !bad.is_empty() => V::Reject(bad.join(", ")),
        Ok(c) => match p.either {
            None => V::Accept(c),
            Some(e) => V::Either(e),
        },
    }
}
fn secs(x: u128, bad: &mut Vec<String>) -> u64 {
    if x > u64::MAX as u128 {
        bad.push("a time that is too long".into());
    }
    x as u64
}
fn top(p: &mut Ps, bad: &mut Vec<String>) -> R<Conf> {
    let mut c = Conf::default();
    while let Some(t) = p.peek().cloned() {
        p.i += 1;
        let Tok::Word(k) = t else { return Err(format!("{t:?} where an option begins")) };
        if k == "account" {
            let n = p.st()?;
            let a = account(p, n, bad)?;
            if c.get(&a.name).is_some() {
                p.either = Some("an account that is there twice".into());
            }
            c.accts.push(a);
            continue;
        }
        p.p('=')?;
        match k.as_str() {
            "auth_notify_cmd" => once(&mut c.auth, p.st()?, bad, &k),
            "error_notify_cmd" => once(&mut c.err, p.st()?, bad, &k),
            "token_event_cmd" => once(&mut c.event, p.st()?, bad, &k),
            "transient_error_if_cmd" => once(&mut c.trans, p.st()?, bad, &k),
            "auth_notify_interval" => once(&mut c.interval, secs(p.time()?, bad), bad, &k),
            "refresh_at_least" => once(&mut c.at_least, secs(p.time()?, bad), bad, &k),
            "refresh_before_expiry" => once(&mut c.before, secs(p.time()?, bad), bad, &k),
            "refresh_retry" => once(&mut c.retry, secs(p.time()?, bad), bad, &k),
            "http_listen" | "https_listen" => {
                let v = match p.next()? {
                    Tok::Word(x) if x == "none" => x,
                    Tok::Str(x) => {
                        if x == "none" {
                            p.either = Some("listening on \"none\"".into());
                        }
                        x
                    }
                    x => return Err(format!("{x:?} instead of an address")),
                };
                once(if k == "http_listen" { &mut c.http } else { &mut c.https }, v, bad, &k)
            }
            _ => return Err(format!("{k} outside of an account")),
        }
        p.p(';')?;
    }
    if c.accts.is_empty() {
        bad.push("no account".into());
    }
    let off = |x: &Option<String>| x.as_deref() == Some("none");
    if off(&c.http) && off(&c.https) {
        bad.push("no listener".into());
    }
    for a in c.accts.iter().filter(|a| web(&a.redirect_cfg()) == Some(true)) {
        let https = util::url(&a.redirect_cfg()).is_some_and(|u| u.scheme == "https");
        if off(if https { &c.https } else { &c.http }) {
            bad.push(format!("no listener for the redirects of {}", a.name));
        }
    }
    Ok(c)
}
fn account(p: &mut Ps, name: String, bad: &mut Vec<String>) -> R<Acct> {
    let (mut auth, mut fields, mut id, mut secret, mut hint, mut redir, mut al, mut be, mut re, mut scopes, mut token) =
        (None, None, None, None, None, None, None, None, None, None, None);
    p.p('{')?;
    loop {
        let k = match p.next()? {
            Tok::P('}') => break,
            Tok::Word(k) => k,
            x => return Err(format!("{x:?} where an option of an account begins")),
        };
        p.p('=')?;
        let uri = |p: &mut Ps, bad: &mut Vec<String>| -> R<String> {
            let x = p.st()?;
            match web(&x) {
                Some(true) => (),
                Some(false) => bad.push(format!("{x:?} is no HTTP(S) URI")),
                None => p.either = Some(format!("{x:?} as a URI")),
            }
            Ok(x)
        };
        match k.as_str() {
            "auth_uri" => once(&mut auth, uri(p, bad)?, bad, &k),
            "token_uri" => once(&mut token, uri(p, bad)?, bad, &k),
            "redirect_uri" => once(&mut redir, uri(p, bad)?, bad, &k),
            "client_id" => once(&mut id, p.st()?, bad, &k),
            "client_secret" => once(&mut secret, p.st()?, bad, &k),
            "login_hint" => once(&mut hint, p.st()?, bad, &k),
            "refresh_at_least" => once(&mut al, secs(p.time()?, bad), bad, &k),
            "refresh_before_expiry" => once(&mut be, secs(p.time()?, bad), bad, &k),
            "refresh_retry" => once(&mut re, secs(p.time()?, bad), bad, &k),
            "scopes" => once(&mut scopes, p.list('[', ']', |p| p.st())?, bad, &k),
            "auth_uri_fields" => {
                let l = p.list('{', '}', |p| {
                    let k = p.st()?;
                    p.p(':')?;
                    Ok((k, p.st()?))
                })?;
                once(&mut fields, l, bad, &k)
            }
            _ => return Err(format!("{k} inside an account")),
        }
        p.p(';')?;
    }
    for (k, x) in [("auth_uri", &auth), ("client_id", &id), ("token_uri", &token)] {
        if x.is_none() {
            bad.push(format!("no {k}"));
        }
    }
    let fields = fields.unwrap_or_default();
    if hint.is_some() && fields.iter().any(|f| f.0 == "login_hint") {
        bad.push("two login hints".into());
    }
    Ok(Acct {
        name,
        auth_uri: auth.unwrap_or_default(),
        fields,
        client_id: id.unwrap_or_default(),
        secret,
        redirect: redir,
        scopes: scopes.unwrap_or_default(),
        token_uri: token.unwrap_or_default(),
        at_least: al,
        before: be,
        retry: re,
        login_hint: hint,
    })
}
/// The lexemes of a text which has no comments.
pub fn lexemes(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut o) = (0, vec![]);
    while i < c.len() {
        let j = i;
        if c[i].is_whitespace() {
            i += 1;
            continue;
        } else if c[i] == '"' {
            i += 1;
            while c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if c[i].is_ascii_alphanumeric() {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
        o.push(c[j..i].iter().collect());
    }
    o
}
