//! What can be sent to the program: the control socket and the HTTP(S) listeners.
use super::core::{ab, plus, st};
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use crate::util::*;
use vstd::explore::choose;
use O::*;

fn cx(c: &Conf) -> Cx {
    Cx { confs: vec![c.clone()] }
}
/// Pieces from which requests are put together.
pub const WORDS: &[&[u8]] = &[
    b"dump", b"info", b"reload", b"refresh", b"restore", b"revoke", b"showtoken", b"shutdown", b"status", b"show", b"STATUS", b"x",
    b":", b" ", b"withurl", b"withouturl", b"a", b"zz", b"\xff", b"\n", b"\0", "\u{e9}".as_bytes(),
];
const FEW: &[&[u8]] = &[b"dump", b"refresh", b"revoke", b"showtoken", b"status", b":", b" ", b"withurl", b"a", b"\xff"];
/// All sequences of `n` of these pieces.
fn seqs(w: &[&[u8]], n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|x| w.iter().map(move |y| [x.as_slice(), y].concat())).collect();
    }
    v
}
/// Requests that must have no effect.
fn futile(r: &[u8], c: &Conf) -> bool {
    match request(r) {
        // Words other than "withurl" and "withouturl" before an account are not specified.
        Req::Unknown | Req::Malformed => {
            let (w, n) = (r.split(|x| *x == b':').next().unwrap(), String::from_utf8_lossy(r.splitn(2, |x| *x == b' ').nth(1).unwrap_or(b"\xff")).into_owned());
            !((w == b"refresh" || w == b"showtoken") && c.get(&n).is_some())
        }
        Req::Cmd(a, _) => match a[0].as_str() {
            "show" | "refresh" | "revoke" => c.get(a.last().unwrap()).is_none(),
            "restore" | "info" | "status" | "dump" => true,
            _ => false,
        },
    }
}
fn from() -> Vec<(&'static str, Vec<O>)> {
    let mut v = super::core::states();
    v.push(("expired", plus(&st("active"), &[Refresh("a"), Ans(R::Short), Wait(15), UntilReq, Ans(R::Rst), Wait(30)])));
    v
}
const BATCH: usize = 120;
pub fn c21(t: bool) -> Vec<Scn> {
    let c = ab();
    let mut v = vec![];
    // Everything up to a length, in batches, in each state.
    let mut all: Vec<Vec<u8>> = vec![];
    for n in 0..=3 {
        all.extend(seqs(WORDS, n));
    }
    all.extend(seqs(FEW, if t { 5 } else { 4 }).into_iter().filter(|x| t || x.contains(&b':')));
    // Long ones, which begin or end like a command.
    for x in [b"a", b"x", b" ", b"\0", b"\n", b":"] {
        for n in [100, 4087, 4096, 5000, 70_000] {
            let long = x.repeat(n);
            for w in [&b"revoke:a"[..], b"revoke:", b"refresh:withurl a", b"showtoken:withouturl a", b"dump:", b"", b"status", b"restore:"] {
                all.push([w, &long[..]].concat());
                all.push([&long[..], w].concat());
            }
        }
    }
    all.sort();
    all.dedup();
    all.retain(|r| futile(r, &c));
    for (n, pre) in from() {
        let mut mine = all.clone();
        if !t && !matches!(n, "active" | "pending") {
            // Elsewhere only what names an account or is nearly a command.
            mine.retain(|r| r.contains(&b':') && r.iter().any(|x| b"a ".contains(x)) && r.len() < 14);
        }
        let bs: Vec<Vec<Vec<u8>>> = mine.chunks(BATCH).map(|x| x.to_vec()).collect();
        let c = c.clone();
        v.push(scn(&format!("words:{n}"), 0, move || {
            boot(&c);
            setup(&cx(&c), &pre);
            for r in &bs[choose(bs.len(), "batch")] {
                raw(r);
                quiet();
            }
            probe(&cx(&c), &["a", "b"], true);
        }));
    }
    // Complete commands, in pieces, by clients that stay or go.
    let cmds: &[&[u8]] = &[
        b"showtoken:withurl a",
        b"showtoken:withouturl a",
        b"refresh:withurl a",
        b"revoke:a",
        b"status:",
        b"reload:",
        b"dump:",
        b"info:",
        b"restore:xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
        b"shutdown:",
        b"revoke:ab",
        b"showtoken:withurl  a",
        b"nonsense:a",
        b"nonsense",
    ];
    for (n, pre) in from() {
        for (k, end) in ["fin", "gone", "rst", "split", "late"].iter().enumerate() {
            let (c, pre) = (c.clone(), pre.clone());
            let end = *end;
            let _ = k;
            v.push(scn(&format!("cut:{n}:{end}"), 0, move || {
                boot(&c);
                setup(&cx(&c), &pre);
                let r = cmds[choose(cmds.len(), "command")];
                let at = choose(r.len() + 1, "cut");
                let i = raw_open();
                if end != "split" && end != "late" {
                    raw_send(i, &r[..at]);
                    if at % 2 == 0 {
                        // What was sent has arrived before the end.
                        quiet();
                    }
                    match end {
                        "fin" => raw_fin(i),
                        "gone" => raw_gone(i),
                        _ => raw_rst(i),
                    }
                } else {
                    raw_send(i, &r[..at]);
                    quiet();
                    raw_send(i, &r[at..]);
                    if end == "late" {
                        sleep(100);
                    }
                    raw_fin(i);
                }
                quiet();
                let stopped = request(&ee().raws[i].sent) == Req::Cmd(vec!["shutdown".into()], vec![]);
                if !stopped || end == "rst" && server_up() {
                    probe(&cx(&c), &["a", "b"], true);
                }
            }));
        }
    }
    // Several clients at once: each gets its own answer.
    let who: &[(&str, &[u8])] = &[
        ("show", b"showtoken:withurl a"),
        ("refresh", b"refresh:withurl a"),
        ("revoke", b"revoke:a"),
        ("bad", b"revoke:\xff"),
        ("unknown", b"showtoken:withurl nobody"),
        ("dump", b"dump:"),
    ];
    for (n, pre) in from() {
        for (x, a) in who {
            for (y, b) in who {
                if x > y || !t && (n == "nort" || n == "refresh") {
                    continue;
                }
                for end in ["fin", "gone", "rst"] {
                    let (c, pre) = (c.clone(), pre.clone());
                    v.push(scn(&format!("two:{n}:{x}:{y}:{end}"), if t { 2 } else { 1 }, move || {
                        boot(&c);
                        setup(&cx(&c), &pre);
                        devs(true);
                        let i = raw_open();
                        raw_send(i, &a[..a.len() - 1]);
                        let j = raw_open();
                        raw_send(j, b);
                        cmd(&["show", "b"]);
                        match end {
                            "fin" => {
                                raw_send(i, &a[a.len() - 1..]);
                                raw_fin(i);
                            }
                            "gone" => {
                                raw_send(i, &a[a.len() - 1..]);
                                raw_gone(i);
                            }
                            _ => raw_rst(i),
                        }
                        raw_fin(j);
                        quiet();
                        devs(false);
                        probe(&cx(&c), &["a", "b"], true);
                    }));
                }
            }
        }
    }
    // Long requests.
    for (n, pre) in [("empty", st("empty")), ("active", st("active"))] {
        let c = c.clone();
        v.push(scn(&format!("long:{n}"), 0, move || {
            boot(&c);
            setup(&cx(&c), &pre);
            let head: &[u8] = [b"showtoken:withurl ".as_slice(), b"restore:", b"revoke:", b"status:", b"x:", b"x", b"a:", b":"][choose(8, "head")];
            let fill = [b'a', b' ', b':', 0, 0xff, b'\n'][choose(6, "fill")];
            let len = [1000usize, 65_536, 300_000][choose(3, "length")];
            let i = raw_open();
            raw_send(i, head);
            for _ in 0..len / 1000 {
                raw_send(i, &[fill; 1000]);
            }
            quiet();
            match choose(3, "end") {
                0 => raw_fin(i),
                1 => raw_gone(i),
                _ => raw_rst(i),
            }
            quiet();
            probe(&cx(&c), &["a", "b"], true);
        }));
    }
    // Account names of any kind, through the whole life of a token.
    for (k, p) in NAMES.iter().enumerate() {
        let names: Vec<&'static str> = p.to_vec();
        let c = Conf::new(&names);
        for ops in [vec![Show(names[0]), ShowU(names[0]), Refresh(names[0])], vec![Refresh(names[0]), Revoke(names[0])]] {
            let mut pre = ops;
            pre.extend([Show(names[0]), Auth(names[0]), Ans(R::Grant), Status]);
            let mut o = vec![];
            for n in &names {
                o.extend([Show(n), Refresh(n), Revoke(n), Auth(n)]);
            }
            o.extend([Dump, ResLast, Ans(R::Grant), AnsLast(R::Status(400)), Status]);
            v.push(hist(&format!("names{k}-{}", pre.len()), &[c.clone()], &names, &pre, &o, if t { 3 } else { 2 }, true).blame("C21"));
        }
    }
    v
}
/// The first of each exists beside names that it could be mistaken for.
const NAMES: &[&[&str]] = &[
    &["a b", "a", "b"],
    &["a  b", "a b", "a"],
    &[" a", "a"],
    &["a ", "a"],
    &["a:b", "a", "b"],
    &[":", " "],
    &["withurl a", "a"],
    &["withouturl a", "a"],
    &["a", "A"],
    &["\u{e9}\u{4e2d}", "e"],
    &["a\"b\\c", "a"],
    &["a\tb", "a"],
    &["", "a"],
    &["ok:", "error:x", "pending:"],
    &["a/b%41&c=d+e?#", "a"],
    &["$HOME `x` 'y'", "y"],
    // Long ones with a long common beginning.
    &["lllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllla", "llllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll", "llllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllb"],
    &["mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmy", "mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmmx"],
];

// ---- The HTTP(S) listeners.

fn line_end(b: &[u8]) -> Option<usize> {
    b.windows(4).position(|x| x == b"\r\n\r\n")
}
/// What a whole request (the client has nothing to add) means.
fn meaning(b: &[u8], scheme: &str) -> Brow {
    let mut strict = line_end(b).is_some();
    let head = match line_end(b) {
        Some(i) => &b[..i],
        None => b,
    };
    strict &= head.is_ascii() && b.len() <= 8192;
    let text = String::from_utf8_lossy(head).into_owned();
    if b.len() > 65_536 {
        return Brow::Error;
    }
    let mut lines: Vec<&str> = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    strict &= !text.replace("\r\n", "").contains(|c: char| c.is_control() && c != '\t');
    while lines.len() > 1 && lines[0].trim().is_empty() {
        lines.remove(0);
        strict = false;
    }
    if let Some(i) = lines.iter().position(|l| l.trim().is_empty()) {
        // What follows is not read.
        strict &= i > 0;
        lines.truncate(i.max(1));
    }
    let p: Vec<&str> = lines[0].split(' ').collect();
    if p.len() != 3 || p[0] != "GET" {
        // Leniency about white space is nobody's business.
        return if p[0].trim() == "GET" && lines[0].split_whitespace().count() == 3 && p.len() > 3 { Brow::Either(Box::new(Brow::Bad)) } else { Brow::Error };
    }
    strict &= p[2] == "HTTP/1.1" || p[2] == "HTTP/1.0";
    strict &= p[1].starts_with('/') && p[1].chars().all(|c| c.is_ascii_graphic() && !"#\"<>\\^`{|}".contains(c));
    let mut hosts: Vec<&str> = vec![];
    let mut sloppy = false;
    for (i, l) in lines.iter().enumerate().skip(1) {
        if l.starts_with([' ', '\t']) {
            strict = false;
            sloppy |= i == 1 || lines[i - 1].to_ascii_lowercase().contains("host");
            continue;
        }
        match l.split_once(':') {
            Some((k, v)) => {
                strict &= !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || "-_".contains(c));
                sloppy |= k.trim() != k;
                if k.trim().eq_ignore_ascii_case("host") {
                    hosts.push(v.trim());
                }
            }
            None => strict = false,
        }
    }
    if hosts.len() != 1 {
        return if sloppy { Brow::Either(Box::new(Brow::Bad)) } else { Brow::Error };
    }
    strict &= !sloppy;
    let h = hosts[0];
    strict &= !h.is_empty() && h.chars().all(|c| c.is_ascii_alphanumeric() || "-.:".contains(c));
    // Tabs are no part of a URL, nor are control characters at its end.
    let Some(u) = url(&format!("{scheme}://{h}{}", p[1]).replace(['\t', '\r', '\n'], "").trim_end_matches(|c: char| c <= ' ')) else { return Brow::Either(Box::new(Brow::Bad)) };
    let q = u.query.clone().unwrap_or_default();
    let bytes = q.as_bytes();
    strict &= (0..bytes.len()).all(|i| bytes[i] != b'%' || (i + 2 < bytes.len() && bytes[i + 1..i + 3].iter().all(|x| x.is_ascii_hexdigit())));
    let ps = u.params();
    let one = |k: &str| ps.iter().filter(|x| x.0 == k).count() <= 1;
    strict &= one("state") && one("code") && one("error");
    strict &= h.matches(':').count() == 0 || u.port.is_some();
    let g = |k: &str| get(&ps, k).map(|x| x.to_string());
    let d = Brow::Redirect { scheme: u.scheme.clone(), host: u.host.clone(), port: u.port, state: g("state"), code: g("code"), error: g("error") };
    if strict {
        d
    } else {
        Brow::Either(Box::new(d))
    }
}
const MARK: &str = "CODE.a.7.zzq";
/// The pieces of a redirect for the newest URL of account a.
fn pieces(extra: bool) -> (Vec<String>, String) {
    let u = url_of("a").unwrap_or_else(|| vstd::world::die("no URL"));
    let r = redir(&u, MARK);
    let st = r.state.clone().unwrap();
    let (a, b) = st.split_at(4);
    let mut v: Vec<String> = ["GET", " ", r.path.as_str(), "?", "state", "=", a, b, "&", "code", "=", MARK, " ", "HTTP/1.1", "\r\n"].map(|x| x.to_string()).to_vec();
    if extra {
        v.extend(["Accept", ": ", "text/html", "\r\n"].map(|x| x.to_string()));
    }
    v.extend(["Host", ":", " ", r.host.as_str(), ":", &r.port.unwrap().to_string(), "\r\n"].map(|x| x.to_string()));
    if extra {
        v.extend(["X-Y", ": ", "host: z", "\r\n"].map(|x| x.to_string()));
    }
    v.push("\r\n".into());
    (v, r.scheme)
}
const ODD: &[&str] = &["", "?", "&", "=", "/", ":", " ", "\t", "\r", "\n", "\r\n", "%", "%41", "+", "#", "\0", "\u{e9}", "GET", "host", "error", "error=x&", "&&state&=&", "x=y&", "a:b@", "POST", "HEAD", "OPTIONS", "PUT", "get", "Get", "GETS", "CONNECT", "http/1.1", "HTTP/0.9", "HTTP/1.0", "HTTP/2", "http://", "[::1]", "127.0.0.1", "99999", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
/// Change one piece.
fn mutate(v: &mut Vec<String>, t: bool) {
    let k = choose(if t { 5 } else { 4 }, "change");
    let i = choose(v.len(), "piece");
    match k {
        0 => drop(v.remove(i)),
        1 => {
            let x = v[i].clone();
            v.insert(i, x)
        }
        2 => v[i] = ODD[choose(ODD.len(), "with")].to_string(),
        3 => v.insert(i, ODD[choose(ODD.len(), "with")].to_string()),
        _ => {
            if i + 1 < v.len() {
                v.swap(i, i + 1)
            }
        }
    }
}
/// Send `b` (a whole request) in one of several ways.
fn send(l: usize, tls: bool, d: Brow, b: &[u8], how: usize, cut: usize) -> usize {
    let i = if tls { browse_tls(l, d) } else { browse_open(l, d) };
    if tls {
        quiet();
    }
    match how {
        0 => browse_send(i, b),
        1 => {
            browse_send(i, &b[..cut]);
            quiet();
            browse_send(i, &b[cut..]);
        }
        2 => {
            for x in b {
                browse_send(i, &[*x]);
                quiet();
            }
        }
        _ => {
            browse_send(i, &b[..cut]);
            quiet();
            sleep(200);
            browse_send(i, &b[cut..]);
        }
    }
    i
}
fn with_https(c: &Conf) -> Conf {
    let mut d = c.clone();
    d.https = None;
    d.acct("a").redirect = Some("https://localhost/".into());
    d
}
/// A well-formed redirect for account a, the `k`th kind of many.
fn well_formed(k: usize) -> Option<Vec<u8>> {
    let u = url_of("a").unwrap();
    let r = redir(&u, MARK);
    let (s, c) = (pct_encode(r.state.as_ref().unwrap()), MARK);
    let hp = r.hostport();
    let all: String = s.bytes().map(|b| format!("%{b:02x}")).collect();
    let req = |q: &str, hs: &str| format!("GET {}?{q} HTTP/1.1\r\n{hs}\r\n", r.path).into_bytes();
    let q = format!("state={s}&code={c}");
    let big = format!("X-Big: {}\r\n", "y".repeat(5000));
    let many: String = (0..60).map(|i| format!("X-{i}: {}\r\n", "z".repeat(40))).collect();
    let hs = |n: &str| format!("Accept: */*\r\n{n}\r\nConnection: keep-alive\r\n");
    let v: Vec<Vec<u8>> = vec![
        req(&q, &format!("Host: {hp}\r\n")),
        req(&format!("code={c}&state={s}"), &format!("Host: {hp}\r\n")),
        req(&format!("scope=a+b%2Fc&state={s}&iss=https%3A%2F%2Fx.test&code={c}&session_state=1"), &format!("Host: {hp}\r\n")),
        req(&format!("x&y=&=z&&state={s}&&code={c}&"), &format!("Host: {hp}\r\n")),
        req(&format!("%73tate={s}&c%6Fde={c}"), &format!("Host: {hp}\r\n")),
        req(&format!("state={all}&code={}", c.replace('O', "%4F")), &format!("Host: {hp}\r\n")),
        req(&format!("State=zz&CODE=zz&state={s}&code={c}"), &format!("Host: {hp}\r\n")),
        req(&format!("xstate=zz&statex=zz&code2=zz&state={s}&code={c}"), &format!("Host: {hp}\r\n")),
        req(&format!("state={s}&code={c}&x={}", "q".repeat(3000)), &format!("Host: {hp}\r\n")),
        req(&q, &format!("host: {hp}\r\n")),
        req(&q, &format!("HOST: {hp}\r\n")),
        req(&q, &format!("hOsT:{hp}\r\n")),
        req(&q, &format!("Host: \t  {hp}\r\n")),
        req(&q, &format!("Host: {hp}  \r\n")),
        req(&q, &format!("Host: {}\r\n", hp.to_uppercase())),
        req(&q, &hs(&format!("Host: {hp}"))),
        req(&q, &format!("X-Forwarded-Host: evil.test\r\nHost: {hp}\r\nX-Host: evil.test\r\nHostX: evil.test\r\n")),
        req(&q, &format!("Referer: http://evil.test/?Host: evil.test\r\nHost: {hp}\r\n")),
        req(&q, &format!("{big}Host: {hp}\r\n")),
        req(&q, &format!("Host: {hp}\r\n{big}")),
        req(&q, &format!("{many}Host: {hp}\r\n{many}")),
        req(&q, &format!("A:\r\nHost: {hp}\r\nB: \r\nC: :\r\n")),
        format!("GET {}?{q} HTTP/1.0\r\nHost: {hp}\r\n\r\n", r.path).into_bytes(),
        [req(&q, &format!("Host: {hp}\r\nContent-Length: 5\r\n")), b"hello".to_vec()].concat(),
        [req(&q, &format!("Host: {hp}\r\n")), req(&q, &format!("Host: {hp}\r\n"))].concat(),
        req(&format!("state={s}&error=access_denied&error_description=no+thanks%21"), &format!("Host: {hp}\r\n")),
        req(&format!("error=a%20b%00%0a&state={s}"), &format!("Host: {hp}\r\n")),
    ];
    v.get(k).cloned()
}
const NWELL: usize = 27;
/// A code is taken literally, whatever is in it.
const CODES: &[&str] = &["4/0AX+b c%20d&e=f", "\u{e9}\u{4e2d}\u{1f600}", "a\"b\\c'd", "x", "a;b,c#d?e", " ", "CODE\r\nHost: evil.test", ""];
pub fn c22(t: bool) -> Vec<Scn> {
    let mut v = vec![];
    let plain = ab();
    let tlsc = with_https(&ab());
    let l_of = |tls: bool| listener(if tls { 1 } else { 0 }).unwrap_or_else(|| vstd::world::die("no listener"));
    let sch = |tls: bool| if tls { "https" } else { "http" };
    let good_pre = [("pending", st("pending")), ("exchange", st("exchange")), ("again", plus(&st("active"), &[Revoke("a"), Show("a")]))];
    for tls in [false, true] {
        let c = if tls { tlsc.clone() } else { plain.clone() };
        let nm = sch(tls);
        // Well-formed redirects of every kind, whole and in pieces.
        for (n, pre) in &good_pre {
            for how in 0..4 {
                if !t && (tls && how != 1 && *n != "pending" || *n != "pending" && how > 1) {
                    continue;
                }
                let (c, pre) = (c.clone(), pre.clone());
                v.push(scn(&format!("well:{nm}:{n}:{how}"), 0, move || {
                    boot(&c);
                    setup(&cx(&c), &pre);
                    let b = well_formed(choose(NWELL, "kind")).unwrap();
                    let step = if t { 1 } else if b.len() > 400 { 997 } else { 5 };
                    let cut = if how == 1 || how == 3 { (1 + step * choose((b.len() - 2) / step + 1, "cut")).min(b.len() - 1) } else { 0 };
                    if how == 2 && b.len() > 400 {
                        return;
                    }
                    let d = meaning(&b, nm);
                    browse_all(send(l_of(tls), tls, d, &b, how, cut));
                    quiet();
                    apply(&cx(&c), &Ans(R::Grant));
                    probe(&cx(&c), &["a", "b"], true);
                }));
            }
        }
        // Codes with anything in them.
        {
            let c = c.clone();
            v.push(scn(&format!("codes:{nm}"), 0, move || {
                boot(&c);
                setup(&cx(&c), &[Show("a")]);
                let u = url_of("a").unwrap();
                let r = redir(&u, CODES[choose(CODES.len(), "code")]);
                let b = format!("GET {} HTTP/1.1\r\nHost: {}\r\n\r\n", r.target(), r.hostport());
                browse_all(send(l_of(tls), tls, r.brow(), b.as_bytes(), 0, 0));
                quiet();
                apply(&cx(&c), &Ans(R::Grant));
                probe(&cx(&c), &["a", "b"], true);
            }));
        }
        // A redirect with one or two pieces changed.
        for (n, pre) in &good_pre {
            for two in [false, true] {
                if tls && (two || *n != "pending") || two && (!t || *n != "pending") || !t && *n != "pending" {
                    continue;
                }
                for extra in [false, true] {
                    let (c, pre) = (c.clone(), pre.clone());
                    if two && extra {
                        continue;
                    }
                    v.push(scn(&format!("changed{}:{nm}:{n}:{extra}", two as u8 + 1), 0, move || {
                        boot(&c);
                        setup(&cx(&c), &pre);
                        let (mut p, s) = pieces(extra);
                        mutate(&mut p, true);
                        if two {
                            mutate(&mut p, false);
                        }
                        let b = p.concat().into_bytes();
                        let mut d = meaning(&b, &s);
                        if line_end(&b).is_none() && (tls || !matches!(d, Brow::Error)) {
                            let x = match d {
                                Brow::Either(x) => *x,
                                Brow::Error => Brow::Bad,
                                x => x,
                            };
                            // Over TLS there is no way to say that nothing follows.
                            d = if tls { Brow::Lost(Box::new(x)) } else { Brow::Either(Box::new(x)) };
                        }
                        let i = send(l_of(tls), tls, d, &b, 0, 0);
                        quiet();
                        if !ee().brows[i].done {
                            if tls {
                                browse_rst(i);
                            } else {
                                browse_fin(i);
                            }
                            browse_all(i);
                            quiet();
                        }
                        apply(&cx(&c), &Ans(R::Grant));
                        probe(&cx(&c), &["a", "b"], !two);
                    }));
                }
            }
        }
        // A redirect that is cut off.
        for (n, pre) in &good_pre {
            if !t && *n != "pending" {
                continue;
            }
            for end in ["fin", "rst", "wait"] {
                let (c, pre) = (c.clone(), pre.clone());
                v.push(scn(&format!("cutoff:{nm}:{n}:{end}"), 0, move || {
                    boot(&c);
                    setup(&cx(&c), &pre);
                    let b = well_formed([0, 15, 22][choose(3, "kind")]).unwrap();
                    let cut = choose(b.len() + 1, "cut");
                    let d = meaning(&b[..cut], nm);
                    let d = match (end, d) {
                        ("fin", d) if !tls => match d {
                            Brow::Redirect { .. } if cut < b.len() => Brow::Either(Box::new(d)),
                            d => d,
                        },
                        (_, Brow::Error) => Brow::Lost(Box::new(Brow::Bad)),
                        (_, Brow::Either(d)) => Brow::Lost(d),
                        ("wait", d) if cut == b.len() => d,
                        (_, d) => Brow::Lost(Box::new(d)),
                    };
                    let wait = end == "wait" && cut < b.len();
                    let i = send(l_of(tls), tls, if wait { Brow::Bad } else { d }, &b[..cut], 0, 0);
                    if cut % 2 == 1 {
                        quiet();
                    }
                    match end {
                        "fin" => browse_fin(i),
                        "rst" => browse_rst(i),
                        _ => (),
                    }
                    browse_all(i);
                    quiet();
                    apply(&cx(&c), &Ans(R::Grant));
                    probe(&cx(&c), &["a", "b"], true);
                }));
            }
        }
        // Requests without end.
        {
            let c = c.clone();
            v.push(scn(&format!("endless:{nm}"), 0, move || {
                boot(&c);
                setup(&cx(&c), &[Show("a")]);
                let w = well_formed(0).unwrap();
                let e = w.len() - 2;
                let (head, fill): (Vec<u8>, &[u8]) = [
                    (vec![], &b"x"[..]),
                    (b"GET /?".to_vec(), b"x"),
                    (w[..e].to_vec(), b"x"),
                    (w[..e].to_vec(), b"X: y\r\n"),
                    (w[..e].to_vec(), b" z\r\n"),
                    (w[..e].to_vec(), b"X:\xff\r\n"),
                    (w[..w.iter().position(|x| *x == b' ').unwrap() + 1].to_vec(), b"/"),
                    (vec![], b"\r\n"),
                    (w[..e].to_vec(), b"\0"),
                ][choose(9, "kind")]
                .clone();
                let i = if tls { browse_tls(l_of(tls), Brow::Error) } else { browse_open(l_of(tls), Brow::Error) };
                quiet();
                browse_send(i, &head);
                let mut n = head.len();
                let chunk: Vec<u8> = fill.iter().cycle().take(fill.len() * (900 / fill.len())).copied().collect();
                let each = choose(2, "pace") == 1;
                while n < 300_000 && !ee().brows[i].done {
                    browse_send(i, &chunk);
                    n += chunk.len();
                    if each {
                        quiet();
                    }
                }
                quiet();
                let read = vstd::vnet::end(ee().brows[i].conn).total_read;
                if read > 70_000 {
                    bad("C22", "read-too-much", format!("{read} bytes of a request without end were read"));
                }
                if !ee().brows[i].done {
                    bad("C22,C27", "browser-unanswered", "a request without end is never refused".into());
                    browse_rst(i);
                    quiet();
                }
                probe(&cx(&c), &["a", "b"], true);
            }));
        }
    }
    // Anything at all on the plain listener, up to a length.
    let words: &[&[u8]] = &[b"GET", b" ", b"/", b"?", b"HTTP/1.1", b"\r\n", b"Host: localhost:40001", b"POST", b"\n", b"\0\xff", b"\x16\x03\x01", b":"];
    let mut all: Vec<Vec<u8>> = vec![];
    for n in 0..=if t { 5 } else { 4 } {
        all.extend(seqs(words, n));
    }
    all.sort();
    all.dedup();
    all.retain(|b| matches!(meaning(b, "http"), Brow::Error));
    let bs: Vec<Vec<Vec<u8>>> = all.chunks(150).map(|x| x.to_vec()).collect();
    for (n, pre) in super::core::states() {
        if !t && !matches!(n, "pending" | "active") {
            continue;
        }
        let (c, bs) = (plain.clone(), bs.clone());
        v.push(scn(&format!("words:{n}"), 0, move || {
            boot(&c);
            setup(&cx(&c), &pre);
            for b in &bs[choose(bs.len(), "batch")] {
                browse(l_of(false), b, Brow::Error, true);
                quiet();
            }
            probe(&cx(&c), &["a", "b"], true);
        }));
    }
    // Anything at all instead of TLS, and TLS that breaks off.
    let c = tlsc.clone();
    v.push(scn("nottls", 0, move || {
        boot(&c);
        setup(&cx(&c), &[Show("a")]);
        let w = well_formed(0).unwrap();
        let g: &[&[u8]] = &[b"", b"\x16\x03\x01", b"\x16\x03\x01\xff\xff", b"\x80\x00", &[0u8; 5], &[0xff; 3000], &w, b"\x15\x03\x03\x00\x02\x02\x28", b"\x17\x03\x03\x00\x05hello", b"GET / HTTP/1.1\r\n\r\n", b"\x16\x03\x01\x00\x05\x01\x00\x00\x01\x00"];
        let k = choose(g.len(), "bytes");
        let i = browse_open(l_of(true), Brow::Bad);
        browse_send(i, g[k]);
        match choose(3, "end") {
            0 => browse_fin(i),
            1 => browse_rst(i),
            _ => (),
        }
        quiet();
        probe(&cx(&c), &["a", "b"], true);
    }));
    let c = tlsc.clone();
    v.push(scn("tlscut", 0, move || {
        boot(&c);
        setup(&cx(&c), &[Show("a")]);
        // The client's first flight is cut off, or it never goes on.
        let mut cl = crate::tls::Client::new();
        let x = Tls::feed(&mut cl, &[]).0;
        let step = if t { 1 } else { 7 };
        let n = x.len() / step;
        let k = choose(n + 2, "cut");
        let i = browse_open(l_of(true), Brow::Bad);
        browse_send(i, &x[..(k * step).min(x.len())]);
        match choose(3, "end") {
            0 => browse_fin(i),
            1 => browse_rst(i),
            _ => {
                quiet();
                browse_send(i, &[choose(2, "bit") as u8 * 255; 40]);
            }
        }
        quiet();
        probe(&cx(&c), &["a", "b"], true);
    }));
    // A redirect is for the scheme and the port it names.
    for (n, right) in [("swapped", false), ("right", true)] {
        let mut c = tlsc.clone();
        c.accts[1].redirect = Some("http://localhost/".into());
        v.push(scn(&format!("scheme:{n}"), 0, move || {
            boot(&c);
            setup(&cx(&c), &[Show("a"), Show("b")]);
            let who = ["a", "b"][choose(2, "who")];
            let u = url_of(who).unwrap();
            let mut r = redir(&u, &format!("CODE.{who}.9.zzq"));
            let tls = (who == "a") == right;
            r.scheme = sch(tls).into();
            if !right && choose(2, "port") == 1 {
                r.port = Some(vstd::world::w().net.listeners[l_of(tls)].addr.unwrap().port());
            }
            let b = format!("GET {} HTTP/1.1\r\nHost: {}\r\n\r\n", r.target(), r.hostport());
            browse_all(send(l_of(tls), tls, r.brow(), b.as_bytes(), choose(2, "how"), 9));
            quiet();
            apply(&cx(&c), &Ans(R::Grant));
            probe(&cx(&c), &["a", "b"], true);
        }));
    }
    // Many requests at once, good and bad ones.
    for o in [Auth("a"), AuthErr("a"), Wrong("a", 1), Ans(R::Grant), Show("a"), Revoke("a"), Refresh("a")] {
        for (n, pre) in &good_pre {
            if *n == "again" || matches!(o, Ans(_)) && *n == "pending" {
                continue;
            }
            let (c, pre, o) = (plain.clone(), pre.clone(), o.clone());
            v.push(scn(&format!("many:{n}:{o:?}"), if t { 2 } else { 1 }, move || {
                boot(&c);
                setup(&cx(&c), &pre);
                devs(true);
                let l = l_of(false);
                let junk = choose(4, "junk");
                match junk {
                    0 => drop(browse(l, b"GET / HTTP/1.1\r\n\r\n", Brow::Error, true)),
                    1 => browse_rst(browse_open(l, Brow::Bad)),
                    2 => drop(browse(l, b"GET /favicon.ico HTTP/1.1\r\nHost: localhost\r\n\r\n", Brow::Error, false)),
                    _ => {
                        let b = browse_open(l, Brow::Bad);
                        browse_send(b, b"GET /?state=");
                    }
                }
                begin(&cx(&c), &o);
                begin(&cx(&c), &Auth("a"));
                quiet();
                devs(false);
                probe(&cx(&c), &["a", "b"], true);
            }));
        }
    }
    v.extend(super::special::browser_hangs(t));
    v
}
