//! Configuration files.
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::refconf::{lexemes, read, V};
use crate::runner::{scn, Scn};
use crate::util::*;
use vstd::explore::choose;
use vstd::world::w;
use O::*;

/// Everything there is.
const FULL: &str = r#"
auth_notify_cmd = "authcmd";
auth_notify_interval = 14m;
error_notify_cmd = "errcmd";
http_listen = "127.0.0.1:0";
https_listen = "127.0.0.1:0";
transient_error_if_cmd = "transcmd";
refresh_at_least = 2h;
refresh_before_expiry = 80s;
refresh_retry = 30s;
token_event_cmd = "eventcmd";
account "a" {
  auth_uri = "http://auth.a.test/auth?x=y";
  auth_uri_fields = { "k": "v", "l": "w", "k": "x" };
  client_id = "CID.a";
  client_secret = "SECRET.a.1";
  redirect_uri = "http://localhost/r";
  refresh_at_least = 1d;
  refresh_before_expiry = 2m;
  refresh_retry = 50s;
  scopes = [ "s1", "s2" ];
  token_uri = "http://tok.a.test/token";
}
account "b" {
  auth_uri = "https://auth.b.test/auth";
  client_id = "CID.b";
  login_hint = "hint";
  redirect_uri = "https://localhost/";
  token_uri = "http://tok.b.test/token";
}
"#;
const TINY: &str = r#"account "a" { auth_uri = "http://auth.a.test/auth"; client_id = "CID.a"; token_uri = "http://tok.a.test/token"; }"#;
const MID: &str = r#"// c
token_event_cmd="e\"\\f";refresh_retry = 10m;
http_listen=none; // d "
account"a"{auth_uri="http://auth.a.test/auth?x=1//2";client_id = "CID.a";
redirect_uri="https://localhost/";scopes=["s1","s2"];auth_uri_fields={"k":"v"};
token_uri="http://tok.a.test/token";refresh_before_expiry=42s;}
"#;
const TOKS: &[&str] = &[
    "account", "auth_error_cmd", "auth_notify_cmd", "auth_notify_interval", "auth_uri", "auth_uri_fields", "client_id", "client_secret",
    "error_notify_cmd", "http_listen", "https_listen", "login_hint", "none", "refresh_retry", "redirect_uri", "refresh_before_expiry",
    "refresh_at_least", "scopes", "token_event_cmd", "token_uri", "transient_error_if_cmd", "=", ",", "{", "}", "[", "]", ";", ":",
    "\"x\"", "\"http://x.test/y\"", "7s", "7", "x", "//",
];
const SOME: &[&str] = &["account", "client_id", "token_uri", "scopes", "=", ",", "{", "}", "[", ";", "\"x\"", "\"http://x.test/y\"", "7s", "none"];
const CHARS: &[&str] = &["\"", "\\", "/", "//", "\n", "\r", "\t", " ", "=", ";", ":", ",", "{", "}", "[", "]", "0", "9", "s", "d", "a", "A", "_", "-", ".", "'", "#", "\0", "\u{e9}", "\u{a0}", "\u{661}", "\u{feff}", "\x0c"];

/// Put a text in place. What must become of it.
fn put(text: &[u8]) -> V {
    note(format!("conf {:?}", String::from_utf8_lossy(text)));
    let v = read(text);
    put_file(CONF, text);
    let e = ee();
    let i = match &v {
        V::Accept(c) => Some(e.confs.iter().position(|x| x == c).unwrap_or_else(|| {
            e.confs.push(c.clone());
            e.confs.len() - 1
        })),
        _ => None,
    };
    e.push(K::File { conf: i });
    v
}
fn token_host(a: &Acct) -> String {
    url(&a.token_uri).map_or(String::new(), |u| u.host)
}
fn showable(a: &Acct) -> bool {
    !a.name.starts_with('-') && !a.name.contains('\0')
}
/// Everything that depends on an account's settings is made to happen.
pub fn exercise(a: &Acct) {
    let nm = a.name.as_str();
    let go = |args: &[&str]| {
        cmd(args);
        quiet();
    };
    go(&["show", nm]);
    if a.token_uri.starts_with("http://") && token_host(a).ends_with(".test") {
        let h = token_host(a);
        if let Some(u) = url_of(nm) {
            let mut r = redir(&u, "x");
            r.code = None;
            r.error = Some("access_denied".into());
            follow(&r);
            quiet();
            go(&["show", nm]);
        }
        ee().answers.entry(h.clone()).or_default().push_back(resp(&R::Grant));
        if let Some(u) = url_of(nm) {
            let n = ee().brows.len();
            follow(&redir(&u, &format!("CODE.{}.{n}.zzq", label(nm))));
            quiet();
        }
        go(&["show", nm]);
        ee().answers.entry(h.clone()).or_default().push_back(resp(&R::Grant));
        go(&["refresh", nm]);
        ee().answers.remove(&h);
    }
    go(&["revoke", nm]);
}
fn start(text: &str) -> usize {
    match put(text.as_bytes()) {
        V::Accept(c) => {
            let i = ee().confs.iter().position(|x| *x == c).unwrap();
            start_server(i)
        }
        _ => unreachable!(),
    }
}
/// Many texts in little memory.
struct Texts {
    all: Vec<u8>,
    ends: Vec<u32>,
    batch: usize,
}
impl Texts {
    fn new(v: &[Vec<u8>], batch: usize) -> Texts {
        let mut end = 0;
        Texts {
            all: v.concat(),
            ends: v
                .iter()
                .map(|x| {
                    end += x.len() as u32;
                    end
                })
                .collect(),
            batch,
        }
    }
    fn n(&self) -> usize {
        self.ends.len().div_ceil(self.batch)
    }
    fn get(&self, k: usize) -> impl Iterator<Item = &[u8]> {
        let r = k * self.batch..self.ends.len().min((k + 1) * self.batch);
        r.map(|i| &self.all[if i == 0 { 0 } else { self.ends[i - 1] as usize }..self.ends[i] as usize])
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Then {
    Nothing,
    Show,
    All,
}
/// Reload these texts, one after the other.
fn reloads(name: &str, texts: Vec<Vec<u8>>, then: Then, batch: usize) -> Vec<Scn> {
    let mut t: Vec<Vec<u8>> = texts;
    t.sort();
    t.dedup();
    let (mut good, mut open) = (vec![], vec![]);
    for x in t {
        match read(&x) {
            V::Either(_) => open.push(x),
            V::Accept(c) if c.interval == Some(0) => open.push(x),
            _ => good.push(x),
        }
    }
    let bs = Texts::new(&good, batch);
    let os = Texts::new(&open, batch);
    drop((good, open));
    let mut v = vec![];
    if bs.n() > 0 {
        v.push(scn(name, 0, move || {
            start(FULL);
            for x in bs.get(choose(bs.n(), "batch")) {
                let r = put(x);
                cmd(&["reload"]);
                quiet();
                if let V::Accept(c) = r {
                    for a in &c.accts {
                        if showable(a) {
                            match then {
                                Then::Nothing => (),
                                Then::Show => {
                                    cmd(&["show", &a.name]);
                                    quiet();
                                }
                                Then::All => exercise(a),
                            }
                        }
                    }
                }
            }
            cmd(&["status"]);
            quiet();
            put(FULL.as_bytes());
            cmd(&["reload"]);
            quiet();
            let c = Cx { confs: ee().confs.clone() };
            probe(&c, &["a", "b"], true);
        }));
    }
    // What the documentation does not settle must do no harm.
    if os.n() > 0 {
        v.push(scn(&format!("{name}:open"), 0, move || {
            start(FULL);
            note("nospec".into());
            for x in os.get(choose(os.n(), "batch")) {
                put(x);
                let r = run(&["reload"]);
                let msg = if r.code == Some(1) { !r.err.is_empty() } else { r.code == Some(0) };
                if !msg {
                    bad("C23,C03,C26", "reload-result", format!("reload of {:?} ended with {:?} {:?}", String::from_utf8_lossy(x), r.code, r.err));
                }
            }
            put(FULL.as_bytes());
            if run(&["reload"]).code != Some(0) || run(&["status"]).code != Some(0) {
                bad("C23,C03,C27", "reload-result", "the server does not go on".into());
            }
        }));
    }
    v
}
fn changes(base: &str, toks: &[&str]) -> Vec<Vec<String>> {
    let l = lexemes(base);
    let t: Vec<String> = toks.iter().map(|x| x.to_string()).collect();
    let mut v = vec![];
    for i in 0..=l.len() {
        for x in &t {
            let mut y = l.clone();
            y.insert(i, x.clone());
            v.push(y);
        }
        if i < l.len() {
            for x in &t {
                let mut y = l.clone();
                y[i] = x.clone();
                v.push(y);
            }
            let mut y = l.clone();
            y.remove(i);
            v.push(y);
            let mut y = l.clone();
            y.insert(i, l[i].clone());
            v.push(y);
            v.push(l[..i].to_vec());
            for j in i + 1..l.len() {
                if j == i + 1 || l.len() < 20 {
                    let mut y = l.clone();
                    y.swap(i, j);
                    v.push(y);
                }
            }
        }
    }
    v
}
fn join(v: Vec<Vec<String>>, sep: &str) -> Vec<Vec<u8>> {
    v.into_iter().map(|x| x.join(sep).into_bytes()).collect()
}
/// Raw texts between quotes.
fn raws(n: usize) -> Vec<String> {
    let a = ["a", "\\\\", "\\\"", " ", "\n", "\u{e9}", "/", "&", "=", "%41", "+", "#", "'", "$", "?", ":", ",", "\\", "\\n", "\""];
    let mut v = vec![String::new()];
    let mut all = v.clone();
    for _ in 0..n {
        v = v.iter().flat_map(|x| a.iter().map(move |y| format!("{x}{y}"))).collect();
        all.extend(v.clone());
    }
    all
}
/// The top-level options and those of an account, each with two values.
const TOP: &[(&str, &str, &str)] = &[
    ("auth_notify_cmd", "\"authcmd\"", "\"authcmd2\""),
    ("auth_notify_interval", "14m", "15m"),
    ("error_notify_cmd", "\"errcmd\"", "\"errcmd2\""),
    ("http_listen", "\"127.0.0.1:0\"", "none"),
    ("https_listen", "\"127.0.0.1:0\"", "none"),
    ("transient_error_if_cmd", "\"transcmd\"", "\"transcmd2\""),
    ("refresh_at_least", "2h", "1s"),
    ("refresh_before_expiry", "80s", "0s"),
    ("refresh_retry", "30s", "1m"),
    ("token_event_cmd", "\"eventcmd\"", "\"eventcmd2\""),
];
const ACC: &[(&str, &str, &str)] = &[
    ("auth_uri", "\"http://auth.a.test/auth?x=y\"", "\"https://auth.a.test\""),
    ("auth_uri_fields", "{ \"k\": \"v\", \"l\": \"w\", \"k\": \"x\" }", "{ }"),
    ("client_id", "\"CID.a\"", "\"\""),
    ("client_secret", "\"SECRET.a.1\"", "\"SECRET.a.2\""),
    ("login_hint", "\"h\"", "\"\""),
    ("redirect_uri", "\"http://localhost/r\"", "\"https://localhost/\""),
    ("refresh_at_least", "1d", "100s"),
    ("refresh_before_expiry", "2m", "1m"),
    ("refresh_retry", "50s", "9m"),
    ("scopes", "[ \"s1\", \"s2\" ]", "[ ]"),
    ("token_uri", "\"http://tok.a.test/token\"", "\"http://tok.a.test/token2\""),
];
const URIS: &[&str] = &[
    "", " ", "x", "/", "//x.test/", "http:", "http:/", "http://", "http:///", "https://", "http", "x.test", "x.test/y", "ftp://x.test/", "file:///etc/passwd",
    "mailto:a@x.test", "javascript:alert(1)", "data:,x", "httpx://x.test/", "xhttp://x.test/", "urn:ietf:wg:oauth:2.0:oob", "HTTP://X.test/y", "HTTPS://x.test/",
    "hTTpS://x.test/a?b=c", "http://x.test", "http://x.test/", "http://x.test?x", "http://x.test:80/", "http://x.test:0/", "http://x.test:65535/", "http://x.test:65536/", "http://x.test:x/",
    "http://x.test:/", "http://127.0.0.1/", "http://127.0.0.1:8080/x", "http://x y.test/", "http://x.test/a%20b", "http://x.test/a?b=c&d=%26", "http://a-b.x.test/", "ws://x.test/",
    "http+unix://x.test/", "about:blank", "http://x.test/#f", "http:x.test", "http://u:p@x.test/", "http://[::1]/", "http://[::1", "http://\u{e9}.test/", " http://x.test/", "http://x.test/ ",
    "http://x.test/\u{e9}", "http://x.test\\y", "ht\ttp://x.test/", "http://x_y.test/", "http://1/", "http://x.test./", "http://%41.test/", "https:///x.test/", "http://localhost", "HTTP://LOCALHOST/",
];
pub fn c23(t: bool) -> Vec<Scn> {
    let mut v = vec![];
    // Every change of one lexeme of a text that has everything, of two of a short one.
    v.extend(reloads("change1", [join(changes(FULL, TOKS), " "), join(changes(FULL, SOME), "\n")].concat(), Then::Show, 60));
    let mut two = vec![];
    let some = if t { TOKS } else { SOME };
    for x in changes(TINY, some) {
        two.extend(changes(&x.join(" "), some));
    }
    if !t {
        // Those which leave all of its braces are the ones that are not hopeless.
        two.retain(|x| x.iter().filter(|y| *y == "{").count() == 1 && x.iter().filter(|y| *y == "}").count() == 1 && x.len() % 2 == 0);
    }
    v.extend(reloads("change2", join(two, " "), Then::Nothing, 250));
    // Every character.
    for (n, base) in [("mid", MID), ("tiny", TINY)] {
        let c: Vec<char> = base.chars().collect();
        let mut l: Vec<String> = vec![];
        let few = !t && n == "mid";
        let chars: Vec<&str> = CHARS.iter().copied().enumerate().filter(|(i, _)| !few || i % 3 == 0).map(|x| x.1).collect();
        for i in 0..=c.len() {
            let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
            l.push(a.clone());
            l.extend(chars.iter().map(|x| format!("{a}{x}{b}")));
            if i < c.len() {
                let d: String = c[i + 1..].iter().collect();
                l.push(format!("{a}{d}"));
                l.extend(chars.iter().map(|x| format!("{a}{x}{d}")));
            }
        }
        v.extend(reloads(&format!("chars:{n}"), l.into_iter().map(|x| x.into_bytes()).collect(), Then::Show, 60));
    }
    // What nothing is said about: times take their defaults.
    for (n, f) in [("none", None), ("a", Some(0)), ("top", Some(1))] {
        let mut c = super::core::ab();
        match f {
            // For one account only, which leaves the other's.
            Some(0) => (c.acct("b").before, c.acct("b").at_least, c.acct("b").retry) = (Some(7), Some(70), Some(9)),
            // For both but one.
            Some(_) => {
                (c.before, c.at_least, c.retry, c.interval) = (Some(7), Some(70), Some(9), Some(11));
                (c.acct("a").before, c.acct("a").at_least, c.acct("a").retry) = (Some(90), Some(5400), Some(40));
            }
            None => (),
        }
        for (m, pre) in [("pending", vec![Show("a")]), ("short", vec![Show("a"), Auth("a"), Ans(R::Grant)]), ("long", vec![Show("a"), Auth("a"), Ans(R::Huge)])] {
            v.push(hist(&format!("default-{n}-{m}"), &[c.clone()], &["a", "b"], &pre, &[Wait(30), Wait(890), Wait(4500), UntilReq, Ans(R::Rst), Ans(R::Huge)], if t { 6 } else { 4 }, false).blame("C23"));
        }
    }
    // Comments and white space between any two lexemes.
    let mid = lexemes(MID.split_once('\n').unwrap().1.replace("// d \"", "").as_str());
    let tiny = lexemes(TINY);
    let mut ws: Vec<Vec<u8>> = vec![];
    for sep in ["", " ", "\n", "\r\n", "\t", "//\n", "// \"\n", "//{ \u{e9}\n\n", "\n//\r\n", "\u{a0}", "/", "// x\r", "//", "/* */", "#\n", "\x0b", "--\n"].into_iter().take(if t { 99 } else { 11 }) {
        let l = if t || !sep.trim().is_empty() && !sep.ends_with('\n') { &tiny } else { &mid };
        for i in 0..=l.len() {
            ws.push([l[..i].join(" ").as_bytes(), sep.as_bytes(), l[i..].join(" ").as_bytes()].concat());
        }
        ws.push(l.join(sep).into_bytes());
    }
    v.extend(reloads("space", ws, Then::Show, 60));
    // Options that are missing or there several times, in every order of two.
    let mut occ: Vec<Vec<u8>> = vec![];
    let line = |x: &(&str, &str, &str), k: usize| if k == 0 { String::new() } else { format!("{} = {};\n", x.0, if k == 1 { x.1 } else { x.2 }) };
    let all: Vec<(bool, usize)> = (0..TOP.len()).map(|i| (true, i)).chain((0..ACC.len()).map(|i| (false, i))).collect();
    let other = "account \"b\" { auth_uri = \"http://auth.b.test/auth\"; client_id = \"CID.b\"; token_uri = \"http://tok.b.test/token\"; }\n";
    for (x, p) in all.iter().enumerate() {
        for q in &all[x..] {
            for (kp, kq) in (0..5).flat_map(|a| (0..5).map(move |b| (a, b))) {
                let (mut top, mut acc) = (String::new(), String::new());
                for (is, i) in &all {
                    let f = if *is { TOP[*i] } else { ACC[*i] };
                    let k = if (*is, *i) == *p { kp } else if (*is, *i) == *q { kq } else { 9 };
                    let s = match k {
                        0 => String::new(),
                        2 => line(&f, 2),
                        3 => line(&f, 1) + &line(&f, 1),
                        4 => line(&f, 1) + &line(&f, 2),
                        _ => line(&f, 1),
                    };
                    if *is {
                        top += &s
                    } else {
                        acc += &s
                    }
                }
                occ.push(format!("{top}account \"a\" {{\n{acc}}}\n{other}").into_bytes());
                if kp < 3 && kq < 3 {
                    occ.push(format!("{other}account \"a\" {{\n{acc}}}\n{top}").into_bytes());
                }
            }
        }
    }
    // The same option at both levels, where it does not belong.
    for f in TOP.iter().chain(ACC) {
        occ.push(format!("{}{TINY}", line(f, 1)).into_bytes());
        occ.push(TINY.replace('}', &format!("{}}}", line(f, 1))).into_bytes());
        occ.push(TINY.replace('}', &format!("{}{}}}", line(f, 1), line(f, 2))).into_bytes());
        occ.push(format!("{TINY}{}{}", line(f, 2), line(f, 1)).into_bytes());
        occ.push(format!("{TINY}{}{}{}", line(f, 1), other, line(f, 1)).into_bytes());
    }
    v.extend(reloads("often", occ, Then::Show, 60));
    // Strings with anything in them.
    let mut st: Vec<Vec<u8>> = vec![];
    let base = format!("token_event_cmd = \"e\"; auth_notify_cmd = \"c\"; error_notify_cmd = \"f\"; {}", TINY.replace('}', " client_secret = \"S\"; scopes = [ \"s1\", \"s2\" ]; auth_uri_fields = { \"k\": \"v\" }; login_hint = \"h\"; }"));
    for x in raws(if t { 3 } else { 2 }) {
        for y in ["\"e\"", "\"c\"", "\"f\"", "\"CID.a\"", "\"S\"", "\"s1\"", "\"s2\"", "\"k\"", "\"v\"", "\"h\"", "\"a\""] {
            if y == "\"a\"" && x.contains('\n') {
                continue;
            }
            if t || x.len() < 3 || !matches!(y, "\"s2\"" | "\"c\"" | "\"f\"" | "\"v\"") {
                st.push(base.replace(y, &format!("\"{x}\"")).into_bytes());
            }
        }
    }
    st.extend([("\"s1\"", "y".repeat(5000)), ("\"CID.a\"", "y".repeat(5000)), ("\"a\"", "n".repeat(3000))].map(|(a, b)| base.replace(a, &format!("\"{b}\"")).into_bytes()));
    v.extend(reloads("strings", st, Then::All, 15));
    // Lists.
    let mut li: Vec<Vec<u8>> = vec![];
    let it = ["\"a\"", "\"b\"", "\"a\":\"b\"", "\"b\":\"\"", ",", "x", "\"login_hint\":\"z\""];
    for n in 0..=if t { 6 } else { 5 } {
        let mut s: Vec<Vec<&str>> = vec![vec![]];
        for _ in 0..n {
            s = s.iter().flat_map(|x| it.iter().map(move |y| [x.clone(), vec![*y]].concat())).collect();
        }
        for x in s {
            let k = x.iter().filter(|y| **y != ",").count();
            if n > 3 && (k == n || x.contains(&"x")) {
                continue;
            }
            let x = x.concat();
            for w in [format!("scopes = [{x}];"), format!("auth_uri_fields = {{{x}}};"), format!("login_hint = \"q\"; auth_uri_fields = {{{x}}};"), format!("scopes = {{{x}}};"), format!("auth_uri_fields = [{x}];")] {
                if n < 4 || w.starts_with("scopes = [") == !w.contains(':') && !w.contains("s = [\"") {
                    li.push(TINY.replace('}', &format!("{w} }}")).into_bytes());
                }
            }
        }
    }
    v.extend(reloads("lists", li, Then::Show, 60));
    // Times.
    let mut ti: Vec<Vec<u8>> = vec![];
    for x in ["0", "1", "59", "007", "100000", "213503982334601", "213503982334602", "307445734561825860", "307445734561825861", "5124095576030431", "5124095576030432", "18446744073709551615", "18446744073709551616", "184467440737095516160", "99999999999999999999999999999999999999999999", "", "-1", "+1", "1.5", "1_0", "1e3", "0x1", "\u{661}", "1 ", " 1", "1m30"] {
        for u in ["s", "m", "h", "d", "", "S", "M", "ms", "w", "y", "ss", "sec", " s", "\"s\""] {
            for k in ["auth_notify_interval", "refresh_at_least", "refresh_before_expiry", "refresh_retry"] {
                ti.push(format!("{k} = {x}{u}; {TINY}").into_bytes());
                ti.push(TINY.replace('}', &format!("{k} = {x}{u}; }}")).into_bytes());
            }
            ti.push(format!("refresh_retry = \"{x}{u}\"; {TINY}").into_bytes());
        }
    }
    v.extend(reloads("times", ti, Then::Nothing, 100));
    // URIs.
    let mut ur: Vec<Vec<u8>> = vec![];
    for x in URIS {
        for k in ["http://auth.a.test/auth", "http://tok.a.test/token"] {
            ur.push(TINY.replace(k, x).into_bytes());
        }
        for l in ["", "http_listen = none; ", "https_listen = none; "] {
            ur.push(format!("{l}{}", TINY.replace('}', &format!("redirect_uri = \"{x}\"; }}"))).into_bytes());
        }
    }
    v.extend(reloads("uris", ur.clone(), Then::Show, 20));
    // Bytes that are no text.
    let mut by: Vec<Vec<u8>> = vec![vec![], b"\n".to_vec(), b"// x".to_vec(), b"\xff".to_vec(), b"\xef\xbb\xbf".to_vec()];
    for i in 0..=TINY.len() {
        for x in [&b"\xff"[..], b"\xc3", b"\0", b"\xed\xa0\x80"] {
            by.push([&TINY.as_bytes()[..i], x, &TINY.as_bytes()[i..]].concat());
        }
    }
    v.extend(reloads("bytes", by.clone(), Then::Nothing, 60));
    // The server starts exactly with what a running one would accept.
    let mut b: Vec<Vec<u8>> = join(changes(TINY, SOME), " ");
    b.extend(ur);
    b.extend(by.into_iter().step_by(7));
    b.push(FULL.into());
    b.push(MID.into());
    let opt = |k: &str, x: &str| if x.is_empty() { String::new() } else { format!("{k} = {x};") };
    let ad = ["", "none", "\"127.0.0.1:0\"", "\"127.0.0.1:8099\"", "\"localhost:0\"", "\"0.0.0.0:0\"", "\"[::1]:0\""];
    for h in ad {
        for s in ad {
            for r in ["", "\"http://localhost/\"", "\"https://localhost/\"", "\"HTTPS://localhost/\"", "\"http://127.0.0.1:77/q?r=s\""] {
                if h != s || !h.contains("8099") {
                    b.push(format!("{}{}{}", opt("http_listen", h), opt("https_listen", s), TINY.replace('}', &(opt("redirect_uri", r) + "}"))).into_bytes());
                }
            }
        }
    }
    b.sort();
    b.dedup();
    b.retain(|x| !matches!(read(x), V::Either(_)));
    v.push(scn("start", 0, move || {
        let x = &b[choose(b.len(), "text")];
        match put(x) {
            V::Accept(c) => {
                let i = ee().confs.iter().position(|x| *x == c).unwrap();
                let p = start_server(i);
                if let Some(code) = w().procs[p].exit {
                    bad("C23", "start", format!("the server did not start ({code}): {:?}", String::from_utf8_lossy(&w().procs[p].stderr)));
                    return;
                }
                for a in &c.accts {
                    if showable(a) {
                        exercise(a);
                    }
                }
            }
            _ => {
                let p = vstd::world::spawn_proc(true, &server_args(), penv(), vec![]);
                quiet();
                refused(p, &format!("{:?}", String::from_utf8_lossy(x)));
            }
        }
    }));
    // No text at all, and addresses nobody can listen on.
    let ws = ["none", "dir", "unreadable", "badaddr", "noport", "taken", "badhttps"];
    v.push(scn("start:bad", 0, move || {
        let k = ws[choose(ws.len(), "what")];
        let ad = |a: &str, l: &str| put(format!("{l} = \"{a}\"; {TINY}").as_bytes());
        use vstd::interpose::Kind;
        put(TINY.as_bytes());
        match k {
            "none" => drop(w().fs.nodes.remove(CONF)),
            "dir" => w().fs.nodes.get_mut(CONF).unwrap().kind = Kind::Dir,
            "unreadable" => w().fs.nodes.get_mut(CONF).unwrap().unreadable = true,
            "badaddr" => drop(ad("not an address", "http_listen")),
            "noport" => drop(ad("127.0.0.1", "http_listen")),
            "badhttps" => drop(ad("127.0.0.1:99999", "https_listen")),
            _ => drop(put(format!("http_listen = \"127.0.0.1:8099\"; https_listen = \"127.0.0.1:8099\"; {TINY}").as_bytes())),
        }
        let p = vstd::world::spawn_proc(true, &server_args(), penv(), vec![]);
        quiet();
        refused(p, k);
    }));
    // Times take effect as written, those of the account before the others.
    let opts = [("refresh_at_least", ["30s", "3m"]), ("refresh_before_expiry", ["10s", "2m"]), ("refresh_retry", ["15s", "1m"])];
    let cases: Vec<(String, String)> = opts
        .iter()
        .flat_map(|(k, x)| {
            let l: Vec<String> = std::iter::once(String::new()).chain(x.iter().map(|y| format!("{k} = {y};\n"))).collect();
            let m = l.clone();
            l.into_iter().flat_map(move |a| m.clone().into_iter().map(move |b| (a.clone(), b)))
        })
        .collect();
    for (i, (a, b)) in cases.into_iter().enumerate() {
        let text = format!("token_event_cmd = \"eventcmd\"; transient_error_if_cmd = \"transcmd\"; {a}{}", TINY.replace('}', &format!("{b}}}")));
        let d = if t { 5 } else { 3 };
        v.push(scn(&format!("effect:{i}"), 0, move || {
            start(&text);
            let c = Cx { confs: ee().confs.clone() };
            setup(&c, &[Show("a"), Auth("a"), Ans(R::Grant)]);
            let ops = [Due, Ans(R::Grant), Ans(R::Rst), Refresh("a"), Ans(R::Short)];
            for _ in 0..d {
                let o: Vec<&O> = ops.iter().filter(|o| able(o)).collect();
                apply(&c, o[choose(o.len(), "operation")]);
            }
            probe(&c, &["a"], false);
            apply(&c, &Due);
            apply(&c, &Due);
        }));
    }
    for (i, x) in ["", "auth_notify_interval = 5s;", "auth_notify_interval = 1m;", "auth_notify_interval = 1h;", "auth_notify_interval = 100000d;"].into_iter().enumerate() {
        let text = format!("auth_notify_cmd = \"authcmd\"; {x}{TINY}");
        v.push(scn(&format!("effect:interval{i}"), 0, move || {
            start(&text);
            let c = Cx { confs: ee().confs.clone() };
            setup(&c, &[Show("a")]);
            for _ in 0..5 {
                let ops = [Due, Wait(7), Show("a"), Wait(1000)];
                apply(&c, &ops[choose(ops.len(), "operation")]);
            }
            probe(&c, &["a"], false);
        }));
    }
    // Times that are as long as can be.
    for k in ["refresh_at_least", "refresh_before_expiry", "refresh_retry"] {
        for (j, x) in ["9223372036854775807s", "1000000000000s", "106751991167d", "0s"].into_iter().enumerate() {
            let text = format!("token_event_cmd = \"eventcmd\"; {k} = {x}; {TINY}");
            v.push(scn(&format!("effect:{k}:{j}"), 0, move || {
                if matches!(x, "0s") || k == "refresh_before_expiry" {
                    note("nospec".into());
                }
                start(&text);
                let c = Cx { confs: ee().confs.clone() };
                setup(&c, &[Show("a"), Auth("a")]);
                let ops = [Ans(R::Grant), Ans(R::Rst), Ans(R::Huge), Refresh("a"), Due, Status, Dump];
                for _ in 0..4 {
                    let o: Vec<&O> = ops.iter().filter(|o| able(o)).collect();
                    apply(&c, o[choose(o.len(), "operation")]);
                }
                apply(&c, &Status);
            }));
        }
    }
    v
}
/// The server must have given up with a message, and left nothing behind that answers.
fn refused(p: usize, what: &str) {
    let x = &w().procs[p];
    if x.exit != Some(1) || x.stderr.is_empty() {
        bad("C23", "start", format!("a server started with {what}: exit {:?}, stderr {:?}", x.exit, String::from_utf8_lossy(&x.stderr)));
    }
    if run(&["status"]).code != Some(1) {
        bad("C23", "start", format!("with {what} status finds a server"));
    }
}
