//! Authorisation URLs, and where secrets go.
use super::core::{ab, plus, st};
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use crate::util::*;
use vstd::explore::choose;
use O::*;

/// Settings of account a that can be anything.
type Set = fn(&mut Acct, &str);
const PLACES: &[(&str, Set)] = &[
    ("client_id", |a, x| a.client_id = x.into()),
    ("secret", |a, x| a.secret = Some(x.into())),
    ("scope", |a, x| a.scopes = vec![x.into()]),
    ("scope1", |a, x| a.scopes = vec![x.into(), "s2".into()]),
    ("scope2", |a, x| a.scopes = vec!["s1".into(), x.into(), x.into()]),
    ("key", |a, x| a.fields = vec![(x.into(), "v".into())]),
    ("value", |a, x| a.fields = vec![("k".into(), x.into())]),
    ("both", |a, x| a.fields = vec![(x.into(), x.into()), ("z".into(), "".into()), (x.into(), "2".into())]),
    ("hint", |a, x| a.login_hint = Some(x.into())),
    ("hints", |a, x| {
        a.login_hint = Some(x.into());
        a.fields = vec![("k".into(), x.into()), ("login_hint2".into(), "other".into())]
    }),
    ("query", |a, x| a.auth_uri = format!("http://auth.a.test/auth?{}={}", pct_encode(x), pct_encode(x))),
];
const ODD: &[&str] = &[
    "", "a b", " ", "a&b=c", "x=y", "#f", "%41", "%", "%zz", "+", "é中😀", "\"\\", "a/b?c", "'", "\t", "~._-*", "\n", "\r\nX: y", "https://x.test/s.all", "a:b@c", "$HOME", "<s>", "\u{0}", "state", "null", "[]{}|^`",
    "client_id", "redirect_uri", "code_challenge", "scope", "response_type", "access_type", "code_challenge_method",
];
fn is_uri(s: &str) -> bool {
    // Names that the reference would have to find twice.
    s == "state"
}
fn accts(c: &Conf) -> Vec<Acct> {
    c.accts.clone()
}
fn all(c: &Conf) {
    boot(c);
    for a in accts(c) {
        super::conf::exercise(&a);
    }
    // Another reminder for what is left.
    for a in accts(c) {
        cmd(&["show", &a.name]);
        quiet();
        cmd(&["show", &a.name]);
        quiet();
        cmd(&["refresh", &a.name]);
        quiet();
    }
    sleep(16 * 60);
}
const AUTHS: &[&str] = &[
    "http://auth.a.test/auth", "https://auth.a.test/auth", "http://auth.a.test", "http://auth.a.test/?", "http://auth.a.test/a?x=y", "http://auth.a.test/a?x=y&x=z&q", "http://auth.a.test/a?x=a%20b+c%26d%3De",
    "http://auth.a.test:8080/a/b/c?tenant=1", "HTTP://AUTH.a.test/Auth", "http://auth.a.test/a%20b/", "http://auth.a.test/a?scope=other", "http://auth.a.test/a?access_type=online&prompt=consent", "http://auth.a.test/a?x=%C3%A9",
    "https://auth.a.test:443/a", "http://auth.a.test/a;p=1?x=1;y=2",
];
const REDIRS: &[&str] = &[
    "http://localhost/", "http://localhost", "http://localhost/a/b", "http://localhost/a?x=y", "http://localhost:9999/", "https://localhost/", "https://localhost", "https://localhost:1/a?x=y&z", "HTTP://LOCALHOST/", "HTTPS://localhost/",
    "http://127.0.0.1/", "https://127.0.0.1/a", "http://my-host.test/cb", "http://localhost:80/", "https://localhost:443/",
];
pub fn c24(t: bool) -> Vec<Scn> {
    let mut v = vec![];
    // Any value anywhere.
    for (n, set) in PLACES {
        let set = *set;
        let n = *n;
        v.push(scn(&format!("odd:{n}"), 0, move || {
            let x = ODD[choose(ODD.len(), "value")];
            if n == "secret" && x.contains('_') || n == "query" && ["state", "redirect_uri", "code_challenge"].contains(&x) || (n == "key" || n == "both") && is_uri(x) {
                return;
            }
            let mut c = ab();
            set(c.acct("a"), x);
            all(&c);
        }));
        // Every character.
        v.push(scn(&format!("char:{n}"), 0, move || {
            let k = choose(if t { 128 } else { 32 }, "character") as u32 * if t { 1 } else { 4 };
            for j in k..k + if t { 1 } else { 4 } {
                let ch = char::from_u32(j).unwrap();
                let mut c = ab();
                set(c.acct("a"), &format!("{ch}x{ch}{ch}"));
                if j == k {
                    boot(&c);
                } else {
                    write_conf(&c);
                    cmd(&["reload"]);
                    quiet();
                }
                super::conf::exercise(&c.accts[0]);
            }
        }));
    }
    // Two values at once: places influence each other.
    let few = ["", "a&b=c", "%41+ ", "é", "#?"];
    v.push(scn("odd2", 0, move || {
        let (p, q) = (choose(PLACES.len(), "place"), choose(PLACES.len(), "place"));
        let (x, y) = (few[choose(few.len(), "value")], few[choose(few.len(), "value")]);
        if p >= q && !t {
            return;
        }
        let mut c = ab();
        PLACES[p].1(c.acct("a"), x);
        PLACES[q].1(c.acct("b"), y);
        PLACES[q].1(c.acct("a"), y);
        c.acct("b").auth_uri = "http://auth.b.test/auth".into();
        all(&c);
    }));
    // No scopes, no secret, many fields in order.
    v.push(scn("shape", 0, move || {
        let mut c = ab();
        let a = c.acct("a");
        let n = choose(4, "scopes");
        a.scopes = ["z", "y", "x"].iter().take(n).map(|x| x.to_string()).collect();
        if choose(2, "secret") == 0 {
            a.secret = None;
        }
        let f = [("b", "1"), ("a", "2"), ("b", "1"), ("a", "1"), ("login_hint2", "h")];
        for _ in 0..choose(5, "fields") {
            let (k, x) = f[choose(f.len(), "field")];
            a.fields.push((k.into(), x.into()));
        }
        if choose(2, "hint") == 0 {
            a.login_hint = Some("h2".into());
        }
        all(&c);
    }));
    // URIs of either kind, with every combination of listeners.
    let ls = ["none", "127.0.0.1:0", "127.0.0.1:8099", "localhost:0"];
    v.push(scn("uris", 0, move || {
        let (x, y) = (choose(AUTHS.len(), "auth_uri"), choose(REDIRS.len(), "redirect_uri"));
        let (h, s) = (ls[choose(ls.len(), "http_listen")], ls[choose(ls.len(), "https_listen")]);
        let https = REDIRS[y].to_ascii_lowercase().starts_with("https");
        if h == "none" && s == "none" || h == s && h.contains("8099") || (if https { s } else { h }) == "none" || !t && (x != 0 && y > 6 || x != 0 && (h != ls[2] || s != ls[1])) {
            return;
        }
        let mut c = ab();
        (c.http, c.https) = (Some(h.into()), Some(s.into()));
        c.acct("a").auth_uri = AUTHS[x].into();
        c.acct("a").redirect = Some(REDIRS[y].into());
        let b = c.acct("b");
        b.redirect = Some(if h == "none" || https && s != "none" { "https://localhost/b" } else { "http://localhost/b" }.into());
        all(&c);
    }));
    // Which servers run is decided at the start.
    let var = |h: &str, s: &str, r: &str| {
        let mut c = ab();
        (c.http, c.https) = (Some(h.into()), Some(s.into()));
        c.acct("a").redirect = Some(r.into());
        if h == "none" {
            c.acct("b").redirect = Some("https://localhost/b".into());
        }
        c
    };
    let any = "127.0.0.1:0";
    let vars = [
        var(any, "none", "http://localhost/"),
        var(any, any, "http://localhost/"),
        var(any, any, "https://localhost/"),
        var("none", any, "https://localhost/"),
        var("127.0.0.1:8099", any, "http://localhost/x"),
        var(any, "127.0.0.1:8099", "https://localhost/x"),
    ];
    for i in 0..vars.len() {
        let confs = vars.to_vec();
        v.push(scn(&format!("listeners:{i}"), 0, move || {
            note("blame C24".into());
            let c = Cx { confs: confs.clone() };
            boot(&confs[i]);
            if choose(2, "pending") == 0 {
                setup(&c, &[Show("a"), Show("b")]);
            }
            for _ in 0..if t { 3 } else { 2 } {
                apply(&c, &Reload(choose(confs.len(), "reload")));
                let then = [vec![Show("a"), Show("b")], vec![Show("a"), Auth("a"), Ans(R::Grant)], vec![Info, Kill, Start(2)], vec![Dump]];
                for o in &then[choose(then.len(), "then")] {
                    apply(&c, o);
                }
            }
            probe(&c, &["a", "b"], true);
        }));
    }
    // Histories: no value is ever used twice, the newest is the one that counts.
    for r in ["http://localhost/", "https://localhost/r"] {
        let one = var(any, any, r);
        let mut two = one.clone();
        two.acct("a").scopes = vec!["other".into()];
        let ops = [Show("a"), Refresh("a"), Revoke("a"), AuthErr("a"), Auth("a"), Ans(R::Grant), Ans(R::Status(400)), Reload(1), Reload(0), Dump, ResLast, Due, Kill, Start(0), Show("b")];
        let scheme = &r[..5];
        v.push(hist(&format!("{scheme}"), &[one.clone(), two.clone()], &["a", "b"], &[], &ops, if t { 5 } else { 3 }, true));
        v.push(hist(&format!("{scheme}"), &[one, two], &["a", "b"], &st("pending"), &ops, if t { 4 } else { 3 }, true));
    }
    // Many of them.
    v.push(scn("many", 0, move || {
        let c = Cx { confs: vec![ab()] };
        boot(&c.confs[0]);
        let how = choose(4, "how");
        for i in 0..if t { 400 } else { 60 } {
            apply(&c, &Show(["a", "b"][i % 2]));
            match how {
                0 => apply(&c, &Revoke(["a", "b"][i % 2])),
                1 => apply(&c, &AuthErr(["a", "b"][i % 2])),
                2 => apply(&c, &Refresh(["a", "b"][i % 2])),
                _ => {
                    apply(&c, &Kill);
                    apply(&c, &Start(0));
                }
            }
        }
    }));
    // Random values that are rare: all but a few bytes give the same character.
    v.push(scn("rare", 0, move || {
        rare();
        let c = Cx { confs: vec![ab()] };
        boot(&c.confs[0]);
        for o in [Show("a"), Auth("a"), Ans(R::Grant), Show("a"), Show("b"), Refresh("b"), Stale("b"), Auth("b"), Ans(R::Grant), Dump, Kill, Start(0), ResLast, Show("a"), Show("b"), Revoke("b"), Show("b"), AuthErr("b")] {
            apply(&c, &o);
        }
        probe(&c, &["a", "b"], true);
    }));
    // Many different ones.
    v.push(scn("seeds", 0, move || {
        let n = choose(if t { 2048 } else { 256 }, "seed");
        vstd::world::w().rng_seed = n as u64 + 1;
        vstd::world::set_seed();
        let c = Cx { confs: vec![ab()] };
        boot(&c.confs[0]);
        for o in [Show("a"), Auth("a"), Ans(R::Grant), Show("b"), Auth("b"), Ans(R::Grant)] {
            apply(&c, &o);
        }
    }));
    // At the same time.
    for (pre, par) in [
        (vec![], vec![Show("a"), Show("b"), Show("a")]),
        (vec![], vec![Show("a"), Refresh("a"), Refresh("a")]),
        (vec![Show("a")], vec![Refresh("a"), Refresh("a"), Show("a")]),
        (vec![Show("a"), Show("b")], vec![Refresh("a"), Refresh("b")]),
        (vec![Show("a")], vec![Refresh("a"), Auth("a")]),
        (vec![Show("a")], vec![Refresh("a"), AuthErr("a")]),
        (vec![Show("a")], vec![Refresh("a"), Reload(1)]),
        (vec![Show("a")], vec![Reload(1), Show("a"), Show("b")]),
        (vec![Show("a"), Auth("a")], vec![Ans(R::Status(400)), Show("a"), Show("a")]),
        (vec![Show("a"), Auth("a"), Ans(R::Grant), Refresh("a")], vec![Ans(R::Status(400)), Show("a"), Refresh("a")]),
        (vec![Show("a"), Tick], vec![Refresh("a"), Nop]),
    ] {
        let base = ab();
        let mut d = base.clone();
        d.acct("a").fields = vec![("k".into(), "v".into())];
        let k = if t { 3 } else { 2 };
        v.push(race(&[base, d], &["a", "b"], &pre, &par, k));
    }
    v
}
/// Names and values that look like something else when printed.
/// Random values consist of one and the same character, but for a few at one end.
fn rare() {
    let p = [[0xfb, 0xef, 0xbe], [0xff; 3], [0; 3], [0xd3, 0x4d, 0x34], [0x69, 0xa6, 0x9a]];
    let (i, front) = (choose(p.len(), "random values"), choose(2, "end") == 0);
    vstd::world::set_rare(p[i], front);
}
pub fn c25(t: bool) -> Vec<Scn> {
    let mut v = vec![];
    let base = ab();
    let mut more = base.clone();
    more.trans = Some("transcmd".into());
    let mut two = more.clone();
    two.acct("a").secret = Some("SECRET.a.2".into());
    // Accounts whose servers are the same host: what belongs to which account still matters.
    let ops = [
        Show("a"), Auth("a"), AuthErr("a"), Wrong("a", 1), Wrong("a", 4), Ans(R::Grant), Ans(R::Odd), Ans(R::Status(400)), Ans(R::ErrBody), Ans(R::Rst), Refresh("a"), Revoke("a"), Reload(1), Reload(0), BadReload(1), BadReload(2),
        Status, Info, Dump, ResLast, RestoreBad(3), Due,
    ];
    for s in ["empty", "pending", "exchange", "active", "refresh"] {
        v.push(hist("all", &[more.clone(), two.clone()], &["a", "b"], &st(s), &ops, if t { 4 } else { 3 }, t));
    }
    // Tokens with odd characters, with every outcome after.
    let odd = plus(&st("exchange"), &[Ans(R::Odd)]);
    let ends = [Refresh("a"), Ans(R::Odd), Ans(R::Status(500)), Ans(R::Rst), Ans(R::BadJson), Ans(R::Partial), Show("a"), Show("b"), Status, Info, Dump, ResLast, Revoke("a"), Due, Kill, Start(0), Reload(1)];
    v.push(hist("odd", &[more.clone(), two.clone()], &["a", "b"], &odd, &ends, if t { 5 } else { 3 }, true));
    // Answers of token servers that repeat what they were sent.
    v.push(scn("echo", 0, {
        let c = more.clone();
        move || {
            let cx = Cx { confs: vec![c.clone()] };
            boot(&c);
            let s = ["exchange", "refresh"][choose(2, "state")];
            setup(&cx, &st(s));
            echo(choose(NECHO, "answer"));
            quiet();
            for o in [Show("a"), Status, Refresh("a"), Dump] {
                apply(&cx, &o);
            }
            echo(choose(NECHO, "answer"));
            probe(&cx, &["a", "b"], true);
        }
    }));
    // Answers with tokens in them which are none.
    v.push(scn("cut", 0, {
        let c = more.clone();
        move || {
            let cx = Cx { confs: vec![c.clone()] };
            boot(&c);
            let s = ["exchange", "refresh"][choose(2, "state")];
            setup(&cx, &st(s));
            cut(choose(NCUT, "answer"));
            quiet();
            for o in [Show("a"), Status, Refresh("a"), Dump] {
                apply(&cx, &o);
            }
            cut(choose(NCUT, "answer"));
            probe(&cx, &["a", "b"], true);
        }
    }));
    // A token server that cannot be reached, or fails in the same way again and again.
    v.push(scn("down", 0, {
        let c = more.clone();
        move || {
            let cx = Cx { confs: vec![c.clone()] };
            boot(&c);
            let how = choose(7, "how");
            let at = ["pending", "active"][choose(2, "state")];
            setup(&cx, &st(at));
            if how < 3 {
                apply(&cx, &Net("a", [NetMode::Dns, NetMode::Refused, NetMode::Hang][how]));
            }
            apply(&cx, &if at == "pending" { Auth("a") } else { Refresh("a") });
            for _ in 0..14 {
                if how >= 3 {
                    apply(&cx, &Ans([R::Rst, R::Fin, R::Partial, R::Slow][how - 3].clone()));
                }
                apply(&cx, &Due);
            }
            for o in [Status, Show("a"), Info, Dump, Due] {
                apply(&cx, &o);
            }
        }
    }));
    // Requests the command line never makes.
    v.push(scn("raw", 0, {
        let c = more.clone();
        move || {
            let cx = Cx { confs: vec![c.clone()] };
            boot(&c);
            setup(&cx, &st(["empty", "pending", "exchange", "active", "refresh"][choose(5, "state")]));
            let (x, y) = (choose(super::io::WORDS.len(), "word"), choose(super::io::WORDS.len() + 1, "word"));
            let mut r = super::io::WORDS[x].to_vec();
            for sep in [&b""[..], b" ", b":"] {
                if y < super::io::WORDS.len() {
                    r = [super::io::WORDS[x], sep, super::io::WORDS[y]].concat();
                }
                // Those that are proper requests are made elsewhere.
                if let Req::Cmd(..) = request(&r) {
                    continue;
                }
                raw(&r);
                quiet();
            }
        }
    }));
    // Redirects that carry more than one would expect, at every listener.
    for r in ["http://localhost/", "https://localhost/r"] {
        let mut c = base.clone();
        c.https = None;
        c.acct("a").redirect = Some(r.into());
        let ops = [Show("a"), Auth("a"), Stale("a"), AuthErr("a"), Wrong("a", 0), Wrong("a", 7), Ans(R::Grant), Ans(R::Fin), Refresh("a"), Status, Info];
        v.push(hist(&r[..5], &[c], &["a", "b"], &[], &ops, if t { 5 } else { 4 }, false));
    }
    // Odd settings.
    for (n, set) in PLACES {
        let set = *set;
        let n = *n;
        v.push(scn(&format!("odd:{n}"), 0, move || {
            let x = ["zzqq&a=b", "zzqq b", "zzqq%41", "zzqq\u{e9}", "zzqq\"\\'"][choose(5, "value")];
            let mut c = ab();
            set(c.acct("a"), x);
            c.acct("a").secret = Some(format!("SEC{x}RET"));
            all(&c);
        }));
    }
    // A file that is wrong in some place: only the line that is wrong is quoted.
    let text = {
        let mut c = base.clone();
        c.acct("a").login_hint = Some("h".into());
        c.text()
    };
    let l: Vec<String> = text.lines().map(|x| x.to_string()).collect();
    v.push(scn("syntax", 0, move || {
        boot(&ab());
        let at = choose(l.len(), "line");
        for bad in ["}", "x", "\"", "foo = \"x\";", "client_id = \"q\";", "=", "account \"a\" {", "token_uri = \"ftp://x/\";", "\u{e9}"] {
            for k in 0..3 {
                let mut m = l.clone();
                match k {
                    0 => m.insert(at, bad.into()),
                    1 => m[at] = bad.into(),
                    _ => m[at] += bad,
                }
                let t = m.join("\n");
                write_bad_conf(Some(&t));
                if matches!(crate::refconf::read(t.as_bytes()), crate::refconf::V::Reject(_)) {
                    let r = run(&["reload"]);
                    // A syntax error quotes the line it is in, or the one before.
                    let near = (at.saturating_sub(1)..=at + 1).filter_map(|i| m.get(i)).any(|x| x.contains("SECRET"));
                    if !near && r.err.contains("SECRET.") {
                        bad_("the error quotes a client secret", &t, &r.err);
                    }
                    let r = run(&["info", "-c", CONF]);
                    if !near && r.err.contains("SECRET.") {
                        bad_("the error quotes a client secret", &t, &r.err);
                    }
                }
            }
        }
        write_conf(&ab());
        cmd(&["reload"]);
        quiet();
    }));
    v
}
fn bad_(what: &str, text: &str, got: &str) {
    bad("C25", "secret-leak", format!("{what}: {got:?} for {text:?}"));
}
const NCUT: usize = 21;
/// An answer with tokens that is no grant.
fn cut(k: usize) {
    let Some(rid) = held().into_iter().next() else { return };
    let n = ee().trace.len();
    let (at, rt, h) = (format!("AT.cut.{n}.zzq"), format!("RT.cut.{n}.zzq"), host("a"));
    ee().secrets.push((at.clone(), Secret::At, h.clone()));
    ee().secrets.push((rt.clone(), Secret::Rt, h));
    let full = format!("{{\"access_token\":\"{at}\",\"refresh_token\":\"{rt}\",\"token_type\":\"Bearer\",\"expires_in\":3600}}");
    let more = |x: &str| format!("{},{x}}}", &full[..full.len() - 1]);
    let r = match k {
        // Cut anywhere.
        0..=7 => Resp::Body(full[..full.len() * (k + 1) / 9].to_string()),
        8 => Resp::Body(full[..full.len() - 1].to_string()),
        9 => Resp::Body(format!("{full}{full}")),
        10 => Resp::Body(format!("[{full}]")),
        11 => Resp::Body(jstr(&full)),
        12 => Resp::Body(format!("access_token={at}&refresh_token={rt}&token_type=Bearer&expires_in=3600")),
        13 => Resp::Body(full.replace("Bearer", "mac")),
        14 => Resp::Body(full.replace("3600", "\"3600\"")),
        15 => Resp::Body(full.replace("3600", "-5")),
        16 => Resp::Body(full.replace("3600", "3600.5")),
        17 => Resp::Body(full.replace(":\"AT", ":5,\"x\":\"AT")),
        18 => Resp::Body(more("\"error\":\"odd\"")),
        19 => Resp::Body(more("\"error\":\"\"")),
        _ => Resp::Body(full.replace("\"token_type\":\"Bearer\",", "")),
    };
    answer(rid, r);
}
const NECHO: usize = 6;
/// An answer that contains all that the request did.
fn echo(k: usize) {
    let Some(rid) = held().into_iter().next() else { return };
    let f = ee().reqs.iter().find(|r| r.rid == rid).unwrap().form.clone();
    let s: Vec<String> = f.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let s = s.join(" ");
    let r = match k {
        // What a token server says in an error is what the user is told; this is about other answers.
        0 => Resp::Body(s),
        1 => Resp::Body(format!("{{\"error\":[{}]}}", jstr(&s))),
        2 => Resp::Body(format!("{{\"error\":\"x\",\"error_description\":{}}}", jstr(&s))),
        3 => Resp::Body(format!("{{\"access_token\":\"zz\",\"token_type\":{},\"expires_in\":5}}", jstr(&s))),
        4 => Resp::Body(format!("{{\"access_token\":\"zz\",\"token_type\":\"Bearer\",\"expires_in\":{}}}", jstr(&s))),
        _ => Resp::Body(format!("{{\"access_token\":[{}],\"token_type\":\"Bearer\",\"expires_in\":5}}", jstr(&s))),
    };
    answer(rid, r);
}
