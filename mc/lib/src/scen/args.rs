//! The command line: arguments, exit statuses, output.
use super::cli::{places, set_env, CMDS};
use super::core::{ab, states};
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use serde_json::Value;
use std::io::{Read, Write};
use vstd::explore::choose;
use vstd::interpose::{Kind, Node};
use vstd::world::{self, w};
use O::*;

pub const SUBS: [&str; 10] = ["dump", "info", "refresh", "reload", "restore", "revoke", "server", "show", "shutdown", "status"];
fn lower(s: &[u8]) -> String {
    String::from_utf8_lossy(s).into_owned()
}

/// What the manual says about a sequence of words.
#[derive(Debug, Clone, PartialEq)]
enum Args {
    Bad,
    /// Not specified.
    Either,
    Ok { free: Vec<String>, u: bool, d: bool, j: bool, conf: Option<String> },
}
fn parse(sub: &str, words: &[&str]) -> Args {
    let flags: &str = match sub {
        "info" => "hvcj",
        "refresh" | "show" => "hvu",
        "server" => "hvcd",
        _ => "hv",
    };
    let (mut free, mut n) = (vec![], std::collections::BTreeMap::<char, usize>::new());
    let mut conf = None;
    let mut odd = false;
    let mut i = 0;
    while i < words.len() {
        let x = words[i];
        i += 1;
        if x == "--" {
            free.extend(words[i..].iter().map(|x| x.to_string()));
            break;
        }
        if let Some(l) = x.strip_prefix("--") {
            let (l, v) = l.split_once('=').map_or((l, None), |(a, b)| (a, Some(b)));
            let c = match l {
                "help" => 'h',
                "verbose" => 'v',
                "config" => 'c',
                _ => return Args::Bad,
            };
            if !flags.contains(c) || v.is_some() && c != 'c' {
                return Args::Bad;
            }
            *n.entry(c).or_default() += 1;
            if c == 'c' {
                match v {
                    Some(v) => conf = Some(v.to_string()),
                    None => odd = true,
                }
            }
        } else if x.len() > 1 && x.starts_with('-') {
            for (k, c) in x.char_indices().skip(1) {
                if !flags.contains(c) {
                    return Args::Bad;
                }
                *n.entry(c).or_default() += 1;
                if c == 'c' {
                    if k + 1 < x.len() {
                        conf = Some(x[k + 1..].to_string());
                    } else if i < words.len() && !(words[i].len() > 1 && words[i].starts_with('-')) {
                        conf = Some(words[i].to_string());
                        i += 1;
                    } else {
                        odd = true;
                    }
                    break;
                }
            }
        } else {
            free.push(x.to_string());
        }
    }
    let want = matches!(sub, "refresh" | "revoke" | "show") as usize;
    if n.contains_key(&'h') || free.len() != want {
        return Args::Bad;
    }
    if odd || n.iter().any(|(c, k)| *c != 'v' && *k > 1) || conf.as_ref().map_or(false, |c| !c.starts_with("/v/")) {
        return Args::Either;
    }
    let h = |c| n.contains_key(&c);
    Args::Ok { free, u: h('u'), d: h('d'), j: h('j'), conf }
}
/// A process that must not get anywhere.
fn refused(args: &[&str]) {
    let ends = w().net.ends.len();
    let p = start_free(args, penv(), b"x".to_vec());
    quiet();
    let x = &w().procs[p];
    if x.exit != Some(1) || !x.stdout.is_empty() || x.stderr.is_empty() {
        bad("C26", "bad-usage", format!("{args:?} ends with {:?}, stdout {:?}, stderr {:?}", x.exit, lower(&x.stdout), lower(&x.stderr)));
    }
    if w().net.ends.len() != ends {
        bad("C26", "bad-usage-sent", format!("{args:?} contacts the server"));
    }
}
/// A process with words as they are, judged as the command they mean.
fn means(words: &[&str], canon: Vec<String>, stdin: Vec<u8>) -> usize {
    let argv = std::iter::once("pizauth").chain(words.iter().copied()).map(|x| x.to_string()).collect();
    let pid = world::new_proc(false, argv, penv(), stdin.clone());
    ee().push(K::Cmd { pid, args: canon, stdin });
    ee().cli.push(pid);
    world::start_proc(pid);
    pid
}
/// What `info` must say; `None`: no server.
fn info_ok(out: &[u8], j: bool, conf: &str, ports: Option<(Option<u16>, Option<u16>)>) {
    let s = lower(out);
    let cache = sock();
    let cache = cache.trim_end_matches("/pizauth.sock");
    let cache = cache.replace("//", "/");
    let one = |x: &str| x.replace("//", "/");
    let b = |k: &str, t: String| bad("C26", k, format!("{t}: {s}"));
    if j {
        let Ok(v) = serde_json::from_str::<Value>(&s) else { return b("info-json", "not JSON".into()) };
        if v["cache_directory"].as_str().map(one) != Some(cache) {
            b("info-wrong", "the cache directory".into());
        }
        if v["config_file"].as_str().map(one).as_deref() != Some(conf) {
            b("info-wrong", format!("the configuration file is {conf}"));
        }
        if v["info_format_version"].as_u64().is_none() || v["pizauth_version"].as_str().map_or(true, |x| x.is_empty()) {
            b("info-wrong", "the versions".into());
        }
        if v["server_running"].as_bool() != Some(ports.is_some()) {
            b("info-wrong", "whether the server is running".into());
        }
        if let Some((h, t)) = ports {
            for (k, p) in [("http_port", h), ("https_port", t)] {
                let x = match &v["server_info"][k] {
                    Value::String(s) => s.parse().ok(),
                    Value::Number(n) => n.as_u64(),
                    _ => None,
                };
                if x != p.map(|x| x as u64) {
                    b("info-wrong", format!("{k} is {p:?}"));
                }
            }
        }
    } else {
        let t = one(&s);
        if !t.contains(&cache) || !t.contains(conf) {
            b("info-wrong", format!("cache directory {cache}, configuration file {conf}"));
        }
        if s.contains("not running") != ports.is_none() {
            b("info-wrong", "whether the server is running".into());
        }
        if let Some((h, t)) = ports {
            for p in [h, t].into_iter().flatten() {
                if !s.contains(&p.to_string()) {
                    b("info-wrong", format!("port {p}"));
                }
            }
        }
    }
}
fn ports() -> Option<(Option<u16>, Option<u16>)> {
    the_server()?;
    let (h, s) = listeners();
    let p = |x: Option<usize>| x.map(|l| w().net.listeners[l].addr.unwrap().port());
    Some((p(h), p(s)))
}

fn words_of(sub: &str, len: usize) -> Vec<&'static str> {
    let all = ["-h", "--help", "-v", "--verbose", "-vvvv", "--verbose=1", "-x", "--nope", "-", "--", "a", "b", "", "-u", "-j", "-d", "-c", "-uv", "-vu", "-vx", "-hv", "-dc", "-dv", "--config=/v/home/other.conf", "-c/v/home/other.conf", "/v/home/other.conf", "--config", "-u=1", "-1", "--help=", "-vj", "nobody"];
    if len < 3 {
        return all.to_vec();
    }
    match sub {
        "refresh" | "show" | "revoke" => vec!["-u", "-v", "-uv", "a", "--", "-", "-x", "-h", "b"],
        "server" => vec!["-d", "-v", "-c", "-dc", "/v/home/other.conf", "-x", "--", "a"],
        "info" => vec!["-j", "-v", "-c", "/v/home/other.conf", "-jc", "--", "a"],
        _ => vec!["-v", "--", "a", "-u", ""],
    }
}
fn active(c: &Conf) {
    boot(c);
    setup(&Cx { confs: vec![c.clone()] }, &[Show("a"), Auth("a"), Ans(R::Grant)]);
}
fn usage(t: bool, v: &mut Vec<Scn>) {
    for sub in SUBS {
        for up in [true, false] {
            for len in 0..=if t { 4 } else { 3 } {
                let c = Conf::new(&["a"]);
                v.push(scn(&format!("words:{sub}:{}:{len}", if up { "up" } else { "down" }), 0, move || {
                    let al = words_of(sub, len);
                    let words: Vec<&str> = (0..len).map(|_| pick(&al, "word")).collect();
                    let mut argv = vec![sub];
                    argv.extend(&words);
                    let p = parse(sub, &words);
                    if p == Args::Either {
                        return;
                    }
                    let mut stdin = vec![];
                    if up {
                        active(&c);
                        if sub == "restore" {
                            stdin = run(&["dump"]).raw;
                            run(&["revoke", "a"]);
                        }
                    } else {
                        write_conf(&c);
                    }
                    put_file("/v/home/other.conf", c.text().as_bytes());
                    match p {
                        Args::Either => (),
                        Args::Bad => refused(&argv),
                        Args::Ok { d, .. } if sub == "server" => {
                            let a = std::iter::once("pizauth").chain(argv.iter().copied()).map(|x| x.to_string()).collect();
                            let pid = world::new_proc(true, a, penv(), vec![]);
                            ee().servers.push(pid);
                            ee().push(K::Start { pid, conf: Some(0), daemon: !d });
                            world::start_proc(pid);
                            quiet();
                            if up && w().procs[pid].exit != Some(1) {
                                bad("C26,C29", "second-server", "a second server is running".into());
                            }
                        }
                        Args::Ok { free, u, j, conf, .. } => {
                            let mut canon = vec![sub.to_string()];
                            if u {
                                canon.push("-u".into());
                            }
                            canon.extend(free);
                            let p = means(&argv, canon, stdin);
                            quiet();
                            if sub == "info" {
                                info_ok(&w().procs[p].stdout.clone(), j, conf.as_deref().unwrap_or(CONF), ports());
                            }
                        }
                    }
                    if the_server().is_some() {
                        run(&["status"]);
                        run(&["show", "-u", "a"]);
                    }
                }));
            }
        }
    }
    for up in [true, false] {
        let c = Conf::new(&["a"]);
        v.push(scn(&format!("unknown:{}", if up { "up" } else { "down" }), 0, move || {
            if up {
                active(&c);
            } else {
                write_conf(&c);
            }
            let x = pick(&["", "bogus", "-h", "--help", "-v", "--", "-", "Show", "STATUS", "showtoken", "help", "stat", "show ", " show", "show:", "status:", "server2", "-d", "start", "stop"], "word");
            let mut a: Vec<&str> = vec![];
            let len = choose(4, "words");
            if len > 0 {
                a.push(x);
            }
            for _ in 1..len {
                a.push(pick(&["a", "-u", "show", "status", "-d"], "word"));
            }
            refused(&a);
            if up {
                run(&["status"]);
                run(&["show", "-u", "a"]);
            }
        }));
    }
}

/// How an answer ends.
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Fin,
    Slow,
    Rst,
    /// Closed without having read the request.
    Deaf,
}
/// A server that says this to everyone.
fn fake(answer: Vec<u8>, how: End) -> usize {
    let p = world::new_proc(false, vec!["pizauth".into(), "#fake".into()], penv(), vec![]);
    ee().free.insert(p);
    w().fs.nodes.insert(format!("{RUN}/pizauth"), Node { kind: Kind::Dir, mode: 0o700, foreign: false, unreadable: false });
    world::spawn_task(
        p,
        "fake".into(),
        Box::new(move || {
            let l = vstd::os::unix::net::UnixListener::bind(SOCK).unwrap();
            loop {
                let Ok((mut s, _)) = l.accept() else { return };
                if how != End::Deaf {
                    let mut b = vec![];
                    let _ = s.read_to_end(&mut b);
                }
                if how == End::Slow {
                    for x in &answer {
                        let _ = s.write_all(&[*x]);
                    }
                } else {
                    let _ = s.write_all(&answer);
                }
                if how == End::Rst {
                    if let vstd::vnet::Peer::End(o) = vstd::vnet::end(s.end_id()).peer {
                        vstd::vnet::push_rst(o);
                    }
                }
            }
        }),
        false,
    );
    quiet();
    p
}
const ASKS: [&[&str]; 12] = [&["dump"], &["info"], &["info", "-j"], &["refresh", "a"], &["refresh", "-u", "a"], &["reload"], &["restore"], &["revoke", "a"], &["show", "a"], &["show", "-u", "a"], &["shutdown"], &["status"]];
/// The answer of a server, which the command must understand or report.
fn asked(args: &[&str], ans: &[u8], how: End) {
    let p = start_free(args, penv(), b"zz".to_vec());
    quiet();
    let x = &w().procs[p];
    let (out, err) = (lower(&x.stdout), lower(&x.stderr));
    let b = |k: &str, why: String| bad("C26", k, format!("{args:?}, answered {:?} ({how:?}), ends with {:?}, stdout {out:?}, stderr {err:?}: {why}", lower(ans), x.exit));
    let text = std::str::from_utf8(ans).ok();
    let whole = matches!(how, End::Fin | End::Slow);
    if args[0] == "info" {
        if x.exit != Some(0) {
            return b("info-fails", "'info' fails".into());
        }
        let v = text.and_then(|t| serde_json::from_str::<Value>(t).ok()).filter(|_| whole);
        if args.len() > 1 {
            match serde_json::from_str::<Value>(&out) {
                Err(_) => b("info-json", "not JSON".into()),
                Ok(o) => {
                    if o["server_running"].as_bool() != Some(v.is_some()) && (v.is_none() || v.as_ref().unwrap().is_object()) {
                        b("info-running", "whether the server is running is wrong".into())
                    }
                }
            }
        } else if v.is_none() && !out.contains("not running") {
            b("info-running", "no server is running".into());
        }
        return;
    }
    if args[0] == "shutdown" {
        // Nothing is answered to it.
        match x.exit {
            Some(0) if x.stdout.is_empty() => (),
            Some(1) if how == End::Deaf && x.stdout.is_empty() && !x.stderr.is_empty() => (),
            _ => b("shutdown-result", "the request was delivered".into()),
        }
        return;
    }
    let (head, rest) = text.and_then(|t| t.split_once(':')).unwrap_or(("", ""));
    let good: Option<Vec<u8>> = match (args[0], head, rest) {
        _ if !whole => None,
        ("dump", ..) if !ans.is_empty() => Some(ans.to_vec()),
        ("show", "access_token", x) | ("status", "ok", x) => Some(format!("{x}\n").into_bytes()),
        ("refresh", "scheduled", "") | ("reload" | "restore" | "revoke", "ok", "") => Some(vec![]),
        _ => None,
    };
    match good {
        // A token that is none could also be an error.
        Some(g) if g == b"\n" && x.exit == Some(1) && x.stdout.is_empty() && !x.stderr.is_empty() => (),
        Some(g) => {
            if x.exit != Some(0) || x.stdout != g {
                b("answer-lost", format!("expected {:?}", lower(&g)));
            }
        }
        None => {
            if x.exit != Some(1) || !x.stdout.is_empty() || x.stderr.is_empty() {
                return b("failure-hidden", "a failure".into());
            }
            let say = match (args[0], head) {
                _ if !whole => false,
                (_, "error") => args[0] != "dump",
                ("show" | "refresh", "pending") => true,
                _ => false,
            };
            if say && !err.contains(rest.trim()) {
                b("message-lost", format!("{rest:?} is not reported"));
            }
        }
    }
}
const TOKENS: [&str; 17] = ["ok", "error", "pending", "scheduled", "access_token", ":", "x y", "\n", " ", "http://u/?a=b", "OK", "{}", "null", "[1]", "{\"http_port\":\"5\",\"https_port\":7}", "\u{e9}", "\u{0}"];
const SAID: [&str; 18] = [
    "", "No accounts configured", "No account 'a'", "No account ''", "Unknown command 'x'", "Unknown command 'revoke'", "Token unavailable until authentication complete", "Token unavailable until authentication complete:",
    "a: No access token", "account a: active", "ok:", "error:", "pending:http://auth.a.test/auth?x=y", "Parsing failed", "Can't reload", "0", "\n", "can't open '/v/home/pizauth.conf': x: y",
];
fn answers(t: bool, v: &mut Vec<Scn>) {
    for ask in ASKS {
        for how in [End::Fin, End::Slow, End::Rst, End::Deaf] {
            let n = match how {
                End::Fin if t => 4,
                End::Fin => 3,
                End::Slow | End::Rst => 2,
                End::Deaf => 1,
            };
            let ask = ask.to_vec();
            v.push(scn(&format!("answer:{}:{how:?}", ask.join("")), 0, move || {
                write_conf(&Conf::new(&["a"]));
                let mut a = vec![];
                for _ in 0..choose(n + 1, "length") {
                    a.extend_from_slice(pick(&TOKENS, "token").as_bytes());
                }
                match choose(3, "byte") {
                    1 => a.push(0xff),
                    2 if !a.is_empty() => a.insert(0, 0xc3),
                    2 => return,
                    _ => (),
                }
                fake(a.clone(), how);
                asked(&ask, &a, how);
            }));
        }
        // What servers say.
        let ask2 = ask.to_vec();
        v.push(scn(&format!("said:{}", ask.join("")), 0, move || {
            write_conf(&Conf::new(&["a"]));
            let head = pick(&["ok:", "access_token:", "error:", "pending:", "scheduled:", "error: ", "Error:", ""], "head");
            let a = format!("{head}{}", pick(&SAID, "text"));
            let how = pick(&[End::Fin, End::Slow, End::Rst], "end");
            fake(a.clone().into_bytes(), how);
            asked(&ask2, a.as_bytes(), how);
        }));
        // Long answers.
        let ask = ask.to_vec();
        v.push(scn(&format!("long:{}", ask.join("")), 0, move || {
            write_conf(&Conf::new(&["a"]));
            let mut a = pick(&["ok:", "access_token:", "error:", "pending:", "", "scheduled:"], "head").as_bytes().to_vec();
            a.extend(std::iter::repeat(b'q').take(pick(&[1, 1023, 1024, 8191, 8192, 8193, 65536, 300_000], "length")));
            let how = pick(&[End::Fin, End::Rst], "end");
            fake(a.clone(), how);
            asked(&ask, &a, how);
        }));
    }
    // Servers that come and go.
    for ask in ASKS {
        let ask = ask.to_vec();
        v.push(scn(&format!("gone:{}", ask.join("")), if t { 3 } else { 2 }, move || {
            write_conf(&Conf::new(&["a"]));
            let p = fake(b"ok:".to_vec(), End::Fin);
            devs(true);
            let first = choose(2, "order") == 1;
            if first {
                kill_server(p);
            }
            let q = start_free(&ask, penv(), vec![]);
            if !first {
                world::point("meanwhile");
                kill_server(p);
            }
            quiet();
            let x = &w().procs[q];
            let fine = match ask[0] {
                "info" => x.exit == Some(0) && lower(&x.stdout).contains(if ask.len() > 1 { "false" } else { "not running" }),
                "shutdown" => matches!(x.exit, Some(0 | 1)) && x.stdout.is_empty() && (x.exit == Some(0)) == x.stderr.is_empty(),
                "reload" | "restore" | "revoke" | "status" | "dump" if x.exit == Some(0) => true,
                _ => x.exit == Some(1) && x.stdout.is_empty() && !x.stderr.is_empty(),
            };
            if !fine {
                bad("C26", "failure-hidden", format!("{ask:?} ends with {:?}, stdout {:?}, stderr {:?}", x.exit, lower(&x.stdout), lower(&x.stderr)));
            }
        }));
    }
}

/// Without a server, and with one in every state.
fn fates(t: bool, v: &mut Vec<Scn>) {
    for ask in ASKS {
        let ask = ask.to_vec();
        let c = Conf::new(&["a"]);
        let k = ask.clone();
        v.push(scn(&format!("none:{}", ask.join("")), 0, move || {
            let i = write_conf(&c);
            match choose(6, "place") {
                0 => (),
                1 => vstd_node(&format!("{RUN}/pizauth"), Kind::Dir),
                2 => {
                    let p = start_server(i);
                    kill_server(p);
                    quiet();
                }
                3 => {
                    let p = start_server(i);
                    run(&["shutdown"]);
                    let _ = p;
                    quiet();
                }
                4 => {
                    vstd_node(&format!("{RUN}/pizauth"), Kind::Dir);
                    vstd_node(SOCK, Kind::File(b"x".to_vec()));
                }
                _ => {
                    vstd_node(&format!("{RUN}/pizauth"), Kind::Dir);
                    vstd_node(SOCK, Kind::Dir);
                }
            }
            let args: Vec<String> = k.iter().filter(|x| **x != "-j").map(|x| x.to_string()).collect();
            let p = means(&k, args, vec![]);
            quiet();
            if k[0] == "info" {
                info_ok(&w().procs[p].stdout.clone(), k.len() > 1, CONF, None);
            }
        }));
        let fl = [Kill, Shutdown, Revoke("a"), Reload(0), Nop];
        for (n, pre) in states() {
            for o in &fl {
                let (c, pre, o, k) = (ab(), pre.clone(), o.clone(), ask.clone());
                let d = match (t, &o) {
                    (true, _) => 3,
                    (_, Kill | Shutdown) => 2,
                    _ => 1,
                };
                v.push(scn(&format!("with:{n}:{}:{o:?}", ask.join("")).replace('"', ""), d, move || {
                    let cx = Cx { confs: vec![c.clone()] };
                    boot(&c);
                    setup(&cx, &pre);
                    let stdin = if k[0] == "restore" { run(&["dump"]).raw } else { vec![] };
                    let args: Vec<String> = k.iter().filter(|x| **x != "-j").map(|x| x.to_string()).collect();
                    let pp = ports();
                    devs(true);
                    let first = choose(2, "order") == 1;
                    if first {
                        begin(&cx, &o);
                    }
                    let p = means(&k, args, stdin);
                    if !first {
                        begin(&cx, &o);
                    }
                    quiet();
                    devs(false);
                    if k[0] == "info" && !matches!(o, Kill | Shutdown) {
                        info_ok(&w().procs[p].stdout.clone(), k.len() > 1, CONF, pp);
                    }
                    if the_server().is_some() {
                        run(&["status"]);
                        run(&["show", "-u", "a"]);
                    }
                }));
            }
        }
    }
    // One's own server only.
    let c = Conf::new(&["a"]);
    v.push(scn("place", 0, move || {
        let pl = places();
        let (i, j) = (choose(pl.len() - 1, "place of the server"), choose(pl.len() - 1, "place of the client"));
        for d in ["/v/tmp", "/v/run"] {
            vstd_node(d, Kind::Dir);
        }
        set_env(&pl[i].1);
        let n = write_conf(&c);
        start_any(&["-d"], penv(), Some(n));
        quiet();
        setup(&Cx { confs: vec![c.clone()] }, &[Show("a"), Auth("a"), Ans(R::Grant)]);
        let k = choose(CMDS.len(), "command");
        set_env(&pl[j].1);
        if pl[i].2 == pl[j].2 {
            run(CMDS[k]);
            return;
        }
        let p = start_free(CMDS[k], penv(), vec![]);
        quiet();
        let x = &w().procs[p];
        let fine = if CMDS[k][0] == "info" { x.exit == Some(0) && lower(&x.stdout).contains("not running") } else { x.exit == Some(1) && x.stdout.is_empty() && !x.stderr.is_empty() };
        if !fine {
            bad("C26,C29", "failure-hidden", format!("{:?} ends with {:?}, stdout {:?}, stderr {:?}", CMDS[k], x.exit, lower(&x.stdout), lower(&x.stderr)));
        }
        set_env(&pl[i].1);
        run(&["status"]);
        run(&["show", "a"]);
    }));
    // Output that cannot be written.
    for (ask, n) in [(&["dump"][..], 1), (&["dump"], 40), (&["show", "a"], 1), (&["status"], 1), (&["status"], 40), (&["info"], 1), (&["info", "-j"], 1)] {
        let ask = ask.to_vec();
        v.push(scn(&format!("full:{}:{n}", ask.join("")), 0, move || {
            let names: Vec<String> = std::iter::once("a".to_string()).chain((1..n).map(|i| format!("b{i}"))).collect();
            let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
            let c = Conf::new(&names);
            active(&c);
            let whole = if ask[0] == "info" {
                let p = start_free(&ask, penv(), vec![]);
                quiet();
                w().procs[p].stdout.clone()
            } else {
                run(&ask).raw
            };
            let mut rooms: Vec<usize> = vec![0, 1, 2, 100, 1000, 1024, 1025, whole.len() / 2, whole.len() - 1, whole.len(), whole.len() + 1, whole.len() * 2];
            rooms.sort();
            rooms.dedup();
            let r = pick(&rooms, "room");
            let p = world::new_proc(false, std::iter::once("pizauth").chain(ask.iter().copied()).map(|x| x.to_string()).collect(), penv(), vec![]);
            ee().free.insert(p);
            w().procs[p].out_room = Some(r);
            world::start_proc(p);
            quiet();
            let x = &w().procs[p];
            let all = x.stdout.len() + 200 >= whole.len() && (ask[0] == "dump" || x.stdout == whole);
            // Dumps differ in length by nothing.
            let all = if ask[0] == "dump" { x.stdout.len() == whole.len() } else { all };
            match x.exit {
                Some(0) if !all => bad("C26", "output-lost", format!("{ask:?} reports success although only {} of {} bytes could be written", x.stdout.len(), whole.len())),
                Some(0) => (),
                // A panic is reported, too.
                Some(c) if (!x.stderr.is_empty() || c == 101) && r < whole.len() => (),
                e => bad("C26", "output-lost", format!("{ask:?} ends with {e:?}, stderr {:?} with {r} bytes of room for {}", lower(&x.stderr), whole.len())),
            }
            run(&["status"]);
        }));
    }
}
fn vstd_node(p: &str, kind: Kind) {
    vstd::interpose::fs_touch();
    w().fs.nodes.insert(p.into(), Node { kind, mode: 0o700, foreign: false, unreadable: false });
}

/// Where the configuration is looked for, and whether the server can start with it.
fn starts(v: &mut Vec<Scn>) {
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum F {
        Good,
        Missing,
        Bad,
        Dir,
        Unreadable,
    }
    for bg in [true, false] {
        for running in [true, false] {
            v.push(scn(&format!("conf:{}:{running}", if bg { "bg" } else { "fg" }), 0, move || {
                // For each place: its variable (or option) is used; what is there.
                let fs = [F::Good, F::Missing, F::Bad, F::Dir, F::Unreadable];
                let places = [("-c", "/v/home/other.conf"), ("XDG_CONFIG_HOME", "/v/cfg/pizauth.conf"), ("HOME", CONF)];
                let mut e: std::collections::BTreeMap<String, String> = [("XDG_RUNTIME_DIR", RUN), ("SHELL", "/bin/sh")].iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
                vstd_node("/v/cfg", Kind::Dir);
                let mut opt = vec![];
                let mut first: Option<(usize, F)> = None;
                let mut confs = vec![];
                for i in 0..places.len() {
                    // The configurations can be told apart.
                    let mut c = Conf::new(&["a"]);
                    c.acct("a").client_id = format!("CID.{i}");
                    let n = write_conf(&c);
                    confs.push(n);
                    vstd::interpose::fs_touch();
                    w().fs.nodes.remove(CONF);
                    confs[i] = n;
                }
                for (i, (what, path)) in places.iter().enumerate() {
                    // Whether the third is looked at if the second has no file is not clear.
                    let on = first != Some((1, F::Missing)) && choose(2, "used") == 1;
                    // What is where nobody looks is fine.
                    let f = if on && first.is_none() { pick(&fs, "file") } else { F::Good };
                    let text = ee().confs[confs[i]].text();
                    match f {
                        F::Good => put_file(path, text.as_bytes()),
                        F::Missing => (),
                        F::Bad => put_file(path, format!("{text} account \"zz\" {{ }}").as_bytes()),
                        F::Dir => vstd_node(path, Kind::Dir),
                        F::Unreadable => {
                            put_file(path, text.as_bytes());
                            w().fs.nodes.get_mut(*path).unwrap().unreadable = true;
                        }
                    }
                    if on {
                        match *what {
                            "-c" => opt = vec!["-c", path],
                            "HOME" => drop(e.insert("HOME".into(), HOME.into())),
                            x => drop(e.insert(x.into(), "/v/cfg".into())),
                        }
                        if first.is_none() {
                            first = Some((i, f));
                        }
                    }
                }
                let ok = matches!(first, Some((_, F::Good)));
                ee().penv = Some(e);
                if running {
                    // Another one is there already, whose configuration is none of these.
                    let mut x = penv();
                    x.insert("HOME".into(), "/v/h2".into());
                    x.remove("XDG_CONFIG_HOME");
                    vstd_node("/v/h2", Kind::Dir);
                    vstd_node("/v/h2/.config", Kind::Dir);
                    let c = Conf::new(&["a"]);
                    ee().confs.push(c.clone());
                    put_file("/v/h2/.config/pizauth.conf", c.text().as_bytes());
                    let n = ee().confs.len() - 1;
                    start_any(&["-d"], x, Some(n));
                    quiet();
                }
                let mut args = opt.clone();
                if !bg {
                    args.push("-d");
                }
                let p = start_any(&args, penv(), if ok { Some(confs[first.unwrap().0]) } else { None });
                quiet();
                if running && w().procs[p].exit != Some(1) {
                    bad("C26,C29", "second-server", "a second server is running".into());
                }
                // `info` says the same.
                let mut a = vec!["info"];
                a.extend(&opt);
                if choose(2, "json") == 1 {
                    a.push("-j");
                }
                let q = start_free(&a, penv(), vec![]);
                quiet();
                let x = &w().procs[q];
                match (x.exit, first) {
                    (Some(0), Some((i, _))) => info_ok(&x.stdout.clone(), a.contains(&"-j"), places[i].1, ports()),
                    (Some(0), None) => bad("C26", "info-wrong", format!("no configuration file: {}", lower(&x.stdout))),
                    (Some(1), _) if !ok && x.stdout.is_empty() && !x.stderr.is_empty() => (),
                    e => bad("C26", "info-fails", format!("'info' ends with {e:?}, stdout {:?}, stderr {:?}", lower(&x.stdout), lower(&x.stderr))),
                }
                if the_server().is_some() {
                    run(&["show", "a"]);
                    run(&["status"]);
                }
            }));
            // Addresses.
            if running {
                continue;
            }
            v.push(scn(&format!("listen:{}", if bg { "bg" } else { "fg" }), 0, move || {
                let al = [None, Some("none"), Some("127.0.0.1:0"), Some("127.0.0.1:8080"), Some("localhost:8081"), Some("127.0.0.1"), Some("nonsense"), Some("127.0.0.1:99999"), Some("")];
                let h = pick(&al, "http_listen");
                let s = pick(&al, "https_listen");
                let taken = choose(3, "taken");
                let mut c = Conf::new(&["a"]);
                c.http = h.map(|x| x.into());
                c.https = s.map(|x| x.into());
                if taken > 0 {
                    // Somebody else has the port.
                    let p = world::new_proc(false, vec!["other".into()], penv(), vec![]);
                    ee().free.insert(p);
                    world::spawn_task(
                        p,
                        "other".into(),
                        Box::new(move || {
                            let l = vstd::net::TcpListener::bind(if taken == 1 { "127.0.0.1:8080" } else { "127.0.0.1:8081" });
                            let _ = l.unwrap().accept();
                        }),
                        false,
                    );
                    quiet();
                }
                let fine = |x: Option<&str>| match x {
                    None | Some("none" | "127.0.0.1:0") => true,
                    Some("127.0.0.1:8080") => taken != 1,
                    Some("localhost:8081") => taken != 2,
                    _ => false,
                };
                let n = write_conf(&c);
                let same = h == s && matches!(h, Some("127.0.0.1:8080" | "localhost:8081"));
                // The account's redirect URI is for HTTP; both switched off is an error, too.
                let ok = fine(h) && fine(s) && !same && h != Some("none");
                let args = if bg { vec![] } else { vec!["-d"] };
                note("conf".into());
                start_any(&args, penv(), if ok { Some(n) } else { None });
                quiet();
                if the_server().is_some() {
                    let q = start_free(&["info", "-j"], penv(), vec![]);
                    quiet();
                    info_ok(&w().procs[q].stdout.clone(), true, CONF, ports());
                    run(&["show", "a"]);
                }
            }));
            // What the system refuses.
            v.push(scn(&format!("fault:{}", if bg { "bg" } else { "fg" }), 0, move || {
                note("nospec".into());
                let i = write_conf(&ab());
                let op = pick(&["bind", "syslog", "daemon", "open", "flock", "unlink", "mkdir", "chmod"], "operation");
                let nth = choose(3, "which");
                let e = pick(&[libc::EACCES, libc::ENOENT, libc::ENOSPC, libc::EMFILE, libc::EIO], "errno");
                if choose(2, "stale") == 1 {
                    let p = start_server(i);
                    kill_server(p);
                    quiet();
                }
                for _ in 0..nth {
                    w().fs.faults.push((op, 0));
                }
                w().fs.faults.push((op, e));
                let args = if bg { vec![] } else { vec!["-d"] };
                let p = start_any(&args, penv(), Some(i));
                quiet();
                w().fs.faults.clear();
                let x = &w().procs[p];
                let up = the_server() == Some(p);
                match x.exit {
                    None if up => {
                        if !run(&["status"]).ok() {
                            bad("C26", "server-start-early", "the server says it has started but does not answer".into());
                        }
                        if bg != ee().trace.iter().any(|e| matches!(e.k, K::Daemon { .. })) {
                            bad("C26", "server-detached", "detached or not against the option".into());
                        }
                    }
                    Some(1) if !x.stderr.is_empty() && x.stdout.is_empty() => {
                        if ee().trace.iter().any(|e| matches!(e.k, K::Daemon { .. })) {
                            bad("C26", "server-start-early", "the failure comes after success was reported".into());
                        }
                    }
                    o => bad("C26", "server-start-quiet", format!("{op} {nth} {e}: the server ends with {o:?}, stdout {:?}, stderr {:?}", lower(&x.stdout), lower(&x.stderr))),
                }
            }));
        }
    }
}
pub fn c26(t: bool) -> Vec<Scn> {
    let mut v = vec![];
    usage(t, &mut v);
    answers(t, &mut v);
    fates(t, &mut v);
    starts(&mut v);
    v
}
