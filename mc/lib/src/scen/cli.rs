//! Starting and ending the server, and the command line.
use super::core::{ab, states};
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use vstd::explore::choose;
use vstd::interpose::{Kind, Node};
use vstd::world::{self, w};
use O::*;

fn cx(c: &Conf) -> Cx {
    Cx { confs: vec![c.clone()] }
}
fn node(p: &str, kind: Kind, mode: u32, foreign: bool) {
    vstd::interpose::fs_touch();
    w().fs.nodes.insert(p.into(), Node { kind, mode, foreign, unreadable: false });
}
/// What can be at the place of the socket before a start.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pre {
    Nothing,
    Stale,
    Running,
}
fn place(p: Pre, c: usize) {
    match p {
        Pre::Nothing => (),
        Pre::Stale => {
            let p = start_any(&["-d"], penv(), Some(c));
            quiet();
            kill_server(p);
            quiet();
        }
        Pre::Running => {
            start_any(&["-d"], penv(), Some(c));
            quiet();
        }
    }
}
/// Every order of beginning these.
fn all_at_once(mut v: Vec<Box<dyn Fn()>>) {
    devs(true);
    while !v.is_empty() {
        let i = choose(v.len(), "order");
        v.remove(i)();
    }
    quiet();
    quiet();
    devs(false);
}
/// Whatever has happened, a server can be had now.
fn ensure(c: usize) {
    if the_server().is_none() {
        start_any(&["-d"], penv(), Some(c));
        quiet();
    }
}
pub fn c29(t: bool) -> Vec<Scn> {
    let c = ab();
    let mut v = vec![];
    // A second start in every state of the first server.
    for (n, pre) in states() {
        for (kind, args) in [("d", vec!["-d"]), ("bg", vec![]), ("conf", vec!["-d", "-c", "/v/home/other.conf"])] {
            for (fk, first) in [("d", vec!["-d"]), ("bg", vec![])] {
                let (c, pre, args, first) = (c.clone(), pre.clone(), args.clone(), first.clone());
                v.push(scn(&format!("second:{n}:{fk}:{kind}"), if t { 2 } else { 1 }, move || {
                    let i = write_conf(&c);
                    start_any(&first, penv(), Some(i));
                    quiet();
                    setup(&cx(&c), &pre);
                    devs(true);
                    start_any(&args, penv(), Some(i));
                    quiet();
                    devs(false);
                    probe(&cx(&c), &["a", "b"], true);
                    kill_server(the_server().unwrap());
                    quiet();
                    start_any(&args[..args.len().min(1)], penv(), Some(i));
                    quiet();
                    probe(&cx(&c), &["a"], true);
                }));
            }
        }
    }
    // Servers with one listener only, and with other settings.
    let mut only: Vec<(&str, Conf)> = vec![];
    for h in ["http", "https"] {
        let mut x = ab();
        for a in &mut x.accts {
            a.redirect = Some(format!("{h}://localhost/"));
        }
        let none = Some("none".to_string());
        (x.http, x.https) = (Some("127.0.0.1:0".into()), Some("127.0.0.1:0".into()));
        if h == "http" { x.https = none } else { x.http = none }
        only.push((h, x));
    }
    let mut x = ab();
    (x.http, x.https) = (Some("127.0.0.1:8099".into()), Some("127.0.0.1:8098".into()));
    only.push(("fixed", x));
    let mut x = ab();
    (x.auth, x.err, x.event) = (None, None, None);
    only.push(("nocmds", x));
    for (ln, x) in &only {
        for (n, pre) in [("empty", vec![]), ("pending", vec![Show("a")]), ("hang", vec![Pol(CmdKind::Auth, -1), Show("a")])] {
            for (kind, args) in [("d", vec!["-d"]), ("bg", vec![])] {
                let (one, pre, x) = (ab(), pre.clone(), x.clone());
                v.push(scn(&format!("only:{ln}:{n}:{kind}"), if t { 2 } else { 1 }, move || {
                    let both = [&x, &one];
                    // The one that runs is of this kind, or the one that comes, or both.
                    let (f, s) = pick(&[(0, 0), (0, 1), (1, 0)], "which");
                    let i = write_conf(both[f]);
                    start_any(&["-d"], penv(), Some(i));
                    quiet();
                    let able = both[f].auth.is_some() || !pre.contains(&Show("a"));
                    if able {
                        setup(&cx(both[f]), &pre);
                    }
                    let k = write_conf(both[s]);
                    devs(true);
                    start_any(&args, penv(), Some(k));
                    quiet();
                    devs(false);
                    ee().pol.clear();
                    probe(&cx(both[f]), &["a", "b"], true);
                    kill_server(the_server().unwrap());
                    quiet();
                    start_any(&args, penv(), Some(k));
                    quiet();
                    probe(&cx(both[s]), &["a"], true);
                }));
            }
        }
    }
    // Starts at the same time.
    for pre in [Pre::Nothing, Pre::Stale, Pre::Running] {
        for n in 2..=3usize {
            for kinds in [["-d", "-d", "-d"], ["-d", "-v", "-d"]] {
                let c = c.clone();
                let d = match (n, t) {
                    (2, true) => 3,
                    (2, false) => 2,
                    (_, true) => 2,
                    _ => 1,
                };
                v.push(scn(&format!("together:{pre:?}:{n}:{}", kinds[1]), d, move || {
                    let i = write_conf(&c);
                    place(pre, i);
                    let mut par: Vec<Box<dyn Fn()>> = vec![];
                    for k in kinds.into_iter().take(n) {
                        par.push(Box::new(move || drop(start_any(&[k], penv(), Some(i)))));
                    }
                    all_at_once(par);
                    ensure(i);
                    probe(&cx(&c), &["a"], true);
                }));
            }
        }
        // With clients about, or the first server ending.
        for o in [Show("a"), Shutdown, Kill, Status, Info] {
            if matches!(o, Shutdown | Kill) && pre != Pre::Running {
                continue;
            }
            for n in 1..=2usize {
                let (c, o) = (c.clone(), o.clone());
                v.push(scn(&format!("client:{pre:?}:{n}:{}", format!("{o:?}").replace('"', "")), if t { 4 - n as u32 } else { 3 - n as u32 }, move || {
                    let i = write_conf(&c);
                    place(pre, i);
                    let (cc, oo) = (c.clone(), o.clone());
                    let mut par: Vec<Box<dyn Fn()>> = vec![Box::new(move || begin(&cx(&cc), &oo))];
                    for _ in 0..n {
                        par.push(Box::new(move || drop(start_any(&["-d"], penv(), Some(i)))));
                    }
                    all_at_once(par);
                    ensure(i);
                    probe(&cx(&c), &["a"], true);
                }));
            }
        }
    }
    // A crash at every point of a start, perhaps while another server starts.
    for pre in [Pre::Nothing, Pre::Stale] {
        for first in ["-d", "-v"] {
            for n in 0..=1usize {
                let c = c.clone();
                v.push(scn(&format!("crash:{pre:?}:{first}:{n}"), if n == 0 { 0 } else if t { 2 } else { 1 }, move || {
                    let i = write_conf(&c);
                    place(pre, i);
                    let p = start_init(&[first], penv(), Some(i));
                    let mut par: Vec<Box<dyn Fn()>> = vec![Box::new(move || {
                        w().crash = Some(p);
                        world::start_proc(p)
                    })];
                    for _ in 0..n {
                        par.push(Box::new(move || drop(start_any(&["-d"], penv(), Some(i)))));
                    }
                    all_at_once(par);
                    w().crash = None;
                    ensure(i);
                    probe(&cx(&c), &["a"], true);
                }));
            }
        }
    }
    // A crash at every point of whatever the server does.
    let st = states();
    let act = |n: &str| st.iter().find(|x| x.0 == n).unwrap().1.clone();
    let mut list: Vec<(Vec<O>, O)> = vec![];
    for n in ["empty", "pending", "active", "exchange", "refresh"] {
        for o in [Show("a"), Refresh("a"), Revoke("a"), Reload(0), Status, Dump, Shutdown, Auth("a"), Ans(R::Grant), Due] {
            if super::core::fits(n, &o) && !(n == "empty" && o == Due) {
                list.push((act(n), o));
            }
        }
    }
    for (pre, o) in list {
        let c = c.clone();
        let nm = format!("crashop:{}>{}", pre.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("+"), format!("{o:?}")).replace('"', "");
        v.push(scn(&nm, 0, move || {
            let i = write_conf(&c);
            start_any(&["-d"], penv(), Some(i));
            quiet();
            setup(&cx(&c), &pre);
            w().crash = the_server();
            begin(&cx(&c), &o);
            quiet();
            w().crash = None;
            ensure(i);
            probe(&cx(&c), &["a"], true);
        }));
    }
    v
}

/// What a directory can be like before the start.
#[derive(Clone, Copy, PartialEq, Debug)]
enum D {
    Missing,
    Own(u32),
    Foreign(u32),
    File,
    ForeignFile,
}
fn put_dir(p: &str, d: D) {
    match d {
        D::Missing => (),
        D::Own(m) => node(p, Kind::Dir, m, false),
        D::Foreign(m) => node(p, Kind::Dir, m, true),
        D::File => node(p, Kind::File(vec![]), 0o644, false),
        D::ForeignFile => node(p, Kind::File(vec![]), 0o644, true),
    }
}
fn usable(d: D) -> bool {
    matches!(d, D::Missing | D::Own(_))
}
/// The directory of the socket must be private for as long as the server runs.
fn private(p: &str) {
    if vstd::interpose::socket_at(&format!("{p}/pizauth.sock")).is_ok() {
        match w().fs.nodes.get(p) {
            Some(n) if n.mode & 0o077 == 0 && !n.foreign => (),
            x => bad("C30", "socket-open", format!("the directory {p} of the socket is now {x:?}")),
        }
    }
}
/// The environments in which the socket's place differs: (label, variables, directories above it).
pub fn places() -> Vec<(&'static str, Vec<(&'static str, &'static str)>, String)> {
    vec![
        ("xdg", vec![("XDG_RUNTIME_DIR", "/v/run"), ("TMPDIR", "/v/tmp")], "/v/run".into()),
        ("slash", vec![("XDG_RUNTIME_DIR", "/v//run/")], "/v/run".into()),
        ("tmpdir", vec![("TMPDIR", "/v/tmp")], format!("/v/tmp/runtime-{}", user())),
        ("tmp", vec![], format!("/tmp/runtime-{}", user())),
        ("deep", vec![("XDG_RUNTIME_DIR", "/v/x/y")], "/v/x/y".into()),
    ]
}
pub fn set_env(vars: &[(&str, &str)]) {
    let mut e: std::collections::BTreeMap<String, String> = [("HOME", HOME), ("SHELL", "/bin/sh"), ("PATH", "/bin")].iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
    for (k, v) in vars {
        e.insert(k.to_string(), v.to_string());
    }
    ee().penv = Some(e);
}
pub const CMDS: &[&[&str]] = &[&["status"], &["show", "a"], &["dump"], &["info"], &["reload"], &["revoke", "a"], &["refresh", "a"], &["shutdown"]];
/// (command before, command after)
const COMBOS: [(usize, usize); 8] = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 4), (1, 5), (2, 6), (0, 7)];
fn start_with_umask(args: &[&str], conf: Option<usize>, um: u32) -> usize {
    let p = start_init(args, penv(), conf);
    w().procs[p].umask = um;
    world::start_proc(p);
    p
}
fn cmd_with_umask(args: &[&str], um: u32) {
    let p = cmd(args);
    w().procs[p].umask = um;
    quiet();
}
pub fn c30(t: bool) -> Vec<Scn> {
    let c = Conf::new(&["a"]);
    let mut v = vec![];
    let ds = [
        D::Missing,
        D::Own(0o700),
        D::Own(0o755),
        D::Own(0o777),
        D::Own(0o1777),
        D::Own(0o000),
        D::Own(0o710),
        D::Own(0o704),
        D::Own(0o2770),
        D::Foreign(0o700),
        D::Foreign(0o777),
        D::File,
        D::ForeignFile,
    ];
    let ums = [0o022, 0, 0o077, 0o777, 0o700];
    for (pn, vars, base) in places() {
        for d0 in ds {
            let (c, vars, base) = (c.clone(), vars.clone(), base.clone());
            v.push(scn(&format!("dirs:{pn}:{d0:?}"), 0, move || {
                let d1 = if matches!(d0, D::Missing | D::File | D::ForeignFile) { D::Missing } else { pick(&ds, "subdirectory") };
                let um = pick(&ums, "umask");
                let (before, k) = if t { (choose(4, "command before"), choose(CMDS.len(), "command")) } else { pick(&COMBOS, "commands") };
                set_env(&vars);
                let i = write_conf(&c);
                w().fs.nodes.remove("/v/run");
                if pn != "deep" || d0 != D::Missing {
                    node("/v/x", Kind::Dir, 0o755, true);
                }
                node("/v/tmp", Kind::Dir, 0o1777, true);
                put_dir(&base, d0);
                let sub = format!("{base}/pizauth");
                put_dir(&sub, d1);
                let ok = usable(d0) && usable(d1) && !(pn == "deep" && d0 == D::Missing);
                match before {
                    1 | 2 => {
                        let p = start_free(&[if before == 1 { "status" } else { "info" }], penv(), vec![]);
                        w().procs[p].umask = if before == 1 { 0 } else { um };
                        quiet();
                    }
                    3 => {
                        // One that is killed at any point.
                        let p = start_free(&["status"], penv(), vec![]);
                        w().procs[p].umask = 0;
                        w().crash = Some(p);
                        quiet();
                        w().crash = None;
                    }
                    _ => (),
                }
                let bg = if t { choose(2, "background") } else { k % 2 } == 1;
                start_with_umask(if bg { &[] } else { &["-d"] }, if ok { Some(i) } else { None }, um);
                quiet();
                private(&sub);
                // Nothing undoes it.
                if ok {
                    cmd_with_umask(CMDS[k], if k % 2 == 0 { 0 } else { um });
                } else {
                    start_free(CMDS[k], penv(), vec![]);
                    quiet();
                }
                private(&sub);
                if the_server().is_some() {
                    start_with_umask(&["-d"], Some(i), 0);
                    quiet();
                    private(&sub);
                }
            }));
        }
        // Failing steps.
        for op in ["mkdir", "chmod"] {
            for n in 0..2usize {
                for d0 in [D::Missing, D::Own(0o777), D::Own(0o700)] {
                    for d1 in [D::Missing, D::Own(0o777)] {
                        if d0 == D::Missing && d1 != D::Missing {
                            continue;
                        }
                        let (c, vars, base) = (c.clone(), vars.clone(), base.clone());
                        v.push(scn(&format!("fault:{pn}:{op}{n}:{d0:?}:{d1:?}"), 0, move || {
                            let um = pick(&ums, "umask");
                            let e = pick(&[libc::EACCES, libc::EPERM, libc::EROFS, libc::ENOSPC], "errno");
                            set_env(&vars);
                            let i = write_conf(&c);
                            w().fs.nodes.remove("/v/run");
                            node("/v/x", Kind::Dir, 0o755, true);
                            node("/v/tmp", Kind::Dir, 0o1777, true);
                            put_dir(&base, d0);
                            let sub = format!("{base}/pizauth");
                            put_dir(&sub, d1);
                            for _ in 0..n {
                                w().fs.faults.push((op, 0));
                            }
                            w().fs.faults.push((op, e));
                            // Which steps are needed is not specified, but either all is well or nothing happens.
                            note("nospec".into());
                            let p = start_with_umask(&["-d"], Some(i), um);
                            quiet();
                            w().fs.faults.clear();
                            let x = &w().procs[p];
                            match x.exit {
                                None => private(&sub),
                                Some(1) if !x.stderr.is_empty() && x.stdout.is_empty() => (),
                                e => bad("C30,C26", "server-start-quiet", format!("the server ended with {e:?} and {:?}", String::from_utf8_lossy(&x.stderr))),
                            }
                            // The next try works.
                            if the_server().is_none() {
                                start_with_umask(&["-d"], Some(i), um);
                                quiet();
                            }
                            if !run(&["status"]).ok() {
                                bad("C30,C29", "server-start-failed", "no server can be started later".into());
                            }
                            private(&sub);
                        }));
                    }
                }
            }
        }
    }
    let _ = t;
    v
}
