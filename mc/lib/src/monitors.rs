//! Checks over a whole trace that are not about the order of events.
use crate::env::*;
use crate::runner::Viol;
use crate::util::*;
use std::collections::BTreeMap;

pub fn all(trace: &[Ev], confs: &[Conf], _prop: &str) -> Vec<Viol> {
    let mut v = vec![];
    fresh(trace, &mut v);
    secrets(trace, confs, &mut v);
    private(trace, &mut v);
    v
}
fn viol(v: &mut Vec<Viol>, props: &[&str], kind: &str, at: usize, text: String) {
    if !v.iter().any(|x| x.kind == kind) {
        v.push(Viol { props: props.iter().map(|x| x.to_string()).collect(), kind: kind.into(), text, at });
    }
}
/// No two authorisation URLs share a state or a challenge; verifiers are as RFC 7636 wants them.
fn fresh(trace: &[Ev], v: &mut Vec<Viol>) {
    let mut states: BTreeMap<String, String> = BTreeMap::new();
    let mut chals: BTreeMap<String, String> = BTreeMap::new();
    for (i, e) in trace.iter().enumerate() {
        let u = match &e.k {
            K::Spawn { kind: CmdKind::Auth, arg, .. } => Some(arg.clone()),
            K::CmdEnd { err, .. } => find_url(&String::from_utf8_lossy(err)),
            K::Tok { form, .. } => {
                if let Some(x) = get(form, "code_verifier") {
                    if x.len() < 43 || x.len() > 128 || !x.chars().all(|c| c.is_ascii_alphanumeric() || "-._~".contains(c)) {
                        viol(v, &["C24", "C04"], "verifier-wrong", i, format!("{x:?} is not a code verifier"));
                    }
                }
                None
            }
            _ => None,
        };
        if let Some(u) = u {
            if let Some(p) = url(&u).map(|x| x.params()) {
                for (k, m) in [("state", &mut states), ("code_challenge", &mut chals)] {
                    if let Some(x) = get(&p, k) {
                        let o = m.entry(x.to_string()).or_insert_with(|| u.clone());
                        if *o != u {
                            viol(v, &["C24", "C04"], "not-fresh", i, format!("{k} {x} is used in {o} and in {u}"));
                        }
                    }
                }
            }
        }
    }
}
/// Sockets are made in directories of their owner's alone, and not taken away from a running server.
fn private(trace: &[Ev], v: &mut Vec<Viol>) {
    for (i, e) in trace.iter().enumerate() {
        match &e.k {
            K::Bind { path, modes, umask, .. } => match modes.first() {
                Some((_, m, false)) if m & 0o077 == 0 => (),
                x => viol(v, &["C30"], "socket-open", i, format!("{path} is made with umask {umask:o} in {x:?}, where others can reach it")),
            },
            K::Unlink { path, live: true, .. } => viol(v, &["C29"], "socket-taken", i, format!("the socket {path} of a running server is removed")),
            _ => (),
        }
    }
}
fn name(k: Secret) -> &'static str {
    match k {
        Secret::At => "access token",
        Secret::Rt => "refresh token",
        Secret::ClientSecret => "client secret",
        Secret::Code => "authorisation code",
        Secret::Verifier => "code verifier",
    }
}
/// Secrets are only where they belong.
fn secrets(trace: &[Ev], confs: &[Conf], v: &mut Vec<Viol>) {
    // Each as it is and in the ways it could be written down.
    let mut by: BTreeMap<String, Vec<(Secret, &str)>> = BTreeMap::new();
    for (x, k, h) in &ee().secrets {
        // A code that is not of our making may look like anything.
        if x.len() >= 6 && (*k != Secret::Code || x.contains("zzq")) {
            let j = jstr(x);
            let p = pct_encode(x);
            let mut ways = vec![x.clone(), j[1..j.len() - 1].to_string(), p.replace("%20", "+"), p.to_lowercase(), p, format!("{x:?}").trim_matches('"').to_string(), b64url(x.as_bytes())];
            ways.push(ways[6].replace('-', "+").replace('_', "/"));
            ways.push(x.bytes().map(|b| format!("{b:02x}")).collect());
            ways.sort();
            ways.dedup();
            for w in ways {
                by.entry(w).or_default().push((*k, h));
            }
        }
    }
    // The token server each code belongs to: that of the account whose state came with it.
    let mut args: BTreeMap<usize, &Vec<String>> = BTreeMap::new();
    let hosts_of = |acct: &str| -> Vec<String> {
        confs.iter().filter_map(|c| c.get(acct)).filter_map(|a| url(&a.token_uri)).map(|u| u.host).collect()
    };
    for (i, e) in trace.iter().enumerate() {
        let mut leak = |place: String, k: Secret, x: &str| {
            viol(v, &["C25"], "secret-leak", i, format!("{} {x:?} appears in {place}", name(k)));
        };
        match &e.k {
            K::Cmd { pid, args: a, .. } => {
                args.insert(*pid, a);
            }
            K::CmdEnd { pid, out, err, .. } => {
                let a: &[String] = args.get(pid).map_or(&[], |x| x.as_slice());
                let sub = a.first().map_or("", |x| x.as_str());
                for (x, ks) in &by {
                    for (place, b) in [("stdout", out), ("stderr", err)] {
                        if contains(b, x.as_bytes()) {
                            if sub == "show" && place == "stdout" {
                                let hs = a.last().map_or(vec![], |n| hosts_of(n));
                                if ks.iter().any(|(k, h)| *k == Secret::At && hs.iter().any(|y| y == h)) {
                                    continue;
                                }
                            }
                            if sub == "reload" && place == "stderr" && ks.iter().any(|(k, _)| *k == Secret::ClientSecret) {
                                // A syntax error quotes the line of the file.
                                continue;
                            }
                            leak(format!("{place} of {a:?}"), ks[0].0, x);
                        }
                    }
                }
            }
            K::Tok { host, path, form, head, .. } => {
                for (x, ks) in &by {
                    if contains(path.as_bytes(), x.as_bytes()) || contains(head.as_bytes(), x.as_bytes()) {
                        leak(format!("the head of a request to {host}"), ks[0].0, x);
                    }
                    for (f, y) in form {
                        if contains(y.as_bytes(), x.as_bytes()) && !ks.iter().any(|(k, h)| *k != Secret::At && (*h == host || *k == Secret::Code)) {
                            leak(format!("field {f} of a request to {host}"), ks[0].0, x);
                        }
                    }
                }
            }
            K::Spawn { env, cmd, .. } => {
                for (x, ks) in &by {
                    if contains(env.as_bytes(), x.as_bytes()) {
                        leak(format!("the environment or arguments of {cmd:?}"), ks[0].0, x);
                    }
                }
            }
            K::Log { msg, .. } => {
                for (x, ks) in &by {
                    if contains(msg.as_bytes(), x.as_bytes()) {
                        leak(format!("the log message {msg:?}"), ks[0].0, x);
                    }
                }
            }
            K::BrowEnd { reply, .. } => {
                for (x, ks) in &by {
                    if contains(reply, x.as_bytes()) {
                        leak("an answer to the browser".into(), ks[0].0, x);
                    }
                }
            }
            _ => (),
        }
    }
}
