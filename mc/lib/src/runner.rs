//! Runs the scenarios of a check, collects violations, replays them, writes evidence.
use crate::env::*;
use crate::util::jstr;
use std::sync::atomic::Ordering::SeqCst;
use vstd::explore::{self, Explorer, Shared};
use vstd::world::{self, w, World};

#[derive(Clone)]
pub struct Scn {
    pub name: String,
    pub seed: u64,
    /// Scheduling deviations allowed.
    pub devs: u32,
    /// Kinds of stall a deviation may be.
    pub stalls: u8,
    pub spurious: bool,
    pub f: std::rc::Rc<dyn Fn()>,
}
pub fn scn(name: &str, devs: u32, f: impl Fn() + 'static) -> Scn {
    Scn { name: name.into(), seed: 1, devs, stalls: 0, spurious: false, f: std::rc::Rc::new(f) }
}
impl Scn {
    /// Whatever goes wrong in it is (also) for this property.
    pub fn blame(mut self, prop: &'static str) -> Scn {
        let g = self.f;
        self.f = std::rc::Rc::new(move || {
            crate::driver::note(format!("blame {prop}"));
            g()
        });
        self
    }
    pub fn seed(mut self, s: u64) -> Scn {
        self.seed = s;
        self
    }
    pub fn stalls(mut self, s: u8) -> Scn {
        self.stalls = s;
        self
    }
    pub fn spurious(mut self) -> Scn {
        self.spurious = true;
        self
    }
    pub fn id(&self) -> String {
        format!("{}/s{}d{}{}{}", self.name, self.seed, self.devs, if self.stalls > 0 { format!("t{}", self.stalls) } else { String::new() }, if self.spurious { "w" } else { "" })
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<String>,
    pub kind: String,
    pub text: String,
    pub at: usize,
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub out: String,
    pub entry: fn(),
    pub secs: u64,
    pub jobs: i64,
}

extern "C" fn on_cpu_limit(_: i32) {
    // One execution has used its whole allowance of processor time: the program spins.
    let e = explore::ex();
    let what = if world::active() && w().cur != usize::MAX { w().tasks[w().cur].name.clone() } else { "?".into() };
    record(&Viol { props: vec!["*".into()], kind: "spin".into(), text: format!("thread {what} uses the processor without end"), at: 0 });
    e.sh.violations.fetch_add(1, SeqCst);
    unsafe { libc::_exit(0) }
}

static mut OPTS: *const Opts = std::ptr::null();
fn opts() -> &'static Opts {
    unsafe { &*OPTS }
}

const ASSUMPTIONS: &[&str] = &[
    "the simulated standard library (threads, locks, clocks, sockets, processes) behaves as the real one does",
    "switches between threads happen at operations on shared objects only",
    "randomness is one fixed stream per scenario seed",
];
fn bounds(scns: &[Scn]) -> String {
    let mut m: std::collections::BTreeMap<(u32, u8, bool), usize> = Default::default();
    for s in scns {
        *m.entry((s.devs, s.stalls, s.spurious)).or_default() += 1;
    }
    let v: Vec<String> = m
        .iter()
        .map(|((d, t, w), n)| format!("{n} scenarios with at most {d} scheduling deviations{}{}", if *t > 0 { ", among them stalls" } else { "" }, if *w { ", with spurious wake-ups" } else { "" }))
        .collect();
    format!("{}; every choice of the environment in every scenario", v.join("; "))
}
pub fn panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        if world::active() {
            w().panic_msg = format!("{m}{l}");
        } else {
            eprintln!("panic: {m}{l}");
        }
    }));
}

fn viol_file() -> String {
    format!("{}/viol.{}", opts().out, opts().prop)
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn record(v: &Viol) {
    let e = explore::ex();
    let sig = world::hash_bytes(format!("{}|{}", v.kind, e.scenario.split('/').next().unwrap()).as_bytes());
    if explore::set_insert(&e.sh.viol_sigs, sig) == Some(true) {
        let ch: Vec<String> = e.choices.iter().map(|x| x.to_string()).collect();
        let line = format!("{}\t{}\t{}\t{}\t{}\n", e.scenario, v.props.join(","), esc(&v.kind), esc(&v.text), ch.join(","));
        let _ = explore::append(&viol_file(), &line);
    }
}

pub fn trace_text() -> String {
    let mut s = String::new();
    let t0 = 1_000_000 * SEC;
    for (i, e) in ee().trace.iter().enumerate() {
        let l = |b: &Vec<u8>| String::from_utf8_lossy(b).into_owned();
        let k = match &e.k {
            K::Cmd { pid, args, stdin } => format!("Cmd {pid}: {args:?} {}", if stdin.is_empty() { String::new() } else { format!("stdin {} bytes", stdin.len()) }),
            K::CmdEnd { pid, code, out, err } => format!("CmdEnd {pid}: {code} out {:?} err {:?}", l(out), l(err)),
            K::BrowEnd { bid, reply } => format!("BrowEnd {bid}: {:?}", l(reply)),
            K::Spawn { id, kind, cmd, acct, arg, failed, .. } => format!("Spawn {id}: {kind:?} {cmd:?} acct {acct:?} {arg:?}{}", if *failed { " (cannot start)" } else { "" }),
            K::Quiet if i + 1 < ee().trace.len() && matches!(ee().trace[i + 1].k, K::Quiet) => continue,
            k => format!("{k:?}"),
        };
        let k = if k.len() > 600 { format!("{}…", k.chars().take(600).collect::<String>()) } else { k };
        s.push_str(&format!("{i:4} +{:.6}s {k}\n", (e.t.mono - t0) as f64 / 1e9));
    }
    s
}

fn in_world(s: &Scn, sh: &'static Shared, forced: Option<Vec<u32>>, deadline: u64) {
    let o = opts();
    explore::set_explorer(Explorer {
        sh,
        devs_left: s.devs,
        budget: s.devs,
        prune: true,
        choices: vec![],
        replay: forced.is_some(),
        forced: forced.unwrap_or_default(),
        deadline,
        conc_children: vec![],
        err_path: format!("{}/err.{}", o.out, o.prop),
        scenario: s.id(),
        sched_only_record: false,
        last_key: (0, 0),
    });
    unsafe {
        libc::signal(libc::SIGVTALRM, on_cpu_limit as *const () as libc::sighandler_t);
    }
    explore::arm_watchdog();
    let mut wd = World::new(o.entry, E::boxed(), s.seed);
    wd.stalls = s.stalls;
    wd.spurious = s.spurious;
    wd.h_trace = world::hash_bytes(s.id().as_bytes());
    world::set_world(Some(Box::new(wd)));
    crate::driver::mkdirs();
    let p = world::new_proc(false, vec!["driver".into()], Default::default(), vec![]);
    let f = s.f.clone();
    let t = world::spawn_task(p, "driver".into(), Box::new(move || f()), false);
    w().driver = t;
    world::run();
}

fn sample() -> String {
    let mut v = vec![];
    for x in &ee().trace {
        v.push(match &x.k {
            K::Cmd { pid, args, .. } => format!("cmd{pid} {}", args.join(" ")),
            K::CmdEnd { pid, code, .. } => format!("cmd{pid}->{code}"),
            K::Tok { rid, host, .. } => format!("req{rid} {host}"),
            K::TokEnd { rid, class } => format!("ans{rid} {}", format!("{class:?}").split(' ').next().unwrap_or("")),
            K::Brow { bid, .. } => format!("browser{bid}"),
            K::BrowEnd { bid, .. } => format!("browser{bid} answered"),
            K::Spawn { kind, acct, .. } => format!("run {kind:?} {acct}"),
            K::NetFail { host } => format!("unreachable {host}"),
            K::Suspend { ns } => format!("suspend {}s", ns / SEC),
            K::Server { .. } => "server".into(),
            K::Start { pid, .. } => format!("server {pid} starts"),
            K::Daemon { pid } => format!("server {pid} goes into the background"),
            K::Exit { code, .. } => format!("server ends {code}"),
            _ => continue,
        });
        if v.len() > 40 {
            v.push("...".into());
            break;
        }
    }
    v.join(", ")
}
/// The execution is over: judge it.
fn judge() -> Vec<Viol> {
    crate::oracle::judge(&ee().trace, &opts().prop)
}
fn relevant(v: &Viol) -> bool {
    let p = &opts().prop;
    v.props.iter().any(|x| x == p || x == "*")
}

fn child(s: &Scn, sh: &'static Shared, deadline: u64) -> ! {
    in_world(s, sh, None, deadline);
    let e = explore::ex();
    let mut h = 0;
    for x in &ee().trace {
        h = world::mix(h, world::hash_bytes(format!("{:?}", x.k).as_bytes()));
    }
    if explore::note_outcome(h) && e.sh.extra[2].fetch_add(1, SeqCst) % 97 == 0 && e.sh.extra[2].load(SeqCst) < 600 {
        let _ = explore::append(&format!("{}/samples.{}", opts().out, opts().prop), &format!("{} choices {:?}: {}\n", e.scenario, e.choices, sample()));
    }
    e.sh.extra[0].fetch_add(ee().trace.len() as u64, SeqCst);
    let vs = judge();
    if vs.is_empty() && (w().procs[0].exit == Some(101) || ee().trace.iter().any(|x| matches!(&x.k, K::Panic { pid: 0, .. }))) {
        // The scenario could not go on although the program did nothing wrong.
        let m = ee().trace.iter().find_map(|x| if let K::Panic { pid: 0, msg, .. } = &x.k { Some(msg.clone()) } else { None });
        let _ = explore::append(&e.err_path, &trace_text());
        explore::engine_error(&format!("the scenario itself panicked: {m:?}"));
    }
    for v in vs {
        if relevant(&v) {
            e.sh.violations.fetch_add(1, SeqCst);
            record(&v);
        } else {
            e.sh.extra[1].fetch_add(1, SeqCst);
            if std::env::var_os("MC_SHOW_OTHERS").is_some() {
                let _ = explore::append(&format!("{}/others.{}", opts().out, opts().prop), &format!("{}\t{}\t{}\t{}\t{:?}\n", e.scenario, v.props.join(","), esc(&v.kind), esc(&v.text), e.choices));
            }
        }
    }
    explore::finish(false)
}

fn replay_child(s: &Scn, sh: &'static Shared, choices: Vec<u32>, verbose: bool, path: Option<&str>) -> ! {
    in_world(s, sh, Some(choices), 0);
    let vs = judge();
    let mut txt = trace_text();
    let mut code = 0;
    for v in &vs {
        txt.push_str(&format!("{} kind={} props={} at event {}: {}\n", if relevant(v) { "VIOLATED" } else { "(other)" }, v.kind, v.props.join(","), v.at, v.text));
        if relevant(v) {
            code = 1;
        }
    }
    if verbose {
        println!("{txt}");
        if std::env::var_os("MC_STDERR").is_some() {
            for p in &w().procs {
                println!("proc {} {:?}\n{}", p.pid, p.args, p.logs.iter().map(|x| format!("  {} {}\n", x.0, x.1)).collect::<String>());
            }
        }
    }
    if let Some(p) = path {
        let _ = explore::append(p, &txt);
    }
    unsafe { libc::_exit(code) }
}

fn fork_wait(f: impl FnOnce()) -> i32 {
    unsafe {
        let p = libc::fork();
        if p == 0 {
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(p, &mut st, 0) != p {}
        if libc::WIFEXITED(st) {
            libc::WEXITSTATUS(st)
        } else {
            128 + libc::WTERMSIG(st)
        }
    }
}

pub struct Known {
    pub prop: String,
    pub kind: String,
    pub scenario: String,
    pub what: String,
}
fn known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let f = |k: &str| -> String {
                r.split(" | ").find_map(|x| x.trim().strip_prefix(&format!("{k}=")).map(|y| y.to_string())).unwrap_or_default()
            };
            v.push(Known { prop: f("property"), kind: f("kind"), scenario: f("scenario"), what: f("what") });
        }
    }
    v
}

/// Explore all scenarios; the exit status of the check.
pub fn check(o: Opts, scns: Vec<Scn>, known_path: &str, evidence: &str) -> i32 {
    let o: &'static Opts = Box::leak(Box::new(o));
    unsafe { OPTS = o };
    let t0 = explore::real_ns();
    let deadline = t0 + o.secs * SEC;
    let _ = std::fs::create_dir_all(&o.out);
    let _ = std::fs::remove_file(viol_file());
    let errp = format!("{}/err.{}", o.out, o.prop);
    let _ = std::fs::remove_file(&errp);
    let _ = std::fs::remove_file(format!("{}/samples.{}", o.out, o.prop));
    let _ = std::fs::remove_file(format!("{}/others.{}", o.out, o.prop));
    let sh = explore::new_shared();
    sh.free_slots.store(o.jobs, SeqCst);
    let mut running = 0i64;
    let mut skipped = 0;
    let mut crash: Vec<(String, i32)> = vec![];
    let mut pids: Vec<(i32, usize)> = vec![];
    let mut stats: Vec<(String, u64, u64)> = vec![];
    let reap = |block: bool, pids: &mut Vec<(i32, usize)>, running: &mut i64, crash: &mut Vec<(String, i32)>| {
        let mut st = 0;
        let r = unsafe { libc::waitpid(-1, &mut st, if block { 0 } else { libc::WNOHANG }) };
        if r > 0 {
            *running -= 1;
            let i = pids.iter().position(|x| x.0 == r).map(|i| pids.remove(i).1);
            if !libc::WIFEXITED(st) || (libc::WEXITSTATUS(st) != 0 && libc::WEXITSTATUS(st) != 3) {
                crash.push((i.map_or(String::new(), |i| scns[i].id()), st));
                if sh.free_slots.load(SeqCst) < o.jobs {
                    sh.free_slots.fetch_add(1, SeqCst);
                }
            }
        }
        r
    };
    for (i, s) in scns.iter().enumerate() {
        if explore::real_ns() > deadline {
            skipped += 1;
            continue;
        }
        loop {
            while reap(false, &mut pids, &mut running, &mut crash) > 0 {}
            if sh.free_slots.try_update(SeqCst, SeqCst, |x| if x > 0 { Some(x - 1) } else { None }).is_ok() {
                break;
            }
            if running == 0 {
                sh.free_slots.store(o.jobs, SeqCst);
                continue;
            }
            unsafe {
                let ts = libc::timespec { tv_sec: 0, tv_nsec: 500_000 };
                libc::nanosleep(&ts, std::ptr::null_mut());
            }
        }
        let p = unsafe { libc::fork() };
        if p == 0 {
            explore::own_slot();
            child(s, sh, deadline);
        }
        running += 1;
        pids.push((p, i));
        stats.push((s.id(), 0, 0));
    }
    while running > 0 {
        if reap(true, &mut pids, &mut running, &mut crash) < 0 {
            break;
        }
    }
    let secs = (explore::real_ns() - t0) as f64 / 1e9;
    let errs = std::fs::read_to_string(&errp).unwrap_or_default();
    let g0 = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    // Violations.
    let text = std::fs::read_to_string(viol_file()).unwrap_or_default();
    let kn = known(known_path);
    let mut code = 0;
    let mut reported: Vec<String> = vec![];
    let mut findings: Vec<String> = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 5 {
            continue;
        }
        let (scn_id, kind, txt) = (f[0], unesc(f[2]), unesc(f[3]));
        if let Some(k) = kn.iter().find(|k| k.prop == o.prop && k.kind == kind && scn_id.starts_with(&k.scenario)) {
            if !findings.contains(&k.what) {
                println!("KNOWN-FINDING: property={} {}", o.prop, k.what);
                findings.push(k.what.clone());
            }
            continue;
        }
        if reported.len() >= 8 {
            continue;
        }
        let choices: Vec<u32> = f[4].split(',').filter_map(|x| x.parse().ok()).collect();
        let dir = format!("{}/replays", o.out);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.txt", o.prop, reported.len());
        let _ = std::fs::write(&path, format!("property={}\nscenario={}\nchoices={}\nkind={}\ntext={}\n\n", o.prop, scn_id, f[4], kind, esc(&txt)));
        let mut confirmed = kind == "spin";
        if let Some(s) = scns.iter().find(|s| s.id() == scn_id) {
            if !confirmed {
                let p2 = path.clone();
                let c = fork_wait(move || replay_child(s, sh, choices, false, Some(&p2)));
                confirmed = c == 1;
            }
        }
        if !confirmed {
            println!("UNCONFIRMED property={} scenario={scn_id} kind={kind}: {txt}", o.prop);
        }
        println!("VIOLATION property={} replay={path}", o.prop);
        println!("  scenario={scn_id} kind={kind}: {txt}");
        reported.push(kind.clone());
        code = 1;
    }
    if g0(&sh.violations) > 0 && reported.is_empty() && findings.is_empty() {
        println!("ENGINE ERROR in check {}: violations were found but could not be recorded in {}", o.prop, viol_file());
        code = 2;
    }
    let mut crashed = crash.len();
    for l in errs.lines() {
        if l.contains("child ended abnormally") {
            crashed += 1;
        }
    }
    // A panic that is not within the simulated world is the harness's own.
    let own = crash.iter().any(|x| x.1 == 101 << 8) || errs.contains("status 0x6500");
    let engine = own || errs.contains("choices [");
    if crashed > 0 && code == 0 && !engine {
        let path = format!("{}/replays/{}-crash.txt", o.out, o.prop);
        let _ = std::fs::create_dir_all(format!("{}/replays", o.out));
        let _ = std::fs::write(&path, format!("{crash:?}\n{errs}"));
        println!("VIOLATION property={} replay={path}", o.prop);
        println!("  the program crashed the process it ran in: {crash:?} {}", errs.lines().next().unwrap_or(""));
        code = 1;
    }
    if engine && code == 0 {
        println!("ENGINE ERROR in check {}:\n{}", o.prop, errs.lines().take(40).collect::<Vec<_>>().join("\n"));
        code = 2;
    }
    let g = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    let complete = g(&sh.capped) == 0 && skipped == 0 && g(&sh.table_full) == 0;
    let samples = std::fs::read_to_string(format!("{}/samples.{}", o.out, o.prop)).unwrap_or_default();
    let bounds = bounds(&scns);
    let js = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"choice_points\":{},\"executions_merged\":{},\"distinct_traces\":{},\"trace_events_checked\":{},\"scenarios\":{},\"scenarios_skipped\":{},\"choices_capped\":{},\"exhaustive\":{},\"bounds\":{},\"samples\":[{}]}},\"wall_s\":{:.1},\"violations\":{},\"known_findings\":{},\"assumptions\":[{}]}}\n",
        jstr(&o.prop),
        jstr(&o.tier),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        g(&sh.states),
        g(&sh.steps),
        g(&sh.execs),
        g(&sh.choice_points),
        g(&sh.pruned),
        g(&sh.outcomes),
        g(&sh.extra[0]),
        scns.len(),
        skipped,
        g(&sh.capped),
        complete,
        jstr(&bounds),
        samples.lines().take(6).map(jstr).collect::<Vec<_>>().join(","),
        secs,
        reported.len(),
        findings.len(),
        ASSUMPTIONS.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
    );
    let _ = std::fs::write(evidence, js);
    println!(
        "{} {}: {} scenarios ({} skipped), {} executions, {} merged, {} states, {} transitions, {} distinct traces, {} other-property, capped {}, {:.1}s",
        o.prop, o.tier, scns.len(), skipped, g(&sh.execs), g(&sh.pruned), g(&sh.states), g(&sh.steps), g(&sh.outcomes), g(&sh.extra[1]), g(&sh.capped), secs
    );
    code
}

pub fn replay(o: Opts, scns: Vec<Scn>, path: &str) -> i32 {
    let o: &'static Opts = Box::leak(Box::new(o));
    unsafe { OPTS = o };
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|x| x.to_string())).unwrap_or_default();
    let (id, ch) = (g("scenario"), g("choices"));
    let ch: Vec<u32> = ch.split(',').filter_map(|x| x.parse().ok()).collect();
    let sh = explore::new_shared();
    match scns.iter().find(|s| s.id() == id) {
        Some(s) => fork_wait(|| replay_child(s, sh, ch, true, None)),
        None => {
            println!("no scenario {id}");
            2
        }
    }
}
/// Run one scenario along the default choices and print its trace.
pub fn show(o: Opts, scns: Vec<Scn>, id: &str) -> i32 {
    let o: &'static Opts = Box::leak(Box::new(o));
    unsafe { OPTS = o };
    let sh = explore::new_shared();
    match scns.iter().find(|s| s.id() == id || s.name == id) {
        Some(s) => fork_wait(|| replay_child(s, sh, vec![], true, None)),
        None => {
            for s in &scns {
                println!("{}", s.id());
            }
            2
        }
    }
}
