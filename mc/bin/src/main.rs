//! mc PROPERTY [--tier quick|thorough] [--secs N] [--jobs N] [--only PREFIX] | --replay FILE | --show SCENARIO
use mclib::{runner, scen};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let (mut tier, mut out, mut ev, mut known) = ("quick".to_string(), ".".to_string(), String::new(), String::new());
    let (mut secs, mut jobs) = (0u64, 8i64);
    let (mut replay, mut show, mut only) = (None, None, None);
    let mut i = 1;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--tier" => tier = v(),
            "--out" => out = v(),
            "--evidence" => ev = v(),
            "--known" => known = v(),
            "--secs" => secs = v().parse().unwrap(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--replay" => replay = Some(v()),
            "--show" => show = Some(v()),
            "--only" => only = Some(v()),
            x => {
                prop = x.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    stderrlog::install();
    runner::panic_hook();
    if secs == 0 {
        secs = if tier == "thorough" { 3000 } else { 240 };
    }
    let o = runner::Opts { prop: prop.clone(), tier: tier.clone(), out, entry: pizauth::verif_main, secs, jobs };
    let mut s = scen::of(&prop, &tier);
    // The smaller this process, the cheaper its forks.
    unsafe { libc::malloc_trim(0) };
    if let Some(x) = only {
        s.retain(|y| y.id().starts_with(&x));
    }
    let code = if let Some(p) = replay {
        runner::replay(o, s, &p)
    } else if let Some(p) = show {
        runner::show(o, s, &p)
    } else {
        runner::check(o, s, &known, &ev)
    };
    std::process::exit(code);
}
