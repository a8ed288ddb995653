//! Scenarios about the edges of the program: sockets, files, processes.
use super::ops::*;
use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
use vstd::explore::choose;
use vstd::world::w;

/// Bytes with which a browser may begin and then say nothing more.
const HALVES: &[&str] = &["", "G", "GET /?state=x&code=y", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nHost: localhost", "GET / HTTP/1.1\r\nHost: localhost\r\n"];
pub fn browser_hangs(t: bool) -> Vec<Scn> {
    let mut v = vec![];
    for n in if t { vec![1, 3, 20] } else { vec![1, 5] } {
        v.push(scn(&format!("halfopen{n}"), 0, move || {
            let c = Conf::new(&["a", "b"]);
            boot(&c);
            let h = HALVES[choose(HALVES.len(), "first bytes")];
            for _ in 0..n {
                let b = browse_open(listener(0).unwrap(), Brow::Bad);
                browse_send(b, h.as_bytes());
            }
            quiet();
            let cx = Cx { confs: vec![c.clone()] };
            setup(&cx, &[O::Show("a"), O::Auth("a"), O::Ans(R::Grant), O::Show("a")]);
            for _ in 0..n {
                let b = browse_open(listener(0).unwrap(), Brow::Bad);
                browse_send(b, h.as_bytes());
            }
            probe(&cx, &["a", "b"], true);
            sleep(3600);
            apply(&cx, &O::Show("a"));
        }));
    }
    v
}
/// Just before, at and after the expiry of a token, awake or asleep.
pub fn expiry_edge(k: i64) -> Scn {
    scn(&format!("edge{k}"), 0, move || {
        let c = Conf::new(&["a", "b"]);
        let cx = Cx { confs: vec![c.clone()] };
        boot(&c);
        setup(&cx, &[O::Show("a"), O::Auth("a"), O::Ans(if k == 2 { R::ShortNoRt } else { R::Short })]);
        let t0 = ee().trace.iter().rev().find(|e| matches!(e.k, K::TokEnd { .. })).unwrap().t.boot;
        let off = [-1_000_000_000i64, -1_000_000, 1_000_000, 1_000_000_000][choose(4, "offset")];
        let left = (t0 + 20 * SEC) as i64 + off - now().boot as i64;
        if k == 1 {
            w().susp += left as u64;
            ee().push(K::Suspend { ns: left as u64 });
        } else {
            sleep_ns(left as u64);
        }
        apply(&cx, &O::Show("a"));
        apply(&cx, &O::Status);
        sleep(60);
        probe(&cx, &["a", "b"], true);
    })
}
