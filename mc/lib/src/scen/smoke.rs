use crate::driver::*;
use crate::env::*;
use crate::runner::{scn, Scn};
pub fn all() -> Vec<Scn> {
    vec![scn("show", 0, || {
        let c = Conf::new(&["a"]);
        boot(&c);
        run(&["show", "a"]);
        run(&["status"]);
        grant_next("a", Resp::Grant { exp: 3600, rt: true });
        authorise("a");
        quiet();
        run(&["show", "a"]);
        run(&["status"]);
        auto("a", Some(Resp::Grant { exp: 3600, rt: true }));
        sleep(4000);
        run(&["show", "a"]);
        run(&["revoke", "a"]);
        run(&["show", "a"]);
        run(&["shutdown"]);
        run(&["show", "a"]);
    }),
    scn("conc", 2, || {
        let c = Conf::new(&["a"]);
        boot(&c);
        run(&["show", "a"]);
        grant_next("a", Resp::Grant { exp: 3600, rt: true });
        devs(true);
        authorise("a");
        cmd(&["revoke", "a"]);
        quiet();
        devs(false);
        run(&["show", "a"]);
    })
    ]
}
