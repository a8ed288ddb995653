#!/usr/bin/env python3
"""Fills in the generated parts of DESIGN.md (between <!-- X --> and <!-- /X -->).
Usage: design.py [LOG]   LOG: the last lines of quick runs of all checks ("C01 quick: ...")."""
import json, re, sys, glob
D = "/verif/DESIGN.md"
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
H = {
"C01": "`hist` per security-relevant setting (auth_uri, fields, client_id, secret set/changed/removed, redirect, scopes, their order, token_uri path/host, login_hint, account removed) x {pending, exchange, active, refresh}: all sequences of 3 of {reload new, reload old, grant, redirect, old redirect, show, refusal, refresh}; the reload racing with grant, refusal, redirect, show, refresh, dump (d 1-2); retries, failed refreshes, dumps and immediate change-backs around it.",
"C02": "The same with 10 changes that leave account a alone (order, accounts added before/after, another removed/changed, commands changed/removed, all times, the account's times, nothing): everything in flight must go on, races with the reload d 1-2, both accounts at work, retry counts and reminders kept.",
"C03": "8 kinds of broken file x 6 states, mixed with good reloads of other configurations and with everything in flight; races of a rejected reload with each operation.",
"C04": "9 preludes (superseded, revoked, used, two accounts ...) x all sequences of 3 of redirects with current, old, wrong (NWRONG ways: case, prefix, empty, other account ...) state values, errors, new requests; pairs of redirects at once.",
"C05": "The grant racing with every other command, reminder and reload (d 2); retried exchanges (connection refused, DNS, hang, reset, FIN, truncated) with reminders, suspends and reloads in between (4 ops).",
"C06": "All ways of failing (33 useless answers, 20 status codes, error redirects with 10 odd reasons, network failures past the retry limit, unrepresentable lifetimes) x what happens next; each failure racing with each command; with and without error_notify_cmd.",
"C07": "revoke racing with each operation in each state (d 2); all sequences of 4 around it; with both accounts; around retries of exchanges and refreshes.",
"C08": "Pairs and triples of {refresh, refresh timer, show, revoke, answers} at once in active / refreshing / failed / expired states (d 1-2); sequences of 4 with answers and suspends; a new token while the old one's refresh is in flight.",
"C09": "5 combinations of global and per-account refresh settings x sequences of 4 of {due, waits, suspends, grants, reload, refresh}; timer racing with everything that changes deadlines; long, short and repeated tokens, restored tokens.",
"C10": "All failure kinds, counts around the 6th and 12th failure, resets, every fate of transient_error_if_cmd (ok, fail, hang, cannot start), while other things happen (d 1), with other accounts at work.",
"C11": "Every refusal (8 kinds x sequences of 3, the useless answers, status codes) and every race with it; the token replaced, restored or reconfigured while the refused refresh was in flight.",
"C12": "Kinds of grants (with/without refresh token, odd strings, null, numbers, repeated tokens) x sequences of 4, clients with odd credentials, races with show, refresh, timer, dump, status (d 1-2); dumps before/after.",
"C13": "show (with and without -u) in every state after every sequence of 3 of 11 operations, expired tokens of all kinds, at 1 ns before / at / after the expiry, two shows at once (d 2).",
"C14": "10 kinds of hanging (exchange, connect, refresh, each command, six failures, all at once, half-sent browser requests) x sequences of 3 of all commands for both accounts; each must end without time passing; deadlocks.",
"C15": "Sequences of 3 of 10 operations in all states, every pair of changes racing (d 2), without and with token_event_cmd, discarded results, repeated tokens, expired tokens without refresh token, restore.",
"C16": "Bursts of events with a command that succeeds, fails, hangs, cannot start; the command ending while events arrive (d 2); 10 s passing; command changed or removed by a reload; spurious wake-ups.",
"C17": "Sequences of 4 of 13 operations on reminders of two accounts; the reminder timer racing with each operation (d 2); suspends, changed intervals, failing and hanging auth_notify_cmd, spurious wake-ups.",
"C18": "16 token states x waiting before the dump x 9 ways of being down (time, suspend, clock set forward/back) x 5 of what happens before restore x what comes after; dumps while something happens (d 1); dumps of dumps.",
"C19": "16 states dumped x 10 states restored into x 2 further operations; same server, other server, 21 configuration differences in both directions; restore racing with everything (d 1).",
"C20": "Every truncation, every removal of a byte, every bit flipped, every extension, every truncation and version under a valid seal, each field forged; in each state, and between and racing with other operations.",
"C21": "All requests of up to 3 of 22 lexemes (4 of 10) in 7 states; each command cut at each byte by clients that end, vanish, reset, go on later; two half-open clients and a third command (d 1); long requests; odd account names through their whole life.",
"C22": "Requests of pieces at HTTP and HTTPS listeners with every single change (missing, doubled, altered, reordered lines, methods, versions, hosts, encodings), every cut, byte-wise delivery, slow and vanishing browsers, oversized ones; TLS garbage; several browsers at once.",
"C23": "Every change of one lexeme of a complete configuration, two of a short one; every character in every place; comments and white space anywhere; each option 0-2 times, at each level; strings, lists, times, URIs of all kinds: reload result, then everything observable, against `refconf.rs`; times and intervals must take effect; starts.",
"C24": "Each setting with each character and each odd value, pairs of places, listeners in all combinations, reloads that change them; values never repeat within a history or between accounts and servers (monitors), histories of 3, races.",
"C25": "Histories with every output channel (stdout, stderr, log, command environments, redirect pages, requests of others, dumps, file names) searched for every secret in plain, percent, base64, JSON, hex forms; useless answers that contain what was sent; cut answers; odd settings; syntax errors in every place.",
"C26": "All command lines of up to 3 of the words that matter against the manual; the answers of any server (cut at each byte, wrong, long, none); each command without server and with it in each state; servers that go away at any point (d 2); full outputs; where configurations are looked for; what the system refuses at each step of a start.",
"C27": "Pairs of all operations at once in 7 states, threes and fours, with the timers, with threads stalling anywhere and spurious wake-ups, all hostile answers, clocks jumping, suspends, days going by in the foreground and as daemon; afterwards everything must still work; mutex cycles are reported at once.",
"C28": "status after each operation of sequences of 3-4 in all states of both accounts, racing with everything (d 2), before/at/after every deadline, with all kinds of lifetimes and names, after clock jumps and suspends.",
"C29": "A second start in every state and kind of server, 2-3 starts at the same time (d 2-3), with clients about and the first server ending, a crash at every step of a start and of everything a server does, then another start.",
"C30": "Every kind of directory/socket/file already there x environment x umask x every failing system call; the modes of directory and socket are watched after every step of the program, also through commands and shutdown.",
}
log = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r"(C\d\d) (\w+): (\d+) scenarios \((\d+) skipped\), (\d+) executions, (\d+) merged, (\d+) states, (\d+) transitions.* ([\d.]+)s$", l)
        if m: log[m[1]] = m.groups()
t = open(D).read()
old = dict(re.findall(r"^\*\*(C\d\d) .*?\[(.*?)\]$", t, re.M))
def num(p):
    if p in log:
        g = log[p]
        return f"{g[2]} / {g[4]} / {int(g[7]):,}; {float(g[8]):.0f} s"
    return old.get(p, "-")
props = "\n\n".join(f"**{p['id']} {p['title']}** [{num(p['id'])}]\n{H[p['id']]}" for p in P)
# Keep one line for the title so that `old` finds the numbers.
fixes = {}
for l in open("/verif/known-findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: fixes.setdefault((m[2], m[3]), []).append(m[1])
fx = "\n".join(f"* {c} ({', '.join(v)}): {w}" for (c, w), v in fixes.items())
rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = dict(l.split(None, 1) for l in open("/verif/tools/caught.txt") if l.strip())
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, '?').strip()} |")
for k, v in [("PROPS", props), ("FIXES", fx), ("SEEDS", "\n".join(rows))]:
    v = f"<!-- {k} -->\n{v}\n<!-- /{k} -->"
    if f"@{k}@" in t: t = t.replace(f"@{k}@", v)
    else: t = re.sub(rf"<!-- {k} -->.*?<!-- /{k} -->", lambda _: v, t, flags=re.S)
open(D, "w").write(t)
