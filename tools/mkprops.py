#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Run by hand when a property's text changes."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
S="src/server/state.rs"; M="src/server/mod.rs"; R="src/server/refresher.rs"; H="src/server/http_server.rs"
N="src/server/notifier.rs"; E="src/server/eventer.rs"; Q="src/server/request_token.rs"; C="src/config.rs"
U="src/user_sender.rs"; A="src/main.rs"
CLI=["exit status, stdout and stderr of the command line","HTTP requests arriving at the token server"]

p("C01","Reconfigured or removed accounts never reuse old credentials",
 "Once a reload that changed any security-relevant setting of an account (auth_uri, auth_uri_fields, client_id, client_secret, redirect_uri, scopes or token_uri), removed it, or removed and later re-added it has been acknowledged, no token obtained under the old settings is ever shown for that account and the old refresh token is never sent again. An authorisation or refresh that was in flight under the old settings never delivers its result to the new account, and the old authorisation URL can no longer activate it.",
 ["histories","schedules","configurations"],
 "every history of show/refresh/revoke/reload/callback/token-server replies/time steps up to the bound, over configurations differing in each security-relevant field, and every schedule up to the deviation bound",
 "One unit test calls the config-update function three times in sequence with no request in flight; no test has an authorisation or refresh outstanding across a reload, nor varies any field but auth_uri.",
 [S,C,R,H],[("account identity is versioned and revalidated","src/server/state.rs LockedState::update_conf, CTGuard::is_act_id_valid"),("security comparison of accounts","src/config.rs Account::secure_eq"),("stale results dropped","src/server/refresher.rs inner_refresh; src/server/http_server.rs request/fail")],observe=CLI)
p("C02","Reload preserves everything whose settings did not change",
 "After an accepted reload, every account whose security-relevant settings are unchanged still has the same access token or the same pending authorisation URL as before, and authorisations and refreshes that were in flight for it complete as if no reload had happened. The order of accounts in the file, other accounts being added, changed or removed, and changes to non-security settings make no difference; settings that did change (timings, commands) apply from then on.",
 ["histories","schedules","configurations"],
 "every history up to the bound over configurations differing in non-security settings, account order and other accounts, with in-flight work at every point",
 "The unit test checks a single account in two states with nothing in flight; the effect of new timings and commands is never tested.",
 [S,C,R,N],[("token state carried over","src/server/state.rs LockedState::update_conf"),("background threads told about the change","src/server/state.rs AuthenticatorState::update_conf")],observe=CLI)
p("C03","A rejected reload changes nothing",
 "If the configuration file is missing, unreadable or invalid when a reload is requested, the command reports an error and exits with 1, and the server continues exactly as before: same accounts, tokens, pending authorisations, in-flight work, timings and commands. A valid configuration is accepted with exit status 0 and replaces the whole of the old one.",
 ["histories","inputs"],
 "every invalid configuration in an enumerated family, at every point of every history up to the bound",
 "Parse errors are only tested at the parser; no test reloads a running server.",
 [M,C,S],[("config parsed completely before being installed","src/server/mod.rs request, 'reload' arm; src/config.rs Config::from_path")],observe=CLI)
p("C04","Only the current authorisation request can activate an account",
 "An account gains a token only through a redirect that carries the state value of that account's current authorisation request and arrives at the configured redirect scheme, host and port; the code is then exchanged at that account's token_uri with exactly that request's PKCE verifier and redirect URI. Redirects with a missing, unknown, superseded, revoked, already completed or other account's state, or at the wrong scheme, host or port, change nothing for any account and cause no request to a token server.",
 ["histories","inputs","schedules"],
 "every history of authorisation starts, restarts, revocations, reloads and redirects (all enumerated malformed/stale/mismatched variants) up to the bound, over two accounts and both listeners",
 "No test exercises the HTTP listener at all.",
 [H,Q,S],[("state lookup","src/server/state.rs CTGuard::act_id_matching_token_state"),("redirect URI comparison and code exchange","src/server/http_server.rs request"),("fresh random state and verifier","src/server/request_token.rs request_token")],observe=CLI+["HTTP response to the browser"])
p("C05","A completed authorisation is never lost",
 "If a redirect for an account's current authorisation request is accepted and the token server answers with a valid token, then the account ends up with that token, unless meanwhile the user revoked it, started a new authorisation for it, or changed its configuration (or the same request's redirect arrived more than once). Reminders, other accounts' activity, temporary connection failures that are retried, reloads that do not affect the account, and any thread timing make no difference.",
 ["schedules","histories","fault_sequences"],
 "every interleaving up to the deviation bound and every history (including reminder timers firing, and up to nine consecutive connection failures) between the redirect and the token server's answer",
 "No test runs the exchange; the guarantee is about what else happens during its (up to six minute) window.",
 [H,S,N],[("result applied if the request is still current","src/server/http_server.rs request"),("retries","src/server/http_server.rs RETRY_POST loop"),("reminder bookkeeping","src/server/notifier.rs notifier")],observe=CLI)
p("C06","A failed authorisation resets the account and tells the user",
 "If the redirect reports an error, or the token server rejects the code, cannot be reached after all retries, or gives an unusable answer, then the account's authorisation request is cancelled (the next show starts a new one with a new URL) and the user is told once, through error_notify_cmd or the log, with the account's name. Nothing of the kind happens to an account whose request had meanwhile been superseded, revoked or reconfigured, or to other accounts.",
 ["fault_sequences","histories","schedules"],
 "every enumerated token-server answer and failure, at every point of every history up to the bound, with superseding operations before the answer",
 "No test exercises any failure of the exchange.",
 [H,N],[("failure handling","src/server/http_server.rs fail and request"),("user notification","src/server/notifier.rs notify_error")],observe=CLI+["commands run by the server","log"])
p("C07","Revocation is final",
 "When 'pizauth revoke' has returned success, the account has no token and no pending authorisation: its previous token is never shown again, its previous authorisation URL is dead, and no authorisation or refresh that was in flight brings a token back or cancels a later authorisation. Only a new authorisation (or an explicit restore) gives the account a token again; other accounts are unaffected.",
 ["histories","schedules"],
 "every history up to the bound with authorisations, refreshes and transient-error commands in flight when the revocation happens, and every interleaving up to the deviation bound",
 "No test calls revoke.",
 [M,S,R,H],[("state replaced under a new identity","src/server/mod.rs request 'revoke' arm; src/server/state.rs tokenstate_replace")],observe=CLI)
p("C08","At most one refresh is in flight per token",
 "At any time at most one refresh request for an account's current token is outstanding at the token server, no matter how many of the timer, 'pizauth refresh' and 'pizauth show' ask for one at the same time, and a refresh attempt that has ended never blocks a later one. One refresh token is never presented again after a successful answer replaced it.",
 ["schedules","histories","fault_sequences"],
 "every interleaving up to the deviation bound of several refresh triggers for one and two accounts, and every history with outstanding, failing and succeeding refreshes",
 "No test starts a refresh.",
 [R,M],[("ongoing flag taken and cleared under the lock","src/server/refresher.rs sched_refresh")],observe=CLI)
p("C09","Tokens are refreshed on schedule, also after suspend",
 "A token with a refresh token is refreshed, without user action, at the earlier of refresh_before_expiry before it expires and refresh_at_least after it was obtained (account setting before global setting before default), never earlier, and no later than the documented periodic wake-up (under a minute of running time) even if the machine was suspended in between. This holds for every account independently and after every event that creates or changes a token or its timings: authorisation, refresh, restore, reload.",
 ["configurations","histories","schedules"],
 "every combination in a grid of token lifetimes and global/account timings, one to three accounts, suspends of enumerated lengths at enumerated points, and every event order up to the bound",
 "Tests read the timing settings back but never run the scheduling thread; virtual time is needed to observe it.",
 [R,C,S],[("wake-up computation","src/server/refresher.rs refresh_at, next_wakeup, refresher"),("setting precedence","src/config.rs Account::refresh_at_least etc.")],observe=CLI)
p("C10","Transient refresh failures never cost a token and are retried",
 "If the token server cannot be reached during a refresh (name resolution, connection, timeout or broken connection), the token stays available for as long as it has not expired and another attempt is made refresh_retry after the failed one, indefinitely. If transient_error_if_cmd is set it is run with the account's name after every sixth consecutive failure: exit status 0 keeps the token and the retries, any other result or exceeding three minutes invalidates the token; a success resets the count.",
 ["fault_sequences","histories","configurations"],
 "every sequence of up to thirteen failing/succeeding refreshes of each failure kind, every command result, with and without the command, and other operations in between",
 "No test makes a refresh fail; the sixth-failure rule needs long failure sequences.",
 [R],[("failure classification, counting and retry","src/server/refresher.rs sched_refresh, inner_refresh, run_not_transient_error_if, refresh_at")],observe=CLI+["commands run by the server"])
p("C11","Refused refreshes invalidate the token, and only that token",
 "If the token server answers a refresh with an error or an unusable answer, the token is invalidated: it is not shown again, it is not refreshed again, and the next show starts a new authorisation. If the account's token was meanwhile revoked, replaced or reconfigured, such an answer has no effect, and other accounts are never affected.",
 ["fault_sequences","histories","schedules"],
 "every enumerated error answer, at every point of every history up to the bound, and every interleaving up to the deviation bound with operations that replace the token",
 "No test exercises a refused refresh.",
 [R,S],[("permanent error handling","src/server/refresher.rs inner_refresh, sched_refresh")],observe=CLI)
p("C12","A refresh installs exactly what the server granted",
 "A refresh request carries the account's client_id, its client_secret if configured, grant_type refresh_token and the most recently issued refresh token, and goes to the account's token_uri. On success the account has the new access token with the new lifetime; a refresh token in the answer replaces the old one, an answer without one keeps it, and one that is not a string leaves the account without a refresh token.",
 ["histories","inputs"],
 "every sequence up to the bound of answers with/without/with-invalid refresh tokens and different lifetimes, from tokens obtained by authorisation, refresh or restore, with and without client_secret",
 "No test performs a refresh.",
 [R],[("request and answer handling","src/server/refresher.rs inner_refresh")],observe=CLI)
p("C13","show prints only the account's own current unexpired token",
 "'pizauth show' prints an access token and exits with 0 exactly when the account has an unexpired one, and then prints the most recently obtained token of that very account, unaltered. An expired token is never printed: if it can be refreshed the command fails and makes sure a refresh is under way. Without a token it fails, starting a new authorisation if none is pending and reporting the same pending URL otherwise (no URL with -u).",
 ["histories","inputs","schedules"],
 "every history up to the bound over two accounts with expiry at every point, enumerated token and account-name contents, and every interleaving up to the deviation bound",
 "No test requests a token through the socket.",
 [M,U,Q],[("showtoken request","src/server/mod.rs request 'showtoken' arm"),("client","src/user_sender.rs show_token")],observe=CLI)
p("C14","Commands never wait for the network, user commands or other accounts",
 "Every command line request is answered without waiting for a token server, a browser, or a configured command to respond, however long those hang. A hanging authorisation, refresh or command of one account never delays the authorisation, refresh or reminders of another account.",
 ["fault_sequences","schedules","histories"],
 "every command, issued while every subset of {authorisation exchange, refresh, each kind of user command, half-sent browser request on either listener} is hanging, for one and two accounts, in every schedule up to the deviation bound",
 "No test has anything slow in it; the guarantee is about what locks are held while waiting.",
 [M,H,R,N,E],[("lock released around every wait","src/server/refresher.rs inner_refresh; src/server/http_server.rs request; src/server/eventer.rs; src/server/notifier.rs"),("thread per connection/refresh","src/server/http_server.rs http_server; src/server/refresher.rs sched_refresh")],observe=CLI)
p("C15","Token events match what happened to the tokens",
 "While token_event_cmd is configured, every change of an account's token produces exactly one event with that account's name: token_new when an authorisation yields a token, token_refreshed when a refresh yields one, token_invalidated when a previously valid token is dropped because it can no longer be refreshed, token_revoked for each successful revoke. No event is produced for something that did not happen, in particular none for a result that was discarded because the account had changed meanwhile.",
 ["histories","fault_sequences","schedules"],
 "every history up to the bound of authorisations, refreshes (all answer kinds), transient-error commands, revokes and reloads with results arriving at every later point",
 "No test observes an event.",
 [E,R,H,M],[("events queued where the state changes","src/server/refresher.rs sched_refresh; src/server/http_server.rs request/fail; src/server/mod.rs 'revoke' arm")],observe=["commands run by the server and their environment"])
p("C16","Event commands run one at a time, in order, none skipped",
 "Event commands run strictly one after the other in the order in which the events occurred, each exactly once, also when events arrive in bursts or while a command is running. A command that fails, cannot be started, or hangs delays later ones by a bounded time only (it is killed after a timeout) and never suppresses them.",
 ["schedules","fault_sequences","histories"],
 "every interleaving up to the deviation bound of up to five events with the queue consumer, and every combination of command outcomes (success, failure, spawn failure, hang)",
 "No test starts the event thread.",
 [E],[("queue and wake-up flag","src/server/eventer.rs eventer, token_event")],observe=["commands run by the server and their environment"])
p("C17","Pending authorisations are notified promptly, repeatedly, then no more",
 "When an authorisation request is created or replaced, auth_notify_cmd is run at once with that account's name and the current authorisation URL, and again every auth_notify_interval while the request is pending (up to the periodic wake-up after a suspend), never more often. Once the request is completed, failed, revoked, reconfigured or superseded, its URL is never announced again; accounts are reminded independently of each other.",
 ["histories","schedules","configurations"],
 "every history up to the bound of requests, completions and cancellations with time steps across reminder deadlines, several intervals, one to three accounts, suspends, and every interleaving up to the deviation bound",
 "No test starts the notification thread.",
 [N,Q,S],[("notification loop","src/server/notifier.rs notifier, next_wakeup, notify_at")],observe=["commands run by the server and their environment"])
p("C18","Dump then restore reproduces the tokens on any other server",
 "A dump taken at any moment and restored into any later server instance with the same account settings reproduces every account's access token, refresh token and (wall-clock) time of obtaining and expiry: show prints the same token until the same time and refreshes continue with the same refresh token. Accounts without a token stay without one, and pending authorisations are not transferred.",
 ["histories","crash_points","configurations"],
 "every crash/restart point of every history up to the bound, with enumerated differences in uptime, downtime and clock offset, token lifetimes including extremes, and several accounts",
 "One unit test restores into a process of the same age and only checks that the token is of the active kind.",
 [S,C,M],[("dump and restore","src/server/state.rs AuthenticatorState::dump/restore, TokenState::dump/restore")],observe=CLI)
p("C19","Restore only fills gaps and only for unchanged accounts",
 "Restoring a dump never replaces or alters a token the server already holds, never adds accounts or changes settings, and ignores every dumped account whose security-relevant settings (each of auth_uri, auth_uri_fields, client_id, client_secret, redirect_uri, scopes, token_uri) differ from the server's. A restored token replaces a pending authorisation (whose URL is then dead) and is refreshed and expires on schedule; restoring the same dump again changes nothing.",
 ["histories","configurations","schedules"],
 "every pair (server state, dump) reachable by histories up to the bound over configurations differing in each single field, repeated restores, and in-flight work at restore time",
 "One unit test covers two state pairs with identical configurations.",
 [S,C],[("state pair table and security comparison","src/server/state.rs LockedState::restore; src/config.rs Account::secure_restorable")],observe=CLI)
p("C20","Damaged or foreign dumps are rejected and change nothing",
 "Restoring input that is not a complete, unmodified dump of a supported version - truncated, extended, with any byte altered, empty, of another version, or not decodable - reports an error with exit status 1 and leaves all tokens and pending authorisations as they were. The server keeps running.",
 ["crash_points","inputs"],
 "every truncation point, every single-byte alteration and every single-byte extension of dumps of one and two accounts, every unsupported version, every truncation of the encrypted content under a valid seal, against servers in every token state",
 "No test feeds restore anything but an intact dump.",
 [S,M,U],[("authenticated decryption, version check, decoding","src/server/state.rs AuthenticatorState::restore, LockedState::restore")],observe=CLI)
p("C21","No control-socket input can harm the server",
 "Whatever bytes a client sends over the control socket, and whenever it disconnects, the server keeps serving, gives no other client's answer, changes no state unless the bytes form a complete valid command, and answers an unknown command or account with an error. Arguments are taken literally, so account names containing spaces, colons or other special characters work.",
 ["inputs","fault_sequences"],
 "every byte string up to the bound over an alphabet of command names, separators, account names and invalid UTF-8, with disconnects at every point, against servers in every token state",
 "No test speaks the socket protocol.",
 [M],[("request parsing","src/server/mod.rs request")],observe=["bytes answered on the socket","later command line results"])
p("C22","No browser-side input can harm the server",
 "Whatever bytes arrive at the HTTP or HTTPS listener, however they are fragmented and whenever the connection closes, the server keeps serving, reads only a bounded amount of a request before giving up, and answers malformed requests with an error status without changing any account. A well-formed redirect is recognised independently of fragmentation, header order, header case and extra headers or query parameters, and answered before the token exchange finishes.",
 ["inputs","fault_sequences"],
 "every request in an enumerated grammar-with-faults family (request line, headers, continuation lines, repeated/missing Host, over-long lines and header blocks, truncation and fragmentation at every byte), on both listeners",
 "No test parses an HTTP request.",
 [H],[("request parser with size limit","src/server/http_server.rs parse_get, request")],observe=["HTTP response","bytes consumed by the server","later command line results"])
p("C23","Configuration files mean what the manual says, or are rejected",
 "A configuration file is accepted exactly when it follows the documented syntax and constraints (each option and field at most once, mandatory account fields present, HTTP(S) URIs only, at least one account, at least one listener, listener available for each redirect scheme, times that can be represented); otherwise an error message is given and the program never crashes. Accepted values take effect exactly as written: strings with their escapes, times with their units, lists in order, defaults where omitted.",
 ["inputs","configurations"],
 "every token sequence up to the bound over the configuration language's token alphabet, every field pattern (absent/once/twice) per block, and enumerated strings, times and URIs, against a reference reader written from the manual",
 "Fifteen unit tests sample single configurations; no test covers combinations, nesting errors, or crash-freedom.",
 [C,"src/config.l","src/config.y"],[("lexer, grammar, validation","src/config.l, src/config.y, src/config.rs Config::from_str, Account::from_fields")],observe=["exit status and message of server start and reload","authorisation URL, timings and commands in effect"])
p("C24","Authorisation URLs are complete, fresh and redirect to a live listener",
 "Every authorisation URL is the account's auth_uri with, in addition to what it already contained, client_id, response_type code, redirect_uri, scope (if any), a state and an S256 code challenge never used before, access_type offline and all auth_uri_fields in order, each exactly as configured and correctly encoded. The redirect_uri is the configured one with the port of the running listener of its own scheme, and the same redirect_uri and matching verifier are used when the code is exchanged.",
 ["configurations","inputs","histories"],
 "every combination of an enumerated grid of URIs, query strings, scopes, extra fields with special characters, schemes and listener settings, and every repeated request",
 "Redirect URI construction is tested for one account; URL construction, freshness and the PKCE relation are untested.",
 [Q,C,H],[("URL construction","src/server/request_token.rs request_token; src/config.rs Account::redirect_uri")],observe=["URL printed by show","token server request"])
p("C25","Secrets reach only the parties they belong to",
 "Access tokens are only ever output by show for their own account (and inside dumps); refresh tokens, client secrets, authorisation codes and PKCE verifiers are only ever sent to the token_uri of the account they belong to. None of them appears in any other command's output, in status, in error or log messages the server originates (whatever the verbosity) (apart from the line of the user's own configuration file that a syntax error quotes), in the environment or arguments of user commands, in responses to the browser, in the authorisation URL, or readable in a dump.",
 ["histories","fault_sequences","schedules"],
 "every output of every kind on every path explored by the other checks' histories, with unique marker values for every secret",
 "No test looks at where secrets go.",
 [M,R,H,N,E,Q,S],[("what is formatted where","all message-producing code"),("dump sealing","src/server/state.rs AuthenticatorState::dump")],observe=["all outputs"])
p("C26","The command line reports every outcome faithfully",
 "Each subcommand exits with 0 and prints its result to stdout exactly if the server carried it out, and otherwise exits with 1 with a message on stderr and nothing on stdout; a missing, crashing or garbage-answering server is always reported as a failure ('info', which also describes the configuration, says instead that the server is not running; the contents of a dump are opaque to 'dump'; 'shutdown' reports that the request was delivered). Bad usage (unknown subcommand, wrong number of arguments, unknown option) exits with 1 without contacting the server.",
 ["inputs","fault_sequences","configurations"],
 "every subcommand and option pattern up to the bound, against no server, a server in every token state, and a peer giving every truncated/garbled answer in an enumerated family",
 "No test runs the command line.",
 [U,A],[("client side of each command","src/user_sender.rs"),("argument handling","src/main.rs main")],observe=["exit status, stdout, stderr","bytes sent to the server"])
p("C27","No schedule deadlocks or kills the server",
 "Under every thread schedule and any combination of commands, browser requests, token-server answers, timers and reloads, no server thread panics, no lock is left held or waited for forever, the background threads keep working, and the server goes on answering.",
 ["schedules","histories"],
 "every schedule up to the deviation bound of concurrent commands, redirects, refreshes, reminders, events and reloads on one and two accounts",
 "The tests are single-threaded.",
 [S,R,N,E,H,M],[("lock order and identity revalidation","src/server/state.rs CTGuard; condition variables in notifier/refresher/eventer")],observe=["liveness of every thread and command"])
p("C28","status describes every account truthfully",
 "'pizauth status' lists every configured account exactly once, by name, in sorted order, and says whether it has no token, a pending authorisation, an active token or an expired one, in agreement with what show would do at that moment; times shown for tokens and notifications agree with when things happened and will happen. It works for every token lifetime a server can grant.",
 ["histories","inputs"],
 "every state reachable by histories up to the bound, and every lifetime in an enumerated set including the extremes of the integer range",
 "No test asks for the status.",
 [M],[("status formatting","src/server/mod.rs request 'status' arm, instant_fmt")],observe=["status output"])
p("C29","At most one server runs per user",
 "While a server is running, starting another one fails with exit status 1 and leaves the first one and its tokens untouched and reachable; after a server has died in any way, a new one can be started at once even if the old socket file is still there.",
 ["schedules","crash_points"],
 "every interleaving up to the deviation bound of two server starts (and a client) with no, a stale, or a live socket file, and a crash at every point of a server's start",
 "No test starts a server.",
 [A,M],[("probe and remove stale socket, then bind","src/main.rs main 'server' arm; src/server/mod.rs server")],observe=["exit status of server starts","which server answers"])
p("C30","The control socket is never reachable by other users",
 "Whatever the state of the runtime directories before the start (missing, or existing with any permissions) and whatever the umask, the socket is only ever created inside a directory that is accessible to its owner alone; if that cannot be arranged, nothing is started.",
 ["configurations","fault_sequences"],
 "every combination of environment variables, pre-existing directory modes and umasks in an enumerated grid, with each file-system step failing",
 "No test runs the start-up code.",
 [A],[("directory creation and mode","src/main.rs cache_path")],observe=["file modes at socket creation"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
