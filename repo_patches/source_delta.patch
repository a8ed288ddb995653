From ab694ddc670bdeaff615b80f362dd23bdef7eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 01/23] Export main under cfg(pizauth_verif) for the
 verification harness

---
 src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 5cae972..0fe60d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -127,6 +127,12 @@ fn conf_path(matches: &getopts::Matches) -> PathBuf {
     }
 }
 
+/// Entry point for the verification harness, which runs pizauth inside a simulated world.
+#[cfg(pizauth_verif)]
+pub fn verif_main() {
+    main()
+}
+
 fn main() {
     // Generic pledge support for all pizauth's commands. Note that the server later restricts
     // these further.
-- 
2.43.0


From 99759fd2bddfbb5cba250c52f9e7db9abc0e5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 02/23] fix: Queue token events while the state is locked, so
 that they are in order

---
 src/server/http_server.rs |  2 +-
 src/server/mod.rs         |  3 +--
 src/server/refresher.rs   | 44 ++++++++++++++++++++++++++-------------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index c232e0e..e166bc3 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -233,9 +233,9 @@ fn request<T: Read + Write>(
                     refresh_token: refresh_token.map(|x| x.to_owned()),
                 },
             );
+            pstate.eventer.token_event(act_name, TokenEvent::New);
             drop(ct_lk);
             pstate.refresher.notify_changes();
-            pstate.eventer.token_event(act_name, TokenEvent::New);
         }
         _ => {
             drop(ct_lk);
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 331bd7b..984759e 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -175,11 +175,10 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
             match ct_lk.validate_act_name(act_name) {
                 Some(act_id) => {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    drop(ct_lk);
-
                     pstate
                         .eventer
                         .token_event(act_name.to_owned(), TokenEvent::Revoked);
+                    drop(ct_lk);
                     stream.write_all(b"ok:")?;
                     return Ok(());
                 }
diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 00795ad..c0aa679 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -74,14 +74,8 @@ impl Refresher {
                             RefreshKind::NoRefreshToken => (),
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
-                                pstate
-                                    .eventer
-                                    .token_event(act_name, TokenEvent::Invalidated);
-                            }
-                            RefreshKind::Refreshed => {
-                                refresher.notify_changes();
-                                pstate.eventer.token_event(act_name, TokenEvent::Refresh);
                             }
+                            RefreshKind::Refreshed => refresher.notify_changes(),
                             RefreshKind::TransitoryError(act_id, msg) => {
                                 ct_lk = pstate.ct_lock();
                                 if ct_lk.is_act_id_valid(act_id) {
@@ -201,6 +195,26 @@ impl Refresher {
         }
     }
 
+    /// Drop the token of `act_id`, returning its new [AccountId]. The event is queued while the
+    /// lock is held so that events are processed in the order the token changed.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid.
+    fn invalidate(
+        &self,
+        pstate: &AuthenticatorState,
+        ct_lk: &mut CTGuard,
+        act_id: AccountId,
+    ) -> AccountId {
+        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+        let act_name = ct_lk.account(act_id).name.clone();
+        pstate
+            .eventer
+            .token_event(act_name, TokenEvent::Invalidated);
+        act_id
+    }
+
     /// For a [TokenState::Active] token for `act_id`, refresh it, blocking until the token is
     /// refreshed or an error occurred. This function must be called with a [TokenState::Active]
     /// tokenstate.
@@ -268,7 +282,7 @@ impl Refresher {
                 };
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
-                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    self.invalidate(pstate, &mut ct_lk, act_id);
                     return RefreshKind::PermanentError(reason);
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
@@ -284,7 +298,7 @@ impl Refresher {
             Err(e) => {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
-                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    self.invalidate(pstate, &mut ct_lk, act_id);
                     return RefreshKind::PermanentError(e.to_string());
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
@@ -297,7 +311,7 @@ impl Refresher {
                 if let Some(e) = v["error"].as_str() {
                     let mut ct_lk = pstate.ct_lock();
                     if ct_lk.is_act_id_valid(act_id) {
-                        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                        let act_id = self.invalidate(pstate, &mut ct_lk, act_id);
                         let msg =
                             format!("Refreshing {} failed: {}", ct_lk.account(act_id).name, e);
                         return RefreshKind::PermanentError(msg);
@@ -310,7 +324,7 @@ impl Refresher {
             Err(e) => {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
-                    let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    let act_id = self.invalidate(pstate, &mut ct_lk, act_id);
                     let msg = format!("Refreshing {} failed: {e}", ct_lk.account(act_id).name);
                     return RefreshKind::PermanentError(msg);
                 } else {
@@ -336,11 +350,11 @@ impl Refresher {
                     let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
                         Ok(x) => x,
                         Err(e) => {
-                            ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                            self.invalidate(pstate, &mut ct_lk, act_id);
                             return RefreshKind::PermanentError(format!("{e}"));
                         }
                     };
-                    ct_lk.tokenstate_replace(
+                    let act_id = ct_lk.tokenstate_replace(
                         act_id,
                         TokenState::Active {
                             access_token: access_token.to_owned(),
@@ -352,6 +366,8 @@ impl Refresher {
                             refresh_token,
                         },
                     );
+                    let act_name = ct_lk.account(act_id).name.clone();
+                    pstate.eventer.token_event(act_name, TokenEvent::Refresh);
                     drop(ct_lk);
                     RefreshKind::Refreshed
                 } else {
@@ -361,7 +377,7 @@ impl Refresher {
             _ => {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
-                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    self.invalidate(pstate, &mut ct_lk, act_id);
                     RefreshKind::PermanentError("Received JSON in unexpected format".to_string())
                 } else {
                     RefreshKind::AccountOrTokenStateChanged
-- 
2.43.0


From 20ff211d58d6316b9b29c21161a5099f6d734fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 03/23] fix: No token_invalidated if transient_error_if_cmd's
 result is discarded

---
 src/server/refresher.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index c0aa679..8267867 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -115,17 +115,12 @@ impl Refresher {
                                                     Err(e) => {
                                                         ct_lk = pstate.ct_lock();
                                                         if ct_lk.is_act_id_valid(act_id) {
-                                                            ct_lk.tokenstate_replace(
-                                                                act_id,
-                                                                TokenState::Empty,
+                                                            refresher.invalidate(
+                                                                &pstate, &mut ct_lk, act_id,
                                                             );
                                                         }
                                                         drop(ct_lk);
                                                         info!("Permanent refresh error for {act_name} : {e}");
-                                                        pstate.eventer.token_event(
-                                                            act_name,
-                                                            TokenEvent::Invalidated,
-                                                        );
                                                     }
                                                 };
                                             } else {
-- 
2.43.0


From 1062b96254f91f4871bee83b1c429a766f04caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 04/23] fix: Send token_invalidated when a token without a
 refresh token is dropped

---
 src/server/refresher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 8267867..efad59d 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -237,7 +237,7 @@ impl Refresher {
                     r
                 }
                 None => {
-                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
+                    self.invalidate(pstate, &mut ct_lk, act_id);
                     return RefreshKind::NoRefreshToken;
                 }
             },
-- 
2.43.0


From a805d07d953beb7a95ff64e1593f6e8d293d9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 05/23] fix: A reminder does not make an authorisation that is
 under way stale

---
 src/server/notifier.rs | 10 ++++------
 src/server/state.rs    | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f4b54fe..1e55b10 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -59,12 +59,11 @@ impl Notifier {
             let now = Instant::now();
             let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
             for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
-                let mut ts = ct_lk.tokenstate(act_id).clone();
                 if let TokenState::Pending {
-                    ref mut last_notification,
-                    ref url,
+                    last_notification,
+                    url,
                     ..
-                } = ts
+                } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
                         if let Some(t) = t.checked_add(notify_interval) {
@@ -73,13 +72,12 @@ impl Notifier {
                             }
                         }
                     }
-                    *last_notification = Some(now);
                     let url = url.clone();
                     let act = ct_lk.account(act_id);
                     if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                         auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                     }
-                    ct_lk.tokenstate_replace(act_id, ts);
+                    ct_lk.tokenstate_set_last_notification(act_id, now);
                 }
             }
             drop(ct_lk);
diff --git a/src/server/state.rs b/src/server/state.rs
index f0ebc24..0bd4bfa 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -380,6 +380,25 @@ impl<'a> CTGuard<'a> {
         unreachable!();
     }
 
+    /// If `act_id` is `Pending`, record that the user was notified of that at `now`. This leaves
+    /// `act_id` valid: an authorisation which is under way is still that of the current request.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid or is not `Pending`.
+    pub fn tokenstate_set_last_notification(&mut self, act_id: AccountId, now: Instant) {
+        match self.guard.details.iter_mut().find(|x| x.1 == act_id) {
+            Some((
+                _,
+                _,
+                TokenState::Pending {
+                    last_notification, ..
+                },
+            )) => *last_notification = Some(now),
+            _ => unreachable!(),
+        }
+    }
+
     /// Update the tokenstate for `act_id` to `new_tokenstate` returning a new [AccountId]
     /// valid for the new tokenstate, updating the tokenstate version.
     ///
-- 
2.43.0


From 3d866a825ba5fdb0c7e9a172ff26bdbfeb662329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 06/23] fix: Report dumps that cannot be restored

---
 src/server/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index 0bd4bfa..6b71b8b 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -136,8 +136,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
-        let lk = self.locked_state.lock().unwrap().restore(d);
-        drop(lk);
+        self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
         Ok(())
-- 
2.43.0


From 7c600b3316b48053358b94142dba0f199dfda0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 07/23] fix: Tokens with a very long lifetime do not make
 status panic

---
 src/server/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 984759e..d8cc20e 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -12,11 +12,11 @@ use std::{
     os::unix::net::{UnixListener, UnixStream},
     path::{Path, PathBuf},
     sync::Arc,
-    time::{Duration, SystemTime},
+    time::{Duration, SystemTime, UNIX_EPOCH},
 };
 
 use boot_time::Instant;
-use chrono::{DateTime, Local};
+use chrono::{DateTime, Datelike, Local};
 use log::warn;
 use nix::sys::signal::{raise, Signal};
 #[cfg(target_os = "openbsd")]
@@ -306,20 +306,29 @@ fn instant_fmt(i: Instant) -> String {
     let now = Instant::now();
     if i < now {
         if let Some(d) = now.checked_duration_since(i) {
-            if let Some(st) = SystemTime::now().checked_sub(d) {
-                let dt: DateTime<Local> = st.into();
-                return dt.to_rfc2822();
+            if let Some(s) = SystemTime::now().checked_sub(d).and_then(system_time_fmt) {
+                return s;
             }
         }
     } else if let Some(d) = i.checked_duration_since(now) {
-        if let Some(st) = SystemTime::now().checked_add(d) {
-            let dt: DateTime<Local> = st.into();
-            return dt.to_rfc2822();
+        if let Some(s) = SystemTime::now().checked_add(d).and_then(system_time_fmt) {
+            return s;
         }
     }
     "<unknown time>".into()
 }
 
+/// Convert `st` to a string, if it is in the range of years that RFC 2822 can represent.
+fn system_time_fmt(st: SystemTime) -> Option<String> {
+    let secs = st.duration_since(UNIX_EPOCH).ok()?.as_secs();
+    let utc = DateTime::from_timestamp(i64::try_from(secs).ok()?, 0)?;
+    // The local year may differ by one from the UTC year.
+    if utc.year() > 9998 {
+        return None;
+    }
+    Some(utc.with_timezone(&Local).to_rfc2822())
+}
+
 pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(), Box<dyn Error>> {
     let sock_path = sock_path(cache_path);
 
-- 
2.43.0


From 65204e05b1aebef3a26b36b28c9baea385f3e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 08/23] fix: Never read more than the maximum size of an HTTP
 request

---
 src/server/http_server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index e166bc3..fe7bcd8 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -280,7 +280,7 @@ fn fail(
 /// A very literal, and rather unforgiving, implementation of RFC2616 (HTTP/1.1), returning the URL
 /// of GET requests: returns `Err` for anything else.
 fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box<dyn Error>> {
-    let mut rdr = BufReader::new(stream);
+    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));
     let mut req_line = String::new();
     rdr.read_line(&mut req_line)?;
     let mut http_req_size = req_line.len();
-- 
2.43.0


From b451d87835a69ef07c40fdc3f979b9edbc4fe838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 09/23] fix: Repeated empty scopes or auth_uri_fields are an
 ordinary error

---
 src/config.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac01eb8..ac4a709 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -382,7 +382,6 @@ impl Account {
                 }
                 config_ast::AccountField::AuthUriFields(span, spans) => {
                     if auth_uri_fields.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
@@ -450,7 +449,6 @@ impl Account {
                 }
                 config_ast::AccountField::Scopes(span, spans) => {
                     if scopes.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
-- 
2.43.0


From 3208ba3431556a17c3cfb18576d16a0750070570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 10/23] fix: Report an authorisation whose token's expiry
 cannot be represented

---
 src/server/http_server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index fe7bcd8..8b4c8cd 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -219,7 +219,14 @@ fn request<T: Read + Write>(
     ) {
         (Some("Bearer"), Some(expires_in), Some(access_token), refresh_token) => {
             let now = Instant::now();
-            let expiry = expiry_instant(&ct_lk, act_id, now, expires_in)?;
+            let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
+                Ok(x) => x,
+                Err(e) => {
+                    drop(ct_lk);
+                    fail(pstate, act_id, &e.to_string())?;
+                    return Ok(());
+                }
+            };
             let act_name = ct_lk.account(act_id).name.to_owned();
             ct_lk.tokenstate_replace(
                 act_id,
-- 
2.43.0


From a4652a2026fbf152aef14b44549daeae4ad142d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 11/23] fix: Do not keep token events back when there is no
 token_event_cmd

---
 src/server/eventer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index 0be2e67..490fe2b 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -71,7 +71,7 @@ impl Eventer {
                 {
                     token_event_cmd
                 } else {
-                    break;
+                    continue;
                 };
                 match env::var("SHELL") {
                     Ok(s) => {
-- 
2.43.0


From 724f9f8cbaba2faae7b41ced695a0de186b99550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 12/23] fix: Recognise https redirect URIs however their scheme
 is written

---
 src/config.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac4a709..867b284 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -206,14 +206,14 @@ impl Config {
         }
 
         for (act_name, act) in &accounts {
-            if act.redirect_uri.starts_with("https") {
+            if act.redirect_is_https() {
                 match https_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
                         return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                     }
                 }
-            } else if act.redirect_uri.starts_with("http") {
+            } else {
                 match http_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
@@ -542,6 +542,12 @@ impl Account {
             && self.token_uri == act_dump.token_uri
     }
 
+    /// Is the scheme of this account's redirect URI HTTPS? Note that schemes are case insensitive
+    /// and that the parser of URIs allows e.g. leading spaces.
+    fn redirect_is_https(&self) -> bool {
+        Url::parse(&self.redirect_uri).is_ok_and(|x| x.scheme() == "https")
+    }
+
     pub fn redirect_uri(
         &self,
         http_port: Option<u16>,
@@ -549,7 +555,7 @@ impl Account {
     ) -> Result<Url, Box<dyn Error>> {
         assert!(http_port.is_some() || https_port.is_some());
         let mut url = Url::parse(&self.redirect_uri)?;
-        if https_port.is_some() && self.redirect_uri.to_lowercase().starts_with("https") {
+        if https_port.is_some() && self.redirect_is_https() {
             url.set_port(https_port)
                 .map_err(|_| "Cannot set https port")?;
         } else {
-- 
2.43.0


From 64837b514edb3c188db664a41e0e5dcb2b0bf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 13/23] fix: login_hint is passed to auth_uri as documented

---
 src/config.rs               | 17 +++++++++++++++--
 src/server/request_token.rs |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 867b284..8e3e048 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -348,6 +348,7 @@ pub struct Account {
     pub auth_uri_fields: Vec<(String, String)>,
     pub client_id: String,
     pub client_secret: Option<String>,
+    login_hint: Option<String>,
     redirect_uri: String,
     refresh_at_least: Option<Duration>,
     refresh_before_expiry: Option<Duration>,
@@ -486,6 +487,7 @@ impl Account {
             auth_uri_fields: auth_uri_fields.unwrap_or_default(),
             client_id,
             client_secret,
+            login_hint,
             redirect_uri: redirect_uri.unwrap_or_else(|| "http://localhost/".to_owned()),
             refresh_at_least,
             refresh_before_expiry,
@@ -511,6 +513,7 @@ impl Account {
             && self.auth_uri_fields == other.auth_uri_fields
             && self.client_id == other.client_id
             && self.client_secret == other.client_secret
+            && self.login_hint == other.login_hint
             && self.redirect_uri == other.redirect_uri
             && self.scopes == other.scopes
             && self.token_uri == other.token_uri
@@ -519,7 +522,7 @@ impl Account {
     pub fn dump(&self) -> AccountDump {
         AccountDump {
             auth_uri: self.auth_uri.clone(),
-            auth_uri_fields: self.auth_uri_fields.clone(),
+            auth_uri_fields: self.all_auth_uri_fields(),
             client_id: self.client_id.clone(),
             client_secret: self.client_secret.clone(),
             redirect_uri: self.redirect_uri.clone(),
@@ -534,7 +537,7 @@ impl Account {
     /// `Account`'s tokenstate from a dump.
     pub fn secure_restorable(&self, act_dump: &AccountDump) -> bool {
         self.auth_uri == act_dump.auth_uri
-            && self.auth_uri_fields == act_dump.auth_uri_fields
+            && self.all_auth_uri_fields() == act_dump.auth_uri_fields
             && self.client_id == act_dump.client_id
             && self.client_secret == act_dump.client_secret
             && self.redirect_uri == act_dump.redirect_uri
@@ -542,6 +545,16 @@ impl Account {
             && self.token_uri == act_dump.token_uri
     }
 
+    /// All the fields to be added to `auth_uri`: `auth_uri_fields` and the deprecated `login_hint`,
+    /// which is equivalent to a field of that name.
+    pub fn all_auth_uri_fields(&self) -> Vec<(String, String)> {
+        let mut fields = self.auth_uri_fields.clone();
+        if let Some(x) = &self.login_hint {
+            fields.push(("login_hint".to_owned(), x.clone()));
+        }
+        fields
+    }
+
     /// Is the scheme of this account's redirect URI HTTPS? Note that schemes are case insensitive
     /// and that the parser of URIs allows e.g. leading spaces.
     fn redirect_is_https(&self) -> bool {
diff --git a/src/server/request_token.rs b/src/server/request_token.rs
index 7d524af..ac22c75 100644
--- a/src/server/request_token.rs
+++ b/src/server/request_token.rs
@@ -47,7 +47,8 @@ pub fn request_token(
     if !act.scopes.is_empty() {
         params.push(("scope", scopes_join.as_str()));
     }
-    for (k, v) in &act.auth_uri_fields {
+    let auth_uri_fields = act.all_auth_uri_fields();
+    for (k, v) in &auth_uri_fields {
         params.push((k.as_str(), v.as_str()));
     }
     let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;
-- 
2.43.0


From 0de77d5228b62e5bc399a5d9ffb27aa6074efb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 14/23] fix: dump fails if the server does not answer

---
 src/user_sender.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/user_sender.rs b/src/user_sender.rs
index 22d0ab7..baf3394 100644
--- a/src/user_sender.rs
+++ b/src/user_sender.rs
@@ -19,6 +19,9 @@ pub fn dump(cache_path: &Path) -> Result<Vec<u8>, Box<dyn Error>> {
 
     let mut buf = Vec::new();
     stream.read_to_end(&mut buf)?;
+    if buf.is_empty() {
+        return Err("Malformed response ''".into());
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From caad7d9eccd4bd5efe460d73b654ab3ff1e70a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 15/23] fix: info does not crash if the server's answer is not
 as expected

---
 src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0fe60d7..bfa6195 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -213,11 +213,11 @@ fn main() {
                 if let Some(svj) = svj {
                     println!(
                         "server running:\n  HTTP port: {}\n  HTTPS port: {}",
-                        svj["http_port"].as_str().unwrap(),
-                        svj["https_port"].as_str().unwrap()
+                        svj["http_port"].as_str().unwrap_or("<unknown>"),
+                        svj["https_port"].as_str().unwrap_or("<unknown>")
                     );
                     if let Some(x) = svj.get("https_pub_key") {
-                        println!("  HTTPS public key: {}", x.as_str().unwrap());
+                        println!("  HTTPS public key: {}", x.as_str().unwrap_or("<unknown>"));
                     }
                 } else {
                     println!("server not running");
-- 
2.43.0


From e68b82af5bb37d88e27396dc9cf9a8e94c9d5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 16/23] fix: Complete HTTPS requests before the token exchange,
 as for HTTP

---
 src/server/http_server.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index 8b4c8cd..130653b 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -453,19 +453,20 @@ pub fn https_server(
     server_config.alpn_protocols = vec![b"http/1.1".to_vec()];
 
     thread::spawn(move || {
-        for mut stream in listener.incoming().flatten() {
+        for stream in listener.incoming().flatten() {
             // generate a new TLS connection
             let conn = rustls::ServerConnection::new(Arc::new(server_config.clone()));
             if let Err(e) = conn {
                 warn!("{e:}");
                 continue;
             }
-            let mut conn = conn.unwrap();
+            let conn = conn.unwrap();
 
             let pstate = Arc::clone(&pstate);
             thread::spawn(move || {
-                // convert TCP stream into TLS stream
-                let stream = rustls::Stream::new(&mut conn, &mut stream);
+                // convert TCP stream into TLS stream: it owns the TCP stream so that `request`
+                // can close the latter as soon as it has sent its answer.
+                let stream = rustls::StreamOwned::new(conn, stream);
                 if let Err(e) = request(pstate, stream, true) {
                     warn!("{e:}");
                 }
-- 
2.43.0


From a309486af586be7d57d4a4cf01b1157207d2e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 17/23] fix: Reject reloads that need a redirect server which
 isn't running

The HTTP and HTTPS servers are started when pizauth starts. A reload which
added an account whose redirect URI needs the one that wasn't started was
accepted, and the account's authorisation URL then had a redirect URI without
a port, or (for HTTPS redirects) with the port of the HTTP server.
---
 src/config.rs     | 16 ++++++++++++++++
 src/server/mod.rs |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 8e3e048..45be12b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -238,6 +238,22 @@ impl Config {
             token_event_cmd,
         })
     }
+
+    /// The HTTP and HTTPS servers are started (or not) when pizauth starts, and are unaffected by
+    /// reloads: check that there is a running server for each account's redirect URI.
+    pub fn check_listeners(&self, http_running: bool, https_running: bool) -> Result<(), String> {
+        for (act_name, act) in &self.accounts {
+            let (running, scheme) = if act.redirect_is_https() {
+                (https_running, "HTTPS")
+            } else {
+                (http_running, "HTTP")
+            };
+            if !running {
+                return Err(format!("Account {act_name} has an '{}' redirect but the {scheme} server isn't running: pizauth must be restarted to start it", scheme.to_lowercase()));
+            }
+        }
+        Ok(())
+    }
 }
 
 fn check_not_assigned<T>(
diff --git a/src/server/mod.rs b/src/server/mod.rs
index d8cc20e..070925f 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -123,7 +123,11 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
             return Ok(());
         }
         "reload" if rest.is_empty() => {
-            match Config::from_path(&pstate.conf_path) {
+            match Config::from_path(&pstate.conf_path).and_then(|new_conf| {
+                new_conf
+                    .check_listeners(pstate.http_port.is_some(), pstate.https_port.is_some())?;
+                Ok(new_conf)
+            }) {
                 Ok(new_conf) => {
                     pstate.update_conf(new_conf);
                     stream.write_all(b"ok:")?
-- 
2.43.0


From 011decce148204ea7ec583b21a12c986eb6c83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 18/23] fix: Keep updating the socket's access time after
 daemonisation

---
 src/main.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bfa6195..fe534fa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -308,22 +308,6 @@ fn main() {
                 fs::remove_file(&sock_path).ok();
             }
 
-            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
-            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
-            //   are not removed, they should have their access time timestamp modified at least once every
-            //   6 hours of monotonic time
-            let sock_path_cl = sock_path.clone();
-            thread::spawn(move || loop {
-                thread::sleep(Duration::from_secs(6 * 60 * 60));
-                let _ = utimensat(
-                    None,
-                    &sock_path_cl,
-                    &TimeSpec::UTIME_NOW,
-                    &TimeSpec::UTIME_NOW,
-                    UtimensatFlags::NoFollowSymlink,
-                );
-            });
-
             let conf_path = conf_path(&matches);
             let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
 
@@ -353,6 +337,24 @@ fn main() {
                     .init()
                     .unwrap();
             }
+
+            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
+            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
+            //   are not removed, they should have their access time timestamp modified at least once every
+            //   6 hours of monotonic time
+            // Threads do not survive daemonisation, so this must not be done any earlier.
+            let sock_path_cl = sock_path.clone();
+            thread::spawn(move || loop {
+                thread::sleep(Duration::from_secs(6 * 60 * 60));
+                let _ = utimensat(
+                    None,
+                    &sock_path_cl,
+                    &TimeSpec::UTIME_NOW,
+                    &TimeSpec::UTIME_NOW,
+                    UtimensatFlags::NoFollowSymlink,
+                );
+            });
+
             if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
                 error!("{e:}");
                 process::exit(1);
-- 
2.43.0


From 59e37bffc7595a67122baed438bb3ed25e1a2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 19/23] fix: server reports that it cannot start before it
 daemonises

---
 src/main.rs       |  5 ++++-
 src/server/mod.rs | 40 ++++++++++++++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index fe534fa..22d09cd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -311,6 +311,9 @@ fn main() {
             let conf_path = conf_path(&matches);
             let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
 
+            let setup = server::setup(&conf, cache_path.as_path())
+                .unwrap_or_else(|e| fatal(&format!("Can't start server: {e:}")));
+
             let daemonise = !matches.opt_present("d");
             if daemonise {
                 let formatter = syslog::Formatter3164 {
@@ -355,7 +358,7 @@ fn main() {
                 );
             });
 
-            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
+            if let Err(e) = server::server(conf_path, conf, cache_path.as_path(), setup) {
                 error!("{e:}");
                 process::exit(1);
             }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 070925f..6e6b041 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -9,6 +9,7 @@ use std::{
     collections::HashMap,
     error::Error,
     io::{Read, Write},
+    net::TcpListener,
     os::unix::net::{UnixListener, UnixStream},
     path::{Path, PathBuf},
     sync::Arc,
@@ -21,6 +22,7 @@ use log::warn;
 use nix::sys::signal::{raise, Signal};
 #[cfg(target_os = "openbsd")]
 use pledge::pledge;
+use rcgen::CertifiedKey;
 #[cfg(target_os = "openbsd")]
 use unveil::unveil;
 
@@ -333,9 +335,33 @@ fn system_time_fmt(st: SystemTime) -> Option<String> {
     Some(utc.with_timezone(&Local).to_rfc2822())
 }
 
-pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(), Box<dyn Error>> {
-    let sock_path = sock_path(cache_path);
+/// The resources without which a server cannot be started.
+pub struct ServerSetup {
+    listener: UnixListener,
+    http: Option<(u16, TcpListener)>,
+    https: Option<(u16, TcpListener, CertifiedKey)>,
+}
 
+/// Acquire everything which the server can only start with. This must be called before
+/// daemonisation: afterwards, there is no-one left to whom errors can be reported.
+pub fn setup(conf: &Config, cache_path: &Path) -> Result<ServerSetup, Box<dyn Error>> {
+    let http = http_server::http_server_setup(conf)?;
+    let https = http_server::https_server_setup(conf)?;
+    // TODO: Store certificate into trusted folder (OS dependent..)?
+    let listener = UnixListener::bind(sock_path(cache_path))?;
+    Ok(ServerSetup {
+        listener,
+        http,
+        https,
+    })
+}
+
+pub fn server(
+    conf_path: PathBuf,
+    conf: Config,
+    #[cfg_attr(not(target_os = "openbsd"), allow(unused_variables))] cache_path: &Path,
+    setup: ServerSetup,
+) -> Result<(), Box<dyn Error>> {
     #[cfg(target_os = "openbsd")]
     unveil(
         conf_path
@@ -346,7 +372,7 @@ pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(),
     )?;
     #[cfg(target_os = "openbsd")]
     unveil(
-        sock_path
+        sock_path(cache_path)
             .as_os_str()
             .to_str()
             .ok_or("Cannot use socket path in unveil")?,
@@ -362,15 +388,14 @@ pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(),
     #[cfg(target_os = "openbsd")]
     pledge("stdio rpath wpath inet fattr unix dns proc exec", None).unwrap();
 
-    let (http_port, http_state) = match http_server::http_server_setup(&conf)? {
+    let (http_port, http_state) = match setup.http {
         Some((x, y)) => (Some(x), Some(y)),
         None => (None, None),
     };
-    let (https_port, https_state, certified_key) = match http_server::https_server_setup(&conf)? {
+    let (https_port, https_state, certified_key) = match setup.https {
         Some((x, y, z)) => (Some(x), Some(y), Some(z)),
         None => (None, None, None),
     };
-    // TODO: Store certificate into trusted folder (OS dependent..)?
 
     let eventer = Arc::new(Eventer::new()?);
     let notifier = Arc::new(Notifier::new()?);
@@ -406,8 +431,7 @@ pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(),
     refresher.refresher(Arc::clone(&pstate))?;
     notifier.notifier(Arc::clone(&pstate))?;
 
-    let listener = UnixListener::bind(sock_path)?;
-    for stream in listener.incoming().flatten() {
+    for stream in setup.listener.incoming().flatten() {
         let pstate = Arc::clone(&pstate);
         if let Err(e) = request(pstate, stream) {
             warn!("{e:}");
-- 
2.43.0


From ec08ad3ca5c741c6258c0a26d9c7d608d7aebae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 20/23] fix: Two pizauth processes can create the cache
 directory at once

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 22d09cd..4610f50 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ mod user_sender;
 use std::{
     env::{self, current_exe},
     fs,
-    io::{stdout, Write},
+    io::{stdout, ErrorKind, Write},
     os::unix::{fs::PermissionsExt, net::UnixStream},
     path::PathBuf,
     process, thread,
@@ -82,7 +82,12 @@ fn cache_path() -> PathBuf {
 
     let md = |p: &PathBuf| {
         if !p.exists() {
-            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!("Can't create cache dir: {e}")));
+            match fs::create_dir(p) {
+                Ok(()) => (),
+                // Another pizauth process may have created the directory in the meantime.
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
+                Err(e) => fatal(&format!("Can't create cache dir: {e}")),
+            }
         }
         fs::set_permissions(p, PermissionsExt::from_mode(0o700)).unwrap_or_else(|_| {
             fatal(&format!(
-- 
2.43.0


From 24be5cd8ce31a56c8bbaeecc82303a949f5447dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 21/23] fix: Two servers starting at once cannot both run

---
 src/main.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4610f50..f48584a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -10,7 +10,7 @@ mod user_sender;
 
 use std::{
     env::{self, current_exe},
-    fs,
+    fs::{self, File},
     io::{stdout, ErrorKind, Write},
     os::unix::{fs::PermissionsExt, net::UnixStream},
     path::PathBuf,
@@ -20,9 +20,12 @@ use std::{
 
 use getopts::Options;
 use log::error;
-use nix::sys::{
-    stat::{utimensat, UtimensatFlags},
-    time::TimeSpec,
+use nix::{
+    fcntl::{Flock, FlockArg},
+    sys::{
+        stat::{utimensat, UtimensatFlags},
+        time::TimeSpec,
+    },
 };
 #[cfg(target_os = "openbsd")]
 use pledge::pledge;
@@ -303,6 +306,14 @@ fn main() {
                 usage();
             }
 
+            // If two servers start at the same time, one must not remove the socket that the other
+            // has just created, so only one of them at a time can execute the code from here up to
+            // (and including) the creation of its socket. Not every file system supports locks: we
+            // continue without one if necessary.
+            let lock = File::open(&cache_path)
+                .ok()
+                .and_then(|f| Flock::lock(f, FlockArg::LockExclusive).ok());
+
             let sock_path = sock_path(&cache_path);
             if sock_path.exists() {
                 // Is an existing authenticator running?
@@ -318,6 +329,7 @@ fn main() {
 
             let setup = server::setup(&conf, cache_path.as_path())
                 .unwrap_or_else(|e| fatal(&format!("Can't start server: {e:}")));
+            drop(lock);
 
             let daemonise = !matches.opt_present("d");
             if daemonise {
-- 
2.43.0


From cb3026367071242f4e90818c74de243b03466b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 22/23] fix: dump reports that its output could not be written

If the output could not be written (e.g. because the disk is full), dump
exited with 0, and the user was left with an unusable dump without being
told.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f48584a..766b544 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -173,7 +173,11 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    stdout().write_all(&d).ok();
+                    let mut out = stdout();
+                    if let Err(e) = out.write_all(&d).and_then(|()| out.flush()) {
+                        error!("Can't write to stdout: {e:}");
+                        process::exit(1);
+                    }
                 }
                 Err(e) => {
                     error!("{e:}");
-- 
2.43.0


From fcb669b8f8204ca3e74b73c4bba0044cd3e3ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 23/23] fix: Failures are reported even if their text contains
 a NUL character

---
 src/server/notifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 1e55b10..4fb75a6 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -143,7 +143,7 @@ impl Notifier {
                     Ok(s) => {
                         match Command::new(s)
                             .env("PIZAUTH_ACCOUNT", act_name.as_str())
-                            .env("PIZAUTH_MSG", msg)
+                            .env("PIZAUTH_MSG", msg.replace('\0', ""))
                             .args(["-c", &cmd])
                             .output()
                         {
-- 
2.43.0

