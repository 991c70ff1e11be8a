From ae7e36822034a3a2026a8302543e320bf977f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 01/48] hook: name state types for the verification harness
 (cfg akasa_verif)

---
 akasa-core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/akasa-core/src/lib.rs b/akasa-core/src/lib.rs
index 6e8a060..97923ea 100644
--- a/akasa-core/src/lib.rs
+++ b/akasa-core/src/lib.rs
@@ -25,3 +25,12 @@ pub use crate::protocols::mqtt::{
 pub use crate::state::{AuthPassword, GlobalState, HashAlgorithm};
 
 pub use mqtt_proto;
+
+/// Items the verification harness names; not part of the public API.
+#[allow(unexpected_cfgs)]
+#[cfg(akasa_verif)]
+pub mod verif {
+    pub use crate::state::{
+        AddClientReceipt, ClientId, ClientReceiver, ControlMessage, NormalMessage,
+    };
+}
-- 
2.43.0


From e464fff23a1fc3c348bb1f2f43ae7a6a33c1934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 02/48] fix: shared subscription group kept a stale index entry
 after its last member left

---
 akasa-core/src/protocols/mqtt/route.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/route.rs b/akasa-core/src/protocols/mqtt/route.rs
index 5d722dc..8f9d813 100644
--- a/akasa-core/src/protocols/mqtt/route.rs
+++ b/akasa-core/src/protocols/mqtt/route.rs
@@ -270,9 +270,11 @@ impl SharedClients {
             if self.items.len() == 1 {
                 self.items.clear();
             } else {
-                let last_client_id = self.items.last().expect("shared items").0;
                 self.items.swap_remove(idx);
-                self.index.insert(last_client_id, idx);
+                // No item takes the place of the removed one when it was the last.
+                if let Some((moved_client_id, _)) = self.items.get(idx) {
+                    self.index.insert(*moved_client_id, idx);
+                }
                 if self.items.capacity() >= 16 && self.items.capacity() >= (self.items.len() << 2) {
                     self.items.shrink_to(self.items.len() << 1);
                 }
-- 
2.43.0


From 2bb7a3f2f2e4509b9c8225fac5b7a8fc9c0303b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 03/48] fix: proxy header with unspecified family or protocol
 must be refused, not panic

---
 akasa-core/src/server/proxy.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/akasa-core/src/server/proxy.rs b/akasa-core/src/server/proxy.rs
index f204723..af1e013 100644
--- a/akasa-core/src/server/proxy.rs
+++ b/akasa-core/src/server/proxy.rs
@@ -123,8 +123,6 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let address_family = match byte_14th & LEFT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
         0x10 => AddressFamily::IPv4,
         0x20 => AddressFamily::IPv6,
         0x30 => AddressFamily::Unix,
@@ -151,8 +149,6 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let protocol = match byte_14th & RIGHT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
         0x01 => Protocol::Stream,
         0x02 => Protocol::Datagram,
         _ => {
-- 
2.43.0


From b7bb3461bfddb12b23e5155a939415b33be21cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 04/48] fix: scram client panicked on a server-final message
 starting with a multi-byte character

---
 akasa-core/src/protocols/scram/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 2cd6cad..8efdcda 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -180,11 +180,11 @@ fn parse_server_final(data: &str) -> Result<Vec<u8>, Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError)));
     }
-    match &data[..2] {
-        "v=" => STANDARD
+    match &data.as_bytes()[..2] {
+        b"v=" => STANDARD
             .decode(&data.as_bytes()[2..])
             .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError))),
-        "e=" => Err(Error::Authentication(data[2..].to_string())),
+        b"e=" => Err(Error::Authentication(data[2..].to_string())),
         _ => Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError))),
     }
 }
-- 
2.43.0


From d24ca8e4171b34a7c87f351dadf6707d1a80ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 05/48] fix: scram server must verify proofs over the messages
 as received (gs2 flag, extensions)

---
 akasa-core/src/protocols/scram/client.rs | 10 ++---
 akasa-core/src/protocols/scram/mod.rs    |  7 +--
 akasa-core/src/protocols/scram/server.rs | 55 ++++++++++++++----------
 3 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 8efdcda..7f13c8b 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -112,18 +112,18 @@ impl<'a> ScramClient<'a> {
         }
 
         let salted_password = hash_password(password, iterations, &salt);
+        let client_final_without_proof =
+            format!("c={},r={}", STANDARD.encode(gs2header.as_bytes()), nonce);
         let (client_proof, server_signature): ([u8; SHA256_OUTPUT_LEN], Tag) = find_proofs(
-            &gs2header,
             &client_first_bare,
             server_first,
+            &client_final_without_proof,
             &salted_password,
-            nonce,
         );
 
         let client_final = format!(
-            "c={},r={},p={}",
-            STANDARD.encode(gs2header.as_bytes()),
-            nonce,
+            "{},p={}",
+            client_final_without_proof,
             STANDARD.encode(client_proof),
         );
 
diff --git a/akasa-core/src/protocols/scram/mod.rs b/akasa-core/src/protocols/scram/mod.rs
index 421f0c1..dd2e276 100644
--- a/akasa-core/src/protocols/scram/mod.rs
+++ b/akasa-core/src/protocols/scram/mod.rs
@@ -25,8 +25,6 @@ pub use server::AuthenticationStatus;
 
 use std::num::NonZeroU32;
 
-use base64::Engine;
-use base64::engine::general_purpose::STANDARD;
 use ring::digest::{self, SHA256_OUTPUT_LEN, digest};
 use ring::hmac::{self, Context, HMAC_SHA256, Key};
 use ring::pbkdf2::{self, PBKDF2_HMAC_SHA256 as SHA256};
@@ -48,11 +46,10 @@ pub fn hash_password(
 }
 
 pub(crate) fn find_proofs(
-    gs2header: &str,
     client_first_bare: &str,
     server_first: &str,
+    client_final_without_proof: &str,
     salted_password: &[u8],
-    nonce: &str,
 ) -> ([u8; SHA256_OUTPUT_LEN], hmac::Tag) {
     fn sign_slice(key: &Key, parts: &[&[u8]]) -> hmac::Tag {
         let mut ctx = Context::with_key(key);
@@ -62,8 +59,6 @@ pub(crate) fn find_proofs(
         ctx.sign()
     }
 
-    let client_final_without_proof =
-        format!("c={},r={}", STANDARD.encode(gs2header.as_bytes()), nonce);
     let auth_message: &[&[u8]] = &[
         client_first_bare.as_bytes(),
         b",",
diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index f2ce68d..4209d9e 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -1,5 +1,3 @@
-use std::borrow::Cow;
-
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD;
 use rand::Rng;
@@ -25,11 +23,13 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
         client_nonce: String,
+        gs2header: String,
+        client_first_bare: String,
     },
     WaitingForClientFinal {
         hashed_password: Vec<u8>,
         nonce: String,
-        gs2header: Cow<'static, str>,
+        gs2header: String,
         client_first_bare: String,
         server_first: String,
         authcid: String,
@@ -63,10 +63,17 @@ impl ScramServer {
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
+        // The proofs cover the message as the client sent it: the gs2 flag ('n' or 'y') is
+        // part of the header, optional extensions are part of the bare message.
+        let header_len = data.match_indices(',').nth(1).map_or(0, |(idx, _)| idx + 1);
+        let (gs2header, client_first_bare) = data.split_at(header_len);
+
         *self = ScramServer::WaitingForPassword {
             authcid,
             authzid,
             client_nonce,
+            gs2header: gs2header.to_owned(),
+            client_first_bare: client_first_bare.to_owned(),
         };
         Ok(())
     }
@@ -94,17 +101,20 @@ impl ScramServer {
         iterations: u16,
         rng: &mut R,
     ) -> Result<String, Error> {
-        let (authcid, authzid, client_nonce) = match std::mem::replace(self, ScramServer::Done) {
-            ScramServer::WaitingForPassword {
-                authcid,
-                authzid,
-                client_nonce,
-            } => (authcid, authzid, client_nonce),
-            other => {
-                *self = other;
-                return Err(Error::InvalidState);
-            }
-        };
+        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =
+            match std::mem::replace(self, ScramServer::Done) {
+                ScramServer::WaitingForPassword {
+                    authcid,
+                    authzid,
+                    client_nonce,
+                    gs2header,
+                    client_first_bare,
+                } => (authcid, authzid, client_nonce, gs2header, client_first_bare),
+                other => {
+                    *self = other;
+                    return Err(Error::InvalidState);
+                }
+            };
 
         let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
         nonce.push_str(&client_nonce);
@@ -116,11 +126,6 @@ impl ScramServer {
                 .take(NONCE_LENGTH),
         );
 
-        let gs2header: Cow<'static, str> = match &authzid {
-            Some(az) => format!("n,a={},", az).into(),
-            None => "n,,".into(),
-        };
-        let client_first_bare = format!("n={},r={}", authcid, client_nonce);
         let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);
 
         *self = ScramServer::WaitingForClientFinal {
@@ -172,12 +177,13 @@ impl ScramServer {
             return Err(Error::Protocol(Kind::InvalidField(Field::Nonce)));
         }
 
+        // the proof is the last field
+        let client_final_without_proof = &client_final[..client_final.len() - proof.len() - 3];
         let (client_proof, server_sig): ([u8; SHA256_OUTPUT_LEN], Tag) = find_proofs(
-            &gs2header,
             &client_first_bare,
             &server_first,
+            client_final_without_proof,
             &hashed_password,
-            &nonce,
         );
         let proof_bytes = STANDARD
             .decode(proof.as_bytes())
@@ -235,8 +241,11 @@ fn parse_client_final(data: &str) -> Result<(&str, &str, &str), Error> {
     let mut parts = data.split(',');
     let gs2header = parse_field(&mut parts, Field::GS2Header, b"c=")?;
     let nonce = parse_field(&mut parts, Field::Nonce, b"r=")?;
-    let proof = parse_field(&mut parts, Field::Proof, b"p=")?;
-    Ok((gs2header, nonce, proof))
+    // Optional extensions may precede the proof, nothing follows it.
+    match parts.next_back() {
+        Some(p) if p.starts_with("p=") => Ok((gs2header, nonce, &p[2..])),
+        _ => Err(Error::Protocol(Kind::ExpectedField(Field::Proof))),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b794a005742dae74aa7621b6be519ade4a242951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 06/48] fix: scram user names with ',' or '=' must be escaped
 by the client and decoded by the server

---
 akasa-core/src/protocols/scram/client.rs | 13 ++++++-------
 akasa-core/src/protocols/scram/server.rs | 23 ++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 7f13c8b..03938a9 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -42,7 +42,7 @@ impl<'a> ScramClient<'a> {
         rng: &mut R,
     ) -> Self {
         let gs2header: Cow<'static, str> = match authzid {
-            Some(az) => format!("n,a={},", az).into(),
+            Some(az) => format!("n,a={},", escape_saslname(az)).into(),
             None => "n,,".into(),
         };
         let nonce: String = Uniform::try_from(33..125)
@@ -74,12 +74,7 @@ impl<'a> ScramClient<'a> {
             }
         };
 
-        let escaped: Cow<'a, str> = if authcid.chars().any(|c| c == ',' || c == '=') {
-            authcid.into()
-        } else {
-            authcid.replace(',', "=2C").replace('=', "=3D").into()
-        };
-        let client_first_bare = format!("n={},r={}", escaped, nonce);
+        let client_first_bare = format!("n={},r={}", escape_saslname(authcid), nonce);
         let client_first = format!("{}{}", gs2header, client_first_bare);
 
         *self = ScramClient::WaitingForServerFirst {
@@ -149,6 +144,10 @@ impl<'a> ScramClient<'a> {
     }
 }
 
+fn escape_saslname(name: &str) -> String {
+    name.replace('=', "=3D").replace(',', "=2C")
+}
+
 fn parse_server_first(data: &str) -> Result<(&str, Vec<u8>, NonZeroU32), Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::Nonce)));
diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index 4209d9e..6e289a3 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -55,12 +55,15 @@ impl ScramServer {
 
         let authzid = match parts.next() {
             Some("") => None,
-            Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
+            Some(p) if p.as_bytes().starts_with(b"a=") => {
+                Some(unescape_saslname(&p[2..], Field::Authzid)?)
+            }
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
 
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
+        let authcid = unescape_saslname(&authcid, Field::Authcid)?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
         // The proofs cover the message as the client sent it: the gs2 flag ('n' or 'y') is
@@ -208,6 +211,24 @@ impl ScramServer {
     }
 }
 
+/// ',' and '=' in names are sent as "=2C" and "=3D", any other use of '=' is invalid.
+fn unescape_saslname(name: &str, field: Field) -> Result<String, Error> {
+    let mut parts = name.split('=');
+    let mut unescaped = parts.next().unwrap_or("").to_owned();
+    for part in parts {
+        if let Some(rest) = part.strip_prefix("2C") {
+            unescaped.push(',');
+            unescaped.push_str(rest);
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            unescaped.push('=');
+            unescaped.push_str(rest);
+        } else {
+            return Err(Error::Protocol(Kind::InvalidField(field)));
+        }
+    }
+    Ok(unescaped)
+}
+
 fn next_field(
     parts: &mut impl Iterator<Item = impl AsRef<str>>,
     field: Field,
-- 
2.43.0


From 59a03f2f499cbdc94975083c0a5e5640defa2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 07/48] fix: a partial write to a client must be continued (no
 waker was registered)

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2268279..d08a141 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -425,12 +425,15 @@ where
             match Pin::new(&mut *conn).poll_write(cx, &data_all[data_idx..]) {
                 Poll::Ready(Ok(size)) => {
                     log::trace!("[{}] write {} bytes data", current_client_id, size);
+                    if size == 0 {
+                        return Poll::Ready(Some(io::ErrorKind::WriteZero.into()));
+                    }
                     have_write = true;
                     data_idx += size;
                     if data_idx < data_all.len() {
+                        // NOTE: no waker is registered yet, so try again until it's pending
                         write_packets
                             .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
-                        break;
                     }
                 }
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
-- 
2.43.0


From 75c10822f492d43bd1a69024388d84dba7670d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 08/48] fix: online client count leaked on every take over;
 reconnect during the end of a session hung

---
 akasa-core/src/state.rs | 137 ++++++++++++++++++++++------------------
 1 file changed, 74 insertions(+), 63 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 4ca668e..b3a7ab8 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -146,76 +146,87 @@ impl GlobalState {
         client_identifier: &str,
         protocol: Protocol,
     ) -> io::Result<AddClientReceipt> {
-        let control_sender = {
-            let mut next_client_id = self.next_client_id.lock();
-            self.online_clients.fetch_add(1, Ordering::AcqRel);
-            let client_id_opt: Option<ClientId> = self
-                .client_identifier_map
-                .get(client_identifier)
-                .map(|pair| *pair.value());
-            if let Some(old_id) = client_id_opt {
-                if let Some(mut pair) = self.client_id_map.get_mut(&old_id) {
-                    pair.value_mut().1 = true;
+        loop {
+            let (old_id, control_sender) = {
+                let mut next_client_id = self.next_client_id.lock();
+                let client_id_opt: Option<ClientId> = self
+                    .client_identifier_map
+                    .get(client_identifier)
+                    .map(|pair| *pair.value());
+                if let Some(old_id) = client_id_opt {
+                    (old_id, self.get_client_control_sender(&old_id).unwrap())
+                } else {
+                    self.online_clients.fetch_add(1, Ordering::AcqRel);
+                    let client_id = *next_client_id;
+                    self.client_id_map
+                        .insert(client_id, (client_identifier.to_string(), true));
+                    self.client_identifier_map
+                        .insert(client_identifier.to_string(), client_id);
+                    // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
+                    //   Suggestion: Add QoS0 message to pending queue
+                    let (control_sender, control_receiver) = bounded(1);
+                    let (normal_sender, normal_receiver) = bounded(8);
+                    let sender = ClientSender {
+                        normal: normal_sender,
+                        control: control_sender,
+                    };
+                    self.clients.insert(client_id, sender);
+                    next_client_id.0 += 1;
+                    return Ok(AddClientReceipt::New {
+                        client_id,
+                        receiver: ClientReceiver {
+                            control: control_receiver,
+                            normal: normal_receiver,
+                        },
+                    });
                 }
-                self.get_client_control_sender(&old_id).unwrap()
-            } else {
-                let client_id = *next_client_id;
-                self.client_id_map
-                    .insert(client_id, (client_identifier.to_string(), true));
-                self.client_identifier_map
-                    .insert(client_identifier.to_string(), client_id);
-                // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
-                //   Suggestion: Add QoS0 message to pending queue
-                let (control_sender, control_receiver) = bounded(1);
-                let (normal_sender, normal_receiver) = bounded(8);
-                let sender = ClientSender {
-                    normal: normal_sender,
-                    control: control_sender,
-                };
-                self.clients.insert(client_id, sender);
-                next_client_id.0 += 1;
-                return Ok(AddClientReceipt::New {
-                    client_id,
-                    receiver: ClientReceiver {
-                        control: control_receiver,
-                        normal: normal_receiver,
-                    },
-                });
-            }
-        };
+            };
 
-        if protocol < Protocol::V500 {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV3 { sender })
-                .await
-            {
-                log::warn!("send online control message error: {:?}", err);
-                return Err(io::Error::from(io::ErrorKind::InvalidData));
-            }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            Ok(AddClientReceipt::PresentV3(session_state))
-        } else {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV5 { sender })
-                .await
-            {
-                log::warn!("send online control message error: {:?}", err);
-                return Err(io::Error::from(io::ErrorKind::InvalidData));
+            let result = if protocol < Protocol::V500 {
+                take_over(control_sender, |sender| ControlMessage::OnlineV3 { sender })
+                    .await
+                    .map(AddClientReceipt::PresentV3)
+            } else {
+                take_over(control_sender, |sender| ControlMessage::OnlineV5 { sender })
+                    .await
+                    .map(AddClientReceipt::PresentV5)
+            };
+            if result.is_ok() {
+                // an offline session become online, an online session is already counted
+                let _guard = self.next_client_id.lock();
+                if let Some(mut pair) = self.client_id_map.get_mut(&old_id)
+                    && !pair.value().1
+                {
+                    pair.value_mut().1 = true;
+                    self.online_clients.fetch_add(1, Ordering::AcqRel);
+                }
+            } else if !self.clients.contains_key(&old_id) {
+                // the old session ended before it was taken over, start again
+                continue;
             }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            Ok(AddClientReceipt::PresentV5(session_state))
+            return result;
         }
     }
 }
 
+/// Ask the owner of a session to hand over the session state
+async fn take_over<T>(
+    control_sender: Sender<ControlMessage>,
+    build_msg: impl FnOnce(Sender<T>) -> ControlMessage,
+) -> io::Result<T> {
+    let (sender, receiver) = bounded(1);
+    if let Err(err) = control_sender.send_async(build_msg(sender)).await {
+        log::warn!("send online control message error: {:?}", err);
+        return Err(io::Error::from(io::ErrorKind::InvalidData));
+    }
+    // NOTE: when the session ended the message must be dropped with its channel
+    drop(control_sender);
+    receiver.recv_async().await.map_err(|err| {
+        log::warn!("receive session state error: {:?}", err);
+        io::Error::from(io::ErrorKind::InvalidData)
+    })
+}
+
 #[derive(Debug, Clone)]
 pub enum ControlMessage {
     /// The v3.x client of the session connected, send the keept session to the connection loop
-- 
2.43.0


From 627b87402a370cca5d36fd48688c24fbaf8b5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 09/48] fix: v3 subscriber must get retained messages above its
 QoS downgraded, not skipped

---
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7e0bbae..f3009d4 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,19 +42,18 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
-            if msg.qos <= granted_qos
-                && let Some((final_qos, packet_opt)) = recv_publish(
-                    session,
-                    RecvPublish {
-                        topic_name: &msg.topic_name,
-                        qos: msg.qos,
-                        retain: true,
-                        payload: &msg.payload,
-                        subscribe_filter: filter,
-                        subscribe_qos: granted_qos,
-                    },
-                )
-            {
+            // the message is downgraded to the granted QoS
+            if let Some((final_qos, packet_opt)) = recv_publish(
+                session,
+                RecvPublish {
+                    topic_name: &msg.topic_name,
+                    qos: msg.qos,
+                    retain: true,
+                    payload: &msg.payload,
+                    subscribe_filter: filter,
+                    subscribe_qos: granted_qos,
+                },
+            ) {
                 if let Some(packet) = packet_opt {
                     rv_packets.push(packet);
                 }
-- 
2.43.0


From a8ca0ba0c6e7da9e9fcd9958efc0a247e77bccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 10/48] fix: RETAIN must be 0 for established subscriptions of
 v3 clients

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 25f49f4..f59eb1c 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -589,7 +589,7 @@ fn handle_normal(
         NormalMessage::PublishV3 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
@@ -605,7 +605,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9]
+                    retain: false,
                     payload,
                     subscribe_filter,
                     subscribe_qos,
@@ -615,7 +616,7 @@ fn handle_normal(
         NormalMessage::PublishV5 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
@@ -632,7 +633,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9]
+                    retain: false,
                     payload,
                     subscribe_filter: subscribe_filters.first()?,
                     subscribe_qos,
-- 
2.43.0


From dcaa549f573667395082d184533ee1bc60c40cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 11/48] fix: routes of a discarded session must be removed

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 12e2c00..8c87432 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -133,6 +133,9 @@ clean session : {}
                     old_state.protocol,
                     session.clean_session,
                 );
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dc0e52d..92e01b6 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -247,6 +247,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                     old_state.protocol,
                     session.clean_start,
                 );
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
-- 
2.43.0


From b3ebc5f867d6a453fd7c7fcf456bcf460b2217c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 12/48] fix: messages still to be broadcast at the end of a
 connection were lost or blocked it forever

---
 akasa-core/src/protocols/mqtt/mod.rs         |  1 +
 akasa-core/src/protocols/mqtt/online_loop.rs | 41 +++++++++++++++++++-
 akasa-core/src/protocols/mqtt/v3/message.rs  | 19 +--------
 akasa-core/src/protocols/mqtt/v5/message.rs  | 31 ++-------------
 4 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/mod.rs b/akasa-core/src/protocols/mqtt/mod.rs
index 22b4e30..379cc46 100644
--- a/akasa-core/src/protocols/mqtt/mod.rs
+++ b/akasa-core/src/protocols/mqtt/mod.rs
@@ -9,6 +9,7 @@ pub mod v3;
 pub mod v5;
 
 pub(crate) use common::start_keep_alive_timer;
+pub(crate) use online_loop::drain_broadcast;
 pub(crate) use pending::get_unix_ts;
 
 pub use auth::{MIN_SALT_LEN, check_password, dump_passwords, hash_password, load_passwords};
diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index d08a141..2ce4395 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -1,6 +1,6 @@
 use std::collections::VecDeque;
 use std::fmt::Debug;
-use std::future::Future;
+use std::future::{Future, poll_fn};
 use std::io;
 use std::mem::MaybeUninit;
 use std::pin::Pin;
@@ -785,3 +785,42 @@ pub trait OnlineSession {
     ) -> Option<(QoS, Option<Self::Packet>)>;
     fn handle_pendings(&mut self) -> Vec<Self::Packet>;
 }
+
+/// Send the remaining broadcast packets when the online loop is finished.
+///
+/// The session keeps receiving normal messages, otherwise sessions can wait for each other (or a
+/// session for itself) forever.
+pub(crate) async fn drain_broadcast<S: OnlineSession>(
+    session: &mut S,
+    receiver: &ClientReceiver,
+    global: &Arc<GlobalState>,
+) {
+    let client_id = session.client_id();
+    let broadcast_packets: Vec<_> = session.broadcast_packets().drain().collect();
+    for (target_id, info) in broadcast_packets {
+        let BroadcastPackets { mut sink, msgs, .. } = info;
+        let send_all = async move {
+            for msg in msgs {
+                poll_fn(|cx| Pin::new(&mut sink).poll_ready(cx)).await?;
+                Pin::new(&mut sink).start_send((client_id, msg))?;
+            }
+            // NOTE: the sink may hold a message which is not in the channel yet
+            poll_fn(|cx| Pin::new(&mut sink).poll_flush(cx)).await
+        };
+        tokio::pin!(send_all);
+        loop {
+            tokio::select! {
+                result = &mut send_all => {
+                    if result.is_err() {
+                        log::warn!("[{client_id}] send broadcast message to {target_id} failed");
+                    }
+                    break;
+                }
+                Ok((sender_id, msg)) = receiver.normal.recv_async() => {
+                    let _ = session.handle_normal(sender_id, msg, global);
+                }
+            }
+        }
+    }
+    session.consume_broadcast(session.broadcast_packets_cnt());
+}
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index f59eb1c..0dced75 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -22,6 +22,7 @@ use crate::hook::{
 };
 use crate::protocols::mqtt::{
     BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
+    drain_broadcast,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -182,23 +183,7 @@ async fn handle_online<
         log::debug!("[{}] handling will...", session.client_id);
         handle_will(&mut session, global).await?;
     }
-    for (target_id, info) in session.broadcast_packets.drain() {
-        for msg in info.msgs {
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
-                log::warn!(
-                    "[{}] handle will, send broadcast message to {} failed: {:?}",
-                    session.client_id,
-                    target_id,
-                    err
-                )
-            }
-        }
-    }
+    drain_broadcast(&mut session, &receiver, global).await;
     if session.clean_session {
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = io_error {
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 4b0f540..54615eb 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -25,6 +25,7 @@ use crate::hook::{
 };
 use crate::protocols::mqtt::{
     BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
+    drain_broadcast,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -315,7 +316,7 @@ async fn handle_online<
     if !session.client_disconnected {
         handle_will(&mut session, global).await?;
     }
-    broadcast_packets(&mut session).await;
+    drain_broadcast(&mut session, &receiver, global).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = io_error {
@@ -672,7 +673,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
                         break;
                     }
                     // Because send_will is not a async_function
-                    broadcast_packets(&mut session).await;
+                    drain_broadcast(&mut session, &receiver, &global).await;
                     if stop {
                         break;
                     }
@@ -940,32 +941,6 @@ fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()>
     Ok(())
 }
 
-async fn broadcast_packets(session: &mut Session) {
-    for (target_id, info) in session.broadcast_packets.drain() {
-        for msg in info.msgs {
-            log::debug!(
-                "[{}] broadcast to [{}], {:?}",
-                session.client_id,
-                target_id,
-                msg
-            );
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
-                log::warn!(
-                    "[{}] handle will, send broadcast message to {} failed: {:?}",
-                    session.client_id,
-                    target_id,
-                    err
-                )
-            }
-        }
-    }
-}
-
 async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
     session: &mut Session,
     conn: &mut T,
-- 
2.43.0


From 6f527067fd661deeb7a5183c81503fa7da6bb7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 13/48] fix: QoS 2 redelivery is decided by the packet
 identifier, not by the DUP flag or topic alias

---
 .../src/protocols/mqtt/v3/packet/publish.rs   | 11 ++++++++---
 .../src/protocols/mqtt/v5/packet/publish.rs   | 19 ++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ffe2cd3..da87adc 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -1,6 +1,7 @@
 use std::cmp;
 use std::hash::{Hash, Hasher};
 use std::io;
+use std::mem;
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -19,7 +20,7 @@ use super::{PubPacket, Session};
 #[inline]
 pub(crate) fn handle_publish(
     session: &mut Session,
-    packet: Publish,
+    mut packet: Publish,
     global: &Arc<GlobalState>,
 ) -> io::Result<Option<Packet>> {
     log::debug!(
@@ -47,6 +48,9 @@ topic name : {}
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    // the dup flag is not part of the message
+    let dup = mem::take(&mut packet.dup);
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -58,20 +62,21 @@ topic name : {}
                 log::info!("packet identifier in use: {}", pid.value());
                 return Err(io::ErrorKind::InvalidData.into());
             }
-            if !packet.dup {
+            if !dup {
                 log::info!(
                     "dup flag must be true for re-deliver packet: {}",
                     pid.value()
                 );
                 return Err(io::ErrorKind::InvalidData.into());
             }
+            redelivered = true;
         } else {
             // FIXME: check qos2_pids limit
             session.qos2_pids.insert(pid, current_hash);
         }
     }
 
-    if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         send_publish(
             session,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4001400..d3d77c2 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -1,5 +1,6 @@
 use std::cmp;
 use std::hash::{Hash, Hasher};
+use std::mem;
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -64,7 +65,7 @@ topic name : {}
         return Err(err_pkt);
     }
 
-    let properties = &mut packet.properties;
+    let properties = &packet.properties;
     let mut topic_name = packet.topic_name.clone();
     if let Some(alias) = properties.topic_alias {
         if alias == 0 {
@@ -118,6 +119,11 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // the topic alias and the dup flag are not part of the message
+    packet.topic_name = topic_name;
+    packet.properties.topic_alias = None;
+    let dup = mem::take(&mut packet.dup);
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -135,7 +141,7 @@ topic name : {}
                 };
                 return Ok(Some(rv_packet.into()));
             }
-            if !packet.dup {
+            if !dup {
                 log::info!(
                     "dup flag must be true for re-deliver packet: {}",
                     pid.value()
@@ -147,6 +153,7 @@ topic name : {}
                 );
                 return Err(err_pkt);
             }
+            redelivered = true;
         } else if session.qos2_pids.len() >= global.config.max_inflight_server as usize {
             let err_pkt = build_error_disconnect(
                 session,
@@ -160,18 +167,16 @@ topic name : {}
         }
     }
 
-    let matched_len = if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    let matched_len = if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
-        let properties = &mut packet.properties;
-        properties.topic_alias = None;
         send_publish(
             session,
             SendPublish {
                 qos: packet.qos_pid.qos(),
                 retain: packet.retain,
-                topic_name: &topic_name,
+                topic_name: &packet.topic_name,
                 payload: &packet.payload,
-                properties,
+                properties: &packet.properties,
                 encode_len,
             },
             global,
-- 
2.43.0


From 542a6bd84de452505eaddc32ebc0779d3b2cf4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 14/48] fix: v5 will must be published when the client
 disconnects with the will (reason 0x04)

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 54615eb..c415b19 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -312,10 +312,8 @@ async fn handle_online<
         session.client_disconnected,
         session.server_disconnected,
     );
-    // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected {
-        handle_will(&mut session, global).await?;
-    }
+    // NOTE: the will is already removed when the client disconnected with NormalDisconnect
+    handle_will(&mut session, global).await?;
     drain_broadcast(&mut session, &receiver, global).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
-- 
2.43.0


From c73bce25b78549966b7c35e552817f667d5e6437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 15/48] fix: v5 maximum packet size of the client must apply to
 the packet as it is sent

---
 akasa-core/src/protocols/mqtt/v5/message.rs   |   7 +-
 .../src/protocols/mqtt/v5/packet/common.rs    | 105 ++++++++++++------
 .../src/protocols/mqtt/v5/packet/publish.rs   |  76 ++++++-------
 .../src/protocols/mqtt/v5/packet/subscribe.rs |   7 --
 4 files changed, 107 insertions(+), 88 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index c415b19..8631a83 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -806,7 +806,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v3 publish message from {}",
@@ -827,8 +827,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Lookup(subscribe_filter),
                         subscribe_qos,
                         properties: None,
-                        // one byte is for property length
-                        encode_len: encode_len + 1,
                     },
                 )
             } else {
@@ -843,7 +841,7 @@ fn handle_normal(
             ref subscribe_filters,
             subscribe_qos,
             ref properties,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v5 publish message from {}, msg: {:?}",
@@ -881,7 +879,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Precomputed(subscription_ids),
                         subscribe_qos,
                         properties: Some(properties),
-                        encode_len,
                     },
                 )
             }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d379405..8a9e507 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -5,7 +5,7 @@ use std::time::Instant;
 
 use hashbrown::HashMap;
 use mqtt_proto::{
-    QoS, QosPid, TopicName,
+    Encodable, Pid, QoS, QosPid, TopicName, total_len,
     v5::{
         Connack, ConnackProperties, ConnectReasonCode, Disconnect, DisconnectProperties,
         DisconnectReasonCode, ErrorV5, Packet, Publish, Pubrel, PubrelProperties, PubrelReasonCode,
@@ -13,14 +13,14 @@ use mqtt_proto::{
 };
 use tokio::io::AsyncWrite;
 
-use crate::protocols::mqtt::{PendingPacketStatus, get_unix_ts};
+use crate::protocols::mqtt::{PendingPacketStatus, PendingPackets, get_unix_ts};
 use crate::state::ClientId;
 
-use super::Session;
+use super::{PubPacket, Session};
 
 static EMPTY_TOPIC_NAME: std::sync::OnceLock<TopicName> = std::sync::OnceLock::new();
 
-pub(super) fn empty_topic_name() -> &'static TopicName {
+fn empty_topic_name() -> &'static TopicName {
     EMPTY_TOPIC_NAME.get_or_init(|| TopicName::try_from("").expect("empty topic name is valid"))
 }
 
@@ -106,7 +106,7 @@ pub(crate) fn build_error_disconnect<'a, R: Into<Cow<'a, str>>>(
     rv_packet
 }
 
-pub(super) fn get_or_assign_server_topic_alias(
+fn get_or_assign_server_topic_alias(
     topic_alias_max: u16,
     aliases_by_topic: &mut HashMap<TopicName, u16>,
     aliases_by_alias: &mut HashMap<u16, (TopicName, u64)>,
@@ -148,8 +148,54 @@ pub(super) fn get_or_assign_server_topic_alias(
     (alias, true)
 }
 
+/// If the packet is not larger than the maximum packet size of the client
+pub(super) fn fits_max_packet_size(packet: &Publish, max_packet_size: u32) -> bool {
+    total_len(packet.encode_len()).is_ok_and(|len| len <= max_packet_size as usize)
+}
+
+/// Replace the topic name by a topic alias, a new alias is only assigned when the packet with both
+/// the topic name and the alias is not too large for the client.
+pub(super) fn assign_server_topic_alias(
+    packet: &mut Publish,
+    max_packet_size: u32,
+    topic_alias_max: u16,
+    aliases_by_topic: &mut HashMap<TopicName, u16>,
+    aliases_by_alias: &mut HashMap<u16, (TopicName, u64)>,
+    tick: &mut u64,
+) {
+    if topic_alias_max == 0 {
+        return;
+    }
+    packet.properties.topic_alias = Some(topic_alias_max);
+    if !fits_max_packet_size(packet, max_packet_size) {
+        packet.properties.topic_alias = None;
+        return;
+    }
+    let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
+        topic_alias_max,
+        aliases_by_topic,
+        aliases_by_alias,
+        tick,
+        &packet.topic_name,
+    );
+    packet.properties.topic_alias = (alias > 0).then_some(alias);
+    if alias > 0 && !is_new_mapping {
+        packet.topic_name = empty_topic_name().clone();
+    }
+}
+
+/// Remove a packet which can't be sent, return how many packets left the front of the queue.
+fn discard_packet(pending_packets: &mut PendingPackets<PubPacket>, pid: Pid) -> usize {
+    let old_len = pending_packets.len();
+    // If it is a QoS2 message, it's MUST also treated as QoS1 message
+    pending_packets.complete(pid, QoS::Level1);
+    pending_packets.clean_complete();
+    old_len - pending_packets.len()
+}
+
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
+    let max_packet_size = session.max_packet_size;
     let topic_alias_max = session.topic_alias_max;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
         &mut session.pending_packets,
@@ -160,7 +206,6 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
 
     pending_packets.clean_complete();
     let mut packets = Vec::new();
-    let mut expired_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = pending_packets.get_ready_packet(start_idx) {
         start_idx = idx + 1;
@@ -178,7 +223,9 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                 if let Some(value) = packet.properties.message_expiry_interval {
                     let passed_secs = now_ts - *added_at;
                     if *last_sent == 0 && passed_secs >= value as u64 {
-                        expired_packets.push(*pid);
+                        let pid = *pid;
+                        let removed = discard_packet(pending_packets, pid);
+                        start_idx = start_idx.saturating_sub(removed);
                         continue;
                     }
                     message_expiry_interval = Some(value.saturating_sub(passed_secs as u32));
@@ -189,31 +236,32 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     QoS::Level2 => QosPid::Level2(*pid),
                 };
                 let mut properties = packet.properties.clone();
-                let mut topic_name = packet.topic_name.clone();
                 properties.message_expiry_interval = message_expiry_interval;
-                if !*dup && topic_alias_max > 0 {
-                    let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
-                        topic_alias_max,
-                        aliases_by_topic,
-                        aliases_by_alias,
-                        tick,
-                        &topic_name,
-                    );
-                    if alias > 0 {
-                        properties.topic_alias = Some(alias);
-                        if !is_new_mapping {
-                            topic_name = empty_topic_name().clone();
-                        }
-                    }
-                }
-                let rv_packet = Publish {
+                let mut rv_packet = Publish {
                     dup: *dup,
                     retain: packet.retain,
                     qos_pid,
-                    topic_name,
+                    topic_name: packet.topic_name.clone(),
                     payload: packet.payload.clone(),
                     properties,
                 };
+                // the session may be resumed with a smaller maximum packet size
+                if !fits_max_packet_size(&rv_packet, max_packet_size) {
+                    let pid = *pid;
+                    let removed = discard_packet(pending_packets, pid);
+                    start_idx = start_idx.saturating_sub(removed);
+                    continue;
+                }
+                if !*dup {
+                    assign_server_topic_alias(
+                        &mut rv_packet,
+                        max_packet_size,
+                        topic_alias_max,
+                        aliases_by_topic,
+                        aliases_by_alias,
+                        tick,
+                    );
+                }
                 *dup = true;
                 *last_sent = now_ts;
                 packets.push(rv_packet.into());
@@ -230,13 +278,6 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
             PendingPacketStatus::Complete => unreachable!(),
         }
     }
-    for pid in &expired_packets {
-        // If the QoS2 message exipred, it's MUST also treated as QoS1 message
-        pending_packets.complete(*pid, QoS::Level1);
-    }
-    if !expired_packets.is_empty() {
-        pending_packets.clean_complete();
-    }
     packets
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index d3d77c2..8a980f5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -20,7 +20,7 @@ use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
-use super::common::{build_error_disconnect, empty_topic_name, get_or_assign_server_topic_alias};
+use super::common::{assign_server_topic_alias, build_error_disconnect, fits_max_packet_size};
 use super::{PubPacket, Session};
 
 #[inline]
@@ -296,7 +296,6 @@ pub(crate) struct RecvPublish<'a> {
     pub subscription_ids: SubscriptionIds<'a>,
     // [MQTTv5.0-3.8.4] keyword: downgraded
     pub subscribe_qos: QoS,
-    pub encode_len: usize,
 }
 
 #[derive(Debug)]
@@ -457,59 +456,48 @@ pub(crate) fn recv_publish(
     }
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
+    if final_qos == QoS::Level0 && (session.client_disconnected || session.server_disconnected) {
+        return None;
+    }
+    let mut packet = Publish {
+        dup: false,
+        qos_pid: match final_qos {
+            QoS::Level0 => QosPid::Level0,
+            QoS::Level1 => QosPid::Level1(Default::default()),
+            QoS::Level2 => QosPid::Level2(Default::default()),
+        },
+        retain: msg.retain,
+        topic_name: msg.topic_name.clone(),
+        payload: msg.payload.clone(),
+        properties,
+    };
+    if !fits_max_packet_size(&packet, session.max_packet_size) {
+        return None;
+    }
     if final_qos != QoS::Level0 {
-        if msg.encode_len > session.max_packet_size as usize {
-            return None;
-        }
         let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
         // TODO: proper handle this error
         let _is_full = session.pending_packets.push_back(
             pid,
             PubPacket {
-                topic_name: msg.topic_name.clone(),
+                topic_name: packet.topic_name,
                 qos: final_qos,
-                retain: msg.retain,
-                payload: msg.payload.clone(),
-                properties,
+                retain: packet.retain,
+                payload: packet.payload,
+                properties: packet.properties,
             },
         );
         Some((final_qos, None))
-    } else if !session.client_disconnected && !session.server_disconnected {
-        let encode_len = if msg.qos > QoS::Level0 {
-            msg.encode_len - 2
-        } else {
-            msg.encode_len
-        };
-        if encode_len > session.max_packet_size as usize {
-            return None;
-        }
-        let mut topic_name = msg.topic_name.clone();
-        if session.topic_alias_max > 0 {
-            let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
-                session.topic_alias_max,
-                &mut session.server_topic_aliases_by_topic,
-                &mut session.server_topic_aliases_by_alias,
-                &mut session.server_alias_tick,
-                &topic_name,
-            );
-            if alias > 0 {
-                properties.topic_alias = Some(alias);
-                if !is_new_mapping {
-                    topic_name = empty_topic_name().clone();
-                }
-            }
-        }
-        let rv_packet = Publish {
-            dup: false,
-            qos_pid: QosPid::Level0,
-            retain: msg.retain,
-            topic_name,
-            payload: msg.payload.clone(),
-            properties,
-        };
-        Some((final_qos, Some(rv_packet.into())))
     } else {
-        None
+        assign_server_topic_alias(
+            &mut packet,
+            session.max_packet_size,
+            session.topic_alias_max,
+            &mut session.server_topic_aliases_by_topic,
+            &mut session.server_topic_aliases_by_alias,
+            &mut session.server_alias_tick,
+        );
+        Some((final_qos, Some(packet.into())))
     }
 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index cc6956d..ac1d8cc 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -87,12 +87,6 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
-                        let encode_len = if msg.properties.is_none() {
-                            // one byte for property length
-                            msg.encode_len + 1
-                        } else {
-                            msg.encode_len
-                        };
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -104,7 +98,6 @@ packet id : {}
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
                                 properties: msg.properties.as_ref(),
-                                encode_len,
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From 9956506ad5faedbb6b0f11c7bbafc0b96c98dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 16/48] fix: messages of a taken over connection still to be
 broadcast were lost

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 8c87432..bdd6c88 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -117,6 +117,9 @@ clean session : {}
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // messages the old connection received but did not hand over to the subscribers yet
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_session && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 92e01b6..95ff769 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -231,6 +231,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // messages the old connection received but did not hand over to the subscribers yet
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_start && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
-- 
2.43.0


From 5ba2e39c02c2067a1b6313f9cee36eadbedb10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 17/48] fix: a connection failing right after its session was
 created locked out the client id

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 121 +++++++-----
 akasa-core/src/protocols/mqtt/v5/message.rs | 193 ++++++++++++--------
 2 files changed, 194 insertions(+), 120 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 0dced75..a797f2b 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -133,55 +133,59 @@ async fn handle_online<
         before_connect_hook(peer, &packet, hook_handler, global).await?;
     }
 
-    let session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
-
-    if !session.connected {
-        log::info!("{} not connected", session.peer);
-        return Err(io::ErrorKind::InvalidData.into());
-    }
-
-    // Run after connect hook
-    if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
-
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
-    }
-
-    let receiver = receiver.expect("receiver");
-    log::info!(
-        "{} connected, total {} clients ({} online) ",
-        session.peer,
-        global.clients_count(),
-        global.online_clients_count(),
-    );
-
-    let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
+    let mut io_error = connect_session(
         &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
+        &mut receiver,
+        packet,
         &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
-    }
-    if taken_over {
-        return Ok(None);
+        hook_handler,
+        global,
+    )
+    .await
+    .err();
+    let Some(receiver) = receiver else {
+        return Err(io_error.unwrap_or_else(|| io::ErrorKind::InvalidData.into()));
+    };
+
+    // NOTE: the session exists, so it must be kept or removed below even if connect failed
+    if io_error.is_none() {
+        log::info!(
+            "{} connected, total {} clients ({} online) ",
+            session.peer,
+            global.clients_count(),
+            global.online_clients_count(),
+        );
+
+        let mut taken_over = false;
+        let online_loop = OnlineLoop::new(
+            &mut session,
+            global,
+            hook_handler,
+            &receiver,
+            receiver.control.stream(),
+            receiver.normal.stream(),
+            &mut conn,
+            &mut taken_over,
+            PollPacketState::default(),
+        );
+        io_error = online_loop.await;
+        if global.config.hook.enable_after_disconnect
+            && let Err(err) =
+                after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+        {
+            io_error.get_or_insert(err);
+        }
+        if taken_over {
+            return Ok(None);
+        }
     }
 
     // FIXME: check all place depend on session.disconnected
-    if !session.disconnected {
+    if session.connected && !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        handle_will(&mut session, global).await?;
+        if let Err(err) = handle_will(&mut session, global).await {
+            io_error.get_or_insert(err);
+        }
     }
     drain_broadcast(&mut session, &receiver, global).await;
     if session.clean_session {
@@ -199,6 +203,37 @@ async fn handle_online<
     Ok(None)
 }
 
+/// Handle the connect packet until the session is ready for the online loop. When the receiver is
+/// set the session exists, even if an error is returned.
+async fn connect_session<
+    T: AsyncRead + AsyncWrite + Unpin,
+    H: Hook + Clone + Send + Sync + 'static,
+>(
+    session: &mut Session,
+    receiver: &mut Option<ClientReceiver>,
+    packet: Connect,
+    conn: &mut T,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<()> {
+    let session_present = handle_connect(session, receiver, packet, conn, global).await?;
+
+    if !session.connected {
+        log::info!("{} not connected", session.peer);
+        return Err(io::ErrorKind::InvalidData.into());
+    }
+
+    // Run after connect hook
+    if global.config.hook.enable_before_connect {
+        after_connect_hook(session, session_present, hook_handler, global).await?;
+    }
+
+    for packet in after_handle_packet(session) {
+        write_packet(session.client_id, conn, &packet).await?;
+    }
+    Ok(())
+}
+
 impl OnlineSession for Session {
     type Packet = Packet;
     type Error = Error;
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 8631a83..e028ebc 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -177,8 +177,104 @@ async fn handle_online<
         before_connect_hook(&mut session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
-    let mut session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let mut io_error = match connect_session(
+        &mut session,
+        &mut receiver,
+        packet,
+        &mut conn,
+        timeout_receiver,
+        hook_handler,
+        global,
+    )
+    .await
+    {
+        Ok(true) => None,
+        Ok(false) => return Ok(None),
+        Err(err) => Some(err),
+    };
+    let Some(receiver) = receiver else {
+        return Err(io_error.unwrap_or_else(|| io::ErrorKind::InvalidData.into()));
+    };
+
+    // NOTE: the session exists, so it must be kept or removed below even if connect failed
+    if io_error.is_none() {
+        log::info!(
+            "{} connected, total {} clients ({} online) ",
+            session.peer,
+            global.clients_count(),
+            global.online_clients_count(),
+        );
+
+        let mut taken_over = false;
+        let online_loop = OnlineLoop::new(
+            &mut session,
+            global,
+            hook_handler,
+            &receiver,
+            receiver.control.stream(),
+            receiver.normal.stream(),
+            &mut conn,
+            &mut taken_over,
+            PollPacketState::default(),
+        );
+        io_error = online_loop.await;
+        if global.config.hook.enable_after_disconnect
+            && let Err(err) =
+                after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+        {
+            io_error.get_or_insert(err);
+        }
+        if taken_over {
+            return Ok(None);
+        }
+    }
+
+    log::debug!(
+        "[{}] online loop finished, client_disconnected={}, server_disconnected={}",
+        session.client_id,
+        session.client_disconnected,
+        session.server_disconnected,
+    );
+    // NOTE: the will is already removed when the client disconnected with NormalDisconnect
+    if session.connected
+        && let Err(err) = handle_will(&mut session, global).await
+    {
+        io_error.get_or_insert(err);
+    }
+    drain_broadcast(&mut session, &receiver, global).await;
+    if session.session_expiry_interval == 0 {
+        global.remove_client(session.client_id, session.subscribes.keys());
+        if let Some(err) = io_error {
+            return Err(err);
+        }
+    } else {
+        // become a offline client, but session keep updating
+        global.offline_client(session.client_id);
+        session.connected = false;
+        session.connected_time.get_or_insert_with(Instant::now);
+        session.connection_closed_time = Some(Instant::now());
+        return Ok(Some((session, receiver)));
+    }
+
+    Ok(None)
+}
+
+/// Handle the connect packet until the session is ready for the online loop. When the receiver is
+/// set the session exists, even if an error is returned.
+async fn connect_session<
+    T: AsyncRead + AsyncWrite + Unpin,
+    H: Hook + Clone + Send + Sync + 'static,
+>(
+    session: &mut Session,
+    receiver: &mut Option<ClientReceiver>,
+    packet: Connect,
+    conn: &mut T,
+    timeout_receiver: Receiver<()>,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<bool> {
+    let peer = session.peer;
+    let mut session_present = handle_connect(session, receiver, packet, conn, global).await?;
 
     // * Scram challenge only need 1 round.
     // * Kerberos challenge need 2 rounds.
@@ -187,28 +283,28 @@ async fn handle_online<
         round_quota -= 1;
 
         let packet = async {
-            match Packet::decode_async(&mut conn).await {
+            match Packet::decode_async(&mut *conn).await {
                 Ok(packet) => Ok(packet),
                 Err(err) => match err {
                     ErrorV5::Common(Error::IoError(kind)) => Err(Error::IoError(kind).into()),
                     ErrorV5::Common(err) => {
                         let err_pkt = build_error_connack(
-                            &mut session,
+                            session,
                             false,
                             ConnectReasonCode::MalformedPacket,
                             err.to_string(),
                         );
-                        write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                        write_packet(session.client_id, conn, &err_pkt).await?;
                         Err(io::ErrorKind::InvalidData.into())
                     }
                     err => {
                         let err_pkt = build_error_connack(
-                            &mut session,
+                            session,
                             false,
                             ConnectReasonCode::MalformedPacket,
                             err.to_string(),
                         );
-                        write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                        write_packet(session.client_id, conn, &err_pkt).await?;
                         Err(io::ErrorKind::InvalidData.into())
                     }
                 },
@@ -225,22 +321,16 @@ async fn handle_online<
             _ => {
                 log::info!("Not connected, only AUTH packet is allowed");
                 let err_pkt =
-                    build_error_connack(&mut session, false, ConnectReasonCode::ProtocolError, "");
-                write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
+                    build_error_connack(session, false, ConnectReasonCode::ProtocolError, "");
+                write_packet(session.client_id, conn, &err_pkt).await?;
+                return Ok(false);
             }
         };
 
-        match handle_auth(&mut session, auth, global) {
+        match handle_auth(session, auth, global) {
             Ok((AuthReasonCode::Success, server_final)) => {
-                session_present = session_connect(
-                    &mut session,
-                    &mut receiver,
-                    Some(server_final),
-                    &mut conn,
-                    global,
-                )
-                .await?;
+                session_present =
+                    session_connect(session, receiver, Some(server_final), conn, global).await?;
             }
             Ok((AuthReasonCode::ContinueAuthentication, server_first)) => {
                 let auth_method = session.auth_method.as_ref().expect("auth method");
@@ -253,12 +343,12 @@ async fn handle_online<
                         user_properties: Vec::new(),
                     },
                 };
-                write_packet(session.client_id, &mut conn, &rv_packet.into()).await?;
+                write_packet(session.client_id, conn, &rv_packet.into()).await?;
             }
             Ok((AuthReasonCode::ReAuthentication, _)) => unreachable!(),
             Err(err_pkt) => {
-                write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
+                write_packet(session.client_id, conn, &err_pkt).await?;
+                return Ok(false);
             }
         }
     }
@@ -271,64 +361,13 @@ async fn handle_online<
 
     // Run after connect hook
     if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
+        after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
+    for packet in after_handle_packet(session) {
+        write_packet(session.client_id, conn, &packet).await?;
     }
-
-    let receiver = receiver.expect("receiver");
-    log::info!(
-        "{} connected, total {} clients ({} online) ",
-        session.peer,
-        global.clients_count(),
-        global.online_clients_count(),
-    );
-
-    let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
-        &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
-        &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
-    }
-    if taken_over {
-        return Ok(None);
-    }
-
-    log::debug!(
-        "[{}] online loop finished, client_disconnected={}, server_disconnected={}",
-        session.client_id,
-        session.client_disconnected,
-        session.server_disconnected,
-    );
-    // NOTE: the will is already removed when the client disconnected with NormalDisconnect
-    handle_will(&mut session, global).await?;
-    drain_broadcast(&mut session, &receiver, global).await;
-    if session.session_expiry_interval == 0 {
-        global.remove_client(session.client_id, session.subscribes.keys());
-        if let Some(err) = io_error {
-            return Err(err);
-        }
-    } else {
-        // become a offline client, but session keep updating
-        global.offline_client(session.client_id);
-        session.connected = false;
-        session.connection_closed_time = Some(Instant::now());
-        return Ok(Some((session, receiver)));
-    }
-
-    Ok(None)
+    Ok(true)
 }
 
 impl OnlineSession for Session {
-- 
2.43.0


From 3451e521874c207985101c24540760941c68e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 18/48] fix: after connect hook was enabled by
 enable_before_connect instead of enable_after_connect

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index a797f2b..3669ca7 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -224,7 +224,7 @@ async fn connect_session<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index e028ebc..a790275 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -360,7 +360,7 @@ async fn connect_session<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
-- 
2.43.0


From d571c0023595b7e01a5416c7a85277a6d688f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 19/48] fix: publish panicked when the last subscriber left at
 the same time

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index da87adc..98b78c8 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -200,7 +200,10 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
     let mut senders = Vec::with_capacity(matches.len());
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // the last subscriber may leave after the lookup
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 8a980f5..e840656 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -354,7 +354,10 @@ pub(crate) fn send_publish(
         Vec::with_capacity(matched_len);
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // the last subscriber may leave after the lookup
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             if *client_id == session.client_id {
                 if let Some(sub) = session.subscribes.get(subscribe_filter) {
-- 
2.43.0


From 4c37db4f6e0d2260bd3321a69005dea7b2302b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 20/48] fix: messages of v3 publishers were not delivered to
 shared subscriptions

---
 .../src/protocols/mqtt/v3/packet/publish.rs   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 98b78c8..b129c16 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -8,10 +8,12 @@ use std::sync::Arc;
 use ahash::AHasher;
 use bytes::Bytes;
 use mqtt_proto::{
-    Encodable, Pid, QoS, QosPid, TopicFilter, TopicName, total_len,
+    Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v3::{Packet, Publish},
 };
+use rand::RngExt;
 
+use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
@@ -207,6 +209,23 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
+        // v5.x clients can have shared subscriptions
+        for (group_name, shared_clients) in &content.groups {
+            let (client_id, subscribe_qos) = match global.config.shared_subscription_mode {
+                SharedSubscriptionMode::Random => {
+                    shared_clients.get_by_number(rand::rng().random())
+                }
+                SharedSubscriptionMode::HashClientId => {
+                    shared_clients.get_by_hash(&session.client_identifier)
+                }
+                SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(msg.topic_name),
+            };
+            let full_filter = TopicFilter::try_from(
+                format!("{SHARED_PREFIX}{group_name}/{subscribe_filter}").as_str(),
+            )
+            .expect("full topic filter");
+            senders.push((client_id, full_filter, subscribe_qos));
+        }
     }
 
     session.broadcast_packets_cnt += senders.len();
-- 
2.43.0


From acab7d2318badf8000c211852c4b9d093e1e3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:22 +0000
Subject: [PATCH 21/48] fix: keep alive timer of a taken over connection
 disconnected the new connection

---
 akasa-core/src/protocols/mqtt/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index b1dc7e7..6f47f08 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -16,16 +16,18 @@ pub(crate) fn start_keep_alive_timer(
     if keep_alive > 0 {
         let half_interval = Duration::from_millis(keep_alive as u64 * 500);
         log::debug!("{} keep alive: {:?}", client_id, half_interval * 2);
-        let last_packet_time = Arc::clone(last_packet_time);
+        // NOTE: the session owns the time, when it's dropped the connection is finished (the client
+        // may already use another connection)
+        let last_packet_time = Arc::downgrade(last_packet_time);
         let global = Arc::clone(global);
         let action_gen = move || {
             // Need clone twice: https://stackoverflow.com/a/68462908/1274372
-            let last_packet_time = Arc::clone(&last_packet_time);
+            let last_packet_time = last_packet_time.upgrade();
             let global = Arc::clone(&global);
             async move {
                 {
-                    let last_packet_time = last_packet_time.read();
-                    if last_packet_time.elapsed() <= half_interval * 3 {
+                    let last_packet_time = last_packet_time?;
+                    if last_packet_time.read().elapsed() <= half_interval * 3 {
                         return Some(half_interval);
                     }
                 }
-- 
2.43.0


From 4189d0ec1c70518276805e773414eacbbd5c730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 22/48] fix: session expiry interval of DISCONNECT was not
 limited to max_session_expiry_interval

---
 akasa-core/src/protocols/mqtt/v5/message.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index a790275..fd25f55 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -487,7 +487,7 @@ impl OnlineSession for Session {
 
         match packet {
             Packet::Disconnect(pkt) => {
-                if let Err(err_pkt) = handle_disconnect(self, pkt) {
+                if let Err(err_pkt) = handle_disconnect(self, pkt, global) {
                     // FIXME: must ensure error packet finally written to client in several seconds.
                     write_packets.push_back(err_pkt.into());
                 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 95ff769..4ab4a64 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -352,7 +352,11 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
 
 #[inline]
 #[allow(clippy::result_large_err)]
-pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Result<(), Packet> {
+pub(crate) fn handle_disconnect(
+    session: &mut Session,
+    packet: Disconnect,
+    global: &Arc<GlobalState>,
+) -> Result<(), Packet> {
     log::debug!("{} received a disconnect packet", session.client_id);
     if let Some(value) = packet.properties.session_expiry_interval {
         if session.session_expiry_interval == 0 && value > 0 {
@@ -362,7 +366,7 @@ pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Re
                 "SessionExpiryInterval is 0 in CONNECT",
             ));
         }
-        session.session_expiry_interval = value;
+        session.session_expiry_interval = value.min(global.config.max_session_expiry_interval);
     }
 
     // * no UserProperty
-- 
2.43.0


From c25ae380dde86d0dd17d92d6b457e26c3a0ec54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 23/48] fix: a session which ends with its connection was
 continued by a take over

---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v3/session.rs        | 2 ++
 akasa-core/src/protocols/mqtt/v5/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/session.rs        | 2 ++
 6 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 3669ca7..2f48820 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -258,6 +258,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            end_with_connection: self.clean_session,
 
             server_packet_id: self.server_packet_id,
             pending_packets,
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index bdd6c88..de04419 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -121,7 +121,10 @@ clean session : {}
             session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_session && session.protocol == old_state.protocol {
+            if !session.clean_session
+                && !old_state.end_with_connection
+                && session.protocol == old_state.protocol
+            {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index f929877..58a407c 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -43,6 +43,8 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
+    // the session ends with the connection
+    pub end_with_connection: bool,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index fd25f55..7327f54 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -400,6 +400,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            end_with_connection: self.session_expiry_interval == 0,
 
             server_packet_id: self.server_packet_id,
             pending_packets,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 4ab4a64..73ae4c8 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -235,7 +235,10 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_start && session.protocol == old_state.protocol {
+            if !session.clean_start
+                && !old_state.end_with_connection
+                && session.protocol == old_state.protocol
+            {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 41005cd..e434e02 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -77,6 +77,8 @@ pub struct Session {
 pub struct SessionState {
     pub client_id: ClientId,
     pub receiver: ClientReceiver,
+    // the session ends with the connection
+    pub end_with_connection: bool,
     pub protocol: Protocol,
 
     // For record packet id send from server to client
-- 
2.43.0


From 6e3b0fa2eb16fb47451310734497e9058f2c09db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 24/48] fix: the will of a taken over connection was never
 published

---
 akasa-core/src/protocols/mqtt/v3/message.rs        |  5 +++--
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 10 ++++++++++
 akasa-core/src/protocols/mqtt/v3/session.rs        |  2 ++
 akasa-core/src/protocols/mqtt/v5/message.rs        |  3 ++-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 13 +++++++++++++
 akasa-core/src/protocols/mqtt/v5/session.rs        |  2 ++
 6 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 2f48820..86b1943 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -183,7 +183,7 @@ async fn handle_online<
     // FIXME: check all place depend on session.disconnected
     if session.connected && !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        if let Err(err) = handle_will(&mut session, global).await {
+        if let Err(err) = send_will(&mut session, global) {
             io_error.get_or_insert(err);
         }
     }
@@ -259,6 +259,7 @@ impl OnlineSession for Session {
             receiver,
             protocol: self.protocol,
             end_with_connection: self.clean_session,
+            last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
             pending_packets,
@@ -526,7 +527,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
 }
 
 #[inline]
-async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(super) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         let encode_len = {
             let qos_pid = match last_will.qos {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index de04419..0ac0fcb 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -11,6 +11,7 @@ use tokio::io::AsyncWrite;
 use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
+use super::super::message::send_will;
 use super::Session;
 use super::common::write_packet;
 
@@ -144,6 +145,15 @@ clean session : {}
                 }
                 session_present = false;
             }
+            // the old connection is closed without its will being removed
+            if let Some(old_will) = old_state.last_will {
+                let new_will = session.last_will.replace(old_will);
+                let result = send_will(session, global);
+                session.last_will = new_will;
+                if result.is_err() {
+                    log::warn!("send will failed (packet too large)");
+                }
+            }
         }
         // not allowed, so this is dead branch.
         AddClientReceipt::PresentV5(_) => unreachable!(),
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index 58a407c..2ad73e8 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -45,6 +45,8 @@ pub struct SessionState {
     pub receiver: ClientReceiver,
     // the session ends with the connection
     pub end_with_connection: bool,
+    // the will which is not published yet
+    pub last_will: Option<LastWill>,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 7327f54..8833266 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -401,6 +401,7 @@ impl OnlineSession for Session {
             receiver,
             protocol: self.protocol,
             end_with_connection: self.session_expiry_interval == 0,
+            last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
             pending_packets,
@@ -928,7 +929,7 @@ fn handle_normal(
 
 // TODO: change to broadcast_will
 #[inline]
-fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(super) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         log::debug!("[{}] send will", session.client_id);
         let properties = last_will.properties;
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 73ae4c8..948aec2 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -19,6 +19,7 @@ use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 use super::common::{build_error_connack, build_error_disconnect, write_packet};
 use crate::protocols::scram::AuthenticationStatus;
 
+use super::super::message::send_will;
 use super::{ScramStage, Session};
 
 pub(crate) async fn handle_connect<T: AsyncWrite + Unpin>(
@@ -258,6 +259,18 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                 }
                 session_present = false;
             }
+            // the old connection is closed without its will being removed, a delayed will is
+            // canceled only if the session continues
+            if let Some(old_will) = old_state.last_will
+                && (!session_present || old_will.properties.delay_interval.unwrap_or(0) == 0)
+            {
+                let new_will = session.last_will.replace(old_will);
+                let result = send_will(session, global);
+                session.last_will = new_will;
+                if result.is_err() {
+                    log::warn!("send will failed (packet too large)");
+                }
+            }
         }
         AddClientReceipt::New {
             client_id,
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index e434e02..067dfc2 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -79,6 +79,8 @@ pub struct SessionState {
     pub receiver: ClientReceiver,
     // the session ends with the connection
     pub end_with_connection: bool,
+    // the will which is not published yet
+    pub last_will: Option<LastWill>,
     pub protocol: Protocol,
 
     // For record packet id send from server to client
-- 
2.43.0


From 304a2782c66cff6a1a0004bab4bde46f7522bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 25/48] fix: flush until everything is on the wire

A flush that was pending (TLS or WebSocket under back-pressure) was never retried, so
packets stayed in the buffers of the transport until the next write.
---
 akasa-core/src/protocols/mqtt/online_loop.rs      | 10 ++++++++--
 akasa-core/src/protocols/mqtt/v3/packet/common.rs |  3 ++-
 akasa-core/src/protocols/mqtt/v5/packet/common.rs |  3 ++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2ce4395..18d379c 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -51,6 +51,7 @@ where
     session_state_sender: Option<(SendSink<'static, S::SessionState>, bool)>,
     write_packets_max: usize,
     write_packets: VecDeque<WritePacket<S::Packet>>,
+    flush_unfinish: bool,
     draining: Option<Disconnected>,
     drain_sleep: Option<Pin<Box<tokio::time::Sleep>>>,
 }
@@ -87,6 +88,7 @@ where
             normal_stream_unfinish: false,
             write_packets_max: 16,
             write_packets: VecDeque::with_capacity(16),
+            flush_unfinish: false,
             session_state_sender: None,
             hook_fut: None,
             draining: None,
@@ -137,6 +139,7 @@ where
             hook_fut,
             write_packets_max,
             write_packets,
+            flush_unfinish,
             taken_over,
             draining,
             drain_sleep,
@@ -452,9 +455,12 @@ where
         {
             write_packets.shrink_to(*write_packets_max);
         }
-        if have_write && !pendings.write {
+        if have_write {
+            *flush_unfinish = true;
+        }
+        if *flush_unfinish && !pendings.write {
             match Pin::new(&mut *conn).poll_flush(cx) {
-                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Ok(())) => *flush_unfinish = false,
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
                 Poll::Pending => {}
             }
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 4329f8d..5831213 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -5,7 +5,7 @@ use mqtt_proto::{
     QoS, QosPid,
     v3::{Packet, Publish},
 };
-use tokio::io::AsyncWrite;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 
 use crate::protocols::mqtt::{PendingPacketStatus, get_unix_ts};
 use crate::state::ClientId;
@@ -67,6 +67,7 @@ pub(crate) async fn write_packet<T: AsyncWrite + Unpin>(
 ) -> io::Result<()> {
     log::debug!("write to {}: {:?}", client_id, packet);
     packet.encode_async(conn).await?;
+    conn.flush().await?;
     log::debug!("write to {}: {:?} FINISHED!!!", client_id, packet);
     Ok(())
 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index 8a9e507..d39ca68 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -11,7 +11,7 @@ use mqtt_proto::{
         DisconnectReasonCode, ErrorV5, Packet, Publish, Pubrel, PubrelProperties, PubrelReasonCode,
     },
 };
-use tokio::io::AsyncWrite;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 
 use crate::protocols::mqtt::{PendingPacketStatus, PendingPackets, get_unix_ts};
 use crate::state::ClientId;
@@ -292,5 +292,6 @@ pub(crate) async fn write_packet<T: AsyncWrite + Unpin>(
         ErrorV5::Common(err) => io::Error::from(err),
         _ => io::ErrorKind::InvalidData.into(),
     })?;
+    conn.flush().await?;
     Ok(())
 }
-- 
2.43.0


From 424b850b669828fbf954a7cee61d601ae154c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 26/48] fix: time out WebSocket upgrades like the other stages
 of accepting a connection

---
 akasa-core/src/server/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 8d959a4..12207cc 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -135,13 +135,17 @@ pub async fn handle_accept<
             }
             Ok(resp)
         };
-        let stream = match accept_hdr_async(tls_wrapper, handler).await {
-            Ok(stream) => stream,
-            Err(err) => {
+        let stream = accept_hdr_async(tls_wrapper, handler)
+            .map_err(|err| {
                 log::warn!("Accept websocket connection error: {:?}", err);
-                return Err(io::ErrorKind::InvalidData.into());
-            }
-        };
+                io::Error::from(io::ErrorKind::InvalidData)
+            })
+            .or(async {
+                let _ = timeout_receiver.recv_async().await;
+                log::info!("timeout when accept websocket: {}", peer);
+                Err(io::ErrorKind::TimedOut.into())
+            })
+            .await?;
         WebSocketWrapper::WebSocket {
             stream,
             read_data: Bytes::new(),
-- 
2.43.0


From aa8ac90d16b63d262374d4fd9dd936ba69a25997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 27/48] fix: identifiers of messages the queue refused were
 used up, so that identifiers in flight came round again

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 13 ++++++++-----
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 10 +++++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index b129c16..0c2aed4 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -271,18 +271,21 @@ pub(crate) fn recv_publish(
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
     if final_qos != QoS::Level0 {
-        let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
-        if session.pending_packets.push_back(
-            pid,
+        let is_full = session.pending_packets.push_back(
+            session.server_packet_id,
             PubPacket {
                 topic_name: msg.topic_name.clone(),
                 qos: final_qos,
                 retain: msg.retain,
                 payload: msg.payload.clone(),
             },
-        ) {
-            // TODO: pending messages queue is full
+        );
+        // TODO: pending messages queue is full
+        if !is_full {
+            // NOTE: identifiers of dropped packets are not used up, or they come round to those
+            // still in the queue
+            session.incr_server_packet_id();
         }
         Some((final_qos, None))
     } else if !session.disconnected {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index e840656..542bd69 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -478,11 +478,10 @@ pub(crate) fn recv_publish(
         return None;
     }
     if final_qos != QoS::Level0 {
-        let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
         // TODO: proper handle this error
-        let _is_full = session.pending_packets.push_back(
-            pid,
+        let is_full = session.pending_packets.push_back(
+            session.server_packet_id,
             PubPacket {
                 topic_name: packet.topic_name,
                 qos: final_qos,
@@ -491,6 +490,11 @@ pub(crate) fn recv_publish(
                 properties: packet.properties,
             },
         );
+        if !is_full {
+            // NOTE: identifiers of dropped packets are not used up, or they come round to those
+            // still in the queue
+            session.incr_server_packet_id();
+        }
         Some((final_qos, None))
     } else {
         assign_server_topic_alias(
-- 
2.43.0


From 27de9ce8858aab18b14393a236bdc252a10caf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 28/48] fix: a client refused for its will took over the
 session of its client identifier first

---
 .../src/protocols/mqtt/v5/packet/connect.rs   | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 948aec2..ed0ea07 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -221,6 +221,23 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     conn: &mut T,
     global: &Arc<GlobalState>,
 ) -> io::Result<bool> {
+    // NOTE: a refused client must not take over an existing session
+    let reason_code = match session.last_will.as_ref() {
+        Some(will) if will.retain && !global.config.retain_available => {
+            ConnectReasonCode::RetainNotSupported
+        }
+        Some(will) if will.qos > global.config.max_allowed_qos() => {
+            ConnectReasonCode::QoSNotSupported
+        }
+        _ => ConnectReasonCode::Success,
+    };
+    if reason_code != ConnectReasonCode::Success {
+        log::debug!("will not supported: {:?}", reason_code);
+        let err_pkt = build_error_connack(session, false, reason_code, "will not supported");
+        write_packet(session.client_id, conn, &err_pkt).await?;
+        return Ok(false);
+    }
+
     let mut session_present = false;
     match global
         .add_client(&session.client_identifier, session.protocol)
@@ -341,28 +358,15 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     }
     // * TODO ServerReference
 
-    let reason_code = if let Some(will) = session.last_will.as_ref() {
-        if will.retain && !global.config.retain_available {
-            ConnectReasonCode::RetainNotSupported
-        } else if will.qos > global.config.max_allowed_qos() {
-            ConnectReasonCode::QoSNotSupported
-        } else {
-            ConnectReasonCode::Success
-        }
-    } else {
-        ConnectReasonCode::Success
-    };
     let rv_packet = Connack {
         session_present,
-        reason_code,
+        reason_code: ConnectReasonCode::Success,
         properties: connack_properties,
     };
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
 
-    if reason_code == ConnectReasonCode::Success {
-        session.connected = true;
-        session.connected_time = Some(Instant::now());
-    }
+    session.connected = true;
+    session.connected_time = Some(Instant::now());
     Ok(session_present)
 }
 
-- 
2.43.0


From 621667d78c4321d67cb3c47660911b2ebf671f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 29/48] fix: the maximum QoS was announced to v5 clients but
 not enforced

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 542bd69..11dc1d0 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -65,6 +65,17 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // See: 3.2.2.3.4 Maximum QoS
+    if packet.qos_pid.qos() > global.config.max_allowed_qos() {
+        log::debug!("publish qos exceeds the maximum qos");
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::QoSNotSupported,
+            "publish qos exceeds the maximum qos",
+        );
+        return Err(err_pkt);
+    }
+
     let properties = &packet.properties;
     let mut topic_name = packet.topic_name.clone();
     if let Some(alias) = properties.topic_alias {
-- 
2.43.0


From ffca5d68920756a95b2876b621460920b8d080b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 30/48] fix: a v3 client that sent its PUBREL again, the
 PUBCOMP having been lost, was disconnected

---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 86b1943..5cf63e0 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -334,7 +334,7 @@ impl OnlineSession for Session {
             }
             Packet::Puback(pid) => handle_puback(self, pid),
             Packet::Pubrec(pid) => write_packets.push_back(handle_pubrec(self, pid).into()),
-            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid)?.into()),
+            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid).into()),
             Packet::Pubcomp(pid) => handle_pubcomp(self, pid),
             Packet::Subscribe(pkt) => {
                 if global.config.hook.enable_subscribe {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 0c2aed4..0117ab1 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -122,17 +122,17 @@ pub(crate) fn handle_pubrec(session: &mut Session, pid: Pid) -> Packet {
 }
 
 #[inline]
-pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> io::Result<Packet> {
+pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> Packet {
     log::debug!(
         "{} received a pubrel  packet: id={}",
         session.client_id,
         pid.value()
     );
+    // [MQTT-4.3.3-2] a PUBREL that is sent again because its PUBCOMP got lost is answered too
     if session.qos2_pids.remove(&pid).is_none() {
-        log::warn!("packet identifier not found: {}", pid.value());
-        return Err(io::ErrorKind::InvalidData.into());
+        log::debug!("packet identifier not found: {}", pid.value());
     }
-    Ok(Packet::Pubcomp(pid))
+    Packet::Pubcomp(pid)
 }
 
 #[inline]
-- 
2.43.0


From e46ae5a8e06e75669168e3f0441d12a0dea8f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 31/48] fix: a shared subscription with No Local was accepted
 instead of being a protocol error

---
 .../src/protocols/mqtt/v5/packet/subscribe.rs       | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index ac1d8cc..b41d1a6 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -40,6 +40,19 @@ packet id : {}
         );
         return Err(err_pkt);
     }
+    // See: [MQTT-3.8.3-4]
+    if packet
+        .topics
+        .iter()
+        .any(|(filter, sub_opts)| filter.is_shared() && sub_opts.no_local)
+    {
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::ProtocolError,
+            "No Local on a shared subscription is not allowed",
+        );
+        return Err(err_pkt);
+    }
 
     let mut rv_packets = Vec::new();
 
-- 
2.43.0


From 25dd1e0392126c88f68c73ac67c4bfccf09945ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 32/48] hook: time under the control of the verification
 harness (cfg akasa_verif)

---
 akasa-core/src/lib.rs                              | 9 +++++++++
 akasa-core/src/protocols/mqtt/common.rs            | 3 ++-
 akasa-core/src/protocols/mqtt/mod.rs               | 9 +++++++++
 akasa-core/src/protocols/mqtt/pending.rs           | 5 +++++
 akasa-core/src/protocols/mqtt/v3/packet/common.rs  | 3 +--
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +--
 akasa-core/src/protocols/mqtt/v3/session.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs        | 6 +++---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs  | 3 +--
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +--
 akasa-core/src/protocols/mqtt/v5/session.rs        | 2 +-
 akasa-core/src/state.rs                            | 4 +---
 12 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/akasa-core/src/lib.rs b/akasa-core/src/lib.rs
index 97923ea..3114070 100644
--- a/akasa-core/src/lib.rs
+++ b/akasa-core/src/lib.rs
@@ -33,4 +33,13 @@ pub mod verif {
     pub use crate::state::{
         AddClientReceipt, ClientId, ClientReceiver, ControlMessage, NormalMessage,
     };
+
+    thread_local! {
+        /// What `get_unix_ts()` returns on this thread.
+        pub static UNIX_TS: std::cell::Cell<Option<fn() -> u64>> = const { std::cell::Cell::new(None) };
+    }
+
+    pub(crate) fn unix_ts() -> Option<u64> {
+        UNIX_TS.get().map(|now| now())
+    }
 }
diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index 6f47f08..369a1ea 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -1,9 +1,10 @@
 use std::io;
 use std::sync::Arc;
-use std::time::{Duration, Instant};
+use std::time::Duration;
 
 use parking_lot::RwLock;
 
+use crate::protocols::mqtt::Instant;
 use crate::state::{ClientId, ControlMessage, GlobalState};
 
 pub(crate) fn start_keep_alive_timer(
diff --git a/akasa-core/src/protocols/mqtt/mod.rs b/akasa-core/src/protocols/mqtt/mod.rs
index 379cc46..3689b77 100644
--- a/akasa-core/src/protocols/mqtt/mod.rs
+++ b/akasa-core/src/protocols/mqtt/mod.rs
@@ -11,6 +11,15 @@ pub mod v5;
 pub(crate) use common::start_keep_alive_timer;
 pub(crate) use online_loop::drain_broadcast;
 pub(crate) use pending::get_unix_ts;
+// the verification harness runs in virtual time
+#[allow(unexpected_cfgs)]
+mod clock {
+    #[cfg(not(akasa_verif))]
+    pub(crate) use std::time::Instant;
+    #[cfg(akasa_verif)]
+    pub(crate) use tokio::time::Instant;
+}
+pub(crate) use clock::Instant;
 
 pub use auth::{MIN_SALT_LEN, check_password, dump_passwords, hash_password, load_passwords};
 pub use online_loop::{BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, WritePacket};
diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index e6bff72..76dc977 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -179,6 +179,11 @@ pub enum PendingPacketStatus<P> {
 
 /// Unix timestamp as seconds
 pub(crate) fn get_unix_ts() -> u64 {
+    #[allow(unexpected_cfgs)]
+    #[cfg(akasa_verif)]
+    if let Some(ts) = crate::verif::unix_ts() {
+        return ts;
+    }
     match SystemTime::now().duration_since(SystemTime::UNIX_EPOCH) {
         Ok(n) => n.as_secs(),
         Err(_) => panic!("SystemTime before UNIX EPOCH!"),
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 5831213..6086c24 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -1,5 +1,4 @@
 use std::io;
-use std::time::Instant;
 
 use mqtt_proto::{
     QoS, QosPid,
@@ -7,7 +6,7 @@ use mqtt_proto::{
 };
 use tokio::io::{AsyncWrite, AsyncWriteExt};
 
-use crate::protocols::mqtt::{PendingPacketStatus, get_unix_ts};
+use crate::protocols::mqtt::{Instant, PendingPacketStatus, get_unix_ts};
 use crate::state::ClientId;
 
 use super::Session;
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 0ac0fcb..f9661e3 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -1,6 +1,5 @@
 use std::io;
 use std::sync::Arc;
-use std::time::Instant;
 
 use mqtt_proto::{
     Protocol,
@@ -8,7 +7,7 @@ use mqtt_proto::{
 };
 use tokio::io::AsyncWrite;
 
-use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
+use crate::protocols::mqtt::{Instant, check_password, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
 use super::super::message::send_will;
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index 2ad73e8..be5ddb4 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -1,6 +1,5 @@
 use std::net::SocketAddr;
 use std::sync::Arc;
-use std::time::Instant;
 
 use bytes::Bytes;
 use hashbrown::HashMap;
@@ -8,6 +7,7 @@ use mqtt_proto::{Pid, Protocol, QoS, TopicFilter, TopicName, v3::LastWill};
 use parking_lot::RwLock;
 
 use crate::config::Config;
+use crate::protocols::mqtt::Instant;
 use crate::state::{ClientId, ClientReceiver};
 
 use super::{BroadcastPackets, PendingPackets};
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 8833266..e11567a 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -3,7 +3,7 @@ use std::io;
 use std::mem::{self, MaybeUninit};
 use std::net::SocketAddr;
 use std::sync::Arc;
-use std::time::{Duration, Instant};
+use std::time::Duration;
 
 use bytes::Bytes;
 use flume::{Receiver, Sender};
@@ -24,8 +24,8 @@ use crate::hook::{
     UnsubscribeAction, handle_request,
 };
 use crate::protocols::mqtt::{
-    BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
-    drain_broadcast,
+    BroadcastPackets, Disconnected, Instant, OnlineLoop, OnlineSession, PendingPackets,
+    WritePacket, drain_broadcast,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d39ca68..52baf2f 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -1,7 +1,6 @@
 use std::borrow::Cow;
 use std::io;
 use std::sync::Arc;
-use std::time::Instant;
 
 use hashbrown::HashMap;
 use mqtt_proto::{
@@ -13,7 +12,7 @@ use mqtt_proto::{
 };
 use tokio::io::{AsyncWrite, AsyncWriteExt};
 
-use crate::protocols::mqtt::{PendingPacketStatus, PendingPackets, get_unix_ts};
+use crate::protocols::mqtt::{Instant, PendingPacketStatus, PendingPackets, get_unix_ts};
 use crate::state::ClientId;
 
 use super::{PubPacket, Session};
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index ed0ea07..d2db303 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -1,6 +1,5 @@
 use std::io;
 use std::sync::Arc;
-use std::time::Instant;
 
 use bytes::Bytes;
 use mqtt_proto::{
@@ -13,7 +12,7 @@ use mqtt_proto::{
 use tokio::io::AsyncWrite;
 
 use crate::config::SaslMechanism;
-use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
+use crate::protocols::mqtt::{Instant, check_password, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
 use super::common::{build_error_connack, build_error_disconnect, write_packet};
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 067dfc2..a9dac2a 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -1,6 +1,5 @@
 use std::net::SocketAddr;
 use std::sync::Arc;
-use std::time::Instant;
 
 use bytes::Bytes;
 use hashbrown::HashMap;
@@ -11,6 +10,7 @@ use mqtt_proto::{
 use parking_lot::RwLock;
 
 use crate::config::Config;
+use crate::protocols::mqtt::Instant;
 use crate::protocols::scram::server::ScramServer;
 use crate::state::{ClientId, ClientReceiver};
 
diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index b3a7ab8..d202bf6 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -5,8 +5,6 @@ use std::num::NonZeroU32;
 
 use std::sync::atomic::{AtomicU64, Ordering};
 
-use std::time::Instant;
-
 use bytes::Bytes;
 use dashmap::DashMap;
 use flume::{Receiver, Sender, bounded};
@@ -14,7 +12,7 @@ use mqtt_proto::{Protocol, QoS, TopicFilter, TopicName, v5::PublishProperties};
 use parking_lot::Mutex;
 
 use crate::config::Config;
-use crate::protocols::mqtt::{self, RetainTable, RouteTable};
+use crate::protocols::mqtt::{self, Instant, RetainTable, RouteTable};
 
 pub struct GlobalState {
     // The next client internal id
-- 
2.43.0


From 8626bcd6d8c78fb49be2c7d19375fa504443c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 33/48] fix: the keep alive timer of an old connection could
 close the one that had taken over its session

---
 akasa-core/src/protocols/mqtt/common.rs     |  7 ++++---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 +++++++++-
 akasa-core/src/protocols/mqtt/v5/message.rs | 10 +++++++++-
 akasa-core/src/state.rs                     |  5 ++++-
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index 369a1ea..60050ae 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -1,5 +1,5 @@
 use std::io;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::Duration;
 
 use parking_lot::RwLock;
@@ -23,11 +23,11 @@ pub(crate) fn start_keep_alive_timer(
         let global = Arc::clone(global);
         let action_gen = move || {
             // Need clone twice: https://stackoverflow.com/a/68462908/1274372
-            let last_packet_time = last_packet_time.upgrade();
+            let last_packet_time = Weak::clone(&last_packet_time);
             let global = Arc::clone(&global);
             async move {
                 {
-                    let last_packet_time = last_packet_time?;
+                    let last_packet_time = last_packet_time.upgrade()?;
                     if last_packet_time.read().elapsed() <= half_interval * 3 {
                         return Some(half_interval);
                     }
@@ -36,6 +36,7 @@ pub(crate) fn start_keep_alive_timer(
                 if let Some(sender) = global.get_client_control_sender(&client_id) {
                     let msg = ControlMessage::Kick {
                         reason: "timeout".to_owned(),
+                        last_packet_time,
                     };
                     if let Err(err) = sender.send_async(msg).await {
                         log::warn!(
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 5cf63e0..fb791e4 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -577,12 +577,20 @@ fn handle_control(
         ControlMessage::OnlineV5 { .. } => {
             log::info!("take over v3.x by v5.x client is not allowed");
         }
-        ControlMessage::Kick { reason } => {
+        ControlMessage::Kick {
+            reason,
+            last_packet_time,
+        } => {
             if offline {
                 log::info!(
                     "ignore kick message when client {} is offline",
                     session.client_id
                 );
+            } else if last_packet_time.as_ptr() != Arc::as_ptr(&session.last_packet_time) {
+                log::info!(
+                    "ignore kick message for an old connection of client {}",
+                    session.client_id
+                );
             } else {
                 log::info!(
                     "kick \"{}\", reason: {}, online: {}",
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index e11567a..a1b024f 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -787,12 +787,20 @@ fn handle_control(
             log::warn!("take over v5.x session by v3.x client is not allowed");
         }
         ControlMessage::OnlineV5 { sender } => return (false, Some(sender)),
-        ControlMessage::Kick { reason } => {
+        ControlMessage::Kick {
+            reason,
+            last_packet_time,
+        } => {
             if offline {
                 log::info!(
                     "ignore kick message when client {} is offline",
                     session.client_id
                 );
+            } else if last_packet_time.as_ptr() != Arc::as_ptr(&session.last_packet_time) {
+                log::info!(
+                    "ignore kick message for an old connection of client {}",
+                    session.client_id
+                );
             } else {
                 log::info!(
                     "kick \"{}\", reason: {}, online: {}",
diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index d202bf6..d382e58 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -3,13 +3,14 @@ use std::fmt;
 use std::io;
 use std::num::NonZeroU32;
 
+use std::sync::Weak;
 use std::sync::atomic::{AtomicU64, Ordering};
 
 use bytes::Bytes;
 use dashmap::DashMap;
 use flume::{Receiver, Sender, bounded};
 use mqtt_proto::{Protocol, QoS, TopicFilter, TopicName, v5::PublishProperties};
-use parking_lot::Mutex;
+use parking_lot::{Mutex, RwLock};
 
 use crate::config::Config;
 use crate::protocols::mqtt::{self, Instant, RetainTable, RouteTable};
@@ -239,6 +240,8 @@ pub enum ControlMessage {
     /// Kick client out (disconnect the client)
     Kick {
         reason: String,
+        /// Identify the connection, the client may use another one already
+        last_packet_time: Weak<RwLock<Instant>>,
     },
     SessionExpired {
         connected_time: Instant,
-- 
2.43.0


From b9d546c5a3de8d447e7ba7952c66e6a3acd78d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 34/48] fix: a client that had to wait for its session was
 disconnected as silent right after the CONNACK

---
 akasa-core/src/protocols/mqtt/common.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index 60050ae..b75cce7 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -17,6 +17,8 @@ pub(crate) fn start_keep_alive_timer(
     if keep_alive > 0 {
         let half_interval = Duration::from_millis(keep_alive as u64 * 500);
         log::debug!("{} keep alive: {:?}", client_id, half_interval * 2);
+        // Time spent on authentication or take over is not the client's silence
+        *last_packet_time.write() = Instant::now();
         // NOTE: the session owns the time, when it's dropped the connection is finished (the client
         // may already use another connection)
         let last_packet_time = Arc::downgrade(last_packet_time);
-- 
2.43.0


From b3e366510c0a7cff0eeda71dd25e3155a5316c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 35/48] fix: a client was disconnected as silent while a hook
 handled the packet it had sent

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 6 ++++--
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index fb791e4..80b3b7b 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -21,8 +21,8 @@ use crate::hook::{
     UnsubscribeAction, handle_request,
 };
 use crate::protocols::mqtt::{
-    BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
-    drain_broadcast,
+    BroadcastPackets, Disconnected, Instant, OnlineLoop, OnlineSession, PendingPackets,
+    WritePacket, drain_broadcast,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -308,6 +308,8 @@ impl OnlineSession for Session {
         write_packets: &mut VecDeque<WritePacket<Self::Packet>>,
         global: &Arc<GlobalState>,
     ) -> Result<Option<HookRequest>, Option<io::Error>> {
+        // The hooks may take their time
+        *self.last_packet_time.write() = Instant::now();
         if encode_len > global.config.max_packet_size_server as usize {
             log::debug!(
                 "packet too large, size={}, max={}",
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index a1b024f..88459ca 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -472,6 +472,8 @@ impl OnlineSession for Session {
         write_packets: &mut VecDeque<WritePacket<Self::Packet>>,
         global: &Arc<GlobalState>,
     ) -> Result<Option<HookRequest>, Option<io::Error>> {
+        // The hooks may take their time
+        *self.last_packet_time.write() = Instant::now();
         if encode_len > global.config.max_packet_size_server as usize {
             log::debug!(
                 "packet too large, size={}, max={}",
-- 
2.43.0


From 70a5c18a1d77af88eebced57abc9a1864f39e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 36/48] fix: a message already sent to a v5 client was given up
 when the session was resumed after its expiry interval

---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index 52baf2f..c29ae64 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -221,7 +221,9 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                 let mut message_expiry_interval = None;
                 if let Some(value) = packet.properties.message_expiry_interval {
                     let passed_secs = now_ts - *added_at;
-                    if *last_sent == 0 && passed_secs >= value as u64 {
+                    // NOTE: `last_sent` is reset when the session is resumed, a message that was
+                    // sent already must be sent again ([MQTTv5.0-4.4.0-1])
+                    if !*dup && passed_secs >= value as u64 {
                         let pid = *pid;
                         let removed = discard_packet(pending_packets, pid);
                         start_idx = start_idx.saturating_sub(removed);
-- 
2.43.0


From 15399d099653a91556c21b23d731cc606b3b0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 37/48] fix: expired messages were sent to v3 clients

---
 akasa-core/src/protocols/mqtt/v3/message.rs          | 9 +++++++--
 akasa-core/src/protocols/mqtt/v3/packet/common.rs    | 9 +++++++++
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs   | 2 ++
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs | 1 +
 akasa-core/src/protocols/mqtt/v3/session.rs          | 2 ++
 5 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 80b3b7b..8dd63a4 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -22,7 +22,7 @@ use crate::hook::{
 };
 use crate::protocols::mqtt::{
     BroadcastPackets, Disconnected, Instant, OnlineLoop, OnlineSession, PendingPackets,
-    WritePacket, drain_broadcast,
+    WritePacket, drain_broadcast, get_unix_ts,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -640,6 +640,7 @@ fn handle_normal(
                     // [MQTT-3.3.1-9]
                     retain: false,
                     payload,
+                    expires_at: None,
                     subscribe_filter,
                     subscribe_qos,
                 },
@@ -652,7 +653,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
-            properties: _,
+            ref properties,
             encode_len: _,
         } => {
             log::debug!(
@@ -668,6 +669,10 @@ fn handle_normal(
                     // [MQTT-3.3.1-9]
                     retain: false,
                     payload,
+                    // the expiry interval can't be forwarded to the v3.x client
+                    expires_at: properties
+                        .message_expiry_interval
+                        .map(|value| get_unix_ts() + value as u64),
                     subscribe_filter: subscribe_filters.first()?,
                     subscribe_qos,
                 },
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 6086c24..f68cb23 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -32,6 +32,15 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                 packet,
                 ..
             } => {
+                if !*dup && packet.expires_at.is_some_and(|ts| get_unix_ts() >= ts) {
+                    let pid = *pid;
+                    let old_len = session.pending_packets.len();
+                    // If it is a QoS2 message, it's MUST also treated as QoS1 message
+                    session.pending_packets.complete(pid, QoS::Level1);
+                    session.pending_packets.clean_complete();
+                    start_idx = start_idx.saturating_sub(old_len - session.pending_packets.len());
+                    continue;
+                }
                 let qos_pid = match packet.qos {
                     QoS::Level0 => QosPid::Level0,
                     QoS::Level1 => QosPid::Level1(*pid),
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 0117ab1..2e90481 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -162,6 +162,7 @@ pub(crate) struct RecvPublish<'a> {
     pub qos: QoS,
     pub retain: bool,
     pub payload: &'a Bytes,
+    pub expires_at: Option<u64>,
     pub subscribe_filter: &'a TopicFilter,
     pub subscribe_qos: QoS,
 }
@@ -279,6 +280,7 @@ pub(crate) fn recv_publish(
                 qos: final_qos,
                 retain: msg.retain,
                 payload: msg.payload.clone(),
+                expires_at: msg.expires_at,
             },
         );
         // TODO: pending messages queue is full
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index f3009d4..4fd0c79 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -50,6 +50,7 @@ packet id : {}
                     qos: msg.qos,
                     retain: true,
                     payload: &msg.payload,
+                    expires_at: None,
                     subscribe_filter: filter,
                     subscribe_qos: granted_qos,
                 },
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index be5ddb4..6537d00 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -105,4 +105,6 @@ pub struct PubPacket {
     pub qos: QoS,
     pub retain: bool,
     pub payload: Bytes,
+    /// The unix timestamp when the message expires (published by a v5.x client)
+    pub expires_at: Option<u64>,
 }
-- 
2.43.0


From 11bf20af05abf4141eb10b41f571995f253398f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 38/48] fix: retained messages never expired

---
 akasa-core/src/protocols/mqtt/retain.rs       | 24 +++++++++++++++++++
 .../src/protocols/mqtt/v3/packet/subscribe.rs |  2 +-
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  2 +-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/retain.rs b/akasa-core/src/protocols/mqtt/retain.rs
index 185a798..53f3587 100644
--- a/akasa-core/src/protocols/mqtt/retain.rs
+++ b/akasa-core/src/protocols/mqtt/retain.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
 };
 use parking_lot::RwLock;
 
+use super::get_unix_ts;
 use super::route::split_topic;
 
 #[derive(Debug, Default)]
@@ -30,6 +31,8 @@ pub struct RetainContent {
     pub payload: Bytes,
     pub properties: Option<PublishProperties>,
     pub encode_len: usize,
+    // the unix timestamp when the message expires
+    pub expires_at: Option<u64>,
 }
 
 impl RetainTable {
@@ -41,6 +44,8 @@ impl RetainTable {
         let mut retains = Vec::new();
         self.inner
             .get_matches(filter_item, rest_items, wildcard_first, &mut retains);
+        // [MQTTv5.0-3.3.2-6] the copies sent to later subscribers expire too
+        retains.retain(|content| !content.is_expired());
         retains
     }
 
@@ -166,6 +171,10 @@ impl RetainContent {
         properties: Option<PublishProperties>,
         encode_len: usize,
     ) -> RetainContent {
+        let expires_at = properties
+            .as_ref()
+            .and_then(|properties| properties.message_expiry_interval)
+            .map(|value| get_unix_ts() + value as u64);
         RetainContent {
             client_identifier,
             qos,
@@ -173,8 +182,23 @@ impl RetainContent {
             payload,
             properties,
             encode_len,
+            expires_at,
         }
     }
+
+    fn is_expired(&self) -> bool {
+        self.expires_at.is_some_and(|ts| get_unix_ts() >= ts)
+    }
+
+    /// The properties to be sent to a new subscriber, the message expiry interval is what's left
+    /// of it.
+    pub fn current_properties(&self) -> Option<PublishProperties> {
+        let mut properties = self.properties.clone()?;
+        properties.message_expiry_interval = self
+            .expires_at
+            .map(|ts| ts.saturating_sub(get_unix_ts()) as u32);
+        Some(properties)
+    }
 }
 
 #[cfg(test)]
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 4fd0c79..991d178 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -50,7 +50,7 @@ packet id : {}
                     qos: msg.qos,
                     retain: true,
                     payload: &msg.payload,
-                    expires_at: None,
+                    expires_at: msg.expires_at,
                     subscribe_filter: filter,
                     subscribe_qos: granted_qos,
                 },
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index b41d1a6..91a3992 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -110,7 +110,7 @@ packet id : {}
                                 payload: &msg.payload,
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
-                                properties: msg.properties.as_ref(),
+                                properties: msg.current_properties().as_ref(),
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From 1236bb3ee4be94d87c879dbc84e14a84a22ca022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 39/48] fix: v3 clients refused by the before connect hook got
 no CONNACK with the return code

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 8dd63a4..2947362 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -10,7 +10,7 @@ use hashbrown::HashMap;
 use mqtt_proto::{
     Error, IoErrorKind, Pid, Protocol, QoS, QosPid,
     v3::{
-        Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
+        Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
         SubscribeReturnCode, Unsubscribe,
     },
 };
@@ -130,7 +130,7 @@ async fn handle_online<
 
     // Run before connect hook
     if global.config.hook.enable_before_connect {
-        before_connect_hook(peer, &packet, hook_handler, global).await?;
+        before_connect_hook(&session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
     let mut io_error = connect_session(
@@ -681,7 +681,9 @@ fn handle_normal(
     }
 }
 
-async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
+async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
+    session: &Session,
+    conn: &mut T,
     peer: SocketAddr,
     packet: &Connect,
     hook_handler: &H,
@@ -696,6 +698,8 @@ async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
         _ => panic!("invalid response"),
     };
     if code != ConnectReturnCode::Accepted {
+        let rv_packet = Connack::new(false, code).into();
+        write_packet(session.client_id, conn, &rv_packet).await?;
         return Err(io::ErrorKind::InvalidData.into());
     }
     Ok(())
-- 
2.43.0


From 23bb078901da3e1dd0fbfb611236f34c281ecda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 40/48] fix: retained messages for a subscription by a hook
 action were taken as sent to v3 clients

---
 akasa-core/src/hook.rs                               | 2 +-
 akasa-core/src/protocols/mqtt/v3/message.rs          | 4 ++--
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/hook.rs b/akasa-core/src/hook.rs
index 9eca654..10497de 100644
--- a/akasa-core/src/hook.rs
+++ b/akasa-core/src/hook.rs
@@ -722,7 +722,7 @@ pub async fn handle_request<H: Hook + Send + Sync>(
                 .await;
             let receipt = match result {
                 Ok(HookSubscribeCode::Success) => {
-                    match v3_handle_subscribe(session, &subscribe, &global) {
+                    match v3_handle_subscribe(session, &subscribe, true, &global) {
                         Ok(packets) => {
                             let mut codes = Vec::new();
                             for packet in packets {
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 2947362..8fa0f4b 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -349,7 +349,7 @@ impl OnlineSession for Session {
                     };
                     return Ok(Some(hook_request));
                 } else {
-                    let retain_packets = handle_subscribe(self, &pkt, global)?;
+                    let retain_packets = handle_subscribe(self, &pkt, true, global)?;
                     write_packets.extend(retain_packets.into_iter().map(WritePacket::Packet));
                 }
             }
@@ -424,7 +424,7 @@ impl OnlineSession for Session {
             }
             HookAction::Subscribe(SubscribeAction(topics)) => {
                 let subscribe = Subscribe::new(Pid::default(), topics.clone());
-                match handle_subscribe(self, &subscribe, global) {
+                match handle_subscribe(self, &subscribe, false, global) {
                     Ok(packets) => match &packets[0] {
                         Packet::Suback(suback) => {
                             for reason_code in &suback.topics {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 991d178..a6807a1 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -17,6 +17,7 @@ use super::publish::{RecvPublish, recv_publish};
 pub(crate) fn handle_subscribe(
     session: &mut Session,
     packet: &Subscribe,
+    send_retain: bool,
     global: &Arc<GlobalState>,
 ) -> io::Result<Vec<Packet>> {
     log::debug!(
@@ -40,6 +41,11 @@ packet id : {}
             .route_table
             .subscribe(filter, session.client_id, granted_qos);
 
+        if !send_retain {
+            return_codes.push(granted_qos.into());
+            continue;
+        }
+
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
             // the message is downgraded to the granted QoS
-- 
2.43.0


From a2c220999ea1c3c96f67f50dbcadbd9235146749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 41/48] fix: a connection blocked while writing its first
 pending messages could neither be taken over nor time out

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 6 +++++-
 akasa-core/src/protocols/mqtt/v3/message.rs  | 4 ----
 akasa-core/src/protocols/mqtt/v5/message.rs  | 4 ----
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 18d379c..379c699 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -74,6 +74,10 @@ where
         taken_over: &'a mut bool,
         packet_state: GenericPollPacketState<H>,
     ) -> Self {
+        // The messages the client missed: they are written by the loop so that the connection can
+        // be taken over or time out meanwhile
+        let mut write_packets = VecDeque::with_capacity(16);
+        session.after_handle_packet(&mut write_packets);
         OnlineLoop {
             session,
             global,
@@ -87,7 +91,7 @@ where
             read_unfinish: false,
             normal_stream_unfinish: false,
             write_packets_max: 16,
-            write_packets: VecDeque::with_capacity(16),
+            write_packets,
             flush_unfinish: false,
             session_state_sender: None,
             hook_fut: None,
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 8fa0f4b..70dbe41 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -227,10 +227,6 @@ async fn connect_session<
     if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
-
-    for packet in after_handle_packet(session) {
-        write_packet(session.client_id, conn, &packet).await?;
-    }
     Ok(())
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 88459ca..8c4965b 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -363,10 +363,6 @@ async fn connect_session<
     if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
-
-    for packet in after_handle_packet(session) {
-        write_packet(session.client_id, conn, &packet).await?;
-    }
     Ok(true)
 }
 
-- 
2.43.0


From 0df8ecb9b2d387ca0cabba78318e530b411e78e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 42/48] fix: timers of session expiry and will delay outlived
 the session they were for

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 15 +++++++++++----
 akasa-core/src/protocols/mqtt/v5/session.rs |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 8c4965b..bbc8555 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -81,8 +81,7 @@ pub async fn handle_connection<
             let client_id = session.client_id;
             let connected_time = session.connected_time.expect("connected time");
             let global_clone = Arc::clone(&global);
-            tokio::spawn(async move {
-                // FIXME: potencial memory leak
+            let expiry_timer = tokio::spawn(async move {
                 tokio::time::sleep(session_expiry).await;
                 if let Some(sender) = global_clone.get_client_control_sender(&client_id) {
                     let msg = ControlMessage::SessionExpired { connected_time };
@@ -95,7 +94,11 @@ pub async fn handle_connection<
                     }
                 }
             });
-            tokio::spawn(handle_offline(session, receiver, global));
+            tokio::spawn(async move {
+                handle_offline(session, receiver, global).await;
+                // the session is taken over or ended
+                expiry_timer.abort();
+            });
         }
         Ok(None) => {
             log::info!(
@@ -731,6 +734,9 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
             }
         };
     }
+    if let Some(will_timer) = session.will_timer.take() {
+        will_timer.abort();
+    }
     if !taken_over {
         global.remove_client(session.client_id, session.subscribes.keys());
     }
@@ -752,7 +758,7 @@ async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Re
             let client_id = session.client_id;
             let connected_time = session.connected_time.expect("connected time (will)");
             let global = Arc::clone(global);
-            tokio::spawn(async move {
+            let will_timer = tokio::spawn(async move {
                 tokio::time::sleep(Duration::from_secs(delay_interval as u64)).await;
                 if let Some(sender) = global.get_client_control_sender(&client_id) {
                     let msg = ControlMessage::WillDelayReached { connected_time };
@@ -765,6 +771,7 @@ async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Re
                     }
                 }
             });
+            session.will_timer = Some(will_timer.abort_handle());
         } else {
             // Handle will in SessionExpired event
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index a9dac2a..e701bb6 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
     v5::{LastWill, PublishProperties, SubscriptionOptions, UserProperty, VarByteInt},
 };
 use parking_lot::RwLock;
+use tokio::task::AbortHandle;
 
 use crate::config::Config;
 use crate::protocols::mqtt::Instant;
@@ -28,6 +29,8 @@ pub struct Session {
     pub connected_time: Option<Instant>,
     // When received a disconnect or tcp connection closed
     pub(super) connection_closed_time: Option<Instant>,
+    // the timer of the delayed will
+    pub(super) will_timer: Option<AbortHandle>,
     // last package timestamp
     pub last_packet_time: Arc<RwLock<Instant>>,
     // For record packet id send from server to client
@@ -104,6 +107,7 @@ impl Session {
             scram_stage: ScramStage::default(),
             connected_time: None,
             connection_closed_time: None,
+            will_timer: None,
             last_packet_time: Arc::new(RwLock::new(Instant::now())),
             server_packet_id: Pid::default(),
             pending_packets: PendingPackets::new(
-- 
2.43.0


From ef03649af3f89c718e6bd48361946bad3be278cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 43/48] fix: an error or crash while saving the password file
 lost all users

---
 akasa/src/main.rs | 49 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/akasa/src/main.rs b/akasa/src/main.rs
index 6c52a1b..2402e87 100644
--- a/akasa/src/main.rs
+++ b/akasa/src/main.rs
@@ -3,7 +3,7 @@ mod logger;
 
 use std::fs;
 use std::num::NonZeroU32;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
 use akasa_core::{
@@ -176,15 +176,13 @@ fn main() -> anyhow::Result<()> {
                     salt,
                 },
             );
-            let file = fs::File::create(&path)?;
-            dump_passwords(&file, &auth_passwords)?;
+            save_passwords(&path, &auth_passwords)?;
             println!("add/update user={username} to {path:?}");
         }
         Commands::RemovePassword { path, username } => {
             let auth_passwords = load_passwords(&fs::File::open(&path)?)?;
             if auth_passwords.remove(&username).is_some() {
-                let file = fs::File::create(&path)?;
-                dump_passwords(&file, &auth_passwords)?;
+                save_passwords(&path, &auth_passwords)?;
                 println!("removed user={username} from {path:?}");
             } else {
                 println!("user={username} not found");
@@ -193,3 +191,44 @@ fn main() -> anyhow::Result<()> {
     }
     Ok(())
 }
+
+/// Replace the password file in one step, an error (or a crash) must not leave a truncated file
+fn save_passwords(
+    path: &Path,
+    auth_passwords: &DashMap<String, AuthPassword>,
+) -> anyhow::Result<()> {
+    // follow the symbolic links
+    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_owned());
+    let metadata = fs::metadata(&path).ok();
+    if metadata.as_ref().is_some_and(|meta| !meta.is_file()) {
+        return Ok(dump_passwords(fs::File::create(&path)?, auth_passwords)?);
+    }
+
+    let mut new_path = path.clone().into_os_string();
+    new_path.push(".new");
+    let result = write_passwords(Path::new(&new_path), metadata, auth_passwords)
+        .and_then(|()| Ok(fs::rename(&new_path, &path)?));
+    if result.is_err() {
+        let _ = fs::remove_file(&new_path);
+    }
+    result
+}
+
+fn write_passwords(
+    path: &Path,
+    metadata: Option<fs::Metadata>,
+    auth_passwords: &DashMap<String, AuthPassword>,
+) -> anyhow::Result<()> {
+    let file = fs::File::create(path)?;
+    if let Some(metadata) = metadata {
+        #[cfg(unix)]
+        {
+            use std::os::unix::fs::MetadataExt;
+            std::os::unix::fs::fchown(&file, Some(metadata.uid()), Some(metadata.gid()))?;
+        }
+        file.set_permissions(metadata.permissions())?;
+    }
+    dump_passwords(&file, auth_passwords)?;
+    file.sync_all()?;
+    Ok(())
+}
-- 
2.43.0


From e1d58e300572c82dde0a4c31c633198c4443e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 44/48] fix: user names the password file can not hold were
 written as other users

---
 akasa-core/src/protocols/mqtt/auth.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index 28b74b5..cb8009e 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -137,6 +137,11 @@ pub fn dump_passwords<W: Write>(
     let mut writer = BufWriter::new(output);
     for item in passwords.iter() {
         let username = item.key();
+        // one trimmed line for each user
+        if username.contains('\n') || username.trim_start() != username {
+            log::error!("the password file can not hold user name: {:?}", username);
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
         let AuthPassword {
             hash_algorithm,
             hashed_password,
-- 
2.43.0


From 83ad93e7ba72e1a2ffc0073c720414e1b0227507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 45/48] fix: answer a repeated PUBREC with PUBREL Success

---
 akasa-core/src/protocols/mqtt/pending.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index 76dc977..6dace70 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -60,7 +60,12 @@ impl<P: Debug> PendingPackets<P> {
                         return true;
                     }
                 }
-                PendingPacketStatus::Pubrec { .. } => {}
+                // The receiver answered a redelivered packet too
+                PendingPacketStatus::Pubrec { pid, .. } => {
+                    if *pid == target_pid {
+                        return true;
+                    }
+                }
                 PendingPacketStatus::Complete => {}
             }
         }
-- 
2.43.0


From 34244594e49ef3ec1905d63086ac4ee62845f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 46/48] fix: a PUBREC with an error code ends the delivery
 instead of leaving it in flight

---
 akasa-core/src/protocols/mqtt/v5/message.rs        |  6 +++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 14 ++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index bbc8555..769f263 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -516,7 +516,11 @@ impl OnlineSession for Session {
                 }
             }
             Packet::Puback(pkt) => handle_puback(self, pkt),
-            Packet::Pubrec(pkt) => write_packets.push_back(handle_pubrec(self, pkt).into()),
+            Packet::Pubrec(pkt) => {
+                if let Some(rv_packet) = handle_pubrec(self, pkt) {
+                    write_packets.push_back(rv_packet.into());
+                }
+            }
             Packet::Pubrel(pkt) => write_packets.push_back(handle_pubrel(self, pkt).into()),
             Packet::Pubcomp(pkt) => handle_pubcomp(self, pkt),
             Packet::Subscribe(pkt) => {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 11dc1d0..4a81dea 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -237,23 +237,29 @@ pub(crate) fn handle_puback(session: &mut Session, packet: Puback) {
 }
 
 #[inline]
-pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Packet {
+pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Option<Packet> {
     log::debug!(
         "{} received a pubrec  packet: id={}",
         session.client_id,
         packet.pid.value()
     );
+    if packet.reason_code as u8 >= 0x80 {
+        // See: 4.4 Message delivery retry, 4.9 Flow Control
+        // The receiver refused the message: that is the end of it, there is nothing to release
+        let _matched = session.pending_packets.complete(packet.pid, QoS::Level1);
+        return None;
+    }
     let reason_code = if session.pending_packets.pubrec(packet.pid) {
         PubrelReasonCode::Success
     } else {
         PubrelReasonCode::PacketIdentifierNotFound
     };
-    Pubrel {
+    let rv_packet = Pubrel {
         pid: packet.pid,
         reason_code,
         properties: PubrelProperties::default(),
-    }
-    .into()
+    };
+    Some(rv_packet.into())
 }
 
 #[inline]
-- 
2.43.0


From 2ed0860f719046c48efacf0863d08ded828d44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 47/48] fix: the topic alias of a message refused by the hook
 was not set

---
 akasa-core/src/hook.rs                        |  6 ++++-
 .../src/protocols/mqtt/v5/packet/publish.rs   | 22 +++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/hook.rs b/akasa-core/src/hook.rs
index 10497de..bbf3c9a 100644
--- a/akasa-core/src/hook.rs
+++ b/akasa-core/src/hook.rs
@@ -23,7 +23,10 @@ use crate::protocols::mqtt::v3::{
 use crate::protocols::mqtt::v5::{
     Session as SessionV5,
     packet::{
-        publish::handle_publish as v5_handle_publish,
+        publish::{
+            handle_publish as v5_handle_publish,
+            handle_refused_publish as v5_handle_refused_publish,
+        },
         subscribe::{
             handle_subscribe as v5_handle_subscribe, handle_unsubscribe as v5_handle_unsubscribe,
         },
@@ -538,6 +541,7 @@ pub async fn handle_request<H: Hook + Send + Sync>(
                     }
                 }
                 Ok(code) => {
+                    v5_handle_refused_publish(session, &publish, &global);
                     match publish.qos_pid {
                         QosPid::Level0 => {}
                         QosPid::Level1(pid) => {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4a81dea..e5e3d39 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -226,6 +226,28 @@ topic name : {}
     }
 }
 
+/// Handle a publish packet which is refused by the hook: the message is not published
+#[inline]
+pub(crate) fn handle_refused_publish(
+    session: &mut Session,
+    packet: &Publish,
+    global: &Arc<GlobalState>,
+) {
+    // The client can use the topic alias it has set from now on
+    if let Some(alias) = packet.properties.topic_alias
+        && (1..=global.config.topic_alias_max).contains(&alias)
+        && !packet.topic_name.is_empty()
+    {
+        if packet.topic_name.starts_with('$') {
+            session.topic_aliases.remove(&alias);
+        } else {
+            session
+                .topic_aliases
+                .insert(alias, packet.topic_name.clone());
+        }
+    }
+}
+
 #[inline]
 pub(crate) fn handle_puback(session: &mut Session, packet: Puback) {
     log::debug!(
-- 
2.43.0


From 9ff6a32652d35e3d2b3c36218825149043d85ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 48/48] fix: the packet identifier of a redelivered message
 refused by the hook stayed in use

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index e5e3d39..05b8afd 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -246,6 +246,10 @@ pub(crate) fn handle_refused_publish(
                 .insert(alias, packet.topic_name.clone());
         }
     }
+    // The error code in PUBREC makes the packet identifier available again
+    if let QosPid::Level2(pid) = packet.qos_pid {
+        session.qos2_pids.remove(&pid);
+    }
 }
 
 #[inline]
-- 
2.43.0

