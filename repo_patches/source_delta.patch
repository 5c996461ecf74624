From 48ccc731cba721dca2180002f0bedae2fdc8293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/44] fix: replay SSE events only within the session's own
 stream

An unknown Last-Event-ID replayed every event of every session, and a known
one replayed later events of all sessions.
---
 src/server/streamable_http_server.rs | 43 +++++++++++-----------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d0232fa..563ad56 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -87,30 +87,18 @@ impl EventStore for InMemoryEventStore {
         &self,
         last_event_id: &str,
     ) -> Result<Vec<(String, TransportMessage)>> {
-        let event_order = self.event_order.read();
         let mut result = Vec::new();
 
-        // Find the position of the last event
-        let start_pos = event_order
-            .iter()
-            .position(|id| id == last_event_id)
-            .map_or(0, |pos| pos + 1);
-
-        // Collect all events after that position
-        let events = self.events.read();
-        let event_to_stream = self.event_to_stream.read();
-
-        for i in start_pos..event_order.len() {
-            let event_id = &event_order[i];
-            if let Some(stream_id) = event_to_stream.get(event_id) {
-                if let Some(stream_events) = events.get(stream_id) {
-                    for (eid, msg) in stream_events {
-                        if eid == event_id {
-                            result.push((eid.clone(), msg.clone()));
-                            break;
-                        }
-                    }
-                }
+        // Events are replayed only from the stream the last event belongs to;
+        // an unknown event ID replays nothing.
+        let Some(stream_id) = self.event_to_stream.read().get(last_event_id).cloned() else {
+            return Ok(result);
+        };
+
+        if let Some(stream_events) = self.events.read().get(&stream_id) {
+            // Collect all events of the stream after that position
+            if let Some(pos) = stream_events.iter().position(|(id, _)| id == last_event_id) {
+                result.extend(stream_events[pos + 1..].iter().cloned());
             }
         }
 
@@ -739,10 +727,13 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
         if let Ok(last_id) = last_event_id.to_str() {
             if let Some(event_store) = &state.config.event_store {
-                // Replay events after the last event ID
-                if let Ok(events) = event_store.replay_events_after(last_id).await {
-                    for (_event_id, msg) in events {
-                        let _ = tx.send(msg);
+                // Replay events after the last event ID, if that event belongs to this session
+                let stream = event_store.get_stream_for_event(last_id).await;
+                if matches!(stream, Ok(Some(ref sid)) if *sid == session_id) {
+                    if let Ok(events) = event_store.replay_events_after(last_id).await {
+                        for (_event_id, msg) in events {
+                            let _ = tx.send(msg);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 8ea5f241ef4034970bbe738736a4fa326b4fbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 02/44] fix: reject initialize with a session ID the server
 never issued

Such a request was answered as if it had created the session, but no session
entry existed, so every later request with that ID was refused.
---
 src/server/streamable_http_server.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 563ad56..ff13bff 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -348,15 +348,24 @@ fn process_init_session(
         // Stateful mode
         if let Some(sid) = session_id {
             // Check if session already exists and is initialized
-            if let Some(session_info) = state.sessions.read().get(&sid) {
-                if session_info.initialized {
+            match state.sessions.read().get(&sid) {
+                Some(session_info) if session_info.initialized => {
                     // Session already initialized - reject re-initialization
                     return Err(create_error_response(
                         StatusCode::BAD_REQUEST,
                         -32600,
                         "Session already initialized",
                     ));
-                }
+                },
+                Some(_) => {},
+                None => {
+                    // Session IDs are issued by the server only
+                    return Err(create_error_response(
+                        StatusCode::NOT_FOUND,
+                        -32600,
+                        "Unknown session ID",
+                    ));
+                },
             }
             // Use existing session ID
             Ok((Some(sid), false))
-- 
2.43.0


From c94e3dca2a2f5c6f88d180eb4113c5bc7529ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 03/44] fix: register an SSE stream under one lock acquisition

Two concurrent GETs could both pass the existence check and the second
replaced the first client's stream.
---
 src/server/streamable_http_server.rs | 29 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index ff13bff..fd3eae9 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -17,7 +17,7 @@ use axum::{
 use futures_util::StreamExt;
 use parking_lot::RwLock;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{hash_map::Entry, HashMap};
 use std::convert::Infallible;
 use std::net::SocketAddr;
 use std::sync::Arc;
@@ -716,21 +716,20 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         );
     };
 
-    // Check if stream already exists for this session
-    if state.sse_streams.read().contains_key(&session_id) {
-        return create_error_response(
-            StatusCode::CONFLICT,
-            -32600,
-            "SSE stream already exists for this session",
-        );
-    }
-
-    // Create SSE stream
+    // Create SSE stream, unless one already exists for this session
     let (tx, rx) = mpsc::unbounded_channel();
-    state
-        .sse_streams
-        .write()
-        .insert(session_id.clone(), tx.clone());
+    match state.sse_streams.write().entry(session_id.clone()) {
+        Entry::Occupied(_) => {
+            return create_error_response(
+                StatusCode::CONFLICT,
+                -32600,
+                "SSE stream already exists for this session",
+            );
+        },
+        Entry::Vacant(slot) => {
+            slot.insert(tx.clone());
+        },
+    }
 
     // Check for Last-Event-ID for resumability
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
-- 
2.43.0


From fc7804ec639d72ecc17ace67b56bc3ec7b369eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 04/44] fix: check and remove a session in one step on DELETE

Concurrent DELETEs of one session all passed the check and each ran the
session-closed callback.
---
 src/server/streamable_http_server.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index fd3eae9..8ba7f12 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -805,8 +805,8 @@ async fn handle_delete_session(
         .map(|s| s.to_string());
 
     if let Some(sid) = session_id {
-        // Check if session exists
-        let session_exists = state.sessions.read().contains_key(&sid);
+        // Remove session from tracking
+        let session_exists = state.sessions.write().remove(&sid).is_some();
 
         if !session_exists && state.config.session_id_generator.is_some() {
             // Unknown session in stateful mode
@@ -816,9 +816,6 @@ async fn handle_delete_session(
         // Remove SSE stream if exists
         state.sse_streams.write().remove(&sid);
 
-        // Remove session from tracking
-        state.sessions.write().remove(&sid);
-
         // Notify callback
         if let Some(callback) = &state.config.on_session_closed {
             callback(&sid);
-- 
2.43.0


From c5a4e8178a31f69f6d18e635279f21bf01fc21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 05/44] fix: consume a refresh token in one step so it is
 redeemed at most once

---
 src/server/auth/oauth2.rs | 42 ++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index da623e3..e428202 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -640,37 +640,25 @@ impl OAuthProvider for InMemoryOAuthProvider {
     }
 
     async fn refresh_token(&self, refresh_token: &str) -> Result<AccessToken> {
-        // Get associated access token
-        let refresh_tokens = self.refresh_tokens.read().await;
-        let old_token = refresh_tokens
-            .get(refresh_token)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?
-            .clone();
-
-        // Get token info
-        let tokens = self.tokens.read().await;
-        let token_info = tokens
-            .get(&old_token)
+        // Consume the refresh token: only the caller that removes it may redeem it
+        let old_token = self
+            .refresh_tokens
+            .write()
+            .await
+            .remove(refresh_token)
             .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
 
-        let client_id = token_info.client_id.clone();
-        let user_id = token_info.user_id.clone();
-        let scopes = token_info.scopes.clone();
-
-        drop(tokens);
-        drop(refresh_tokens);
-
-        // Remove old tokens
-        let mut tokens = self.tokens.write().await;
-        tokens.remove(&old_token);
-        drop(tokens);
-
-        let mut refresh_tokens = self.refresh_tokens.write().await;
-        refresh_tokens.remove(refresh_token);
-        drop(refresh_tokens);
+        // Take the associated access token
+        let token_info = self
+            .tokens
+            .write()
+            .await
+            .remove(&old_token)
+            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
 
         // Create new token
-        self.create_access_token(&client_id, &user_id, scopes).await
+        self.create_access_token(&token_info.client_id, &token_info.user_id, token_info.scopes)
+            .await
     }
 
     async fn revoke_token(&self, token: &str) -> Result<()> {
-- 
2.43.0


From 04edb918cc6be8fa7183e532e22bf18b8266a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 06/44] fix: do not hold the refresh-token lock while taking
 the token lock on revocation

---
 src/server/auth/oauth2.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index e428202..6309594 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -670,10 +670,9 @@ impl OAuthProvider for InMemoryOAuthProvider {
         drop(tokens);
 
         // Try to revoke as refresh token
-        let mut refresh_tokens = self.refresh_tokens.write().await;
-        if let Some(access_token) = refresh_tokens.remove(token) {
-            let mut tokens = self.tokens.write().await;
-            tokens.remove(&access_token);
+        let access_token = self.refresh_tokens.write().await.remove(token);
+        if let Some(access_token) = access_token {
+            self.tokens.write().await.remove(&access_token);
         }
 
         Ok(())
-- 
2.43.0


From cbd02395def9cf53a3e4e6b2ab284aec56a4b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:56 +0000
Subject: [PATCH 07/44] fix: let create_message through when the server
 advertises sampling

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6fb240e..dff097b 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1298,6 +1298,10 @@ impl<T: Transport> Client<T> {
                 .server_capabilities
                 .as_ref()
                 .is_some_and(|c| c.completions.is_some()),
+            "sampling" => self
+                .server_capabilities
+                .as_ref()
+                .is_some_and(|c| c.sampling.is_some()),
             _ => false,
         };
 
-- 
2.43.0


From 90664090bfbc3796078bb78655a2079d37a44202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 08/44] fix: forget an active client request when sending or
 receiving fails

---
 src/client/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index dff097b..b2d74c2 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1334,15 +1334,19 @@ impl<T: Transport> Client<T> {
             request,
         };
 
-        self.transport.write().await.send(message).await?;
-
         // Wait for response (this would be implemented with proper response routing)
         // For now, receive next message and assume it's our response
-        let response_message = self.transport.write().await.receive().await?;
+        let outcome = async {
+            self.transport.write().await.send(message).await?;
+            self.transport.write().await.receive().await
+        }
+        .await;
 
-        // Remove from active requests
+        // Remove from active requests, however the exchange ended
         self.active_requests.write().await.remove(&request_id);
 
+        let response_message = outcome?;
+
         match response_message {
             crate::types::TransportMessage::Response(response) => Ok(response),
             _ => Err(Error::protocol_msg(
-- 
2.43.0


From b56fb3913f0879f20aad478225376ed20888b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 09/44] fix: refuse to use HTTP and WebSocket transports after
 close

---
 src/shared/http.rs      | 8 ++++++++
 src/shared/websocket.rs | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 8e0a3a7..0185ace 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -237,6 +237,13 @@ impl HttpTransport {
 #[async_trait]
 impl Transport for HttpTransport {
     async fn send(&mut self, message: TransportMessage) -> Result<()> {
+        // The message queue is closed together with the transport
+        if self.message_tx.is_closed() {
+            return Err(crate::error::Error::Transport(
+                crate::error::TransportError::ConnectionClosed,
+            ));
+        }
+
         debug!("Sending HTTP message: {:?}", message);
         self.send_request(&message).await
     }
@@ -250,6 +257,7 @@ impl Transport for HttpTransport {
 
     async fn close(&mut self) -> Result<()> {
         *self.connected.write() = false;
+        self.message_queue.lock().await.close();
         info!("HTTP transport closed");
         Ok(())
     }
diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 7be0a17..9af5dbf 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -255,6 +255,12 @@ impl Transport for WebSocketTransport {
     }
 
     async fn receive(&mut self) -> Result<TransportMessage> {
+        if !self.is_connected() {
+            return Err(crate::error::Error::Transport(
+                crate::error::TransportError::ConnectionClosed,
+            ));
+        }
+
         let mut rx = self.message_rx.lock().await;
         rx.recv().await.ok_or_else(|| {
             crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
-- 
2.43.0


From fd7e7d0f1e3a89fe42e263d9fe17075e64f95d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 10/44] fix: do not allocate the announced Content-Length up
 front

---
 src/shared/stdio.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index 72fdc56..03f4b35 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -205,12 +205,22 @@ impl StdioTransport {
     /// Read message body with specified content length.
     async fn read_message_body(&self, content_length: usize) -> Result<Vec<u8>> {
         let mut stdin = self.stdin.lock().await;
-        let mut buffer = vec![0u8; content_length];
-        stdin
-            .read_exact(&mut buffer)
+        // Let the buffer grow with the bytes that actually arrive: the announced
+        // length is the peer's word only.
+        let mut buffer = Vec::new();
+        (&mut *stdin)
+            .take(content_length as u64)
+            .read_to_end(&mut buffer)
             .await
             .map_err(TransportError::from)?;
         drop(stdin);
+
+        if buffer.len() < content_length {
+            return Err(
+                TransportError::from(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))
+                    .into(),
+            );
+        }
         Ok(buffer)
     }
 
-- 
2.43.0


From 064b02d8df93f9af1577a4286ae5b11d0bcebdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 11/44] fix: apply the configured frame and message limits to
 WebSocket connections

---
 src/server/transport/websocket.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 1f5b1b7..eef1788 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -8,7 +8,10 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
-use tokio_tungstenite::{accept_async, tungstenite::protocol::Message};
+use tokio_tungstenite::{
+    accept_async_with_config,
+    tungstenite::protocol::{Message, WebSocketConfig},
+};
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
@@ -92,7 +95,11 @@ impl WebSocketServerTransport {
         info!("Accepting WebSocket connection from {}", peer_addr);
 
         // Accept the WebSocket handshake
-        let ws_stream = accept_async(tcp_stream)
+        let mut ws_config = WebSocketConfig::default();
+        ws_config.max_frame_size = self.config.max_frame_size;
+        ws_config.max_message_size = self.config.max_message_size;
+        ws_config.accept_unmasked_frames = self.config.accept_unmasked_frames;
+        let ws_stream = accept_async_with_config(tcp_stream, Some(ws_config))
             .await
             .map_err(|e| Error::internal(format!("WebSocket handshake failed: {}", e)))?;
 
-- 
2.43.0


From 03699cc78fc049cb4f2a022c4450519f4ae11b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 12/44] fix: send the configured headers with HTTP transport
 requests

---
 src/shared/http.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 0185ace..9741826 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -104,11 +104,15 @@ impl HttpTransport {
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
             info!("Connecting to SSE endpoint: {}", sse_url);
 
-            let req = Request::builder()
+            let mut builder = Request::builder()
                 .method(Method::GET)
                 .uri(sse_url.as_str())
                 .header("Accept", "text/event-stream")
-                .header("Cache-Control", "no-cache")
+                .header("Cache-Control", "no-cache");
+            for (name, value) in &self.config.headers {
+                builder = builder.header(name.as_str(), value.as_str());
+            }
+            let req = builder
                 .body(Full::new(Bytes::new()))
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
@@ -188,10 +192,14 @@ impl HttpTransport {
             )))
         })?;
 
-        let req = Request::builder()
+        let mut builder = Request::builder()
             .method(Method::POST)
             .uri(self.config.base_url.as_str())
-            .header("Content-Type", "application/json")
+            .header("Content-Type", "application/json");
+        for (name, value) in &self.config.headers {
+            builder = builder.header(name.as_str(), value.as_str());
+        }
+        let req = builder
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
-- 
2.43.0


From c73ab0b33b4e33a55b03fd133e6b247138c69ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 13/44] fix: accept the empty acknowledgement of an HTTP
 notification

---
 src/shared/http.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 9741826..40ef00b 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -212,7 +212,7 @@ impl HttpTransport {
                 ))
             })?;
 
-        if response.status() != StatusCode::OK {
+        if !response.status().is_success() {
             return Err(crate::error::Error::Transport(
                 crate::error::TransportError::InvalidMessage(format!(
                     "HTTP request failed with status: {}",
@@ -231,6 +231,11 @@ impl HttpTransport {
                 ))
             })?
             .to_bytes();
+
+        // Notifications are acknowledged without a body
+        if body_bytes.is_empty() && !matches!(message, TransportMessage::Request { .. }) {
+            return Ok(());
+        }
         let response_msg = crate::shared::stdio::StdioTransport::parse_message(&body_bytes)?;
 
         // Send response through message queue
-- 
2.43.0


From 716e3fb09edfa958915079e1ef4ee2a3f65564b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 14/44] fix: forget the session ID on close even if the DELETE
 fails

---
 src/shared/streamable_http.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index f54f7f7..c6b88c5 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -458,19 +458,19 @@ impl Transport for StreamableHttpTransport {
         // Optionally send a DELETE request to terminate the session
         if let Some(_session_id) = self.session_id() {
             let url = self.config.read().url.clone();
-            let builder = self.build_request(reqwest::Method::DELETE, url).await?;
+            let builder = self.build_request(reqwest::Method::DELETE, url).await;
+
+            // The session is over for this client even if the DELETE cannot be built or sent
+            self.config.write().session_id = None;
 
             // Send DELETE request (ignore 405 as per spec)
-            let response = builder.send().await;
+            let response = builder?.send().await;
             if let Ok(resp) = response {
                 if !resp.status().is_success() && resp.status().as_u16() != 405 {
                     // Log error but don't fail close operation
                     tracing::warn!("Failed to terminate session: {}", resp.status());
                 }
             }
-
-            // Clear session ID
-            self.config.write().session_id = None;
         }
 
         Ok(())
-- 
2.43.0


From 43464edeef1fd29d210d3730bba2d0b30e1d4ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 15/44] fix: take debounced notifications out of the pending
 set when flushing

flush() sent every pending notification but left it pending, so it was sent again,
and it kept the lock while waiting for room in the output queue.
---
 src/server/notification_debouncer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 0133a34..7381cf4 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -296,15 +296,15 @@ async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
 ) {
-    let pending_map = pending.write().await;
+    let to_flush = std::mem::take(&mut *pending.write().await);
 
-    for (_, pending_notif) in pending_map.iter() {
+    for (_, pending_notif) in to_flush {
         // Send the main notification
-        let _ = output_tx.send(pending_notif.notification.clone()).await;
+        let _ = output_tx.send(pending_notif.notification).await;
 
         // Send any merged notifications
-        for merged in &pending_notif.mergeable {
-            let _ = output_tx.send(merged.clone()).await;
+        for merged in pending_notif.mergeable {
+            let _ = output_tx.send(merged).await;
         }
     }
 }
-- 
2.43.0


From 06d45337a3adf1f0c60a2f35f18729ab71683a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 16/44] fix: do not hold the batch lock while sending a
 notification batch

---
 src/server/notification_debouncer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 7381cf4..1a00720 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -363,8 +363,8 @@ impl NotificationBatcher {
             tokio::spawn(async move {
                 sleep(timeout).await;
 
-                let mut batches = batches_clone.write().await;
-                if let Some(batch) = batches.remove(&key) {
+                let batch = batches_clone.write().await.remove(&key);
+                if let Some(batch) = batch {
                     if !batch.is_empty() {
                         let _ = output_tx.send(batch).await;
                     }
@@ -377,9 +377,9 @@ impl NotificationBatcher {
 
     /// Flush all batches
     pub async fn flush(&self) -> Result<()> {
-        let mut batches = self.batches.write().await;
+        let batches = std::mem::take(&mut *self.batches.write().await);
 
-        for (_, batch) in batches.drain() {
+        for (_, batch) in batches {
             if !batch.is_empty() {
                 let _ = self.output_tx.send(batch).await;
             }
-- 
2.43.0


From 013eda8d51175c1f561c3b415717619675bb15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 17/44] fix: debounce root and log notifications under their
 own keys

They shared the key "unknown", so one superseded the other.
---
 src/server/notification_debouncer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 1a00720..784b4e7 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -229,8 +229,10 @@ fn notification_key(notification: &ServerNotification) -> String {
         ServerNotification::ResourcesChanged => "resource_list_changed".to_string(),
         ServerNotification::ToolsChanged => "tool_list_changed".to_string(),
         ServerNotification::PromptsChanged => "prompt_list_changed".to_string(),
-        #[allow(unreachable_patterns)]
-        _ => "unknown".to_string(),
+        ServerNotification::RootsListChanged => "roots_list_changed".to_string(),
+        ServerNotification::LogMessage(params) => {
+            format!("log:{:?}:{:?}", params.logger, params.level)
+        },
     }
 }
 
-- 
2.43.0


From e501d3054e7ffe0334128b7ff8ddbc46496c28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 18/44] fix: do not hold the resource table lock while sending
 update notifications

---
 src/server/resource_watcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 7866e79..639004d 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -147,8 +147,8 @@ async fn process_events(
         for (path, kind) in events_to_process {
             let uri = format!("file://{}", path.display());
 
-            let resources = resources.read().await;
-            if resources.contains_key(&uri) {
+            let known = resources.read().await.contains_key(&uri);
+            if known {
                 debug!("Resource {:?} changed: {}", kind, uri);
 
                 // Send resource update notification
-- 
2.43.0


From 6834f75ef850b2d3220cb53fefe8cd7f3b159440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:57 +0000
Subject: [PATCH 19/44] fix: release the server lock before recording and
 building the HTTP answer

---
 src/server/streamable_http_server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 8ba7f12..b38c010 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -606,8 +606,12 @@ async fn handle_post_request(
     // Process the message
     match message {
         TransportMessage::Request { id, request } => {
-            let server = state.server.lock().await;
-            let json_response = server.handle_request(id, request).await;
+            let json_response = state
+                .server
+                .lock()
+                .await
+                .handle_request(id, request)
+                .await;
             let response = TransportMessage::Response(json_response.clone());
 
             // Handle initialization response
-- 
2.43.0


From e33811741b8f4ea2e8861fbcb98dd93a1b41a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 20/44] fix: looking a session up does not bring back a session
 removed meanwhile

---
 src/shared/session.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 180f3c5..82bb6ef 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -172,18 +172,10 @@ impl SessionManager {
 
     /// Get a session by ID.
     pub fn get_session(&self, session_id: &str) -> Option<Session> {
-        self.sessions.get(session_id).map(|entry| {
-            let mut session = entry.clone();
-
-            // Update last activity
+        self.sessions.get_mut(session_id).map(|mut session| {
+            // Update last activity in place, so that a session removed meanwhile stays removed
             session.last_activity = Utc::now();
-
-            // Update in storage
-            drop(entry);
-            self.sessions
-                .insert(session_id.to_string(), session.clone());
-
-            session
+            session.clone()
         })
     }
 
-- 
2.43.0


From 32e310cc79937bdb19790c320790e5839118ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:13 +0000
Subject: [PATCH 21/44] fix: session middleware does not accept expired
 sessions

---
 src/shared/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 82bb6ef..1c36903 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -344,7 +344,7 @@ impl SessionMiddleware {
         F: FnOnce(Option<Session>) -> R,
     {
         let session = if let Some(session_id) = extract_session_id(headers) {
-            self.manager.get_session(&session_id)
+            self.manager.validate_session(&session_id).ok()
         } else {
             None
         };
-- 
2.43.0


From 41a279a30f9b1915e0cbde3a60057e0d5a085b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:38 +0000
Subject: [PATCH 22/44] fix: session limit holds under concurrent session
 creation

---
 src/shared/session.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 1c36903..02cce16 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -6,6 +6,7 @@
 use crate::error::{Error, ErrorCode, Result};
 use chrono::{DateTime, Duration, Utc};
 use dashmap::DashMap;
+use parking_lot::Mutex;
 use serde::{Deserialize, Serialize};
 use std::sync::Arc;
 use tracing::{debug, info};
@@ -89,6 +90,9 @@ pub struct SessionManager {
 
     /// Session event callbacks.
     callbacks: Arc<SessionCallbacks>,
+
+    /// Serialises the limit check with the insertion of a new session.
+    create_lock: Mutex<()>,
 }
 
 impl std::fmt::Debug for SessionManager {
@@ -134,12 +138,14 @@ impl SessionManager {
             sessions: Arc::new(DashMap::new()),
             config,
             callbacks: Arc::new(SessionCallbacks::default()),
+            create_lock: Mutex::new(()),
         }
     }
 
     /// Create a new session.
     pub fn create_session(&self, client_info: Option<ClientInfo>) -> Result<Session> {
         // Check session limit
+        let create_guard = self.create_lock.lock();
         if self.sessions.len() >= self.config.max_sessions {
             return Err(Error::protocol(
                 ErrorCode::INTERNAL_ERROR,
@@ -160,6 +166,7 @@ impl SessionManager {
         };
 
         self.sessions.insert(session.id.clone(), session.clone());
+        drop(create_guard);
 
         // Call creation callback
         if let Some(callback) = &self.callbacks.on_create {
-- 
2.43.0


From 3c18702f9cc94045cb7c82c9cf35872194a2293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:38 +0000
Subject: [PATCH 23/44] fix: an elicitation does not displace a pending one
 with the same id

---
 src/server/elicitation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/elicitation.rs b/src/server/elicitation.rs
index 047653d..3f5f954 100644
--- a/src/server/elicitation.rs
+++ b/src/server/elicitation.rs
@@ -61,6 +61,12 @@ impl ElicitationManager {
         // Store pending request
         {
             let mut pending = self.pending.write().await;
+            if pending.contains_key(&request.elicitation_id) {
+                return Err(Error::protocol(
+                    ErrorCode::INVALID_REQUEST,
+                    "Elicitation ID is already pending",
+                ));
+            }
             pending.insert(request.elicitation_id.clone(), tx);
         }
 
-- 
2.43.0


From 4ca685fedc08d80571cdd0d0caa87a84de9d48a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:18 +0000
Subject: [PATCH 24/44] fix: resuming replays only the session's own events

---
 src/shared/event_store.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index b5b7f74..8d5f5a5 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -298,15 +298,19 @@ impl ResumptionManager {
             .event_store
             .validate_resumption_token(token)
             .await?
+            .filter(|state| state.session_id == self.session_id)
             .ok_or_else(|| Error::Internal("Invalid or expired resumption token".into()))?;
 
         // Update sequence counter
         *self.sequence_counter.write() = state.next_sequence;
 
-        // Get events since the last acknowledged event
-        self.event_store
+        // Get events since the last acknowledged event (the store may hold other sessions' events)
+        let mut events = self
+            .event_store
             .get_events_since(&state.last_event_id, None)
-            .await
+            .await?;
+        events.retain(|e| e.session_id == self.session_id);
+        Ok(events)
     }
 
     /// Get pending events that need to be resent.
@@ -319,7 +323,9 @@ impl ResumptionManager {
         // Filter for outbound events that might need resending
         Ok(events
             .into_iter()
-            .filter(|e| e.direction == MessageDirection::Outbound)
+            .filter(|e| {
+                e.session_id == self.session_id && e.direction == MessageDirection::Outbound
+            })
             .collect())
     }
 }
-- 
2.43.0


From a4a05d5119c23fb604f294d9f25495b208a08b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:54 +0000
Subject: [PATCH 25/44] fix: a batch request that times out is answered under
 its own id, and a bound of zero no longer hangs the batch

---
 src/utils/parallel_batch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index 8422dc2..30c19d4 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -131,7 +131,7 @@ where
     }
 
     // Create a semaphore to limit concurrency
-    let semaphore = Arc::new(Semaphore::new(config.max_concurrency));
+    let semaphore = Arc::new(Semaphore::new(config.max_concurrency.max(1)));
 
     // Create futures for each request with index tracking
     let indexed_futures: Vec<_> = requests
@@ -147,6 +147,7 @@ where
                 let _permit = semaphore.acquire().await.unwrap();
 
                 // Create the handler future
+                let request_id = request.id.clone();
                 let handler_future = handler(request);
 
                 // Apply timeout if configured
@@ -162,7 +163,7 @@ where
                             // Create timeout error response
                             JSONRPCResponse {
                                 jsonrpc: "2.0".to_string(),
-                                id: crate::types::RequestId::from("null"),
+                                id: request_id,
                                 payload: crate::types::jsonrpc::ResponsePayload::Error(
                                     crate::types::jsonrpc::JSONRPCError {
                                         code: -32603,
-- 
2.43.0


From 3295705c5ba327aa9ff134faaa458f18361d5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:54 +0000
Subject: [PATCH 26/44] fix: messages without parameters and with empty ones
 are both understood

---
 src/shared/protocol_helpers.rs | 50 ++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 36ed2b9..d584ef1 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -103,43 +103,45 @@ pub fn create_notification(notification: Notification) -> JSONRPCNotification<Va
 
 // Helper functions for parsing
 
-fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
+/// Decode a message by its method name.
+///
+/// Leaving `params` out and sending an empty object mean the same thing, but each kind of
+/// message is decoded from only one of the two, so the other one is tried as well.
+fn parse_by_method<T: serde::de::DeserializeOwned>(
+    method: &str,
+    params: &Value,
+) -> std::result::Result<T, serde_json::Error> {
+    let decode = |params: &Value| {
+        serde_json::from_value(serde_json::json!({
+            "method": method,
+            "params": params,
+        }))
+    };
+
+    decode(params).or_else(|e| match params {
+        Value::Null => decode(&serde_json::json!({})).map_err(|_| e),
+        Value::Object(members) if members.is_empty() => decode(&Value::Null).map_err(|_| e),
+        _ => Err(e),
+    })
+}
 
-    serde_json::from_value(request_json)
+fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
+    parse_by_method(method, params)
         .map_err(|e| Error::parse(format!("Invalid client request: {}", e)))
 }
 
 fn parse_server_request(method: &str, params: &Value) -> Result<ServerRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(request_json)
+    parse_by_method(method, params)
         .map_err(|e| Error::parse(format!("Invalid server request: {}", e)))
 }
 
 fn parse_client_notification(method: &str, params: &Value) -> Result<ClientNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_by_method(method, params)
         .map_err(|e| Error::parse(format!("Invalid client notification: {}", e)))
 }
 
 fn parse_server_notification(method: &str, params: &Value) -> Result<ServerNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
+    parse_by_method(method, params)
         .map_err(|e| Error::parse(format!("Invalid server notification: {}", e)))
 }
 
-- 
2.43.0


From a36d6886198ecd204df21fad9d924118f1696b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:54 +0000
Subject: [PATCH 27/44] fix: elicitation requests are written under the method
 name they are recognised by

---
 src/shared/protocol_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index d584ef1..a5dbafc 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -197,7 +197,7 @@ fn server_request_to_jsonrpc(req: ServerRequest) -> (String, Option<Value>) {
         ),
         ServerRequest::ListRoots => ("roots/list".to_string(), None),
         ServerRequest::ElicitInput(params) => (
-            "elicitation/input".to_string(),
+            "elicitation/elicitInput".to_string(),
             Some(serde_json::to_value(params).unwrap()),
         ),
     }
-- 
2.43.0


From 9d338a884118215cb35220f1d9a7000e1edb7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 28/44] fix: the retry limit also holds after the circuit was
 open

---
 src/shared/reconnect.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 4c61f29..3bf81cd 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -211,6 +211,12 @@ impl ReconnectManager {
             return false;
         }
 
+        // Check retry limit
+        let retries_left = self
+            .config
+            .max_retries
+            .map_or(true, |max| self.retry_count.load(Ordering::Relaxed) < max);
+
         let state = *self.state.read().await;
         match state {
             ConnectionState::Connected | ConnectionState::Connecting => false,
@@ -227,7 +233,7 @@ impl ReconnectManager {
                             callback();
                         }
 
-                        true
+                        retries_left
                     } else {
                         false
                     }
@@ -235,14 +241,7 @@ impl ReconnectManager {
                     false
                 }
             },
-            _ => {
-                // Check retry limit
-                if let Some(max_retries) = self.config.max_retries {
-                    self.retry_count.load(Ordering::Relaxed) < max_retries
-                } else {
-                    true
-                }
-            },
+            _ => retries_left,
         }
     }
 
-- 
2.43.0


From 80f34568a5671167733a6e846e49d0a374777f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 29/44] fix: an open circuit lets no first attempt through
 either

---
 src/error/recovery.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index bc438c5..08564b9 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -464,10 +464,23 @@ impl RecoveryExecutor {
         F: Fn() -> Fut,
         Fut: Future<Output = Result<serde_json::Value>>,
     {
+        // An open circuit lets no attempt through, the first one included
+        let breaker = self
+            .circuit_breakers
+            .read()
+            .await
+            .get(operation_id)
+            .cloned();
+        if let Some(cb) = &breaker {
+            if !cb.allow_request().await {
+                return Err(self.circuit_open(operation_id));
+            }
+        }
+
         match operation().await {
             Ok(result) => {
                 // Record success if using circuit breaker
-                if let Some(cb) = self.circuit_breakers.read().await.get(operation_id) {
+                if let Some(cb) = &breaker {
                     cb.record_success().await;
                 }
                 Ok(result)
@@ -623,6 +636,14 @@ impl RecoveryExecutor {
         }
     }
 
+    /// The error for an operation that an open circuit does not let through.
+    fn circuit_open(&self, operation_id: &str) -> Error {
+        if self.policy.log_attempts {
+            warn!("Circuit breaker open for operation: {}", operation_id);
+        }
+        Error::protocol(ErrorCode::INTERNAL_ERROR, "Circuit breaker is open")
+    }
+
     async fn circuit_breaker<F, Fut>(
         &self,
         _error: Error,
@@ -652,13 +673,7 @@ impl RecoveryExecutor {
         };
 
         if !cb.allow_request().await {
-            if self.policy.log_attempts {
-                warn!("Circuit breaker open for operation: {}", operation_id);
-            }
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                "Circuit breaker is open",
-            ));
+            return Err(self.circuit_open(operation_id));
         }
 
         match operation().await {
-- 
2.43.0


From 82fcc00a24531af55c2e568eba2c0b6b7b3b7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 30/44] fix: a debouncer with no room left to merge keeps the
 latest notification

---
 src/server/notification_debouncer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 784b4e7..d99b2c4 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -149,6 +149,11 @@ impl NotificationDebouncer {
                 // Merge if possible
                 if existing.mergeable.len() < self.config.max_batch_size {
                     existing.mergeable.push(notification);
+                } else if let Some(newest) = existing.mergeable.last_mut() {
+                    // No room left: the latest notification supersedes the one before it
+                    *newest = notification;
+                } else {
+                    existing.notification = notification;
                 }
             } else {
                 // Replace with latest
-- 
2.43.0


From 84b201d0bfa40b386f00593f7b3d24063a71029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 31/44] fix: a debounced notification is not lost when its
 timer is aborted while the queue is full

---
 src/utils/batching.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index bca427a..9bc666e 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -356,15 +356,15 @@ impl MessageDebouncer {
         let handle = tokio::spawn(async move {
             sleep(wait_time).await;
 
-            // Send the notification
-            let notification = {
-                let mut pending = pending.lock().await;
-                pending.remove(&key_clone)
-            };
-
-            if let Some(notification) = notification {
-                debug!("Sending debounced notification: {}", key_clone);
-                let _ = tx.send(notification).await;
+            // Send the notification. Room in the queue is reserved first: this task may be
+            // aborted whenever it waits, and must not lose a notification it has taken
+            if let Ok(permit) = tx.reserve().await {
+                let notification = pending.lock().await.remove(&key_clone);
+
+                if let Some(notification) = notification {
+                    debug!("Sending debounced notification: {}", key_clone);
+                    permit.send(notification);
+                }
             }
 
             // Remove timer handle
-- 
2.43.0


From a5658ac0c40aa04645b36f7a51f2735072bdf5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:01 +0000
Subject: [PATCH 32/44] fix: the SSE parser recognises CRLF after non-ASCII
 text

---
 src/shared/sse_parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 5a38d7f..34e7976 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -171,11 +171,8 @@ impl SseParser {
         let mut events = Vec::new();
 
         while let Some(line_end) = self.buffer.find('\n') {
-            let line = if line_end > 0 && self.buffer.chars().nth(line_end - 1) == Some('\r') {
-                self.buffer[..line_end - 1].to_string()
-            } else {
-                self.buffer[..line_end].to_string()
-            };
+            let line = &self.buffer[..line_end];
+            let line = line.strip_suffix('\r').unwrap_or(line).to_string();
 
             if let Some(event) = self.process_line(&line) {
                 events.push(event);
-- 
2.43.0


From 144e8c29ec5d27675349301d9d427bbb232e0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:01 +0000
Subject: [PATCH 33/44] fix: propagating a request context does not panic on
 short or non-ASCII ids

---
 src/shared/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7a53bb..e6761a5 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -212,7 +212,7 @@ impl RequestContext {
         // Standard trace context headers
         // Trace ID should be 32 hex chars, Span ID should be 16 hex chars
         let trace_id_hex = self.trace_id.replace('-', "");
-        let span_id_hex = self.span_id.replace('-', "")[..16].to_string();
+        let span_id_hex = self.span_id.replace('-', "").chars().take(16).collect::<String>();
         headers.insert(
             "traceparent".to_string(),
             format!("00-{}-{}-01", trace_id_hex, span_id_hex),
@@ -245,7 +245,7 @@ impl RequestContext {
             if parts.len() >= 4 {
                 // Restore UUIDs from hex format
                 let trace_id_hex = parts[1];
-                let trace_id = if trace_id_hex.len() == 32 {
+                let trace_id = if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &trace_id_hex[0..8],
@@ -259,7 +259,7 @@ impl RequestContext {
                 };
 
                 let span_id_hex = parts[2];
-                let span_id = if span_id_hex.len() == 16 {
+                let span_id = if span_id_hex.len() == 16 && span_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &span_id_hex[0..8],
-- 
2.43.0


From d91ab5970cbab2696e60d6c10668650726997750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:01 +0000
Subject: [PATCH 34/44] fix: fast pretty printing keeps non-ASCII text

---
 src/utils/json_simd.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b03cbe8..54b3156 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -120,7 +120,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             let escapes = unsafe { crate::simd::json::find_escapes_simd(&compact) };
 
             // Allocate with estimated size
-            let mut result = String::with_capacity(compact.len() * 2);
+            let mut result = Vec::with_capacity(compact.len() * 2);
             let mut indent = 0;
             let mut in_string = false;
             let mut escape_next = false;
@@ -128,7 +128,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             for (i, &byte) in compact.iter().enumerate() {
                 if escape_next {
                     escape_next = false;
-                    result.push(byte as char);
+                    result.push(byte);
                     continue;
                 }
 
@@ -143,38 +143,41 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
                 if !in_string {
                     match byte {
                         b'{' | b'[' => {
-                            result.push(byte as char);
+                            result.push(byte);
                             indent += 2;
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b'\n');
+                            result.extend(std::iter::repeat(b' ').take(indent));
                         },
                         b'}' | b']' => {
                             indent = indent.saturating_sub(2);
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
-                            result.push(byte as char);
+                            result.push(b'\n');
+                            result.extend(std::iter::repeat(b' ').take(indent));
+                            result.push(byte);
                         },
                         b',' => {
-                            result.push(',');
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b',');
+                            result.push(b'\n');
+                            result.extend(std::iter::repeat(b' ').take(indent));
                         },
                         b':' => {
-                            result.push_str(": ");
+                            result.extend_from_slice(b": ");
                         },
                         b' ' | b'\t' | b'\n' | b'\r' => {
                             // Skip whitespace
                         },
                         _ => {
-                            result.push(byte as char);
+                            result.push(byte);
                         },
                     }
                 } else {
-                    result.push(byte as char);
+                    result.push(byte);
                 }
             }
 
-            return Ok(result);
+            // Only whitespace was added to the serialized text
+            return String::from_utf8(result).map_err(|e| {
+                serde_json::Error::io(std::io::Error::new(std::io::ErrorKind::InvalidData, e))
+            });
         }
     }
 
-- 
2.43.0


From e34358f11396e970bc82ab8bd4491a0aa0a08cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:01 +0000
Subject: [PATCH 35/44] fix: characters split over two frames of an event
 stream are decoded whole

---
 src/shared/http.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 40ef00b..853329a 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -140,12 +140,18 @@ impl HttpTransport {
 
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
+                let mut received = Vec::new();
 
                 while let Some(chunk) = body.frame().await {
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-                                let text = String::from_utf8_lossy(data);
+                                // A frame may end within a character, so only whole lines are decoded
+                                received.extend_from_slice(data);
+                                let end = received.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
+                                let rest = received.split_off(end);
+                                let lines = std::mem::replace(&mut received, rest);
+                                let text = String::from_utf8_lossy(&lines);
                                 let events = sse_parser.feed(&text);
 
                                 for event in events {
-- 
2.43.0


From 1f7537f4305f3629d23d4a7ac6baee7f3cd634bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 36/44] fix: fast JSON parsing does not join tokens that
 whitespace separates

---
 src/utils/json_simd.rs | 43 ++----------------------------------------
 1 file changed, 2 insertions(+), 41 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index 54b3156..3bf8dd0 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -21,47 +21,8 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
             }
         }
 
-        // Use optimized whitespace skipping
-        let ws_positions = unsafe { crate::simd::json::find_whitespace_simd(input) };
-
-        // If there's minimal whitespace, parse directly
-        if ws_positions.len() < input.len() / 10 {
-            serde_json::from_slice(input)
-        } else {
-            // Strip unnecessary whitespace first
-            let mut cleaned = Vec::with_capacity(input.len() - ws_positions.len());
-            let mut in_string = false;
-            let mut escape_next = false;
-
-            for (i, &byte) in input.iter().enumerate() {
-                if escape_next {
-                    escape_next = false;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'\\' && in_string {
-                    escape_next = true;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'"' && !escape_next {
-                    in_string = !in_string;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if !in_string && ws_positions.binary_search(&i).is_ok() {
-                    // Skip whitespace outside strings
-                    continue;
-                }
-
-                cleaned.push(byte);
-            }
-
-            serde_json::from_slice(&cleaned)
-        }
+        // Whitespace separates tokens, so the input is parsed as it is
+        serde_json::from_slice(input)
     } else {
         // Fallback to standard parsing
         serde_json::from_slice(input)
-- 
2.43.0


From 28465c23a77dff639d60f716cf5683e0f919dc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 37/44] fix: SIMD scans end when the last byte of a block
 matches

---
 src/simd/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 7261e61..4f44129 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -60,7 +60,7 @@ pub mod json {
             );
 
             // Extract mask as integer
-            let mask = _mm256_movemask_epi8(ws_mask);
+            let mask = _mm256_movemask_epi8(ws_mask) as u32;
 
             // Find positions of set bits
             let mut m = mask;
@@ -273,7 +273,7 @@ pub mod json {
             let quote_mask = _mm256_cmpeq_epi8(data, quote);
             let escape_mask = _mm256_or_si256(backslash_mask, quote_mask);
 
-            let mask = _mm256_movemask_epi8(escape_mask);
+            let mask = _mm256_movemask_epi8(escape_mask) as u32;
 
             let mut m = mask;
             let mut bit_pos = 0;
@@ -463,7 +463,7 @@ pub mod compression {
             let offset = i * 32;
             let data = _mm256_loadu_si256(haystack.as_ptr().add(offset) as *const __m256i);
             let cmp = _mm256_cmpeq_epi8(data, first_vec);
-            let mask = _mm256_movemask_epi8(cmp);
+            let mask = _mm256_movemask_epi8(cmp) as u32;
 
             if mask != 0 {
                 // Found potential matches, check each one
-- 
2.43.0


From 6bfd4a14724b8ff9538e7ab710b5df2fe69c4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:34 +0000
Subject: [PATCH 38/44] fix: SIMD UTF-8 validation accepts exactly UTF-8

---
 src/simd/mod.rs | 135 +++---------------------------------------------
 1 file changed, 8 insertions(+), 127 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 4f44129..b220187 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -85,108 +85,14 @@ pub mod json {
         positions
     }
 
-    /// Validates a UTF-8 continuation byte
-    #[inline]
-    fn is_valid_continuation_byte(byte: u8) -> bool {
-        byte & 0xC0 == 0x80
-    }
-
-    /// Validates a multi-byte UTF-8 sequence starting at position
-    fn validate_multibyte_sequence(input: &[u8], start: usize, first_byte: u8) -> bool {
-        let len = input.len();
-
-        if first_byte < 0xC0 {
-            false // Invalid continuation byte
-        } else if first_byte < 0xE0 {
-            // 2-byte sequence
-            validate_2byte_sequence(input, start, len)
-        } else if first_byte < 0xF0 {
-            // 3-byte sequence
-            validate_3byte_sequence(input, start, len)
-        } else if first_byte < 0xF8 {
-            // 4-byte sequence
-            validate_4byte_sequence(input, start, len)
-        } else {
-            false // Invalid UTF-8
-        }
-    }
-
-    /// Validates a 2-byte UTF-8 sequence
-    #[inline]
-    fn validate_2byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 1 < len && is_valid_continuation_byte(input[start + 1])
-    }
-
-    /// Validates a 3-byte UTF-8 sequence  
-    #[inline]
-    fn validate_3byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 2 < len
-            && is_valid_continuation_byte(input[start + 1])
-            && is_valid_continuation_byte(input[start + 2])
-    }
-
-    /// Validates a 4-byte UTF-8 sequence
-    #[inline]
-    fn validate_4byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 3 < len
-            && is_valid_continuation_byte(input[start + 1])
-            && is_valid_continuation_byte(input[start + 2])
-            && is_valid_continuation_byte(input[start + 3])
-    }
-
-    /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII
+    /// Checks whether all 32 bytes from `offset` on are ASCII
     #[cfg(target_arch = "x86_64")]
     #[target_feature(enable = "avx2")]
-    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> bool {
+    unsafe fn is_ascii_chunk(input: &[u8], offset: usize) -> bool {
         let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);
 
-        // Check for ASCII bytes (< 0x80) - fast path
-        let ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
-        let is_ascii = _mm256_movemask_epi8(ascii_mask);
-
-        if is_ascii == -1 {
-            return true; // All bytes are ASCII
-        }
-
-        // Fall back to scalar validation for non-ASCII bytes
-        validate_chunk_scalar(input, offset, 32)
-    }
-
-    /// Validates a chunk using scalar processing
-    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> bool {
-        let len = input.len();
-        let end = std::cmp::min(start + chunk_size, len);
-
-        let mut i = start;
-        while i < end {
-            let byte = input[i];
-            if byte < 0x80 {
-                i += 1;
-                continue;
-            }
-
-            // Multi-byte sequence - validate and advance
-            if !validate_multibyte_sequence(input, i, byte) {
-                return false;
-            }
-
-            // Advance by the correct number of bytes for this sequence
-            i += get_utf8_sequence_length(byte);
-        }
-
-        true
-    }
-
-    /// Gets the length of a UTF-8 sequence from its first byte
-    #[inline]
-    fn get_utf8_sequence_length(first_byte: u8) -> usize {
-        if first_byte < 0xE0 {
-            2
-        } else if first_byte < 0xF0 {
-            3
-        } else {
-            4
-        }
+        // The sign bit is set for bytes that are not ASCII (>= 0x80)
+        _mm256_movemask_epi8(data) == 0
     }
 
     /// SIMD-accelerated string validation (UTF-8)
@@ -217,38 +123,13 @@ pub mod json {
         let len = input.len();
         let mut i = 0;
 
-        // Process 32 bytes at a time with SIMD
-        while i + 32 <= len {
-            if !process_simd_chunk(input, i) {
-                return false;
-            }
+        // Skip 32 bytes at a time while they are ASCII
+        while i + 32 <= len && is_ascii_chunk(input, i) {
             i += 32;
         }
 
-        // Process remaining bytes with scalar validation
-        validate_remaining_bytes(input, i)
-    }
-
-    /// Validates remaining bytes after SIMD processing
-    fn validate_remaining_bytes(input: &[u8], start: usize) -> bool {
-        let len = input.len();
-        let mut i = start;
-
-        while i < len {
-            let byte = input[i];
-            if byte < 0x80 {
-                i += 1;
-                continue;
-            }
-
-            if !validate_multibyte_sequence(input, i, byte) {
-                return false;
-            }
-
-            i += get_utf8_sequence_length(byte);
-        }
-
-        true
+        // A character may cross the end of a chunk, so the rest is validated as a whole
+        std::str::from_utf8(&input[i..]).is_ok()
     }
 
     /// SIMD-accelerated JSON string escape detection
-- 
2.43.0


From d14f649247079bf81ce43191ccd83670a1600dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:37 +0000
Subject: [PATCH 39/44] fix: batch length validation judges every length alike

---
 src/simd/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index b220187..fe5eb15 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -390,7 +390,8 @@ pub mod batch {
         for i in 0..chunks {
             let offset = i * 8;
             let data = _mm256_loadu_si256(lengths.as_ptr().add(offset) as *const __m256i);
-            let cmp = _mm256_cmpgt_epi32(max_vec, data);
+            // length <= max_length, compared as unsigned numbers
+            let cmp = _mm256_cmpeq_epi32(_mm256_max_epu32(max_vec, data), max_vec);
 
             // Extract comparison results
             let mask = _mm256_movemask_ps(_mm256_castsi256_ps(cmp));
-- 
2.43.0


From af8103f0ad998f6956816960f9ac97c6c083b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 40/44] fix: decide and record a circuit breaker's transition
 under one lock

---
 src/error/recovery.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index 08564b9..ec26e91 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -334,16 +334,17 @@ impl CircuitBreaker {
     /// # }
     /// ```
     pub async fn allow_request(&self) -> bool {
-        let state = *self.state.read().await;
+        // Held until the decision is recorded, so that concurrent calls see it
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => true,
             CircuitState::Open => {
                 // Check if we should transition to half-open
                 let last_failure_opt = *self.last_failure_time.read().await;
                 if let Some(last_failure) = last_failure_opt {
                     if last_failure.elapsed() >= self.config.timeout {
-                        *self.state.write().await = CircuitState::HalfOpen;
+                        *state = CircuitState::HalfOpen;
                         *self.success_count.write().await = 0;
                         info!("Circuit breaker transitioning to half-open");
                         true
@@ -360,9 +361,9 @@ impl CircuitBreaker {
 
     /// Record a success.
     pub async fn record_success(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 *self.failure_count.write().await = 0;
             },
@@ -371,14 +372,14 @@ impl CircuitBreaker {
                 *success_count += 1;
 
                 if *success_count >= self.config.success_threshold {
-                    *self.state.write().await = CircuitState::Closed;
+                    *state = CircuitState::Closed;
                     *self.failure_count.write().await = 0;
                     info!("Circuit breaker closed after successful recovery");
                 }
             },
             CircuitState::Open => {
                 // Shouldn't happen, but reset anyway
-                *self.state.write().await = CircuitState::Closed;
+                *state = CircuitState::Closed;
                 *self.failure_count.write().await = 0;
             },
         }
@@ -386,21 +387,21 @@ impl CircuitBreaker {
 
     /// Record a failure.
     pub async fn record_failure(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 let mut failure_count = self.failure_count.write().await;
                 *failure_count += 1;
 
                 if *failure_count >= self.config.failure_threshold {
-                    *self.state.write().await = CircuitState::Open;
+                    *state = CircuitState::Open;
                     *self.last_failure_time.write().await = Some(std::time::Instant::now());
                     warn!("Circuit breaker opened after {} failures", failure_count);
                 }
             },
             CircuitState::HalfOpen => {
-                *self.state.write().await = CircuitState::Open;
+                *state = CircuitState::Open;
                 *self.last_failure_time.write().await = Some(std::time::Instant::now());
                 *self.failure_count.write().await = 1;
                 warn!("Circuit breaker reopened after failure in half-open state");
-- 
2.43.0


From a2ea93b6935749d5fb82a430a709f57b52ef8941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 41/44] fix: decide and record a reconnection state change
 under one lock

---
 src/shared/reconnect.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 3bf81cd..9d82d7f 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -217,17 +217,20 @@ impl ReconnectManager {
             .max_retries
             .map_or(true, |max| self.retry_count.load(Ordering::Relaxed) < max);
 
-        let state = *self.state.read().await;
-        match state {
+        // Held until the decision is recorded, so that a concurrent change is not overwritten
+        let mut state = self.state.write().await;
+        match *state {
             ConnectionState::Connected | ConnectionState::Connecting => false,
             ConnectionState::CircuitOpen => {
                 // Check if circuit should be closed
-                let opened_at_opt = *self.circuit_opened_at.lock().await;
-                if let Some(opened_at) = opened_at_opt {
+                let mut opened_at_opt = self.circuit_opened_at.lock().await;
+                if let Some(opened_at) = *opened_at_opt {
                     if opened_at.elapsed() >= self.config.circuit_breaker_timeout {
                         info!("Circuit breaker timeout reached, closing circuit");
-                        *self.circuit_opened_at.lock().await = None;
-                        *self.state.write().await = ConnectionState::Disconnected;
+                        *opened_at_opt = None;
+                        *state = ConnectionState::Disconnected;
+                        drop(opened_at_opt);
+                        drop(state);
 
                         if let Some(callback) = &self.callbacks.on_circuit_close {
                             callback();
@@ -339,8 +342,8 @@ impl ReconnectManager {
 
     /// Notify that the connection was lost.
     pub async fn on_disconnected(&self) {
-        let state = *self.state.read().await;
-        if state == ConnectionState::Connected {
+        let mut state = self.state.write().await;
+        if *state == ConnectionState::Connected {
             // Check if connection was successful long enough
             let last_success_opt = *self.last_success.lock().await;
             if let Some(last_success) = last_success_opt {
@@ -352,7 +355,7 @@ impl ReconnectManager {
             }
         }
 
-        *self.state.write().await = ConnectionState::Disconnected;
+        *state = ConnectionState::Disconnected;
         info!("Connection lost");
     }
 
-- 
2.43.0


From 45c45157b68982fc648032aabf6350d329448912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 42/44] fix: replace a debounce timer under one lock

---
 src/utils/batching.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index 9bc666e..b005d64 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -339,18 +339,17 @@ impl MessageDebouncer {
             pending.insert(key.clone(), notification);
         }
 
-        // Cancel existing timer
-        {
-            let mut timers = self.timers.lock().await;
-            if let Some(handle) = timers.remove(&key) {
-                handle.abort();
-            }
+        // Cancel existing timer. The table is held until the new one is stored: of two calls for one
+        // key, the later replaces the timer of the earlier
+        let mut timers = self.timers.lock().await;
+        if let Some(handle) = timers.remove(&key) {
+            handle.abort();
         }
 
         // Start new timer
         let pending = self.pending.clone();
         let tx = self.tx.clone();
-        let timers = self.timers.clone();
+        let all_timers = self.timers.clone();
         let key_clone = key.clone();
 
         let handle = tokio::spawn(async move {
@@ -368,15 +367,11 @@ impl MessageDebouncer {
             }
 
             // Remove timer handle
-            let mut timers = timers.lock().await;
-            timers.remove(&key_clone);
+            all_timers.lock().await.remove(&key_clone);
         });
 
         // Store timer handle
-        {
-            let mut timers = self.timers.lock().await;
-            timers.insert(key, handle);
-        }
+        timers.insert(key, handle);
 
         Ok(())
     }
-- 
2.43.0


From dbbb5eb0c470ea60b03d38669c9abc6a3b72b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:14 +0000
Subject: [PATCH 43/44] fix: a late success does not close an open circuit
 before its time

---
 src/error/recovery.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index ec26e91..f6ab617 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -378,9 +378,7 @@ impl CircuitBreaker {
                 }
             },
             CircuitState::Open => {
-                // Shouldn't happen, but reset anyway
-                *state = CircuitState::Closed;
-                *self.failure_count.write().await = 0;
+                // A late answer to a request from before the circuit opened: it stays open for its time
             },
         }
     }
-- 
2.43.0


From 150ffff8a8949243aae40eab885358fd224c48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:20 +0000
Subject: [PATCH 44/44] fix: abort an event stream that a concurrent call
 started

---
 src/shared/streamable_http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index c6b88c5..46fa109 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -256,7 +256,11 @@ impl StreamableHttpTransport {
             }
         });
 
-        *self.abort_handle.write() = Some(handle);
+        // A stream started meanwhile by another call is replaced, not left running unnoticed
+        let replaced = self.abort_handle.write().replace(handle);
+        if let Some(other) = replaced {
+            other.abort();
+        }
         Ok(())
     }
 
-- 
2.43.0

