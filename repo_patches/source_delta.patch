From 68fdef8fae95188cd4a1684f2c318b007d9b0c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 01/10] fix: server continues with queued responses after
 sending an internal response

After a response the server had created itself (for a literal) was sent,
Server::next went on to receive instead of sending what was queued behind it
and could ask for more input while responses were still waiting.
---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..3a69f83 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -193,8 +193,9 @@ impl Server {
                 Ok(Some(Event::ResponseSent { handle, response }))
             }
             Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
+                // An internally created response was sent, don't inform the caller but continue
+                // with the next message. Otherwise, it would stay queued until more input arrives.
+                self.progress_send()
             }
             Ok(_) => {
                 // No progress yet
-- 
2.43.0


From 9960c3875ef4e3339965e408f85b3e78bfdc93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 02/10] fix: stream delivers TLS plaintext that arrived
 together with the handshake

---
 src/stream.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..46a7f23 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,11 +269,10 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
-    while tls.wants_read() && !read_buffer.is_empty() {
-        let mut encrypted_bytes = read_buffer.reader();
-        tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
-
+    loop {
+        // Note: There might be plaintext even if nothing was read since the last call, e.g., the
+        // data that arrived together with the end of the handshake. `rustls` doesn't want to
+        // read more data until this plaintext was taken.
         loop {
             let mut plain_bytes_chunk = [0; 128];
             match tls.reader().read(&mut plain_bytes_chunk) {
@@ -288,6 +287,14 @@ fn decrypt(
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
+
+        if !tls.wants_read() || read_buffer.is_empty() {
+            break;
+        }
+
+        let mut encrypted_bytes = read_buffer.reader();
+        tls.read_tls(&mut encrypted_bytes)?;
+        tls.process_new_packets()?;
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From 7ec98acbb72d7633faa06974a28694d27a21cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 03/10] fix: stream doesn't loop forever after TLS close_notify

---
 src/stream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 46a7f23..dc3ba03 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -284,6 +284,8 @@ fn decrypt(
                     break;
                 }
                 Err(err) => return Err(DecryptEncryptError::Io(err)),
+                // The peer closed the TLS connection, there will be no more data.
+                Ok(0) => break,
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
-- 
2.43.0


From c2c74718cd1be24e10beae742e2a7fb33282f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 04/10] fix: stream sends TLS messages of more than 64 KiB

---
 src/stream.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index dc3ba03..95810b3 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -307,13 +307,27 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut plain_bytes = plain_bytes.as_slice();
+
+    loop {
+        // Note: The buffer of `rustls` is limited, i.e., it might not accept all bytes at once.
+        if !plain_bytes.is_empty() {
+            let byte_count = tls.writer().write(plain_bytes)?;
+            plain_bytes = &plain_bytes[byte_count..];
+
+            if byte_count == 0 {
+                return Err(DecryptEncryptError::Io(ErrorKind::WriteZero.into()));
+            }
+        }
+
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
+        if plain_bytes.is_empty() {
+            break;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 68b6db87dafdf4bd894043b7716d383c85f683a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 05/10] fix: proxy filters capabilities during AUTHENTICATE and
 IDLE, too

---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..3e18dfa 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,19 +396,23 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let handle = client_to_proxy
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
@@ -444,7 +448,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -453,13 +457,17 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_reject(status).unwrap();
             trace!(role = "p2c", ?handle, "idle_reject");
-- 
2.43.0


From 01afabc18f40928d37dd721f265263925dcd6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 06/10] fix: proxy doesn't panic when the server ends IDLE
 after accepting it

---
 proxy/src/proxy.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e18dfa..0d5fde7 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -468,9 +468,16 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_reject(status).unwrap();
-            trace!(role = "p2c", ?handle, "idle_reject");
+            match client_to_proxy.idle_reject(status) {
+                Ok(handle) => {
+                    trace!(role = "p2c", ?handle, "idle_reject");
+                }
+                // The server ended IDLE after it was already accepted
+                Err(status) => {
+                    let handle = client_to_proxy.enqueue_status(status);
+                    trace!(role = "p2c", ?handle, "enqueue_status");
+                }
+            }
         }
         client::Event::IdleDoneSent { handle } => {
             trace!(role = "p2c", ?handle, "--->");
-- 
2.43.0


From 23aa7a89c82b7eaf7e55ffe4249ff82b4f550267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 07/10] fix: proxy doesn't panic when authentication data
 arrives early

---
 proxy/src/proxy.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 0d5fde7..f99daa6 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -1,4 +1,4 @@
-use std::{net::SocketAddr, sync::Arc};
+use std::{collections::VecDeque, net::SocketAddr, sync::Arc};
 
 use colored::Colorize;
 use imap_next::{
@@ -7,6 +7,7 @@ use imap_next::{
     stream::{self, Stream},
 };
 use imap_types::{
+    auth::AuthenticateData,
     bounded_static::ToBoundedStatic,
     command::{Command, CommandBody},
     extensions::idle::IdleDone,
@@ -219,13 +220,21 @@ impl Proxy<ConnectedState> {
         };
         let mut client_to_proxy_stream = self.state.client_to_proxy;
 
+        // Authenticate data the client sent before the server asked for it
+        let mut early_authenticate_data = VecDeque::new();
+
         loop {
             let control_flow = tokio::select! {
                 event = client_to_proxy_stream.next(&mut client_to_proxy) => {
-                    handle_client_event(event, &mut proxy_to_server)
+                    handle_client_event(event, &mut proxy_to_server, &mut early_authenticate_data)
                 }
                 event = proxy_to_server_stream.next(&mut proxy_to_server) => {
-                    handle_server_event(event, &mut client_to_proxy)
+                    handle_server_event(
+                        event,
+                        &mut client_to_proxy,
+                        &mut proxy_to_server,
+                        &mut early_authenticate_data,
+                    )
                 }
             };
 
@@ -239,6 +248,7 @@ impl Proxy<ConnectedState> {
 fn handle_client_event(
     result: Result<server::Event, stream::Error<server::Error>>,
     proxy_to_server: &mut Client,
+    early_authenticate_data: &mut VecDeque<AuthenticateData<'static>>,
 ) -> ControlFlow {
     let event = match result {
         Ok(event) => event,
@@ -299,11 +309,15 @@ fn handle_client_event(
         server::Event::AuthenticateDataReceived { authenticate_data } => {
             trace!(role = "c2p", authenticate_data=%format!("{:?}", authenticate_data).red(), "|-->");
 
-            // TODO(#145): Fix unwrap
-            let handle = proxy_to_server
-                .set_authenticate_data(authenticate_data)
-                .unwrap();
-            trace!(role = "p2s", ?handle, "set_authenticate_data");
+            match proxy_to_server.set_authenticate_data(authenticate_data) {
+                Ok(handle) => {
+                    trace!(role = "p2s", ?handle, "set_authenticate_data");
+                }
+                // The server didn't ask for it yet
+                Err(authenticate_data) => {
+                    early_authenticate_data.push_back(authenticate_data);
+                }
+            }
         }
         server::Event::IdleCommandReceived { tag } => {
             let idle = Command {
@@ -330,6 +344,8 @@ fn handle_client_event(
 fn handle_server_event(
     event: Result<client::Event, stream::Error<client::Error>>,
     client_to_proxy: &mut Server,
+    proxy_to_server: &mut Client,
+    early_authenticate_data: &mut VecDeque<AuthenticateData<'static>>,
 ) -> ControlFlow {
     let event = match event {
         Ok(event) => event,
@@ -407,12 +423,21 @@ fn handle_server_event(
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
+
+            if let Some(authenticate_data) = early_authenticate_data.pop_front() {
+                let handle = proxy_to_server
+                    .set_authenticate_data(authenticate_data)
+                    .unwrap();
+                trace!(role = "p2s", ?handle, "set_authenticate_data");
+            }
         }
         client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
             util::filter_capabilities_in_status(&mut status);
 
+            early_authenticate_data.clear();
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
-- 
2.43.0


From 40d7c070a160058acd14bce1d88627bfb03f2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 08/10] fix: proxy delivers what it received before a
 connection was closed

---
 proxy/src/proxy.rs | 78 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 69 insertions(+), 9 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index f99daa6..00e2ebe 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -1,10 +1,11 @@
-use std::{collections::VecDeque, net::SocketAddr, sync::Arc};
+use std::{collections::VecDeque, net::SocketAddr, sync::Arc, time::Duration};
 
 use colored::Colorize;
 use imap_next::{
     client::{self, Client},
     server::{self, Server},
     stream::{self, Stream},
+    Interrupt, Io,
 };
 use imap_types::{
     auth::AuthenticateData,
@@ -15,7 +16,10 @@ use imap_types::{
 };
 use once_cell::sync::Lazy;
 use thiserror::Error;
-use tokio::net::{TcpListener, TcpStream};
+use tokio::{
+    net::{TcpListener, TcpStream},
+    time::timeout,
+};
 use tokio_rustls::{
     rustls::{pki_types::ServerName, ClientConfig, RootCertStore, ServerConfig},
     TlsAcceptor, TlsConnector,
@@ -41,6 +45,9 @@ const LITERAL_ACCEPT_TEXT: &str = "proxy: Literal accepted by proxy";
 const LITERAL_REJECT_TEXT: &str = "proxy: Literal rejected by proxy";
 const COMMAND_REJECTED_TEXT: &str = "proxy: Command rejected by server";
 
+/// How long one side may take to receive what the other side sent before it was closed.
+const DRAIN_TIMEOUT: Duration = Duration::from_secs(5);
+
 #[derive(Debug, Error)]
 pub enum ProxyError {
     #[error(transparent)]
@@ -224,27 +231,80 @@ impl Proxy<ConnectedState> {
         let mut early_authenticate_data = VecDeque::new();
 
         loop {
-            let control_flow = tokio::select! {
+            tokio::select! {
                 event = client_to_proxy_stream.next(&mut client_to_proxy) => {
-                    handle_client_event(event, &mut proxy_to_server, &mut early_authenticate_data)
+                    let control_flow = handle_client_event(
+                        event,
+                        &mut proxy_to_server,
+                        &mut early_authenticate_data,
+                    );
+
+                    if let ControlFlow::Abort = control_flow {
+                        while let Some(event) = next_received(&mut client_to_proxy) {
+                            handle_client_event(
+                                event,
+                                &mut proxy_to_server,
+                                &mut early_authenticate_data,
+                            );
+                        }
+                        drain(proxy_to_server_stream, proxy_to_server).await;
+                        break;
+                    }
                 }
                 event = proxy_to_server_stream.next(&mut proxy_to_server) => {
-                    handle_server_event(
+                    let control_flow = handle_server_event(
                         event,
                         &mut client_to_proxy,
                         &mut proxy_to_server,
                         &mut early_authenticate_data,
-                    )
+                    );
+
+                    if let ControlFlow::Abort = control_flow {
+                        while let Some(event) = next_received(&mut proxy_to_server) {
+                            handle_server_event(
+                                event,
+                                &mut client_to_proxy,
+                                &mut proxy_to_server,
+                                &mut early_authenticate_data,
+                            );
+                        }
+                        drain(client_to_proxy_stream, client_to_proxy).await;
+                        break;
+                    }
                 }
             };
+        }
+    }
+}
 
-            if let ControlFlow::Abort = control_flow {
-                break;
-            }
+/// Find the next event in what was received before the connection was closed.
+fn next_received<S: imap_next::State>(
+    state: &mut S,
+) -> Option<Result<S::Event, stream::Error<S::Error>>> {
+    loop {
+        match state.next() {
+            Ok(event) => return Some(Ok(event)),
+            Err(Interrupt::Error(error)) => return Some(Err(stream::Error::State(error))),
+            // Can't be sent anymore
+            Err(Interrupt::Io(Io::Output(_))) => {}
+            Err(Interrupt::Io(Io::NeedMoreInput)) => return None,
         }
     }
 }
 
+/// Deliver everything that was received from the other side before it was closed.
+async fn drain<S: imap_next::State>(mut stream: Stream, mut state: S) {
+    let _ = timeout(DRAIN_TIMEOUT, async {
+        loop {
+            match stream.next(&mut state).await {
+                Ok(_) | Err(stream::Error::State(_)) => {}
+                Err(stream::Error::Closed | stream::Error::Io(_) | stream::Error::Tls(_)) => break,
+            }
+        }
+    })
+    .await;
+}
+
 fn handle_client_event(
     result: Result<server::Event, stream::Error<server::Error>>,
     proxy_to_server: &mut Client,
-- 
2.43.0


From a1be77f369c223b78add69d65716981c19e8d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 09/10] fix: proxy accepts clients while a TLS handshake is in
 progress

---
 proxy/src/proxy.rs | 53 +++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 00e2ebe..4c42b90 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -88,6 +88,30 @@ impl Proxy<BoundState> {
         let (client_to_proxy, client_addr) = self.state.listener.accept().await?;
         info!(?client_addr, "Accepted client");
 
+        Ok(Proxy {
+            service: self.service.clone(),
+            state: ClientAcceptedState {
+                client_addr,
+                client_to_proxy,
+            },
+        })
+    }
+}
+
+pub struct ClientAcceptedState {
+    client_addr: SocketAddr,
+    client_to_proxy: TcpStream,
+}
+
+impl State for ClientAcceptedState {}
+
+impl Proxy<ClientAcceptedState> {
+    pub fn client_addr(&self) -> SocketAddr {
+        self.state.client_addr
+    }
+
+    pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
+        // Note: The handshake must not block the acceptance of other clients.
         let client_to_proxy = match &self.service.bind {
             Bind::Tls { identity, .. } => {
                 let config = {
@@ -118,34 +142,11 @@ impl Proxy<BoundState> {
                 //             However, for testing purposes, it's nice to create it on-the-fly.
                 let acceptor = TlsAcceptor::from(Arc::new(config));
 
-                Stream::tls(acceptor.accept(client_to_proxy).await?.into())
+                Stream::tls(acceptor.accept(self.state.client_to_proxy).await?.into())
             }
-            Bind::Insecure { .. } => Stream::insecure(client_to_proxy),
+            Bind::Insecure { .. } => Stream::insecure(self.state.client_to_proxy),
         };
 
-        Ok(Proxy {
-            service: self.service.clone(),
-            state: ClientAcceptedState {
-                client_addr,
-                client_to_proxy,
-            },
-        })
-    }
-}
-
-pub struct ClientAcceptedState {
-    client_addr: SocketAddr,
-    client_to_proxy: Stream,
-}
-
-impl State for ClientAcceptedState {}
-
-impl Proxy<ClientAcceptedState> {
-    pub fn client_addr(&self) -> SocketAddr {
-        self.state.client_addr
-    }
-
-    pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
         let server_addr_port = self.service.connect.addr_port();
         info!(%server_addr_port, "Connecting to server");
         let stream_to_server = TcpStream::connect(&server_addr_port).await?;
@@ -177,7 +178,7 @@ impl Proxy<ClientAcceptedState> {
         Ok(Proxy {
             service: self.service,
             state: ConnectedState {
-                client_to_proxy: self.state.client_to_proxy,
+                client_to_proxy,
                 proxy_to_server,
             },
         })
-- 
2.43.0


From e70abcec8ae4692b80ffe541840ae86bb388e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:51 +0000
Subject: [PATCH 10/10] fix: announced literals don't reserve memory without
 bounds

---
 src/receive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/receive.rs b/src/receive.rs
index 5a3ad70..dd6d7bd 100644
--- a/src/receive.rs
+++ b/src/receive.rs
@@ -4,6 +4,9 @@ use imap_codec::decode::Decoder;
 
 use crate::{Interrupt, Io};
 
+/// Limits how much memory is reserved for a literal that was only announced.
+const MAX_RESERVED_BYTES: usize = 64 * 1024;
+
 pub struct ReceiveState<C> {
     codec: C,
     crlf_relaxed: bool,
@@ -45,7 +48,9 @@ impl<C> ReceiveState<C> {
 
     pub fn start_literal(&mut self, length: u32) {
         self.next_fragment = NextFragment::Literal { length };
-        self.read_buffer.reserve(length as usize);
+        // Don't reserve more than a peer has to back up with actual data.
+        let reserve = usize::try_from(length).unwrap_or(usize::MAX);
+        self.read_buffer.reserve(reserve.min(MAX_RESERVED_BYTES));
     }
 
     pub fn finish_message(&mut self) {
-- 
2.43.0

