From d9cf2eb2bc5f7c8d71cd3c5d7ffe39862b3b169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:16 +0000
Subject: [PATCH 01/39] flarch: add cfg(fledger_sim) seams for tasks and TCP

---
 flarch/src/lib.rs                            |   5 +
 flarch/src/sim.rs                            | 128 +++++++++++++++++++
 flarch/src/tasks/libc.rs                     |   3 +
 flarch/src/web_rtc/libc/web_socket_client.rs |  11 +-
 flarch/src/web_rtc/libc/web_socket_server.rs |  12 +-
 5 files changed, 151 insertions(+), 8 deletions(-)
 create mode 100644 flarch/src/sim.rs

diff --git a/flarch/src/lib.rs b/flarch/src/lib.rs
index 0f0d9f5..dcebf78 100644
--- a/flarch/src/lib.rs
+++ b/flarch/src/lib.rs
@@ -1,8 +1,13 @@
+// For the `fledger_sim` cfg, see `sim.rs`.
+#![allow(unexpected_cfgs)]
+
 // pub mod broker;
 pub mod broker;
 pub mod broker_macros;
 pub mod data_storage;
 pub mod nodeids;
+#[cfg(all(fledger_sim, target_family = "unix"))]
+pub mod sim;
 pub mod tasks;
 pub mod web_rtc;
 
diff --git a/flarch/src/sim.rs b/flarch/src/sim.rs
new file mode 100644
index 0000000..65e8f9d
--- /dev/null
+++ b/flarch/src/sim.rs
@@ -0,0 +1,128 @@
+//! Seams for deterministic simulation.
+//!
+//! This module only exists when compiling with `--cfg fledger_sim`. It lets a
+//! simulator decide where tasks run and how TCP connections behave.
+//! Without a registered [World], everything goes to tokio directly.
+
+use std::{
+    fmt::Debug,
+    future::Future,
+    io,
+    net::SocketAddr,
+    pin::Pin,
+    sync::OnceLock,
+    task::{Context, Poll},
+};
+
+use tokio::{
+    io::{AsyncRead, AsyncWrite, ReadBuf},
+    task::JoinHandle,
+};
+use tokio_tungstenite::{client_async, tungstenite, MaybeTlsStream, WebSocketStream};
+
+pub type BoxFuture<T> = Pin<Box<dyn Future<Output = T> + Send>>;
+
+/// A byte stream of the simulated network.
+pub trait Pipe: AsyncRead + AsyncWrite + Send + Unpin + Debug {}
+impl<T: AsyncRead + AsyncWrite + Send + Unpin + Debug> Pipe for T {}
+
+/// A listening socket of the simulated network.
+pub trait Acceptor: Send + Sync {
+    fn accept(&self) -> BoxFuture<io::Result<(Box<dyn Pipe>, SocketAddr)>>;
+}
+
+/// The simulator.
+pub trait World: Send + Sync {
+    fn spawn(&self, f: BoxFuture<()>) -> JoinHandle<()>;
+    fn bind(&self, addr: &str) -> io::Result<Box<dyn Acceptor>>;
+    fn connect(&self, addr: &str) -> BoxFuture<io::Result<Box<dyn Pipe>>>;
+}
+
+static WORLD: OnceLock<Box<dyn World>> = OnceLock::new();
+
+pub fn set_world(w: Box<dyn World>) {
+    let _ = WORLD.set(w);
+}
+
+fn world() -> io::Result<&'static dyn World> {
+    WORLD
+        .get()
+        .map(|w| &**w)
+        .ok_or_else(|| io::Error::new(io::ErrorKind::Unsupported, "no simulator"))
+}
+
+pub fn spawn<F: Future<Output = ()> + Send + 'static>(f: F) -> JoinHandle<()> {
+    match WORLD.get() {
+        Some(w) => w.spawn(Box::pin(f)),
+        None => tokio::spawn(f),
+    }
+}
+
+pub struct TcpListener(Box<dyn Acceptor>);
+
+impl TcpListener {
+    pub async fn bind<A: AsRef<str>>(addr: A) -> io::Result<Self> {
+        Ok(Self(world()?.bind(addr.as_ref())?))
+    }
+
+    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
+        let (pipe, addr) = self.0.accept().await?;
+        Ok((TcpStream(pipe), addr))
+    }
+}
+
+#[derive(Debug)]
+pub struct TcpStream(Box<dyn Pipe>);
+
+impl TcpStream {
+    pub async fn connect<A: AsRef<str>>(addr: A) -> io::Result<Self> {
+        Ok(Self(world()?.connect(addr.as_ref()).await?))
+    }
+}
+
+impl AsyncRead for TcpStream {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_read(cx, buf)
+    }
+}
+
+impl AsyncWrite for TcpStream {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut self.0).poll_write(cx, buf)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_flush(cx)
+    }
+
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_shutdown(cx)
+    }
+}
+
+/// Replaces [tokio_tungstenite::connect_async].
+pub async fn connect_async<U: AsRef<str>>(
+    url: U,
+) -> Result<
+    (
+        WebSocketStream<MaybeTlsStream<TcpStream>>,
+        tungstenite::handshake::client::Response,
+    ),
+    tungstenite::Error,
+> {
+    let url = url.as_ref();
+    let addr = url.split_once("://").map(|(_, a)| a).unwrap_or(url);
+    let addr = addr.split('/').next().unwrap_or(addr);
+    let stream = TcpStream::connect(addr)
+        .await
+        .map_err(tungstenite::Error::Io)?;
+    client_async(url, MaybeTlsStream::Plain(stream)).await
+}
diff --git a/flarch/src/tasks/libc.rs b/flarch/src/tasks/libc.rs
index 8b5793f..347bd1d 100644
--- a/flarch/src/tasks/libc.rs
+++ b/flarch/src/tasks/libc.rs
@@ -20,6 +20,9 @@ pub fn spawn_local_nosend<F: Future<Output = ()> + 'static>(_: F) {
 
 /// Spawns the given method on the local scheduler.
 pub fn spawn_local<F: Future<Output = ()> + 'static + Send>(f: F) {
+    #[cfg(fledger_sim)]
+    crate::sim::spawn(f);
+    #[cfg(not(fledger_sim))]
     tokio::spawn(async { f.await });
 }
 
diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 5251aa5..6d37031 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -2,8 +2,13 @@ use async_trait::async_trait;
 use futures::stream::SplitStream;
 use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
 use std::pin::Pin;
-use tokio::net::TcpStream;
-use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
+#[cfg(fledger_sim)]
+use crate::sim::{connect_async, spawn, TcpStream};
+#[cfg(not(fledger_sim))]
+use tokio::{net::TcpStream, spawn};
+#[cfg(not(fledger_sim))]
+use tokio_tungstenite::connect_async;
+use tokio_tungstenite::{tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
 use crate::tasks::wait_ms;
@@ -30,7 +35,7 @@ impl WebSocketClient {
 
     fn listen(&mut self, mut read: SplitStream<WebSocketStream<MaybeTlsStream<TcpStream>>>) {
         let mut broker_cl = self.broker.clone();
-        tokio::spawn(async move {
+        spawn(async move {
             wait_ms(1000).await;
             loop {
                 if let Some(msg) = read.next().await {
diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 27e35c9..edab54a 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -5,11 +5,13 @@ use futures::{
     SinkExt, StreamExt,
 };
 use std::sync::Arc;
+#[cfg(fledger_sim)]
+use crate::sim::{spawn, TcpListener, TcpStream};
+use tokio::{select, sync::oneshot, task::JoinHandle};
+#[cfg(not(fledger_sim))]
 use tokio::{
     net::{TcpListener, TcpStream},
-    select,
-    sync::oneshot,
-    task::JoinHandle,
+    spawn,
 };
 use tokio_tungstenite::{accept_async, tungstenite::Message, WebSocketStream};
 
@@ -31,7 +33,7 @@ impl WebSocketServer {
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
         let mut broker_cl = broker.clone();
-        let conn_thread = tokio::spawn(async move {
+        let conn_thread = spawn(async move {
             let mut connection_id = 0;
             loop {
                 match server.accept().await {
@@ -129,7 +131,7 @@ impl WSConnection {
         mut rx: oneshot::Receiver<bool>,
         id: usize,
     ) {
-        tokio::spawn(async move {
+        spawn(async move {
             loop {
                 select! {
                     _ = (&mut rx) => {
-- 
2.43.0


From a7afeda37251336dce6c54ace9b0d214bc8fdaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:16 +0000
Subject: [PATCH 02/39] flmodules: add cfg(fledger_sim) seam for web proxy
 requests

---
 flmodules/src/lib.rs              |  5 +++++
 flmodules/src/sim.rs              | 22 ++++++++++++++++++++++
 flmodules/src/web_proxy/intern.rs |  7 ++++++-
 3 files changed, 33 insertions(+), 1 deletion(-)
 create mode 100644 flmodules/src/sim.rs

diff --git a/flmodules/src/lib.rs b/flmodules/src/lib.rs
index 020b011..b8054dd 100644
--- a/flmodules/src/lib.rs
+++ b/flmodules/src/lib.rs
@@ -1,3 +1,6 @@
+// For the `fledger_sim` cfg, see `sim.rs`.
+#![allow(unexpected_cfgs)]
+
 use bitflags::bitflags;
 use serde::{Deserialize, Serialize};
 bitflags! {
@@ -30,6 +33,8 @@ pub mod network;
 pub mod nodeconfig;
 pub mod random_connections;
 pub mod router;
+#[cfg(all(fledger_sim, target_family = "unix"))]
+pub mod sim;
 pub mod template;
 pub mod timer;
 pub mod web_proxy;
diff --git a/flmodules/src/sim.rs b/flmodules/src/sim.rs
new file mode 100644
index 0000000..8f1d506
--- /dev/null
+++ b/flmodules/src/sim.rs
@@ -0,0 +1,22 @@
+//! Seam for deterministic simulation.
+//!
+//! This module only exists when compiling with `--cfg fledger_sim`. It lets a
+//! simulator answer the HTTP requests of the web proxy.
+
+use std::{future::Future, pin::Pin, sync::OnceLock};
+
+pub type FetchResult = Result<reqwest::Response, reqwest::Error>;
+pub type Fetch = fn(String) -> Pin<Box<dyn Future<Output = FetchResult> + Send>>;
+
+static FETCH: OnceLock<Fetch> = OnceLock::new();
+
+pub fn set_fetch(f: Fetch) {
+    let _ = FETCH.set(f);
+}
+
+pub async fn http_get(url: String) -> FetchResult {
+    match FETCH.get() {
+        Some(f) => f(url).await,
+        None => reqwest::get(url).await,
+    }
+}
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index a76289d..63ce8a6 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -9,6 +9,11 @@ use serde::{Deserialize, Serialize};
 use tokio::sync::mpsc::Sender;
 use tokio::sync::watch;
 
+#[cfg(all(fledger_sim, target_family = "unix"))]
+use crate::sim::http_get;
+#[cfg(not(all(fledger_sim, target_family = "unix")))]
+use reqwest::get as http_get;
+
 use crate::nodeconfig::NodeInfo;
 use crate::router::messages::{RouterIn, RouterOut};
 use crate::web_proxy::broker::{WebProxyIn, WebProxyOut};
@@ -134,7 +139,7 @@ impl Intern {
     fn start_request(&mut self, src: NodeID, nonce: U256, request: String) -> Vec<InternOut> {
         let mut broker = self.broker.clone();
         spawn_local(async move {
-            match reqwest::get(request).await {
+            match http_get(request).await {
                 Ok(resp) => {
                     broker
                         .emit_msg_out(Self::module_msg(
-- 
2.43.0


From 44a918fb88fb01f49899170063dfe8a0ff11a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 03/39] fix: brokers settling at the same time do not wait for
 each other forever

A broker waited in its own task for the brokers it is linked to. When a
broker of a cycle was settled while another one of it was settling, both
stopped forever. Also wait for messages which come back to the caller.
---
 flarch/src/broker.rs | 66 ++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/flarch/src/broker.rs b/flarch/src/broker.rs
index 7d40bfc..a7ddab6 100644
--- a/flarch/src/broker.rs
+++ b/flarch/src/broker.rs
@@ -421,12 +421,18 @@ impl<I: 'static + Message, O: 'static + Message> Broker<I, O> {
     /// The caller argument is to be used when recursively settling, to avoid
     /// endless loops.
     pub async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        let (tx, mut rx) = unbounded_channel();
+        self.start_settle(callers)?.recv().await;
+        Ok(())
+    }
+
+    // Asks the broker to settle, without waiting for it.
+    // The returned channel gets a message once it is done.
+    fn start_settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<UnboundedReceiver<bool>> {
+        let (tx, rx) = unbounded_channel();
         self.intern_tx
-            .send(InternMessage::Settle(callers.clone(), tx))
+            .send(InternMessage::Settle(callers, tx))
             .map_err(|_| BrokerError::SendQueue("settle".into()))?;
-        rx.recv().await;
-        Ok(())
+        Ok(rx)
     }
 
     fn type_str(&self) -> String {
@@ -563,20 +569,29 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
             InternMessage::MessageOut(dst, msg) => self.msg_queue_out.push((dst, msg)),
             InternMessage::Settle(list, reply) => {
                 let type_str = self.type_str();
+                let mut settling = vec![];
                 if !list.contains(&self.id) {
                     let mut list = list.clone();
                     list.push(self.id);
                     for (_, ss) in self.subsystems.iter_mut() {
-                        ss.settle(list.clone())
-                            .await
-                            .err()
-                            .map(|e| log::error!("{}: While settling: {e:?}", type_str));
+                        match ss.settle(list.clone()).await {
+                            Ok(Some(rx)) => settling.push(rx),
+                            Ok(None) => (),
+                            Err(e) => log::error!("{}: While settling: {e:?}", type_str),
+                        }
                     }
                 }
-                reply
-                    .send(true)
-                    .err()
-                    .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                // This broker needs to keep on working while the others settle: two brokers
+                // settling at the same time would wait for each other forever.
+                spawn_local(async move {
+                    for mut rx in settling {
+                        rx.recv().await;
+                    }
+                    reply
+                        .send(true)
+                        .err()
+                        .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                });
                 return true;
             }
             InternMessage::Dropped => {
@@ -887,10 +902,13 @@ impl<I: Message, O: Message> Subsystem<I, O> {
         matches!(self, Self::Handler(_))
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
         match self {
-            Subsystem::Translator(tr) => tr.settle(callers).await,
-            _ => Ok(()),
+            Subsystem::Translator(tr) => tr.settle(callers).await.map(Some),
+            _ => Ok(None),
         }
     }
 }
@@ -919,7 +937,11 @@ pub trait SubsystemHandler<I: Async, O: Async> {
 pub trait SubsystemTranslator<I: Async, O: Async> {
     async fn translate_input(&mut self, trail: Vec<BrokerID>, from_broker: I);
     async fn translate_output(&mut self, trail: Vec<BrokerID>, from_broker: O);
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()>;
+    // Starts settling the linked broker. It is done once a message arrives on the channel.
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<UnboundedReceiver<bool>>;
 }
 
 #[target_send()]
@@ -982,11 +1004,13 @@ impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static> Subsy
         .await;
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        if !callers.contains(&self.broker.id) {
-            self.broker.settle(callers).await?;
-        }
-        Ok(())
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<UnboundedReceiver<bool>> {
+        // A broker which is already in the list of callers answers as soon as it handled
+        // the messages forwarded to it.
+        self.broker.start_settle(callers)
     }
 }
 
-- 
2.43.0


From 0956ae0d02dc08b045c7000152e6579a4ea34e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 04/39] fix: timer did not start when a millisecond passed
 between two readings of the clock

The difference to the wall clock was negative then, and as an unsigned value
the first tick was 584 million years away.
---
 flarch/src/tasks/libc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flarch/src/tasks/libc.rs b/flarch/src/tasks/libc.rs
index 347bd1d..afe21eb 100644
--- a/flarch/src/tasks/libc.rs
+++ b/flarch/src/tasks/libc.rs
@@ -49,8 +49,10 @@ impl Interval {
     /// Creates a new stream of Interval starting at next_millis and firing every
     /// dur.
     pub fn new(next_millis: i64, dur: Duration) -> Self {
+        // The clock can be past next_millis already.
+        let wait = (next_millis - now()).max(0) as u64;
         let next = Instant::now()
-            .checked_add(Duration::from_millis((next_millis - now()) as u64))
+            .checked_add(Duration::from_millis(wait))
             .unwrap();
         Self {
             interval: time::interval_at(next, dur),
@@ -61,7 +63,11 @@ impl Interval {
 
     /// Creates a new stream of Interval starting now and firing every dur.
     pub fn new_interval(dur: Duration) -> Self {
-        Self::new(now(), dur)
+        Self {
+            interval: time::interval(dur),
+            next: now(),
+            dur: dur.as_millis() as i64,
+        }
     }
 }
 
-- 
2.43.0


From c4276a155531c01cf6da87b05cea0358ea5b8668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 05/39] fix: storing to a file kept neither the old nor the new
 value when it failed half-way

---
 flarch/src/data_storage/libc.rs | 56 ++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 5b37897..310c24d 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -1,5 +1,6 @@
 use std::{
-    fs::{create_dir_all, remove_file, File},
+    fs::{create_dir_all, remove_file, rename, File},
+    io::ErrorKind,
     path::PathBuf,
 };
 
@@ -28,7 +29,10 @@ impl DataStorageFile {
         let mut dir = PathBuf::new();
         dir.push(root);
         if !dir.exists() {
-            create_dir_all(dir.clone()).expect("Creating directory");
+            // Without the directory, setting values returns an error.
+            create_dir_all(dir.clone())
+                .err()
+                .map(|e| log::error!("While creating directory {dir:?}: {e:?}"));
         }
         Self { dir, base }
     }
@@ -49,25 +53,41 @@ use std::io::prelude::*;
 #[async_trait]
 impl DataStorage for DataStorageFile {
     fn get(&self, key: &str) -> Result<String, StorageError> {
-        let name = &self.name(key);
-        Ok(if name.exists() {
-            let mut contents = String::new();
-            File::open(name)
-                .map_err(|e| StorageError::Underlying(format!("While opening file: {:?}", e)))?
-                .read_to_string(&mut contents)
-                .map_err(|e| StorageError::Underlying(format!("While reading file: {:?}", e)))?;
-            contents
-        } else {
-            "".into()
-        })
+        let mut file = match File::open(self.name(key)) {
+            Ok(file) => file,
+            Err(e) if e.kind() == ErrorKind::NotFound => return Ok("".into()),
+            Err(e) => {
+                return Err(StorageError::Underlying(format!(
+                    "While opening file: {:?}",
+                    e
+                )))
+            }
+        };
+        let mut contents = String::new();
+        file.read_to_string(&mut contents)
+            .map_err(|e| StorageError::Underlying(format!("While reading file: {:?}", e)))?;
+        Ok(contents)
     }
 
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
-        File::create(self.name(key))
-            .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))?
-            .write_all(value.as_bytes())
-            .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))?;
-        Ok(())
+        // The old value needs to be readable until the new one is written completely.
+        let name = self.name(key);
+        let mut temp = name.clone();
+        temp.set_extension("yaml.tmp");
+        File::create(&temp)
+            .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))
+            .and_then(|mut f| {
+                f.write_all(value.as_bytes())
+                    .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))
+            })
+            .and_then(|_| {
+                rename(&temp, name)
+                    .map_err(|e| StorageError::Underlying(format!("While renaming file: {:?}", e)))
+            })
+            .map_err(|e| {
+                let _ = remove_file(&temp);
+                e
+            })
     }
 
     fn remove(&mut self, key: &str) -> Result<(), StorageError> {
-- 
2.43.0


From b7e7a19101371e645db255b54a94e9288fd39b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 06/39] fix: a node got a new identity and new keys when the
 stored ones could not be read

---
 flmodules/src/flo/storage.rs          | 16 ++++++++++------
 flmodules/src/gossip_events/broker.rs |  2 +-
 flmodules/src/gossip_events/intern.rs |  8 ++++----
 flnode/src/node.rs                    | 17 +++++++++--------
 4 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/flmodules/src/flo/storage.rs b/flmodules/src/flo/storage.rs
index 1912c59..81a593d 100644
--- a/flmodules/src/flo/storage.rs
+++ b/flmodules/src/flo/storage.rs
@@ -15,12 +15,16 @@ pub struct CryptoStorage {
 const STORAGE_NAME: &str = "CryptoStorage";
 
 impl CryptoStorage {
-    pub fn new(ds: Box<dyn DataStorage + Send>) -> Self {
-        Self {
-            ds: Some(ds.clone()),
-            ..serde_yaml::from_str(&ds.get(STORAGE_NAME).unwrap_or("".to_string()))
-                .unwrap_or(CryptoStorage::default())
-        }
+    /// Loads the signers from the storage. It returns an error if there are signers, but
+    /// they cannot be read, so that they don't get overwritten.
+    pub fn new(ds: Box<dyn DataStorage + Send>) -> anyhow::Result<Self> {
+        let stored = ds.get(STORAGE_NAME)?;
+        let cs = if stored.is_empty() {
+            CryptoStorage::default()
+        } else {
+            serde_yaml::from_str(&stored)?
+        };
+        Ok(Self { ds: Some(ds), ..cs })
     }
 
     pub fn get_signer(&mut self) -> Signer {
diff --git a/flmodules/src/gossip_events/broker.rs b/flmodules/src/gossip_events/broker.rs
index b801053..32058ab 100644
--- a/flmodules/src/gossip_events/broker.rs
+++ b/flmodules/src/gossip_events/broker.rs
@@ -47,7 +47,7 @@ impl Gossip {
         rc: BrokerRandom,
     ) -> anyhow::Result<Self> {
         let src = info.get_id();
-        let (messages, storage) = Intern::new(src.clone(), storage);
+        let (messages, storage) = Intern::new(src.clone(), storage)?;
         let mut intern = Broker::new_with_handler(Box::new(messages)).await?.0;
 
         #[cfg(feature = "testing")]
diff --git a/flmodules/src/gossip_events/intern.rs b/flmodules/src/gossip_events/intern.rs
index 5c73a1c..d6c3913 100644
--- a/flmodules/src/gossip_events/intern.rs
+++ b/flmodules/src/gossip_events/intern.rs
@@ -66,16 +66,16 @@ impl Intern {
     pub fn new(
         id: NodeID,
         storage: Box<dyn DataStorage + Send>,
-    ) -> (Self, watch::Receiver<EventsStorage>) {
+    ) -> anyhow::Result<(Self, watch::Receiver<EventsStorage>)> {
         let mut events = EventsStorage::new();
-        let gossip_msgs_str = storage.get(MODULE_NAME).unwrap();
+        let gossip_msgs_str = storage.get(MODULE_NAME)?;
         if !gossip_msgs_str.is_empty() {
             if let Err(e) = events.set(&gossip_msgs_str) {
                 log::warn!("Couldn't load gossip messages: {}", e);
             }
         }
         let (storage_tx, storage_rx) = watch::channel(events.clone());
-        (
+        Ok((
             Self {
                 events,
                 storage,
@@ -86,7 +86,7 @@ impl Intern {
                 ticks: 0,
             },
             storage_rx,
-        )
+        ))
     }
 
     fn store(&mut self) {
diff --git a/flnode/src/node.rs b/flnode/src/node.rs
index c3353f1..e9e57d2 100644
--- a/flnode/src/node.rs
+++ b/flnode/src/node.rs
@@ -188,7 +188,7 @@ impl Node {
         }
 
         Ok(Self {
-            crypto_storage: CryptoStorage::new(storage.clone()),
+            crypto_storage: CryptoStorage::new(storage.clone())?,
             storage,
             node_config,
             broker_net,
@@ -276,14 +276,15 @@ impl Node {
 
     /// Fetches the config
     pub fn get_config(storage: Box<dyn DataStorage>) -> anyhow::Result<NodeConfig> {
-        let config_str = match storage.get(STORAGE_CONFIG) {
-            Ok(s) => s,
-            Err(_) => {
-                log::info!("Couldn't load configuration - start with empty");
-                "".to_string()
-            }
+        // Only start with a new identity if there is none yet: otherwise the stored
+        // private key would be overwritten and lost.
+        let config_str = storage.get(STORAGE_CONFIG)?;
+        let mut config = if config_str.is_empty() {
+            log::info!("No configuration stored - start with empty");
+            NodeConfig::new()
+        } else {
+            serde_yaml::from_str(&config_str)?
         };
-        let mut config = NodeConfig::decode(&config_str);
         #[cfg(target_family = "wasm")]
         let enable_webproxy_request = false;
         // Only unix based clients can send http GET requests.
-- 
2.43.0


From a26b37a6be3173438b13ea77f07aba5b2fa6f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 07/39] fix: which gossip events are kept depended on the order
 of their arrival

---
 flmodules/src/gossip_events/core.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index ce04ef2..271a746 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -151,7 +151,7 @@ impl Events {
             .find(|(_, v)| v.src == msg.src)
             .map(|(id, ev)| (*id, ev.clone()))
         {
-            if ev.created > msg.created {
+            if (ev.created, id) > (msg.created, msg.get_id()) {
                 return false;
             }
             self.events.remove(&id);
@@ -160,10 +160,12 @@ impl Events {
     }
 
     // Insert the message in the events and make sure the limits are kept.
+    // Returns false if the message is too old to be kept.
     fn insert_simple(&mut self, msg: Event) -> bool {
-        self.events.insert(msg.get_id(), msg);
+        let id = msg.get_id();
+        self.events.insert(id, msg);
         self.limit();
-        true
+        self.events.contains_key(&id)
     }
 
     /// Returns all messages that are part of the ids.
@@ -195,11 +197,11 @@ impl Events {
         let ids: Vec<U256> = self
             .events
             .iter()
-            .map(|(k, v)| (k, v.created))
-            .sorted_by(|a, b| b.1.partial_cmp(&a.1).unwrap())
+            // The id decides between messages with the same time, so that all nodes keep the same.
+            .map(|(k, v)| (v.created, *k))
+            .sorted_by(|a, b| b.cmp(a))
             .skip(self.config.max_events)
-            .map(|(k, _)| k)
-            .cloned()
+            .map(|(_, k)| k)
             .collect();
         for id in ids {
             self.events.remove(&id);
-- 
2.43.0


From 009115d986520ee1674eb16a745eb22523799a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 08/39] fix: random connections wait forever for connections
 that never come

---
 flmodules/src/random_connections/intern.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flmodules/src/random_connections/intern.rs b/flmodules/src/random_connections/intern.rs
index 21d2802..8f3a27e 100644
--- a/flmodules/src/random_connections/intern.rs
+++ b/flmodules/src/random_connections/intern.rs
@@ -67,6 +67,12 @@ impl Intern {
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
         self.storage.tick();
+        // Otherwise a connection that fails silently would count as a connection forever.
+        let timeout = self
+            .storage
+            .connecting
+            .oldest_ticks(self.cfg.connecting_timeout);
+        self.storage.failure(&timeout);
 
         concat([
             self.new_connection(),
-- 
2.43.0


From 617c2a066585e09d13d5008991bcb3bbd4574b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 09/39] fix: node descriptions from outside with a bad public
 key or of an old version panic

---
 flmodules/src/nodeconfig.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index ab309b1..a06db41 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -79,13 +79,19 @@ impl NodeInfo {
         if let Some(id) = self.id {
             return id;
         }
-        let a: [u8; PublicKey::BYTES] = self.pubkey.clone().try_into().unwrap();
-        U256::from(a)
+        match <[u8; PublicKey::BYTES]>::try_from(self.pubkey.as_slice()) {
+            Ok(a) => U256::from(a),
+            // Infos from other nodes can hold anything as public key.
+            Err(_) => U256::hash_data(&self.pubkey),
+        }
     }
 
     /// Verifies a signature with the public key of this `NodeInfo`
     pub fn verify(&self, msg: &[u8], sig_bytes: &[u8]) -> bool {
-        let pubkey = PublicKey::from_slice(&self.pubkey).unwrap();
+        let pubkey = match PublicKey::from_slice(&self.pubkey) {
+            Ok(pubkey) => pubkey,
+            Err(_) => return false,
+        };
         let sig = match Signature::from_slice(sig_bytes) {
             Ok(sig) => sig,
             Err(_) => return false,
@@ -172,14 +178,14 @@ bitflags! {
 }
 
 impl From<NodeInfoV1> for NodeInfoV2 {
-    fn from(_: NodeInfoV1) -> Self {
-        panic!("Old configuration not supported anymore")
+    fn from(old: NodeInfoV1) -> Self {
+        match old {}
     }
 }
 
-// This is not used anymore, so it's empty.
+// This is not supported anymore, so it cannot be decoded.
 #[derive(Serialize, Deserialize, Clone)]
-struct NodeInfoV1 {}
+enum NodeInfoV1 {}
 
 /// NodeConfig is stored on the node itself and contains the private key.
 #[serde_as]
-- 
2.43.0


From f5fc6d0490682fb149f1182a4c9c849a0bd4eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 10/39] fix: signalling server answers connections that did not
 announce themselves

---
 flmodules/src/network/signal.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/network/signal.rs b/flmodules/src/network/signal.rs
index 001d177..d178fb5 100644
--- a/flmodules/src/network/signal.rs
+++ b/flmodules/src/network/signal.rs
@@ -200,7 +200,7 @@ impl SignalServer {
             WSSignalMessageFromNode::Announce(ann) => self.ws_announce(index, ann),
             WSSignalMessageFromNode::ListIDsRequest => self.ws_list_ids(index),
             WSSignalMessageFromNode::PeerSetup(pi) => self.ws_peer_setup(index, pi),
-            WSSignalMessageFromNode::NodeStats(ns) => self.ws_node_stats(ns),
+            WSSignalMessageFromNode::NodeStats(ns) => self.ws_node_stats(index, ns),
         }
     }
 
@@ -267,6 +267,10 @@ impl SignalServer {
     }
 
     fn ws_list_ids(&mut self, id: usize) -> Vec<SignalOut> {
+        if !self.connection_ids.contains_right(&id) {
+            log::warn!("Got a list request from a node that is not registered.");
+            return vec![];
+        }
         let mut rng = StdRng::seed_from_u64(id as u64);
         let max_size = self.config.max_list_len.unwrap_or(self.info.len());
         let list = self
@@ -295,7 +299,11 @@ impl SignalServer {
         vec![]
     }
 
-    fn ws_node_stats(&mut self, ns: Vec<NodeStat>) -> Vec<SignalOut> {
+    fn ws_node_stats(&mut self, index: usize, ns: Vec<NodeStat>) -> Vec<SignalOut> {
+        if !self.connection_ids.contains_right(&index) {
+            log::warn!("Got statistics from a node that is not registered.");
+            return vec![];
+        }
         vec![SignalOut::NodeStats(ns)]
     }
 
-- 
2.43.0


From 3e2ab0825bece6e9a7fddd21f0b903177b11e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 11/39] fix: signalling server forgets idle nodes too early and
 without closing their connection

---
 flmodules/src/network/signal.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/flmodules/src/network/signal.rs b/flmodules/src/network/signal.rs
index d178fb5..cc25c10 100644
--- a/flmodules/src/network/signal.rs
+++ b/flmodules/src/network/signal.rs
@@ -153,10 +153,7 @@ impl SignalServer {
 
     fn msg_in(&mut self, msg_in: SignalIn) -> Vec<SignalOut> {
         match msg_in {
-            SignalIn::Timer => {
-                self.msg_in_timer();
-                vec![]
-            }
+            SignalIn::Timer => self.msg_in_timer(),
             SignalIn::WSServer(msg_wss) => self.msg_wss(msg_wss),
             SignalIn::Stop => vec![SignalOut::WSServer(WSServerIn::Stop)],
         }
@@ -179,18 +176,24 @@ impl SignalServer {
         vec![]
     }
 
-    fn msg_in_timer(&mut self) {
+    fn msg_in_timer(&mut self) -> Vec<SignalOut> {
         let mut to_remove = Vec::new();
         for (index, ttl) in self.ttl.iter_mut() {
-            *ttl -= 1;
             if *ttl == 0 {
                 log::info!("Removing idle node {index}");
                 to_remove.push(*index);
+            } else {
+                *ttl -= 1;
             }
         }
-        for id in to_remove {
-            self.remove_node(id);
-        }
+        to_remove
+            .into_iter()
+            .map(|id| {
+                self.remove_node(id);
+                // Else the node thinks it is still connected, but cannot announce itself anymore.
+                SignalOut::WSServer(WSServerIn::Close(id))
+            })
+            .collect()
     }
 
     // The id is the challange until the announcement succeeds. Then ws_announce calls
-- 
2.43.0


From d4f53a89d629fd6971bf26d70237fcdbaa98e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 12/39] fix: websocket server mixes up connections, and lets
 one client stop the others

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 198 ++++++++++---------
 1 file changed, 106 insertions(+), 92 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index edab54a..7b66ac3 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,10 +4,16 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::sync::Arc;
+use std::{collections::HashMap, sync::Arc, time::Duration};
 #[cfg(fledger_sim)]
 use crate::sim::{spawn, TcpListener, TcpStream};
-use tokio::{select, sync::oneshot, task::JoinHandle};
+use tokio::{
+    select,
+    sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender},
+    sync::oneshot,
+    task::JoinHandle,
+    time::timeout,
+};
 #[cfg(not(fledger_sim))]
 use tokio::{
     net::{TcpListener, TcpStream},
@@ -18,41 +24,51 @@ use tokio_tungstenite::{accept_async, tungstenite::Message, WebSocketStream};
 use crate::web_rtc::websocket::{WSError, WSServerIn, WSServerOut};
 use crate::{
     broker::{Broker, SubsystemHandler},
+    tasks::wait_ms,
     web_rtc::websocket::BrokerWSServer,
 };
 
+/// How long a client can take to set up the websocket connection, and how long it
+/// can take to receive what is left when the connection is closed.
+const CLIENT_TIMEOUT: Duration = Duration::from_secs(10);
+
+type Connections = Arc<Mutex<HashMap<usize, WSConnection>>>;
+
 pub struct WebSocketServer {
-    connections: Arc<Mutex<Vec<WSConnection>>>,
+    connections: Connections,
     conn_thread: JoinHandle<()>,
 }
 
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(Vec::new()));
+        let connections = Connections::default();
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
-        let mut broker_cl = broker.clone();
+        let broker_cl = broker.clone();
         let conn_thread = spawn(async move {
             let mut connection_id = 0;
             loop {
                 match server.accept().await {
                     Ok((stream, _)) => {
-                        let broker_cl2 = broker_cl.clone();
-                        match WSConnection::new(stream, broker_cl2, connection_id).await {
-                            Ok(conn) => {
-                                log::trace!("Got new connection");
-                                connections_cl.lock().await.push(conn);
-                                broker_cl
-                                    .emit_msg_out(WSServerOut::NewConnection(connection_id))
-                                    .expect("Error sending connect message");
+                        let broker = broker_cl.clone();
+                        let connections = Arc::clone(&connections_cl);
+                        let id = connection_id;
+                        // Setting up one connection must not make the others wait.
+                        spawn(async move {
+                            if let Err(e) =
+                                WSConnection::start(stream, broker, connections, id).await
+                            {
+                                log::error!("Error while getting connection: {:?}", e);
                             }
-                            Err(e) => log::error!("Error while getting connection: {:?}", e),
-                        }
+                        });
+                        connection_id += 1;
+                    }
+                    Err(e) => {
+                        log::error!("While accepting connection: {e:?}");
+                        wait_ms(100).await;
                     }
-                    Err(e) => log::error!("While accepting connection: {e:?}"),
                 }
-                connection_id += 1;
             }
         });
 
@@ -73,25 +89,21 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
         for msg in from_broker {
             match msg {
                 WSServerIn::Message(id, msg) => {
-                    let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
-                        if let Err(e) = conn.send(msg).await {
-                            log::error!("Error while sending: {e}");
-                            conn.close();
-                            connections.remove(id);
-                        }
+                    if let Some(conn) = self.connections.lock().await.get(&id) {
+                        conn.send(msg);
                     }
                 }
                 WSServerIn::Close(id) => {
-                    let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = self.connections.lock().await.remove(&id) {
                         conn.close();
-                        connections.remove(id);
                     }
                 }
                 WSServerIn::Stop => {
                     log::trace!("Stopping thread");
                     self.conn_thread.abort();
+                    for (_, conn) in self.connections.lock().await.drain() {
+                        conn.close();
+                    }
                     return vec![WSServerOut::Stopped];
                 }
             }
@@ -101,91 +113,93 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
 }
 
 pub struct WSConnection {
-    websocket: SplitSink<WebSocketStream<TcpStream>, Message>,
-    tx: Option<oneshot::Sender<bool>>,
+    tx_msg: UnboundedSender<String>,
+    tx_close: oneshot::Sender<bool>,
 }
 
 impl WSConnection {
-    async fn new(
+    async fn start(
         stream: TcpStream,
-        broker: BrokerWSServer,
+        mut broker: BrokerWSServer,
+        connections: Connections,
         id: usize,
-    ) -> anyhow::Result<WSConnection> {
-        let websocket = accept_async(stream)
-            .await
+    ) -> anyhow::Result<()> {
+        let websocket = timeout(CLIENT_TIMEOUT, accept_async(stream))
+            .await?
             .map_err(|e| WSError::Underlying(e.to_string()))?;
+        log::trace!("Got new connection");
         let (wr, rd) = websocket.split();
-        let (tx, rx) = oneshot::channel();
-        let uwsc = WSConnection {
-            websocket: wr,
-            tx: Some(tx),
-        };
+        let (tx_close, rx_close) = oneshot::channel();
+        let (tx_msg, rx_msg) = unbounded_channel();
+        connections
+            .lock()
+            .await
+            .insert(id, WSConnection { tx_msg, tx_close });
+        broker.emit_msg_out(WSServerOut::NewConnection(id))?;
 
-        WSConnection::loop_read(broker, rd, rx, id).await;
-        Ok(uwsc)
+        // A client that doesn't read its messages must not make the others wait.
+        let mut writer = spawn(WSConnection::loop_write(wr, rx_msg));
+        select! {
+            _ = &mut writer => {},
+            res = WSConnection::loop_read(&mut broker, rd, rx_close, id) => res?,
+        }
+        // Dropping the connection also ends the writer, once it sent everything.
+        connections.lock().await.remove(&id);
+        broker.emit_msg_out(WSServerOut::Disconnection(id))?;
+        if !writer.is_finished() && timeout(CLIENT_TIMEOUT, &mut writer).await.is_err() {
+            writer.abort();
+        }
+        Ok(())
+    }
+
+    async fn loop_write(
+        mut ws: SplitSink<WebSocketStream<TcpStream>, Message>,
+        mut rx: UnboundedReceiver<String>,
+    ) {
+        while let Some(msg) = rx.recv().await {
+            if let Err(e) = ws.send(Message::Text(msg.into())).await {
+                log::error!("Error while sending: {e}");
+                return;
+            }
+        }
+        if let Err(e) = ws.close().await {
+            log::debug!("While closing the connection: {e}");
+        }
     }
 
     async fn loop_read(
-        mut broker: BrokerWSServer,
+        broker: &mut BrokerWSServer,
         mut ws: SplitStream<WebSocketStream<TcpStream>>,
         mut rx: oneshot::Receiver<bool>,
         id: usize,
-    ) {
-        spawn(async move {
-            loop {
-                select! {
-                    _ = (&mut rx) => {
-                        broker
-                        .emit_msg_out(WSServerOut::Disconnection(id))
-                        .expect("While sending message to broker.");
-                        return;
-                    },
-                    ws_out = ws.next() =>
-                        if let Some(msg_ws) = ws_out {
-                            if let Some(out) = match msg_ws {
-                                Ok(msg) => match msg {
-                                    Message::Text(s) => {
-                                        Some(WSServerOut::Message(id, s.to_string()))
-                                    }
-                                    Message::Close(_) => {
-                                        Some(WSServerOut::Disconnection(id))
-                                    }
-                                    _ => None,
-                                },
-                                Err(e) => {
-                                    log::warn!("Closing connection because of error: {e:?}");
-                                    Some(WSServerOut::Disconnection(id))
-                                }
-                            } {
-                                broker
-                                    .emit_msg_out(out.clone())
-                                    .expect("While sending message to broker.");
-                                if matches!(
-                                    out,
-                                    WSServerOut::Disconnection(_)
-                                ) {
-                                    return;
-                                }
-                            }
-                        }
+    ) -> anyhow::Result<()> {
+        loop {
+            select! {
+                _ = (&mut rx) => return Ok(()),
+                ws_out = ws.next() => match ws_out {
+                    Some(Ok(Message::Text(s))) => {
+                        broker.emit_msg_out(WSServerOut::Message(id, s.to_string()))?
+                    }
+                    Some(Ok(Message::Close(_))) | None => return Ok(()),
+                    Some(Ok(_)) => {}
+                    Some(Err(e)) => {
+                        log::warn!("Closing connection because of error: {e:?}");
+                        return Ok(());
+                    }
                 }
             }
-        });
+        }
     }
 
-    async fn send(&mut self, msg: String) -> anyhow::Result<()> {
-        Ok(self
-            .websocket
-            .send(Message::Text(msg.into()))
-            .await
-            .map_err(|e| WSError::Underlying(e.to_string()))?)
+    fn send(&self, msg: String) {
+        if self.tx_msg.send(msg).is_err() {
+            log::debug!("Connection is already closed");
+        }
     }
 
-    fn close(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            tx.send(true)
-                .err()
-                .map(|_| log::error!("Closing Websocket failed"));
+    fn close(self) {
+        if self.tx_close.send(true).is_err() {
+            log::debug!("Connection is already closed");
         }
     }
 }
-- 
2.43.0


From 5d51a4f96ed0fa791664997ae885f3945228244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 13/39] fix: websocket client does not reconnect, and panics
 when sending fails

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 206 +++++++++++++------
 1 file changed, 142 insertions(+), 64 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 6d37031..d1751ee 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -1,9 +1,13 @@
 use async_trait::async_trait;
-use futures::stream::SplitStream;
-use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
-use std::pin::Pin;
+use futures::{
+    lock::Mutex,
+    stream::{SplitSink, SplitStream},
+    SinkExt, StreamExt,
+};
+use std::{sync::Arc, time::Duration};
 #[cfg(fledger_sim)]
 use crate::sim::{connect_async, spawn, TcpStream};
+use tokio::{task::JoinHandle, time::timeout};
 #[cfg(not(fledger_sim))]
 use tokio::{net::TcpStream, spawn};
 #[cfg(not(fledger_sim))]
@@ -12,11 +16,40 @@ use tokio_tungstenite::{tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
 use crate::tasks::wait_ms;
-use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSError};
+use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
 
+type WSStream = WebSocketStream<MaybeTlsStream<TcpStream>>;
+
+/// How long connecting to the server, or sending a message, can take.
+const SERVER_TIMEOUT: Duration = Duration::from_secs(10);
+/// Time to wait before trying again to connect.
+const RECONNECT_MS: u64 = 1000;
+
+#[derive(Default)]
+struct Connection {
+    /// Increased whenever the connection is replaced or closed, so that whatever
+    /// belongs to an older connection has no influence anymore.
+    number: usize,
+    write: Option<SplitSink<WSStream, tungstenite::Message>>,
+    listener: Option<JoinHandle<()>>,
+}
+
+impl Connection {
+    /// Drops an eventually existing connection and returns the new number.
+    fn reset(&mut self) -> usize {
+        self.number += 1;
+        self.write = None;
+        if let Some(listener) = self.listener.take() {
+            listener.abort();
+        }
+        self.number
+    }
+}
+
+#[derive(Clone)]
 pub struct WebSocketClient {
     url: String,
-    write: Option<SplitSink<WebSocketStream<MaybeTlsStream<TcpStream>>, tungstenite::Message>>,
+    connection: Arc<Mutex<Connection>>,
     broker: BrokerWSClient,
 }
 
@@ -24,7 +57,7 @@ impl WebSocketClient {
     pub async fn connect(url: &str) -> anyhow::Result<BrokerWSClient> {
         let wsb = WebSocketClient {
             url: url.to_string(),
-            write: None,
+            connection: Arc::default(),
             broker: Broker::new(),
         };
         let mut broker = wsb.broker.clone();
@@ -33,88 +66,133 @@ impl WebSocketClient {
         Ok(broker)
     }
 
-    fn listen(&mut self, mut read: SplitStream<WebSocketStream<MaybeTlsStream<TcpStream>>>) {
-        let mut broker_cl = self.broker.clone();
+    /// Emits the messages of the connection, and connects again when it breaks.
+    fn listen(&self, mut read: SplitStream<WSStream>, number: usize) -> JoinHandle<()> {
+        let mut client = self.clone();
         spawn(async move {
             wait_ms(1000).await;
             loop {
-                if let Some(msg) = read.next().await {
-                    match msg {
-                        Ok(msg) => {
-                            if msg.is_text() {
-                                broker_cl
-                                    .emit_msg_out(WSClientOut::Message(msg.to_string()))
-                                    .expect("Failed to emit message");
-                            }
-                        }
-                        Err(e) => {
-                            log::warn!("Closing connection because of error: {:?}", e);
-                            log::warn!("Trying to reconnect");
-                            broker_cl
-                                .emit_msg_in(WSClientIn::Connect)
-                                .expect("tried to reconnect");
+                match read.next().await {
+                    Some(Ok(msg)) => {
+                        if msg.is_text()
+                            && client
+                                .broker
+                                .emit_msg_out(WSClientOut::Message(msg.to_string()))
+                                .is_err()
+                        {
                             return;
                         }
                     }
+                    Some(Err(e)) => {
+                        log::warn!("Closing connection because of error: {:?}", e);
+                        break;
+                    }
+                    None => {
+                        log::warn!("Connection has been closed");
+                        break;
+                    }
+                }
+            }
+            log::warn!("Trying to reconnect");
+            client.reconnect(number);
+        })
+    }
+
+    /// Tries to connect until it works, or until the connection with this number
+    /// is not the current one anymore.
+    fn reconnect(&self, number: usize) {
+        let client = self.clone();
+        spawn(async move {
+            loop {
+                {
+                    let mut conn = client.connection.lock().await;
+                    if conn.number != number {
+                        return;
+                    }
+                    conn.write = None;
+                }
+                match client.open().await {
+                    Ok(websocket) => {
+                        let mut conn = client.connection.lock().await;
+                        if conn.number == number {
+                            client.opened(&mut conn, websocket);
+                        }
+                        return;
+                    }
+                    Err(e) => log::error!("Couldn't connect to {}: {e}", client.url),
                 }
+                wait_ms(RECONNECT_MS).await;
             }
         });
     }
 
-    async fn connect_ws(&mut self) -> anyhow::Result<()> {
-        if let Some(mut write) = self.write.take() {
-            log::debug!("Reconnecting to websocket at {}", self.url);
-            write.close().await?;
-        } else {
-            log::trace!("Connecting to websocket at {}", self.url);
-        }
-        let (websocket, _) = connect_async(self.url.clone()).await?;
+    async fn open(&self) -> anyhow::Result<WSStream> {
+        Ok(timeout(SERVER_TIMEOUT, connect_async(self.url.clone()))
+            .await??
+            .0)
+    }
+
+    fn opened(&self, conn: &mut Connection, websocket: WSStream) {
         let (write, read) = websocket.split();
-        self.write = Some(write);
-        self.listen(read);
+        let number = conn.reset();
+        conn.write = Some(write);
+        conn.listener = Some(self.listen(read, number));
+    }
 
-        Ok(())
+    /// Closes an eventually existing connection and returns the new number.
+    async fn close(&self) -> usize {
+        let mut conn = self.connection.lock().await;
+        if let Some(mut write) = conn.write.take() {
+            log::debug!("Closing websocket to {}", self.url);
+            if !matches!(timeout(SERVER_TIMEOUT, write.close()).await, Ok(Ok(_))) {
+                log::warn!("Couldn't close websocket to {}", self.url);
+            }
+        }
+        conn.reset()
+    }
+
+    async fn connect_ws(&self) {
+        let number = self.close().await;
+        log::trace!("Connecting to websocket at {}", self.url);
+        match self.open().await {
+            Ok(websocket) => self.opened(&mut *self.connection.lock().await, websocket),
+            Err(e) => {
+                log::error!("Couldn't connect to {}: {e}", self.url);
+                self.reconnect(number);
+            }
+        }
+    }
+
+    async fn send(&self, msg: String) {
+        let mut conn = self.connection.lock().await;
+        let Some(write) = conn.write.as_mut() else {
+            log::warn!("Tried to write a message to a closed connection");
+            return;
+        };
+        match timeout(SERVER_TIMEOUT, write.send(tungstenite::Message::text(msg))).await {
+            Ok(Ok(_)) => {}
+            _ => {
+                log::warn!("Couldn't send message - trying to reconnect");
+                self.reconnect(conn.reset());
+            }
+        }
     }
 }
 
 #[async_trait]
 impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
     async fn messages(&mut self, msgs: Vec<WSClientIn>) -> Vec<WSClientOut> {
+        let mut out = vec![];
         for msg in msgs {
             match msg {
-                WSClientIn::Message(msg) => {
-                    if let Some(mut write) = self.write.as_mut() {
-                        Pin::new(&mut write)
-                            .start_send(tungstenite::Message::text(msg))
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("Error sending message");
-                        Pin::new(&mut write)
-                            .flush()
-                            .await
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("msg flush error");
-                    } else {
-                        log::warn!("Tried to write a message to a closed connection");
-                        if let Err(e) = self.connect_ws().await {
-                            log::error!("Couldn't connect: {e}");
-                        }
-                    }
-                }
+                WSClientIn::Message(msg) => self.send(msg).await,
                 WSClientIn::Disconnect => {
-                    if let Some(mut write) = self.write.take() {
-                        write.close().await.unwrap();
-                    } else {
-                        log::warn!("Trying to disconnect a disconnected connection");
-                    }
-                    return vec![WSClientOut::Disconnect];
-                }
-                WSClientIn::Connect => {
-                    if let Err(e) = self.connect_ws().await {
-                        log::error!("Couldn't connect to {}: {e}", self.url);
-                    }
+                    self.close().await;
+                    out.push(WSClientOut::Disconnect);
                 }
+                WSClientIn::Connect => self.connect_ws().await,
             }
         }
-        vec![]
+        out
     }
 }
-- 
2.43.0


From 95747bed43a10b892e374ca53a6091d1bb498e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 14/39] fix: pieces of messages from another node could exhaust
 the memory or panic

The number of pieces comes from the other node: it was used to allocate the
memory, and with zero pieces an empty message came out.
---
 flarch/src/web_rtc/node_connection.rs | 39 +++++++++++++++++----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8fde700..e2c31d0 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -337,7 +337,13 @@ impl Packet {
 
 #[derive(Default)]
 struct PacketCollector {
-    packets: HashMap<U256, Vec<Option<String>>>,
+    packets: HashMap<U256, PartialMsg>,
+}
+
+/// The parts of a message received up to now, of the total number of parts.
+struct PartialMsg {
+    total: usize,
+    parts: HashMap<usize, String>,
 }
 
 impl PacketCollector {
@@ -345,23 +351,28 @@ impl PacketCollector {
         match Self::get_params(&p) {
             None => return Some(p.data),
             Some((id, total, part)) => {
+                // The values come from the remote node, so don't trust them.
+                if part >= total {
+                    return None;
+                }
+                let msg = self.packets.entry(id).or_insert_with(|| PartialMsg {
+                    total,
+                    parts: HashMap::new(),
+                });
+                if msg.total != total {
+                    return None;
+                }
+
                 // Add the new packet to the list.
-                if let Some(e) = self
-                    .packets
-                    .entry(id)
-                    .or_insert(vec![None; total])
-                    .get_mut(part)
-                {
-                    *e = Some(p.data);
+                msg.parts.insert(part, p.data);
+                if msg.parts.len() < total {
+                    return None;
                 }
 
-                // Check if one of the entires is full, and return it.
+                // All parts are here, return the message.
                 self.packets
-                    .iter()
-                    .find(|(_, parts)| parts.iter().all(|p| p.is_some()))
-                    .map(|(id, _)| id.clone())
-                    .and_then(|id| self.packets.remove(&id))
-                    .map(|parts| parts.into_iter().flatten().collect())
+                    .remove(&id)
+                    .map(|mut msg| (0..total).filter_map(|p| msg.parts.remove(&p)).collect())
             }
         }
     }
-- 
2.43.0


From 2dd4d28060afe6135330e75f78441dfd54060f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:20 +0000
Subject: [PATCH 15/39] fix: network takes late messages for new connections,
 and loses connections

- a candidate that arrives after the connection is up counted as a new setup:
  the node was told to be disconnected, and never connected again
- asking twice for a connection replaced the first setup, but used its answer
- messages from before a disconnect counted as coming from the next connection,
  and were handed to the modules after the disconnect
- texts were queued in a connection that has been closed
- Network::connections was not updated when connections came or went
---
 flarch/src/web_rtc/node_connection.rs | 42 ++++++++++++++++++---------
 flmodules/src/network/intern.rs       | 39 ++++++++++++++++++++-----
 2 files changed, 60 insertions(+), 21 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index e2c31d0..6a600ff 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -213,10 +213,14 @@ impl NodeConnection {
                 self.msg_queue.append(&mut Packet::split_msg(msg_str));
                 self.send_queue()
             }
-            NCInput::Disconnect => vec![
-                NCOutput::Incoming(WebRTCInput::Disconnect),
-                NCOutput::Outgoing(WebRTCInput::Disconnect),
-            ],
+            NCInput::Disconnect => {
+                self.state_incoming = None;
+                self.state_outgoing = None;
+                vec![
+                    NCOutput::Incoming(WebRTCInput::Disconnect),
+                    NCOutput::Outgoing(WebRTCInput::Disconnect),
+                ]
+            }
 
             NCInput::GetStates => {
                 let mut out = vec![];
@@ -229,9 +233,15 @@ impl NodeConnection {
                 out
             }
             NCInput::Setup(dir, pm) => match dir {
-                Direction::Incoming => vec![NCOutput::Incoming(WebRTCInput::Setup(pm))],
+                Direction::Incoming => {
+                    if matches!(pm, PeerMessage::Offer(_)) {
+                        // The new connection replaces the old one.
+                        self.state_incoming = Some(ConnectionStateMap::default());
+                    }
+                    vec![NCOutput::Incoming(WebRTCInput::Setup(pm))]
+                }
                 Direction::Outgoing => {
-                    if self.state_outgoing.is_none() {
+                    if self.state_outgoing.is_none() || pm == PeerMessage::Init {
                         self.state_outgoing = Some(ConnectionStateMap::default());
                     }
                     vec![NCOutput::Outgoing(WebRTCInput::Setup(pm))]
@@ -242,16 +252,21 @@ impl NodeConnection {
     }
 
     fn msg_conn(&mut self, dir: Direction, msg: WebRTCOutput) -> Vec<NCOutput> {
+        // This is None if the connection has been closed. Then all messages about its state
+        // are outdated.
+        let conn_state = match dir {
+            Direction::Incoming => &mut self.state_incoming,
+            Direction::Outgoing => &mut self.state_outgoing,
+        };
         match msg {
             WebRTCOutput::Connected => {
-                let state = Some(ConnectionStateMap {
+                if conn_state.is_none() {
+                    return vec![];
+                }
+                *conn_state = Some(ConnectionStateMap {
                     data_connection: Some(DataChannelState::Open),
                     ..Default::default()
                 });
-                match dir {
-                    Direction::Incoming => self.state_incoming = state,
-                    Direction::Outgoing => self.state_outgoing = state,
-                }
                 [vec![NCOutput::Connected(dir)], self.send_queue()].concat()
             }
             WebRTCOutput::Setup(pm) => vec![NCOutput::Setup(dir, pm)],
@@ -261,9 +276,8 @@ impl NodeConnection {
                 .map(|s| vec![NCOutput::Text(s)])
                 .unwrap_or(vec![]),
             WebRTCOutput::State(state) => {
-                match dir {
-                    Direction::Incoming => self.state_incoming = Some(state),
-                    Direction::Outgoing => self.state_outgoing = Some(state),
+                if conn_state.is_some() {
+                    *conn_state = Some(state);
                 }
                 vec![NCOutput::State(dir, state)]
             }
diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 48d330a..8fc60c8 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -11,7 +11,7 @@ use flarch::{
     nodeids::{NodeID, U256},
     platform_async_trait,
     web_rtc::{
-        messages::PeerInfo,
+        messages::{PeerInfo, PeerMessage},
         node_connection::{Direction, NCInput, NCOutput},
         websocket::{WSClientIn, WSClientOut},
         WebRTCConnIn, WebRTCConnOut,
@@ -50,10 +50,15 @@ pub(super) enum InternOut {
 
 const UPDATE_INTERVAL: usize = 60;
 
+/// How many seconds a connection setup can take before it can be replaced by a new one.
+const SETUP_TIMEOUT: usize = 5;
+
 pub(super) struct Intern {
     node_config: NodeConfig,
     get_update: usize,
     connections: HashMap<NodeID, IOConnection>,
+    /// How many seconds ago the latest setup of an outgoing connection has been started.
+    setups: HashMap<NodeID, usize>,
     tx: Option<watch::Sender<Vec<NodeID>>>,
 }
 
@@ -67,6 +72,7 @@ impl Intern {
                 node_config,
                 get_update: UPDATE_INTERVAL,
                 connections: HashMap::new(),
+                setups: HashMap::new(),
                 tx: Some(tx),
             },
             rx,
@@ -124,11 +130,14 @@ impl Intern {
                 };
                 let mut out = vec![];
                 let dir = pi.get_direction(&own_id);
-                if self.connected_only(&remote_node, &dir) {
-                    out.push(NetworkOut::Disconnected(remote_node.clone()).into());
-                    self.send_connections();
+                // Only an offer starts a new connection. The other messages can also arrive
+                // when the connection is already up.
+                if matches!(pi.message, PeerMessage::Offer(_)) {
+                    if self.connected_only(&remote_node, &dir) {
+                        out.push(NetworkOut::Disconnected(remote_node.clone()).into());
+                    }
+                    self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 }
-                self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
                     remote_node,
                     NCInput::Setup(dir, pi.message),
@@ -173,6 +182,10 @@ impl Intern {
     }
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
+        self.setups.retain(|_, age| {
+            *age += 1;
+            *age <= SETUP_TIMEOUT
+        });
         self.get_update -= 1;
         (self.get_update == 0)
             .then(|| {
@@ -202,6 +215,10 @@ impl Intern {
         // log::info!("NC Message from {id}: {msg_nc}");
         match msg_nc {
             NCOutput::Connected(dir) => {
+                if !self.connection_state_check(&id, &dir, &ConnectionState::Setup) {
+                    // Either it's known already, or it has been disconnected in the meantime.
+                    return vec![];
+                }
                 let new_connection = !self.connected(&id);
                 self.connection_state_set(id, &dir, ConnectionState::Connected);
                 if new_connection {
@@ -221,7 +238,8 @@ impl Intern {
             }
             NCOutput::Text(msg) => {
                 if !self.connected(&id) {
-                    log::warn!("Got text for unconnected node ({id})");
+                    log::warn!("Dropping text from unconnected node ({id})");
+                    return vec![];
                 }
                 self.msg_wrapper(id, msg)
             }
@@ -264,6 +282,12 @@ impl Intern {
             vec![]
         } else {
             if self.connection_state_check(dst, &Direction::Outgoing, &ConnectionState::Setup) {
+                if self.setups.contains_key(dst) {
+                    // Starting a new setup now would stop the current one: its answer cannot
+                    // be used for the new one.
+                    log::trace!("Connection setup to {dst} is in place");
+                    return vec![];
+                }
                 // TODO: with the Helium browser, this message appears a lot. And then Helium doesn't
                 // connect with webrtc.
                 log::warn!(
@@ -272,6 +296,7 @@ impl Intern {
             } else {
                 self.connection_state_set(*dst, &Direction::Outgoing, ConnectionState::Setup);
             }
+            self.setups.insert(*dst, 0);
             vec![InternOut::WebRTC(WebRTCConnIn::Connect(*dst))]
         }
     }
@@ -284,7 +309,6 @@ impl Intern {
         } else {
             self.connection_state_set(*dst, &Direction::Incoming, ConnectionState::None);
             self.connection_state_set(*dst, &Direction::Outgoing, ConnectionState::None);
-            self.send_connections();
             return vec![
                 NetworkOut::Disconnected(*dst).into(),
                 InternOut::WebRTC(WebRTCConnIn::Message(*dst, NCInput::Disconnect)),
@@ -338,6 +362,7 @@ impl Intern {
             .entry(node)
             .and_modify(|ioc| ioc.set(dir, state.clone()))
             .or_insert(IOConnection::new(dir, state));
+        self.send_connections();
     }
 }
 
-- 
2.43.0


From 65f47a808d0c54c1c464beb691585b6e82e6b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 16/39] fix: the random connections keep the current info of a
 node only

A node that came back with another name was kept with its old info, and
added a second time with its new one.
---
 flmodules/src/random_connections/core.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/random_connections/core.rs b/flmodules/src/random_connections/core.rs
index b95eefd..c5b1fe6 100644
--- a/flmodules/src/random_connections/core.rs
+++ b/flmodules/src/random_connections/core.rs
@@ -33,11 +33,11 @@ impl RandomStats {
                 .collect::<Vec<U256>>()
                 .into(),
         );
-        self.infos = self
-            .infos
+        // The list holds the current infos, so they replace older ones of the same nodes.
+        self.infos = list
             .iter()
-            .chain(list.iter())
-            .unique()
+            .chain(self.infos.iter())
+            .unique_by(|ni| ni.get_id())
             .cloned()
             .collect();
     }
-- 
2.43.0


From 471e5cb313f7855996b84ef7d05d4318671b1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 17/39] fix: the DHT router drops disconnected nodes of the
 root bucket, too

A disconnected node was only removed from the split-off buckets, so most
nodes of a small network stayed active and in use until the timeout.
---
 flmodules/src/dht_router/kademlia.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/flmodules/src/dht_router/kademlia.rs b/flmodules/src/dht_router/kademlia.rs
index 2f833d1..e3717ee 100644
--- a/flmodules/src/dht_router/kademlia.rs
+++ b/flmodules/src/dht_router/kademlia.rs
@@ -80,16 +80,9 @@ impl Kademlia {
         }
     }
 
+    /// The node might be in one of the buckets, or in the root bucket.
     pub fn node_disconnected(&mut self, id: &NodeID) {
-        if let Some(bucket) = self
-            .buckets
-            .get_mut(KNode::get_depth(&self.config.root, id))
-        {
-            bucket.remove_node(id);
-            if self.root_bucket.status() == BucketStatus::Wanting {
-                self.rebalance_wanting();
-            }
-        };
+        self.remove_node(id);
     }
 
     pub fn remove_node(&mut self, id: &NodeID) {
-- 
2.43.0


From 9a01e105de29e29a5051a9b6dda2dafca379814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 18/39] fix: don't loop forever if only the realm is left in
 its storage

---
 flmodules/src/dht_storage/core.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8fa0bda..2b36b09 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -245,9 +245,7 @@ impl RealmStorage {
             }
         }
 
-        while self.size > self.realm_config.max_space {
-            self.remove_furthest();
-        }
+        self.respect_max_space();
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
             log::warn!(
@@ -260,6 +258,16 @@ impl RealmStorage {
         is_new_flo
     }
 
+    // Removes the furthest flos until the rest fits in the available space.
+    // The realm-flo itself is never removed.
+    fn respect_max_space(&mut self) {
+        while self.size > self.realm_config.max_space {
+            if !self.remove_furthest() {
+                break;
+            }
+        }
+    }
+
     fn size_at_depth(&self, distance: usize) -> u64 {
         self.distances
             .get(&distance)
@@ -300,7 +308,8 @@ impl RealmStorage {
         }
     }
 
-    fn remove_furthest(&mut self) {
+    /// Returns false if there is nothing which can be removed.
+    fn remove_furthest(&mut self) -> bool {
         if let Some(furthest) = self
             .distances
             .iter()
@@ -330,8 +339,10 @@ impl RealmStorage {
                 // );
 
                 self.remove_entry(&id);
+                return true;
             }
         }
+        false
     }
 }
 
-- 
2.43.0


From 657795d997add14f28d949628a90faaa391df456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 19/39] fix: respect the space and store the change when adding
 cuckoos

---
 flmodules/src/dht_storage/core.rs   | 29 ++++++++++++++++++-----------
 flmodules/src/dht_storage/intern.rs | 25 ++++++++++++++-----------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 2b36b09..459ab30 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -176,19 +176,26 @@ impl RealmStorage {
             .collect()
     }
 
-    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) {
-        for cuckoo in cuckoos {
-            self.store_cuckoo_id(parent, cuckoo);
-        }
+    /// Returns true if at least one of the cuckoos is new.
+    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) -> bool {
+        cuckoos.into_iter().fold(false, |new, cuckoo| {
+            self.store_cuckoo_id(parent, cuckoo) || new
+        })
     }
-    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) {
-        if let Some(fs) = self.flos.get_mut(parent) {
-            if !fs.cuckoos.contains(&cuckoo) {
-                self.size -= fs.size() as u64;
-                fs.cuckoos.push(cuckoo);
-                self.size += fs.size() as u64;
-            }
+
+    /// Returns true if the parent is stored and didn't have this cuckoo yet.
+    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) -> bool {
+        let Some(fs) = self.flos.get_mut(parent) else {
+            return false;
+        };
+        if fs.cuckoos.contains(&cuckoo) {
+            return false;
         }
+        self.size -= fs.size() as u64;
+        fs.cuckoos.push(cuckoo);
+        self.size += fs.size() as u64;
+        self.respect_max_space();
+        true
     }
 
     /// TODO: decide which IDs need to be stored.
diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index f0f3b31..1248dc5 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -242,9 +242,7 @@ impl Messages {
                     });
             }
             MessageClosest::StoreCuckooID(gid) => {
-                self.realms
-                    .get_mut(&gid.realm_id())
-                    .map(|realm| realm.store_cuckoo_id(&fid, gid.flo_id().clone()));
+                self.store_cuckoo_ids(gid.realm_id(), &fid, vec![gid.flo_id().clone()]);
             }
         }
         vec![]
@@ -255,9 +253,7 @@ impl Messages {
             MessageDest::FloValue(fc) => {
                 // log::info!("{} stores {:?}", self.config.our_id, flo.0);
                 self.store_flo(fc.0.clone());
-                self.realms
-                    .get_mut(&fc.0.realm_id())
-                    .map(|realm| realm.store_cuckoo_ids(&fc.0.flo_id(), fc.1.clone()));
+                self.store_cuckoo_ids(&fc.0.realm_id(), &fc.0.flo_id(), fc.1.clone());
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
@@ -332,11 +328,7 @@ impl Messages {
             MessageNeighbour::Flos(flo_cuckoos) => {
                 for (flo, cuckoos) in flo_cuckoos {
                     self.store_flo(flo.clone());
-                    self.realms.get_mut(&flo.realm_id()).map(|realm| {
-                        cuckoos
-                            .into_iter()
-                            .for_each(|cuckoo| realm.store_cuckoo_id(&flo.flo_id(), cuckoo))
-                    });
+                    self.store_cuckoo_ids(&flo.realm_id(), &flo.flo_id(), cuckoos);
                 }
                 vec![]
             }
@@ -369,6 +361,17 @@ impl Messages {
         res
     }
 
+    // Stores the cuckoos next to their parent, if it is here.
+    fn store_cuckoo_ids(&mut self, rid: &RealmID, parent: &FloID, cuckoos: Vec<FloID>) {
+        let modification = self
+            .realms
+            .get_mut(rid)
+            .is_some_and(|realm| realm.store_cuckoo_ids(parent, cuckoos));
+        if modification {
+            self.store();
+        }
+    }
+
     // Try really hard to store the flo.
     // Either its realm is already known, or it is a new realm.
     // When 'true' is returned, then the flo has been stored.
-- 
2.43.0


From e66cafcc946d3765ea7afdefb2d4ff270104677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 20/39] fix: accept a flo if free space and farther flos give
 enough place

---
 flmodules/src/dht_storage/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 459ab30..8245439 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -246,7 +246,7 @@ impl RealmStorage {
                 let size_above: u64 = (0..KNode::get_depth(&self.dht_config.our_id, &flo_id))
                     .map(|depth| self.size_at_depth(depth))
                     .sum();
-                if flo_size <= size_above {
+                if self.size + flo_size <= self.realm_config.max_space + size_above {
                     self.put(flo);
                 }
             }
@@ -280,6 +280,7 @@ impl RealmStorage {
             .get(&distance)
             .map(|ids| {
                 ids.iter()
+                    .filter(|&id| **id != *self.realm_id)
                     .map(|id| self.flos.get(id).map(|flo| flo.size()).unwrap_or(0))
                     .sum::<usize>() as u64
             })
-- 
2.43.0


From e3420b78ffc3469dace056fb63a402e74dab831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 21/39] fix: use the new configuration when a realm is updated

---
 flmodules/src/dht_storage/core.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8245439..39028af 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -216,7 +216,8 @@ impl RealmStorage {
 
     pub fn upsert_flo(&mut self, flo: Flo) -> bool {
         // TODO: think how to better calculate this - flo.size() * 3 is the approximate size as a json.
-        if flo.size() as u64 * 3 > self.realm_config.max_space {
+        let is_realm = *flo.flo_id() == *self.realm_id;
+        if !is_realm && flo.size() as u64 * 3 > self.realm_config.max_space {
             log::warn!(
                 "Cannot store flo of size {} > max_space({}) / 3",
                 flo.size(),
@@ -233,6 +234,11 @@ impl RealmStorage {
         let mut is_new_flo = true;
         if let Some(old) = self.flos.get(&flo.flo_id()) {
             if old.version() < flo.version() {
+                if is_realm {
+                    if let Ok(realm) = TryInto::<FloRealm>::try_into(flo.clone()) {
+                        self.realm_config = realm.cache().get_config();
+                    }
+                }
                 self.put(flo);
             } else {
                 is_new_flo = false;
-- 
2.43.0


From bfb157439df8332fa3def680e5d9388a0f0d0008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 22/39] fix: keep cuckoos when a flo is updated or arrives
 after them

---
 flmodules/src/dht_storage/core.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 39028af..2ce31c0 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -295,7 +295,16 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
-        self.remove_entry(&id);
+        // Keep the cuckoos of the previous version, and find those which arrived
+        // before their parent.
+        let mut cuckoos = self
+            .remove_entry(&id)
+            .map_or(vec![], |previous| previous.cuckoos);
+        for (cuckoo, fs) in &self.flos {
+            if fs.flo.flo_config().is_cuckoo_of(&id) && !cuckoos.contains(cuckoo) {
+                cuckoos.push(cuckoo.clone());
+            }
+        }
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
         //     "{} Storing id({id}) / version({}) / flo_type({}) at depth {depth}",
@@ -307,19 +316,20 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
-        let df: FloStorage = flo.into();
+        let mut df: FloStorage = flo.into();
+        df.cuckoos = cuckoos;
         self.size += df.size() as u64;
         self.flos.insert(id, df);
     }
 
-    fn remove_entry(&mut self, id: &FloID) {
-        if let Some(df) = self.flos.remove(id) {
-            let distance = KNode::get_depth(&self.dht_config.our_id, id);
-            self.distances
-                .entry(distance)
-                .and_modify(|v| v.retain(|i| i != id));
-            self.size -= df.size() as u64;
-        }
+    fn remove_entry(&mut self, id: &FloID) -> Option<FloStorage> {
+        let df = self.flos.remove(id)?;
+        let distance = KNode::get_depth(&self.dht_config.our_id, id);
+        self.distances
+            .entry(distance)
+            .and_modify(|v| v.retain(|i| i != id));
+        self.size -= df.size() as u64;
+        Some(df)
     }
 
     /// Returns false if there is nothing which can be removed.
-- 
2.43.0


From 8ec5ad3f39d1080e24c5d64b006fc4cd6929c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 23/39] fix: synchronise cuckoos which differ but have the same
 count

---
 flmodules/src/dht_storage/core.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 2ce31c0..cb48843 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -29,6 +29,7 @@ pub struct RealmConfig {
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq)]
 pub struct FloMeta {
     pub id: FloID,
+    /// A fingerprint of the set of cuckoos, 0 if there are none.
     pub cuckoos: u32,
     pub version: u32,
 }
@@ -171,7 +172,7 @@ impl RealmStorage {
             .map(|df| FloMeta {
                 id: df.flo.flo_id(),
                 version: df.version(),
-                cuckoos: df.cuckoos.len() as u32,
+                cuckoos: df.cuckoos_fingerprint(),
             })
             .collect()
     }
@@ -206,7 +207,8 @@ impl RealmStorage {
             .filter_map(|remote| {
                 (self.flos.get(&remote.id).map(|local| {
                     local.flo.version() >= remote.version
-                        && local.cuckoos.len() as u32 >= remote.cuckoos
+                        && (remote.cuckoos == 0
+                            || local.cuckoos_fingerprint() == remote.cuckoos)
                 }) != Some(true))
                 .then(|| remote.id.clone())
             })
@@ -387,6 +389,17 @@ impl FloStorage {
     fn version(&self) -> u32 {
         self.flo.version()
     }
+
+    // Two nodes can have the same number of cuckoos, but not the same ones.
+    fn cuckoos_fingerprint(&self) -> u32 {
+        if self.cuckoos.is_empty() {
+            return 0;
+        }
+        let ids: Vec<_> = self.cuckoos.iter().map(|id| id.to_bytes()).sorted().collect();
+        let parts: Vec<&[u8]> = ids.iter().map(|id| id.as_slice()).collect();
+        let hash = U256::hash_domain_parts("flmodules::dht_storage::cuckoos", &parts).to_bytes();
+        u32::from_be_bytes([hash[0], hash[1], hash[2], hash[3]]).max(1)
+    }
 }
 
 impl DHTConfig {
-- 
2.43.0


From 8a77c10ac58d927d28f78b1757b273acab05f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 24/39] fix: don't overwrite stored flos which cannot be read

---
 flmodules/src/dht_storage/broker.rs |  2 +-
 flmodules/src/dht_storage/intern.rs | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 787c82f..a732eb1 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -101,7 +101,7 @@ impl DHTStorage {
         timer: BrokerTimer,
         dht_router: BrokerDHTRouter,
     ) -> anyhow::Result<Self> {
-        let (messages, stats) = Messages::new(ds, config.clone());
+        let (messages, stats) = Messages::load(ds, config.clone())?;
         let mut intern = Broker::new();
         intern.add_handler(Box::new(messages)).await?;
 
diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index 1248dc5..0657517 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -101,13 +101,35 @@ pub struct Messages {
 }
 
 impl Messages {
-    /// Returns a new chat module.
+    /// Returns a new module without any flos.
     pub fn new(
         ds: Box<dyn DataStorage + Send>,
         config: DHTConfig,
     ) -> (Self, watch::Receiver<Stats>) {
-        let str = ds.get(MODULE_NAME).unwrap_or("".into());
-        let realms = serde_yaml::from_str(&str).unwrap_or(HashMap::new());
+        Self::from_realms(HashMap::new(), ds, config)
+    }
+
+    /// Starts with the flos which have been stored previously.
+    /// Returns an error if they cannot be read, because continuing would
+    /// overwrite them.
+    pub fn load(
+        ds: Box<dyn DataStorage + Send>,
+        config: DHTConfig,
+    ) -> anyhow::Result<(Self, watch::Receiver<Stats>)> {
+        let str = ds.get(MODULE_NAME)?;
+        let realms = if str.is_empty() {
+            HashMap::new()
+        } else {
+            serde_yaml::from_str(&str)?
+        };
+        Ok(Self::from_realms(realms, ds, config))
+    }
+
+    fn from_realms(
+        realms: HashMap<RealmID, RealmStorage>,
+        ds: Box<dyn DataStorage + Send>,
+        config: DHTConfig,
+    ) -> (Self, watch::Receiver<Stats>) {
         let (tx, rx) = watch::channel(Stats::default());
         let mut msgs = Self {
             realms,
-- 
2.43.0


From 6af7116399fc2596187c97ba71b9d531a983cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 25/39] fix: never answer with less than what the node itself
 has

---
 flmodules/src/dht_storage/intern.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index 0657517..f6ff7bc 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -276,10 +276,25 @@ impl Messages {
                 // log::info!("{} stores {:?}", self.config.our_id, flo.0);
                 self.store_flo(fc.0.clone());
                 self.store_cuckoo_ids(&fc.0.realm_id(), &fc.0.flo_id(), fc.1.clone());
+                // If the local version is newer than the one received, use that one.
+                let fc = self
+                    .read_flo(&fc.0.global_id())
+                    .filter(|local| local.0.version() >= fc.0.version())
+                    .unwrap_or(fc);
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
-            MessageDest::CookooIDs(gid, cids) => Some(DHTStorageOut::CuckooIDs(gid, cids).into()),
+            MessageDest::CookooIDs(gid, mut cids) => {
+                // Complete the answer with what is known here.
+                if let Some(local) = self.read_flo(&gid) {
+                    for id in local.1 {
+                        if !cids.contains(&id) {
+                            cids.push(id);
+                        }
+                    }
+                }
+                Some(DHTStorageOut::CuckooIDs(gid, cids).into())
+            }
         }
         .map_or(vec![], |msg| vec![msg])
     }
-- 
2.43.0


From aa5fb75dd14a015b5e4091400bbb0602e6853747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 26/39] fix: don't remove a flo to make place for its farther
 cuckoo

---
 flmodules/src/dht_storage/core.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index cb48843..79a4d1a 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -229,9 +229,7 @@ impl RealmStorage {
         }
 
         let flo_id = flo.flo_id();
-        flo.flo_config()
-            .cuckoo_parent()
-            .map(|pid| self.store_cuckoo_id(pid, flo_id.clone()));
+        let parent = flo.flo_config().cuckoo_parent().cloned();
 
         let mut is_new_flo = true;
         if let Some(old) = self.flos.get(&flo.flo_id()) {
@@ -260,6 +258,10 @@ impl RealmStorage {
             }
         }
 
+        // Only now, so that a parent is not removed to make place for its farther cuckoo.
+        if let Some(parent) = parent {
+            self.store_cuckoo_id(&parent, flo_id);
+        }
         self.respect_max_space();
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
-- 
2.43.0


From bad99a7fd961e292658843b07b493b150d582bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 27/39] fix: fetch the children of pages and tags when updating
 a realm view

---
 flmodules/src/dht_storage/realm_view.rs | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 7eb1cd5..46f1961 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -494,7 +494,25 @@ where
         Err(anyhow::anyhow!("Couldn't find page"))
     }
 
+    /// Updates this blob and its cuckoos, and everything that can be reached from them
+    /// by following the links to the children.
     async fn update_cuckoos(&mut self, bid: &BlobID) -> anyhow::Result<()> {
+        self.update_tree(vec![bid.clone()]).await
+    }
+
+    async fn update_tree(&mut self, mut bids: Vec<BlobID>) -> anyhow::Result<()> {
+        let mut done = HashSet::new();
+        while let Some(bid) = bids.pop() {
+            if done.insert(bid.clone()) {
+                bids.extend(self.update_blob(&bid).await);
+            }
+        }
+        Ok(())
+    }
+
+    /// Updates a single blob and its cuckoos, and returns the children of all of them.
+    async fn update_blob(&mut self, bid: &BlobID) -> Vec<BlobID> {
+        let mut children = vec![];
         for id in self
             .dht_storage
             .get_cuckoos(&self.realm.global_id((**bid).into()))
@@ -508,6 +526,7 @@ where
                 .get_flo::<T>(&self.realm.global_id(id.clone()))
                 .await
             {
+                children.extend(flo.get_children());
                 self.storage.insert((*flo.flo_id()).into(), flo.clone());
                 let blob_id: BlobID = (*flo.flo_id()).into();
                 if *bid != blob_id {
@@ -518,15 +537,11 @@ where
                 }
             }
         }
-        Ok(())
+        children
     }
 
     async fn update_blobs(&mut self) -> anyhow::Result<()> {
-        let bids = self.storage.keys().cloned().collect::<Vec<_>>();
-        for bid in bids {
-            self.update_cuckoos(&bid).await?;
-        }
-        Ok(())
+        self.update_tree(self.storage.keys().cloned().collect()).await
     }
 }
 
-- 
2.43.0


From 2f9dfdc0958651a47f700e7a0874cbafcf22fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 28/39] fix: don't recurse for ever when the parents of a blob
 form a loop

---
 flmodules/src/dht_storage/realm_view.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 46f1961..211266a 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -273,13 +273,21 @@ impl RealmView {
     }
 
     pub fn get_full_path_blob<T: BlobPathFamily>(&self, b: &T) -> anyhow::Result<String> {
-        let path = b
-            .get_path()
-            .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
-        if let Some(p) = b.get_parents().first() {
-            return Ok(format!("{}/{path}", self.get_full_path_id(p)?));
+        let no_path = || anyhow::anyhow!("Didn't find path in blob");
+        let mut path = format!("/{}", b.get_path().ok_or_else(no_path)?);
+        let mut parent = b.get_parents().into_iter().next();
+        let mut seen = HashSet::new();
+        while let Some(id) = parent {
+            let p = self
+                .get_blob_path_family(&id)
+                .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?;
+            path = format!("/{}{path}", p.get_path().ok_or_else(no_path)?);
+            parent = p.get_parents().into_iter().next();
+            if !seen.insert(id) {
+                return Err(anyhow::anyhow!("Blob is its own parent"));
+            }
         }
-        Ok(format!("/{path}"))
+        Ok(path)
     }
 
     pub fn get_page_from_path(&self, path: &str) -> anyhow::Result<&FloBlobPage> {
-- 
2.43.0


From 927d734e608f6177d47a94c221280461342723ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 29/39] fix: find a page by its path when another one has the
 same name

---
 flmodules/src/dht_storage/realm_view.rs | 64 +++++++++++++++----------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 211266a..effcdf6 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -23,6 +23,7 @@ use flcrypto::{
     access::Condition,
     signer::{Signer, SignerError, SignerTrait, VerifierTrait},
 };
+use itertools::Itertools;
 use regex::Regex;
 use serde::{de::DeserializeOwned, Serialize};
 use thiserror::Error;
@@ -453,11 +454,18 @@ where
         })
     }
 
+    /// Returns the blob which can be reached by this path.
+    /// Cuckoos can be reached next to their parent, so there can be more than one:
+    /// the one which has this as its full path comes first.
     pub fn get_path(&self, path: &str) -> anyhow::Result<&FloWrapper<T>> {
-        self.get_path_internal(
-            path.trim_start_matches("/").split('/').collect::<Vec<_>>(),
-            vec![&self.root],
-        )
+        let parts = path.trim_start_matches("/").split('/').collect::<Vec<_>>();
+        let found = self.get_path_all(&parts);
+        found
+            .iter()
+            .find(|f| self.has_path(f, &parts))
+            .or(found.first())
+            .copied()
+            .ok_or(anyhow::anyhow!("Couldn't find page"))
     }
 
     /// Returns the Blob and its cuckoos.
@@ -474,32 +482,36 @@ where
             .collect::<Vec<_>>())
     }
 
-    fn get_path_internal(
-        &self,
-        parts: Vec<&str>,
-        curr: Vec<&BlobID>,
-    ) -> anyhow::Result<&FloWrapper<T>> {
-        let ids = curr
-            .into_iter()
-            .flat_map(|id| once(id).chain(self.cuckoos.get(id).into_iter().flatten()))
-            .collect::<Vec<_>>();
-        if let Some(part) = parts.split_first() {
-            if let Some(f) = ids
+    /// Returns all the blobs which can be reached by this path.
+    fn get_path_all(&self, parts: &[&str]) -> Vec<&FloWrapper<T>> {
+        let mut curr = vec![self.root.clone()];
+        let mut found = vec![];
+        for part in parts {
+            found = curr
                 .iter()
+                .flat_map(|id| once(id).chain(self.cuckoos.get(id).into_iter().flatten()))
+                .unique()
                 .filter_map(|id| self.storage.get(id))
-                .find(|f| f.get_path().map(|p| p == part.0).unwrap_or(false))
-            {
-                if part.1.len() == 0 {
-                    return Ok(f);
-                } else {
-                    let children = f.get_children();
-                    if !children.is_empty() {
-                        return self.get_path_internal(part.1.to_vec(), children.iter().collect());
-                    }
-                }
+                .filter(|f| f.get_path().is_some_and(|p| p == part))
+                .collect::<Vec<_>>();
+            curr = found.iter().flat_map(|f| f.get_children()).collect();
+        }
+        found
+    }
+
+    /// Returns true if the names of the blob and of its parents are the given ones.
+    fn has_path(&self, blob: &FloWrapper<T>, parts: &[&str]) -> bool {
+        let mut curr = Some(blob);
+        for (left, part) in parts.iter().enumerate().rev() {
+            let Some(blob) = curr.filter(|b| b.get_path().is_some_and(|p| p == part)) else {
+                return false;
+            };
+            match blob.get_parents().first() {
+                Some(id) if left > 0 => curr = self.storage.get(id),
+                parent => return left == 0 && parent.is_none(),
             }
         }
-        Err(anyhow::anyhow!("Couldn't find page"))
+        false
     }
 
     /// Updates this blob and its cuckoos, and everything that can be reached from them
-- 
2.43.0


From c706dc3650ffe152d673960acb3e3a2740eee03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 30/39] fix: edit the newest version of pages and realms

---
 flmodules/src/dht_storage/realm_view.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index effcdf6..80ac40f 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -149,6 +149,9 @@ impl RealmView {
             signers,
         )?;
         self.store_page(fp.clone())?;
+        if let Some(p) = &parent {
+            self.pages.update_blob(p).await;
+        }
         if let Some(parent_page) = parent.clone().and_then(|p| self.pages.storage.get_mut(&p)) {
             let cond = self
                 .dht_storage
@@ -223,6 +226,9 @@ impl RealmView {
         id: BlobID,
         signers: &[&Signer],
     ) -> anyhow::Result<()> {
+        if let Err(e) = self.update_realm().await {
+            log::warn!("Couldn't get the latest version of the realm: {e:?}");
+        }
         let cond = self
             .dht_storage
             .convert(self.realm.cond(), &self.realm.realm_id())
@@ -323,6 +329,7 @@ impl RealmView {
         edit: impl FnOnce(&mut BlobPage),
         signers: &[&Signer],
     ) -> anyhow::Result<FloBlobPage> {
+        self.pages.update_blob(id).await;
         let page = self
             .pages
             .storage
@@ -366,6 +373,7 @@ impl RealmView {
         signers: &[&Signer],
     ) {
         for pid in before.difference(&after) {
+            self.pages.update_blob(pid).await;
             if let Some(parent) = self.pages.storage.get(pid) {
                 let cond = self
                     .dht_storage
-- 
2.43.0


From 607967f93b5b13faa5c9c5dd508b3aa2998a6cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 31/39] fix: update the root of a realm view even if it was
 missing

---
 flmodules/src/dht_storage/realm_view.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 80ac40f..f9b1316 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -569,7 +569,14 @@ where
     }
 
     async fn update_blobs(&mut self) -> anyhow::Result<()> {
-        self.update_tree(self.storage.keys().cloned().collect()).await
+        // The root might not have been available when this was created.
+        self.update_tree(
+            once(&self.root)
+                .chain(self.storage.keys())
+                .cloned()
+                .collect(),
+        )
+        .await
     }
 }
 
-- 
2.43.0


From bc636a0a529260d9b676001d24305a34a6174447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 32/39] fix: don't panic in the proxy on header values which
 are not UTF-8

---
 flmodules/src/web_proxy/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/web_proxy/response.rs b/flmodules/src/web_proxy/response.rs
index 5b943f3..0003223 100644
--- a/flmodules/src/web_proxy/response.rs
+++ b/flmodules/src/web_proxy/response.rs
@@ -64,7 +64,8 @@ impl From<&reqwest::Response> for ResponseHeader {
         let mut headers = HashMap::new();
         for (k, v) in value.headers() {
             let values = headers.entry(k.to_string()).or_insert(vec![]);
-            values.push(v.to_str().expect("converting header value").into());
+            // Header values don't need to be UTF-8.
+            values.push(String::from_utf8_lossy(v.as_bytes()).into());
         }
         Self {
             status: ResponseStatus {
-- 
2.43.0


From 3c4d75c43e0c2b7a37a7592945f3a2aa3581f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 33/39] fix: keep the parts of a proxied body in order

---
 flmodules/src/web_proxy/core.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 26a37ee..f4d8681 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use flarch::tasks::spawn_local;
 use serde::{Deserialize, Serialize};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};
 
 use flarch::nodeids::{NodeID, NodeIDs, U256};
 
@@ -27,7 +27,7 @@ pub struct WebProxyCore {
     nodes: NodeIDs,
     our_id: NodeID,
     node_index: usize,
-    requests: HashMap<U256, (NodeID, Sender<Bytes>)>,
+    requests: HashMap<U256, (NodeID, UnboundedSender<Bytes>)>,
 }
 
 impl WebProxyCore {
@@ -67,13 +67,35 @@ impl WebProxyCore {
     }
 
     pub fn request_get(&mut self, rnd: U256, tx: Sender<Bytes>) -> Option<NodeID> {
+        self.requests.retain(|_, (_, tx)| !tx.is_closed());
         if let Some(node) = self.get_node() {
-            self.requests.insert(rnd, (node, tx));
+            self.requests.insert(rnd, (node, Self::forward(tx)));
             return Some(node);
         }
         None
     }
 
+    // A slow reader must not block the module, but still needs to get the body in the
+    // right order.
+    fn forward(tx: Sender<Bytes>) -> UnboundedSender<Bytes> {
+        let (body_tx, mut body_rx) = unbounded_channel();
+        spawn_local(async move {
+            loop {
+                tokio::select! {
+                    body = body_rx.recv() => {
+                        let Some(body) = body else { return };
+                        if tx.send(body).await.is_err() {
+                            return;
+                        }
+                    }
+                    // The reader is gone.
+                    _ = tx.closed() => return,
+                }
+            }
+        });
+        body_tx
+    }
+
     pub fn handle_response(&mut self, nonce: U256, msg: ResponseMessage) -> Option<ResponseHeader> {
         if let Some((_, tx)) = self.requests.get(&nonce) {
             match msg {
@@ -83,8 +105,9 @@ impl WebProxyCore {
                 }
                 ResponseMessage::Body(body) => {
                     self.storage.counters.rx_packets += 1;
-                    let tx = tx.clone();
-                    spawn_local(async move { tx.send(body).await.expect("sending body") })
+                    if tx.send(body).is_err() {
+                        self.requests.remove(&nonce);
+                    }
                 }
                 ResponseMessage::Done => {
                     self.requests.remove(&nonce);
-- 
2.43.0


From 7ea7334fb2d58a75bddf5da29ee600298cc8fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 34/39] fix: end a proxied request when the answer of the
 server breaks off

---
 flmodules/src/web_proxy/core.rs   | 3 ++-
 flmodules/src/web_proxy/intern.rs | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index f4d8681..07da257 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -113,7 +113,8 @@ impl WebProxyCore {
                     self.requests.remove(&nonce);
                 }
                 ResponseMessage::Error(err) => {
-                    log::warn!("Got error {err} for response of nonce {nonce}")
+                    log::warn!("Got error {err} for response of nonce {nonce}");
+                    self.requests.remove(&nonce);
                 }
             }
         }
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index 63ce8a6..5db675b 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -153,13 +153,14 @@ impl Intern {
                     let mut stream = resp.bytes_stream().chunks(1024);
                     while let Some(chunks) = stream.next().await {
                         for chunk in chunks {
+                            let msg = match chunk {
+                                Ok(body) => ResponseMessage::Body(body),
+                                Err(e) => ResponseMessage::Error(e.to_string()),
+                            };
                             broker
                                 .emit_msg_out(Self::module_msg(
                                     src,
-                                    &ModuleMessage::Response(
-                                        nonce,
-                                        ResponseMessage::Body(chunk.expect("getting chunk")),
-                                    ),
+                                    &ModuleMessage::Response(nonce, msg),
                                 ))
                                 .expect("sending body");
                         }
-- 
2.43.0


From 785c226be07bbd2486d97af8a7550d21783054c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 35/39] fix: end proxied requests when the proxy is not
 connected anymore

---
 flmodules/src/web_proxy/core.rs   | 6 ++++++
 flmodules/src/web_proxy/intern.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 07da257..2c89760 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -52,6 +52,12 @@ impl WebProxyCore {
         });
     }
 
+    /// The nodes to which there is a connection. Answers of all others will not arrive, or
+    /// not completely.
+    pub fn connected(&mut self, nodes: &NodeIDs) {
+        self.requests.retain(|_, (node, _)| nodes.0.contains(node));
+    }
+
     pub fn node_list(&mut self, mut nodes: NodeIDs) {
         self.nodes = nodes.remove_missing(&vec![self.our_id].into());
     }
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index 5db675b..c0cbaf2 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -112,6 +112,13 @@ impl Intern {
 
     /// Stores the new node list, excluding the ID of this node.
     fn node_list(&mut self, nodes: Vec<NodeInfo>) -> Vec<InternOut> {
+        self.core.connected(
+            &nodes
+                .iter()
+                .map(|ni| ni.get_id())
+                .collect::<Vec<NodeID>>()
+                .into(),
+        );
         self.core.node_list(
             nodes
                 .iter()
-- 
2.43.0


From 10e9a7eb00382eb5a7abb057e0f1e38d06de3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 36/39] fix: a disconnection must not cancel the setup which
 replaces the connection

The disconnection of the previous incoming connection can arrive after the offer
for a new one. Then the new connection was never announced, and everything which
came from it was dropped.
---
 flmodules/src/network/intern.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 8fc60c8..51498ca 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -228,6 +228,12 @@ impl Intern {
                 }
             }
             NCOutput::Disconnected(dir) => {
+                if dir == Direction::Incoming
+                    && self.connection_state_check(&id, &dir, &ConnectionState::Setup)
+                {
+                    // This is the previous connection: the offer which replaces it was faster.
+                    return vec![];
+                }
                 let new_disconnection = self.connected_only(&id, &dir);
                 self.connection_state_set(id, &dir, ConnectionState::None);
                 if new_disconnection {
-- 
2.43.0


From aaf5d46634953d696569bdebc5073c5a084c45a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 37/39] fix: another version of the signalling server must not
 end the node

---
 flmodules/src/network/intern.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 51498ca..3e348b7 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -100,9 +100,11 @@ impl Intern {
         match msg_node {
             WSSignalMessageToNode::Challenge(version, challenge) => {
                 if version != SIGNAL_VERSION {
-                    panic!(
+                    let err = format!(
                         "Wrong signal-server version: got {version}, expected {SIGNAL_VERSION}."
                     );
+                    log::error!("{err}");
+                    return vec![NetworkOut::Error(err).into()];
                 }
                 let ma = MessageAnnounce {
                     version,
-- 
2.43.0


From b896036c8de0f10830dce6feb011376d710b5da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 38/39] fix: a peer's signalling message must not end the node

---
 flmodules/src/network/intern.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 3e348b7..b8ad33f 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -1,7 +1,6 @@
 //! Handles all the incoming messages and produces messages for the modules
 //! connected to [Network].
 
-use core::panic;
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, fmt::Display};
 use tokio::sync::watch;
@@ -201,10 +200,9 @@ impl Intern {
         match serde_yaml::from_str::<NetworkWrapper>(&msg) {
             Ok(nw) => {
                 if let Some(net_msg) = nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
-                    match net_msg {
-                        ModuleMessage::SignalIn(_) => todo!(),
-                        ModuleMessage::SignalOut(_) => todo!(),
-                    }
+                    // Signalling over other nodes is not implemented.
+                    log::warn!("{id} sent an unsupported message: {net_msg:?}");
+                    return vec![];
                 }
                 return vec![NetworkOut::MessageFromNode(id, nw).into()];
             }
-- 
2.43.0


From efdfe989811752984a095d1b312d9a4fb2bb958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 39/39] fix: a setup message which starts a connection anew
 ends the previous one

---
 flmodules/src/network/intern.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index b8ad33f..abc8147 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -131,9 +131,9 @@ impl Intern {
                 };
                 let mut out = vec![];
                 let dir = pi.get_direction(&own_id);
-                // Only an offer starts a new connection. The other messages can also arrive
-                // when the connection is already up.
-                if matches!(pi.message, PeerMessage::Offer(_)) {
+                // Only an init or an offer starts a new connection. The other messages can also
+                // arrive when the connection is already up.
+                if matches!(pi.message, PeerMessage::Init | PeerMessage::Offer(_)) {
                     if self.connected_only(&remote_node, &dir) {
                         out.push(NetworkOut::Disconnected(remote_node.clone()).into());
                     }
-- 
2.43.0

