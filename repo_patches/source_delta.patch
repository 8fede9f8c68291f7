From 58e21edd8cf047e6bd3ae0f106092afa44520a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 01/36] fix: count only frames that were handed over in the
 sent-bytes statistics

---
 mpc-net/src/async_net.rs | 4 +++-
 mpc-net/src/blocking.rs  | 4 +++-
 mpc-net/src/local.rs     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 1d0f863..3f3cf16 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -149,9 +149,11 @@ impl AsyncChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(&to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         tx.blocking_send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        // only account for frames that were actually handed over
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 84e0830..58ab8f2 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -92,11 +92,13 @@ impl BlockingChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         // The payload moves into the queue unchanged; the writer thread prepends the
         // length prefix with a vectored write (no copy of the payload).
         tx.send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
+        // only account for frames that were actually handed over
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/local.rs b/mpc-net/src/local.rs
index 4937dd9..ec6540f 100644
--- a/mpc-net/src/local.rs
+++ b/mpc-net/src/local.rs
@@ -70,7 +70,7 @@ impl Network for LocalNetwork {
 
     fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
         let (sender, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), std::sync::atomic::Ordering::Relaxed);
+        let len = data.len();
         if let Some(timeout) = self.timeout {
             sender
                 .send_timeout(data, timeout)
@@ -78,6 +78,8 @@ impl Network for LocalNetwork {
         } else {
             sender.send(data)?;
         }
+        // only account for frames that were actually handed over
+        sent_bytes.fetch_add(len, std::sync::atomic::Ordering::Relaxed);
         Ok(())
     }
 
-- 
2.43.0


From 32405f76f6dbb45cea2b800bfcb13913ded91602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 02/36] fix: close the write side of a TCP connection when its
 network is dropped

---
 mpc-net/src/blocking.rs             | 30 +++++++++++++++++++++++++++++
 mpc-net/src/tcp.rs                  |  9 ++++++---
 mpc-net/src/tcp_session_blocking.rs |  4 ++--
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 58ab8f2..ddf75c6 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -153,6 +153,36 @@ impl BlockingChannels {
     }
 }
 
+/// The write half of a cloned [`TcpStream`](std::net::TcpStream). Dropping one clone of a socket does not close
+/// the connection while the reader thread still holds the other, so the write side is shut
+/// down explicitly once the writer thread is done. The peer then sees the end of the stream
+/// after everything that was written, instead of waiting forever.
+#[cfg(any(feature = "tcp", feature = "tcp-session-blocking"))]
+pub(crate) struct TcpWriteHalf(pub(crate) std::net::TcpStream);
+
+#[cfg(any(feature = "tcp", feature = "tcp-session-blocking"))]
+impl Write for TcpWriteHalf {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.write(buf)
+    }
+
+    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
+        self.0.write_vectored(bufs)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
+#[cfg(any(feature = "tcp", feature = "tcp-session-blocking"))]
+impl Drop for TcpWriteHalf {
+    fn drop(&mut self) {
+        // an error means that the connection is already gone
+        let _ = self.0.shutdown(std::net::Shutdown::Write);
+    }
+}
+
 /// Drains [`WriteMsg`]s for a single peer, writing them to `stream`.
 /// Exits cleanly when all senders are dropped.
 fn writer_loop<W: Write>(mut stream: W, rx: Receiver<WriteMsg>) {
diff --git a/mpc-net/src/tcp.rs b/mpc-net/src/tcp.rs
index a65fbb8..9dd788b 100644
--- a/mpc-net/src/tcp.rs
+++ b/mpc-net/src/tcp.rs
@@ -8,7 +8,8 @@ use std::{
 };
 
 use crate::{
-    ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network, blocking::BlockingChannels,
+    ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network,
+    blocking::{BlockingChannels, TcpWriteHalf},
     config::NetworkConfig,
 };
 use byteorder::{BigEndian, ReadBytesExt as _, WriteBytesExt as _};
@@ -107,7 +108,8 @@ impl TcpNetwork {
                         stream.set_nodelay(true)?;
                         stream.write_u64::<BigEndian>(i as u64)?;
                         stream.write_u64::<BigEndian>(id as u64)?;
-                        let write_stream = stream.try_clone().expect("can clone stream");
+                        let write_stream =
+                            TcpWriteHalf(stream.try_clone().expect("can clone stream"));
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Greater => {
@@ -120,7 +122,8 @@ impl TcpNetwork {
                         stream.set_nodelay(true)?;
                         let i = stream.read_u64::<BigEndian>()? as usize;
                         let other_id = stream.read_u64::<BigEndian>()? as usize;
-                        let write_stream = stream.try_clone().expect("can clone stream");
+                        let write_stream =
+                            TcpWriteHalf(stream.try_clone().expect("can clone stream"));
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Equal => continue,
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 53ed3e0..53d6fdb 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -11,7 +11,7 @@ use crossbeam_channel::Sender;
 use eyre::Context as _;
 use serde::Deserialize;
 
-use crate::blocking::BlockingChannels;
+use crate::blocking::{BlockingChannels, TcpWriteHalf};
 use crate::{ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network};
 use bytes::Bytes;
 
@@ -314,7 +314,7 @@ impl TcpNetwork {
         let mut channels = BlockingChannels::new(timeout, flush_timeout, max_frame_length);
 
         for (other_id, stream) in streams {
-            let write_stream = stream.try_clone().expect("can clone stream");
+            let write_stream = TcpWriteHalf(stream.try_clone().expect("can clone stream"));
             channels.add_peer(other_id, write_stream, stream);
         }
 
-- 
2.43.0


From 833ef536a8cb84f9851cf14f5c0df32e898ac82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 03/36] fix: a flush does not wait forever when the writer
 thread has failed

---
 mpc-net/src/blocking.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index ddf75c6..d5c4c2b 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -14,7 +14,7 @@ use std::{
 };
 
 use bytes::{Buf as _, Bytes, BytesMut};
-use crossbeam_channel::{Receiver, Sender, bounded};
+use crossbeam_channel::{Receiver, Sender, after, bounded, never, select};
 use eyre::ContextCompat as _;
 use intmap::IntMap;
 
@@ -26,7 +26,10 @@ pub(crate) const SEND_QUEUE_CAP: usize = 32;
 /// Capacity (in frames) of each per-peer receive queue.
 pub(crate) const RECV_QUEUE_CAP: usize = 32;
 
-type SendEntry = (Sender<WriteMsg>, AtomicUsize);
+/// The send queue, the byte counter, and a channel that is disconnected as soon as the writer
+/// thread has terminated. (A queued message is *not* dropped with the receiver of the queue, so
+/// waiting for the acknowledgement of a queued flush alone would never notice.)
+type SendEntry = (Sender<WriteMsg>, AtomicUsize, Receiver<()>);
 type RecvEntry = (Receiver<eyre::Result<Bytes>>, AtomicUsize);
 
 /// A message handed to a peer's background writer thread.
@@ -75,9 +78,13 @@ impl BlockingChannels {
     {
         let max_frame_length = self.max_frame_length;
         let (send_tx, send_rx) = bounded(SEND_QUEUE_CAP);
-        std::thread::spawn(move || writer_loop(write_stream, send_rx));
+        let (done_tx, done_rx) = bounded(0);
+        std::thread::spawn(move || {
+            writer_loop(write_stream, send_rx);
+            drop(done_tx);
+        });
         self.send
-            .insert(other_id, (send_tx, AtomicUsize::default()));
+            .insert(other_id, (send_tx, AtomicUsize::default(), done_rx));
 
         let (recv_tx, recv_rx) = bounded(RECV_QUEUE_CAP);
         std::thread::spawn(move || reader_loop(read_stream, recv_tx, max_frame_length));
@@ -91,7 +98,7 @@ impl BlockingChannels {
         if data.len() > self.max_frame_length {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
-        let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
+        let (tx, sent_bytes, _) = self.send.get(to).context("party id out-of-bounds")?;
         let len = data.len();
         // The payload moves into the queue unchanged; the writer thread prepends the
         // length prefix with a vectored write (no copy of the payload).
@@ -116,19 +123,18 @@ impl BlockingChannels {
 
     /// Drain every peer's write pump and flush its sink, surfacing any failure.
     pub(crate) fn flush(&self) -> eyre::Result<()> {
-        for (to, (tx, _)) in self.send.iter() {
+        for (to, (tx, _, done)) in self.send.iter() {
             let (ack_tx, ack_rx) = bounded(1);
             tx.send(WriteMsg::Flush(ack_tx))
                 .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
-            let result = if let Some(timeout) = self.flush_timeout {
-                ack_rx
-                    .recv_timeout(timeout)
-                    .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
-            } else {
-                ack_rx
-                    .recv()
-                    .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?
-            };
+            let timeout = self.flush_timeout.map_or_else(never, after);
+            let result = select! {
+                recv(ack_rx) -> ack => ack.ok(),
+                // the acknowledgement may have been sent right before the termination
+                recv(done) -> _ => ack_rx.try_recv().ok(),
+                recv(timeout) -> _ => eyre::bail!("timed out flushing send queue for party {to}"),
+            }
+            .with_context(|| format!("writer thread for party {to} terminated"))?;
             if let Err(e) = result {
                 eyre::bail!("failed to flush send queue for party {to}: {e}");
             }
@@ -139,7 +145,7 @@ impl BlockingChannels {
     /// Application-level (sent, received) byte counts per peer.
     pub(crate) fn stats(&self, my_id: usize) -> ConnectionStats {
         let mut stats = std::collections::BTreeMap::new();
-        for (id, (_, sent_bytes)) in self.send.iter() {
+        for (id, (_, sent_bytes, _)) in self.send.iter() {
             let recv_bytes = &self.recv.get(id).expect("was in send so must be in recv").1;
             stats.insert(
                 id,
-- 
2.43.0


From a3f53c6d0f7991bfbc86285d16d0364f341e71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 04/36] fix: the flush timeout also bounds waiting for a full
 send queue

---
 mpc-net/src/async_net.rs | 20 ++++++++++++--------
 mpc-net/src/blocking.rs  |  8 ++++++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 3f3cf16..6a50d2e 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -161,17 +161,21 @@ impl AsyncChannels {
     pub(crate) fn flush(&self) -> eyre::Result<()> {
         for (to, (tx, _)) in self.send.iter() {
             let (ack_tx, ack_rx) = oneshot::channel();
-            tx.blocking_send(WriteMsg::Flush(ack_tx))
-                .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+            let flush = async {
+                tx.send(WriteMsg::Flush(ack_tx))
+                    .await
+                    .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+                ack_rx
+                    .await
+                    .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))
+            };
+            // the queue may be full, so the timeout also covers handing over the request
             let result = if let Some(timeout) = self.flush_timeout {
                 self.handle
-                    .block_on(async { tokio::time::timeout(timeout, ack_rx).await })
-                    .context("timeout while flush")?
-                    .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
+                    .block_on(async { tokio::time::timeout(timeout, flush).await })
+                    .context("timeout while flush")??
             } else {
-                ack_rx
-                    .blocking_recv()
-                    .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
+                self.handle.block_on(flush)?
             };
             if let Err(e) = result {
                 eyre::bail!("failed to flush send queue for party {to}: {e}");
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index d5c4c2b..a16ca96 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -125,9 +125,13 @@ impl BlockingChannels {
     pub(crate) fn flush(&self) -> eyre::Result<()> {
         for (to, (tx, _, done)) in self.send.iter() {
             let (ack_tx, ack_rx) = bounded(1);
-            tx.send(WriteMsg::Flush(ack_tx))
-                .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
             let timeout = self.flush_timeout.map_or_else(never, after);
+            // the queue may be full, so the timeout also covers handing over the request
+            select! {
+                send(tx, WriteMsg::Flush(ack_tx)) -> sent => sent
+                    .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?,
+                recv(timeout) -> _ => eyre::bail!("timed out flushing send queue for party {to}"),
+            }
             let result = select! {
                 recv(ack_rx) -> ack => ack.ok(),
                 // the acknowledgement may have been sent right before the termination
-- 
2.43.0


From e512b0f98d991c57c3ac170371cfec6a590e9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 05/36] fix: keep a session connection whose waiter has given
 up

---
 mpc-net/src/tcp_session.rs          | 7 ++++++-
 mpc-net/src/tcp_session_blocking.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index 8a4feab..15516c3 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -121,8 +121,13 @@ impl TcpStreams {
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
                 tracing::trace!("found waiter, sending stream");
-                if tx.send(stream).is_err() {
+                if let Err(stream) = tx.send(stream) {
+                    // the waiter gave up (e.g., timed out), keep the stream for the next one
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
+                    streams.insert(
+                        (session_id, party_id),
+                        (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    );
                 }
             }
             None => {
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 53d6fdb..60e28fe 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -141,8 +141,13 @@ impl TcpStreams {
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
                 tracing::trace!("found waiter, sending stream");
-                if tx.send(stream).is_err() {
+                if let Err(err) = tx.send(stream) {
+                    // the waiter gave up (e.g., timed out), keep the stream for the next one
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
+                    streams.insert(
+                        (session_id, party_id),
+                        (MaybeTcpStream::TcpStream(err.into_inner()), Instant::now()),
+                    );
                 }
             }
             None => {
-- 
2.43.0


From da15bc001836c7922dd9cafea70665c369f4249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 06/36] fix: re-randomize products of Shamir shares before
 opening them

mul_open and mul_open_vec (and thereby inv, inv_vec and div) broadcast the raw
degree-2t product of two sharings. The opened polynomial is the product of the
two sharing polynomials, so every party can factor it and narrows the secret
down to a handful of candidates. Add a fresh degree-2t sharing of zero.
---
 co-circom/co-plonk/src/lib.rs               |  2 +-
 co-circom/co-plonk/src/round2.rs            |  4 ++--
 mpc-core/src/protocols/shamir/arithmetic.rs | 24 ++++++++++++++++-----
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index 4b0da35..fabf5a9 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -252,7 +252,7 @@ where
     {
         let domain_size = zkey.domain_size;
         // TODO check and explain numbers
-        let num_pairs = domain_size * 222 + 15;
+        let num_pairs = domain_size * 227 + 17;
         let preprocessing = ShamirPreprocessing::new(num_parties, threshold, num_pairs, &nets[0])?;
         let mut state = ShamirState::from(preprocessing);
         // execute prover in MPC
diff --git a/co-circom/co-plonk/src/round2.rs b/co-circom/co-plonk/src/round2.rs
index b57a310..9555bf5 100644
--- a/co-circom/co-plonk/src/round2.rs
+++ b/co-circom/co-plonk/src/round2.rs
@@ -158,8 +158,8 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round2<'a, P
 
         let batched_mul_span = tracing::debug_span!("buffer z network round").entered();
         // TODO check and explain numbers
-        let mut state0 = state.fork(zkey.domain_size * 6 + 2)?;
-        let mut state1 = state.fork(zkey.domain_size * 7 + 2)?;
+        let mut state0 = state.fork(zkey.domain_size * 8 + 3)?;
+        let mut state1 = state.fork(zkey.domain_size * 10 + 3)?;
         let (num, den) = mpc_net::join(
             || T::array_prod_mul(false, &n1, &n2, &n3, &nets[0], &mut state0),
             || T::array_prod_mul(true, &d1, &d2, &d3, &nets[1], &mut state1),
diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 82fe0a8..91feb3a 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -246,19 +246,34 @@ fn clone_from_slice(
 }
 */
 
+/// Returns a fresh degree-2t sharing of zero.
+///
+/// The product of two degree-t sharings is a degree-2t sharing whose polynomial is the product of the two sharing polynomials. Opening it as is would publish that product, i.e., much more than its constant term. It therefore has to be re-randomized with a sharing of zero before it is opened.
+pub(super) fn zero_share_2t<F: PrimeField, N: Network>(
+    net: &N,
+    state: &mut ShamirState<F>,
+) -> eyre::Result<F> {
+    let (r_t, r_2t) = state.get_pair(net)?;
+    Ok(r_2t - r_t)
+}
+
 /// This function performs a multiplication directly followed by an opening. This is preferred over Open(Mul(\[x\], \[y\])), since Mul performs resharing of the result for degree reduction. Thus, mul_open(\[x\], \[y\]) requires less communication in fewer rounds compared to Open(Mul(\[x\], \[y\])).
+///
+/// Consumes one pair of correlated randomness.
 fn mul_open<F: PrimeField, N: Network>(
     a: ShamirShare<F>,
     b: ShamirShare<F>,
     net: &N,
     state: &mut ShamirState<F>,
 ) -> eyre::Result<F> {
-    let mul = a * b;
-    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul.a)?;
+    let mul = (a * b).a + zero_share_2t(net, state)?;
+    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
     Ok(super::reconstruct(&rcv, &state.open_lagrange_2t))
 }
 
 /// This function performs a multiplication directly followed, by an opening. This is preferred over Open(Mul(\[x\], \[y\])), since Mul performs resharing of the result for degree reduction. Thus, mul_open(\[x\], \[y\]) requires less communication in fewer rounds compared to Open(Mul(\[x\], \[y\])).
+///
+/// Consumes one pair of correlated randomness per element.
 pub fn mul_open_vec<F: PrimeField, N: Network>(
     a: &[ShamirShare<F>],
     b: &[ShamirShare<F>],
@@ -268,9 +283,8 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
     let mul = a
         .iter()
         .zip(b.iter())
-        .map(|(a, b)| a * b)
-        .collect::<Vec<_>>();
-    let mul = ShamirShare::convert_vec(mul);
+        .map(|(a, b)| Ok((a * b).a + zero_share_2t(net, state)?))
+        .collect::<eyre::Result<Vec<_>>>()?;
 
     let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
 
-- 
2.43.0


From eb99fb37b6550cee4b747aba787a10cea22f6839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 07/36] fix: re-randomize degree-2t point shares before opening
 them

open_half_point broadcast the raw degree-2t sharing, which the Groth16 prover
uses for the result of local multiplications (g_c): its higher coefficients
depend on the sharing polynomials of the witness.
---
 co-circom/co-groth16/src/groth16.rs         | 7 ++++---
 mpc-core/src/protocols/shamir/pointshare.rs | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/co-circom/co-groth16/src/groth16.rs b/co-circom/co-groth16/src/groth16.rs
index dae99d3..3a746b4 100644
--- a/co-circom/co-groth16/src/groth16.rs
+++ b/co-circom/co-groth16/src/groth16.rs
@@ -445,11 +445,12 @@ where
         matrices: &ConstraintMatrices<P::ScalarField>,
         witness: ShamirSharedWitness<P::ScalarField>,
     ) -> eyre::Result<Proof<P>> {
-        // we need 3 number of corr rand pairs. 2 for two rand calls, 1 for scalar_mul
-        let num_pairs = 3;
+        // we need 6 number of corr rand pairs. 2 for two rand calls, 1 for scalar_mul, 3 for opening the proof elements
+        let num_pairs = 6;
         let preprocessing = ShamirPreprocessing::new(num_parties, threshold, num_pairs, net0)?;
         let mut state0 = ShamirState::from(preprocessing);
-        let mut state1 = state0.fork(1)?;
+        // state1 is used for scalar_mul and for opening g2_b
+        let mut state1 = state0.fork(2)?;
         // execute prover in MPC
         Self::prove_inner::<N, R>(
             net0,
diff --git a/mpc-core/src/protocols/shamir/pointshare.rs b/mpc-core/src/protocols/shamir/pointshare.rs
index eba7872..2b8cd8f 100644
--- a/mpc-core/src/protocols/shamir/pointshare.rs
+++ b/mpc-core/src/protocols/shamir/pointshare.rs
@@ -98,12 +98,15 @@ pub fn scalar_mul_local<C: CurveGroup>(a: &PointShare<C>, b: FieldShare<C::Scala
     (b * a).a
 }
 
-/// Performs opening of a point share.
+/// Performs opening of a degree-2t point share. The share is re-randomized before it is opened, since it may be the result of local multiplications.
+///
+/// Consumes one pair of correlated randomness.
 pub fn open_half_point<C: CurveGroup, N: Network>(
     a: C,
     net: &N,
     state: &mut ShamirState<C::ScalarField>,
 ) -> eyre::Result<C> {
+    let a = a + C::generator() * super::arithmetic::zero_share_2t(net, state)?;
     let rcv = net.broadcast_next(state.num_parties, state.threshold * 2 + 1, a)?;
     let res = reconstruct_point(&rcv, &state.open_lagrange_2t);
     Ok(res)
-- 
2.43.0


From 16bf81112282269af1935856deef17c9d5120253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 08/36] fix: parse EQW gates that read wire 0 or 1

The EQ parser matched the prefix of such a gate and the rest of the line was
then an error.
---
 .../src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
index 8a9cf15..c14bc83 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
@@ -146,7 +146,8 @@ fn xor_gate(input: &str) -> IResult<&str, BristolFashionGate> {
 
 fn gate(input: &str) -> IResult<&str, BristolFashionGate> {
     terminated(
-        alt((xor_gate, and_gate, inv_gate, eq_gate, eqw_gate)),
+        // EQW before EQ, of which it is an extension
+        alt((xor_gate, and_gate, inv_gate, eqw_gate, eq_gate)),
         line_ending,
     )(input)
 }
-- 
2.43.0


From 050af41be991d6c57e52c5e3d457ced6791f2ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 09/36] fix: reject circuit descriptions with more output wires
 than wires

The subtraction underflowed.
---
 .../protocols/rep3/yao/bristol_fashion/bristol/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
index c14bc83..3d8ea30 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
@@ -188,7 +188,14 @@ pub fn parse(input: &str) -> Result<UnverifiedBristolFashionCircuit, CircuitBuil
         .collect();
 
     // last wires are outputs
-    let mut cur_idx = (num_wires - outputs.iter().sum::<u32>()) as usize;
+    let num_output_wires = outputs.iter().map(|&o| u64::from(o)).sum::<u64>();
+    let mut cur_idx = u64::from(num_wires)
+        .checked_sub(num_output_wires)
+        .ok_or_else(|| {
+            CircuitBuilderError::ParseError(format!(
+                "{num_output_wires} output wires, but only {num_wires} wires in total"
+            ))
+        })? as usize;
     let output_wires = outputs
         .into_iter()
         .map(|wires_i| {
-- 
2.43.0


From 309dae1c4d947bf47159be393b52b1995d310901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 10/36] fix: reject circuits with wire ids out of range

Only the number of distinct wires was checked, so that such a circuit was
accepted and its evaluation indexed out of bounds.
---
 .../protocols/rep3/yao/bristol_fashion/bristol/builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
index 8bf0eca..dca561d 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
@@ -124,6 +124,14 @@ impl UnverifiedBristolFashionCircuit {
             )));
         }
 
+        // the evaluation indexes a vector of that many wires
+        if let Some(id) = wires.iter().find(|id| **id >= self.num_wires) {
+            return Err(CircuitBuilderError::InvalidCircuit(format!(
+                "wire {id} is out of range, the circuit has {} wires",
+                self.num_wires
+            )));
+        }
+
         let UnverifiedBristolFashionCircuit {
             num_wires: _,
             input_wires,
-- 
2.43.0


From 7dbc1f7223edde9abd99dca4f14030edc7600f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 11/36] fix: level circuits that start with an AND gate

The levels were numbered by position instead of by depth, so that without a
linear gate at depth zero the AND gates of the first level ended up in a
linear level, whose evaluation panics.
---
 .../rep3/yao/bristol_fashion/bristol.rs       | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
index 82c4bc6..a4677e0 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
@@ -218,20 +218,17 @@ impl BristolFashionCircuit {
             }
         }
 
+        // The keys tell the kind of a level: a circuit may have no linear gates before its first AND gate.
         let levels: Vec<_> = levels
-            .into_values()
-            .enumerate()
+            .into_iter()
             .flat_map(|(and_level, internal_levels)| {
-                internal_levels
-                    .into_values()
-                    .enumerate()
-                    .map(move |(index, gates)| {
-                        if and_level > 0 && index == 0 {
-                            CircuitLevel::NonLinearLevel(gates)
-                        } else {
-                            CircuitLevel::LinearLevel(gates)
-                        }
-                    })
+                internal_levels.into_iter().map(move |(index, gates)| {
+                    if and_level > 0 && index == 0 {
+                        CircuitLevel::NonLinearLevel(gates)
+                    } else {
+                        CircuitLevel::LinearLevel(gates)
+                    }
+                })
             })
             .enumerate()
             .collect();
-- 
2.43.0


From 4f89e0794d7c6a2769308fa6322ec93c6204eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 12/36] fix: reject PLONK witnesses of the wrong length

---
 co-circom/co-plonk/src/round1.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/co-circom/co-plonk/src/round1.rs b/co-circom/co-plonk/src/round1.rs
index b89de18..3208635 100644
--- a/co-circom/co-plonk/src/round1.rs
+++ b/co-circom/co-plonk/src/round1.rs
@@ -230,6 +230,22 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round1<'a, P
         zkey: &'a Zkey<P>,
         private_witness: SharedWitness<P::ScalarField, T::ArithmeticShare>,
     ) -> PlonkProofResult<Self> {
+        // the leading constant one and the public inputs, then the private witness; the values of
+        // the additions are not part of the provided witness
+        let n_witness = private_witness.public_inputs.len() + private_witness.witness.len();
+        if private_witness.public_inputs.len() != zkey.n_public + 1
+            || zkey.n_vars.checked_sub(zkey.n_additions) != Some(n_witness)
+        {
+            return Err(eyre::eyre!(
+                "the zkey expects {} public inputs and {} variables of which {} are additions, but got {} public inputs and {} private witness elements",
+                zkey.n_public + 1,
+                zkey.n_vars,
+                zkey.n_additions,
+                private_witness.public_inputs.len(),
+                private_witness.witness.len()
+            )
+            .into());
+        }
         let plonk_witness = Self::calculate_additions(state.id(), private_witness, zkey)?;
         let challenges = Round1Challenges::random(&nets[0], state)?;
         let domains = Domains::new(zkey.domain_size)?;
-- 
2.43.0


From adc7955fa1f3e0f8ef24e557c56258d7677473dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 13/36] fix: reject PLONK additions that refer to themselves or
 to later ones

---
 co-circom/co-plonk/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index fabf5a9..9402078 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -150,7 +150,12 @@ mod plonk_utils {
             witness.witness[index - zkey.n_public - 1]
         } else if index < zkey.n_vars {
             tracing::trace!("indexing additions!");
-            witness.addition_witness[index + zkey.n_additions - zkey.n_vars].to_owned()
+            // an addition can only refer to the additions before it
+            witness
+                .addition_witness
+                .get(index + zkey.n_additions - zkey.n_vars)
+                .ok_or(PlonkProofError::CorruptedWitness(index))?
+                .to_owned()
         } else {
             tracing::warn!("Witness corrupted with invalid Index {index}");
             return Err(PlonkProofError::CorruptedWitness(index));
-- 
2.43.0


From d02a6e4af7936dd5910f171130587cbc5352490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 14/36] fix: a PLONK domain of size zero is an error

---
 co-circom/co-plonk/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/co-circom/co-plonk/src/types.rs b/co-circom/co-plonk/src/types.rs
index 2db8f31..3b596b6 100644
--- a/co-circom/co-plonk/src/types.rs
+++ b/co-circom/co-plonk/src/types.rs
@@ -70,7 +70,7 @@ fn roots_of_unity<F: PrimeField + FftField>() -> (F, Vec<F>) {
 impl<F: PrimeField> Domains<F> {
     pub(super) fn new(domain_size: usize) -> PlonkProofResult<Self> {
         tracing::debug!("building domains/roots of unity for domain size: {domain_size}");
-        if domain_size & (domain_size - 1) != 0 || domain_size == 0 {
+        if !domain_size.is_power_of_two() {
             Err(PlonkProofError::InvalidDomainSize(domain_size))
         } else {
             let mut domain = Radix2EvaluationDomain::<F>::new(domain_size)
-- 
2.43.0


From c7be30915ac29e7bf5a90d289ae3fa07cf225a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 15/36] fix: prove PLONK circuits without public inputs

---
 co-circom/co-plonk/src/round3.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/co-circom/co-plonk/src/round3.rs b/co-circom/co-plonk/src/round3.rs
index 20fa232..9f5a89e 100644
--- a/co-circom/co-plonk/src/round3.rs
+++ b/co-circom/co-plonk/src/round3.rs
@@ -9,12 +9,14 @@ use crate::{
 use ark_ec::CurveGroup;
 use ark_ec::pairing::Pairing;
 use ark_ff::Field;
+use ark_poly::EvaluationDomain;
 use circom_types::plonk::Zkey;
 use itertools::izip;
 use mpc_core::MpcState;
 use mpc_net::Network;
 use num_traits::One;
 use num_traits::Zero;
+use std::borrow::Cow;
 use tracing::instrument;
 
 macro_rules! mul4vec {
@@ -428,6 +430,19 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
         )?;
         mul4vec_span.exit();
 
+        // the zkey only has the Lagrange polynomials of the public inputs, but the first one is needed
+        // in any case
+        let first_lagrange = match zkey.lagrange.first() {
+            Some(lagrange) => Cow::Borrowed(&lagrange.evaluations),
+            None => {
+                let mut evaluations = vec![P::ScalarField::zero(); zkey.domain_size];
+                evaluations[0] = P::ScalarField::one();
+                domains.domain.ifft_in_place(&mut evaluations);
+                domains.extended_domain.fft_in_place(&mut evaluations);
+                Cow::Owned(evaluations)
+            }
+        };
+
         let t_tz_span = tracing::debug_span!("t, tz").entered();
         let mut t_vec = Vec::with_capacity(len);
         let mut tz_vec = Vec::with_capacity(len);
@@ -448,10 +463,10 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
             e3z = T::mul_with_public(e3z, challenges.alpha);
 
             let mut e4 = T::add_with_public(id, z, -P::ScalarField::one());
-            e4 = T::mul_with_public(e4, zkey.lagrange[0].evaluations[i]);
+            e4 = T::mul_with_public(e4, first_lagrange[i]);
             e4 = T::mul_with_public(e4, challenges.alpha2);
 
-            let mut e4z = T::mul_with_public(zp, zkey.lagrange[0].evaluations[i]);
+            let mut e4z = T::mul_with_public(zp, first_lagrange[i]);
             e4z = T::mul_with_public(e4z, challenges.alpha2);
 
             let mut t = T::add(e1[i], e2);
-- 
2.43.0


From 081dc6792f8fd0f210172c8a930e534915d501cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 16/36] fix: reject Groth16 proofs with the wrong number of
 public inputs

---
 co-circom/co-groth16/src/verifier.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/co-circom/co-groth16/src/verifier.rs b/co-circom/co-groth16/src/verifier.rs
index 40fd42e..497f8ee 100644
--- a/co-circom/co-groth16/src/verifier.rs
+++ b/co-circom/co-groth16/src/verifier.rs
@@ -19,6 +19,12 @@ impl<P: Pairing> Groth16<P> {
         proof: &Proof<P>,
         public_inputs: &[P::ScalarField],
     ) -> Result<(), VerificationError> {
+        // arkworks ignores additional public inputs and treats missing ones as zero
+        if public_inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(VerificationError::Malformed(eyre::eyre!(
+                "Invalid number of public inputs"
+            )));
+        }
         let vk = ark_groth16::prepare_verifying_key(vk);
         let proof_valid = ArkworksGroth16::<P>::verify_proof(&vk, proof, public_inputs)
             .map_err(eyre::Report::from)?;
-- 
2.43.0


From c8a962da728fbb485f3a9eb58d7113252ee121ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 17/36] fix: reject PLONK keys with more constraints or public
 inputs than rows

---
 co-circom/co-plonk/src/round1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/co-circom/co-plonk/src/round1.rs b/co-circom/co-plonk/src/round1.rs
index 3208635..0671b51 100644
--- a/co-circom/co-plonk/src/round1.rs
+++ b/co-circom/co-plonk/src/round1.rs
@@ -246,6 +246,10 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round1<'a, P
             )
             .into());
         }
+        // every constraint and every public input has its own row
+        if zkey.n_constraints > zkey.domain_size || zkey.n_public > zkey.domain_size {
+            return Err(PlonkProofError::PolynomialDegreeTooLarge);
+        }
         let plonk_witness = Self::calculate_additions(state.id(), private_witness, zkey)?;
         let challenges = Round1Challenges::random(&nets[0], state)?;
         let domains = Domains::new(zkey.domain_size)?;
-- 
2.43.0


From 365a10fcc6dad4b2b2691e974c0e09029a67844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 18/36] hook: FieldUint for small fields under cfg
 cosnarks_verif

---
 mpc-core/src/uint/field_uint.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mpc-core/src/uint/field_uint.rs b/mpc-core/src/uint/field_uint.rs
index f41dff6..f18cb2c 100644
--- a/mpc-core/src/uint/field_uint.rs
+++ b/mpc-core/src/uint/field_uint.rs
@@ -126,6 +126,37 @@ impl_field_uint!(ark_bls12_381::Fq, U384);
 // `impl_field_uint!(ark_grumpkin::Fr, ...)` here would be a conflicting
 // impl and fail to compile.
 
+// Verification only: fields with a modulus of at most 62 bits, so that whole
+// domains can be enumerated.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(cosnarks_verif)]
+    impl<P: ark_ff::FpConfig<1>> super::FieldUint for ark_ff::Fp<P, 1> {
+        type Uint = crate::uint::RUint<64, 1>;
+
+        fn to_uint(&self) -> Self::Uint {
+            Self::Uint::from_limbs_truncating(&self.into_bigint().0)
+        }
+
+        fn from_uint_reduced(u: &Self::Uint) -> Self {
+            super::reduce_from_limbs(u)
+        }
+
+        fn from_uint_unchecked(u: &Self::Uint) -> Self {
+            let bigint = ark_ff::BigInt([u.as_limbs()[0]]);
+            Self::from_bigint(bigint).expect("value is smaller than the modulus")
+        }
+
+        fn modulus_uint() -> Self::Uint {
+            Self::Uint::from_limbs_truncating(&<Self as ark_ff::PrimeField>::MODULUS.0)
+        }
+    }
+    #[cfg(cosnarks_verif)]
+    use crate::uint::UintBackend;
+    #[cfg(cosnarks_verif)]
+    use ark_ff::PrimeField;
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From c22d03a52c17c81015755a72d9735ecdd7f8d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 19/36] fix: dividing by a public or of a public value does not
 need an even number of bits

---
 mpc-core/src/protocols/rep3/yao/circuits.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao/circuits.rs b/mpc-core/src/protocols/rep3/yao/circuits.rs
index e5e9744..556cc2b 100644
--- a/mpc-core/src/protocols/rep3/yao/circuits.rs
+++ b/mpc-core/src/protocols/rep3/yao/circuits.rs
@@ -2124,8 +2124,6 @@ impl GarbledCircuits {
         let input_bitlen = F::MODULUS_BIT_SIZE as usize;
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(divisor.len(), length);
@@ -2163,8 +2161,6 @@ impl GarbledCircuits {
         let input_bitlen = F::MODULUS_BIT_SIZE as usize;
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(dividend.len(), length);
-- 
2.43.0


From ac82f4847e1a2a070339fab4bab4fe6fb9f7f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 20/36] fix: decomposing into another field uses that field's
 number of bits

---
 mpc-core/src/protocols/rep3/yao.rs          | 8 ++++----
 mpc-core/src/protocols/rep3/yao/circuits.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao.rs b/mpc-core/src/protocols/rep3/yao.rs
index 4b6ac49..2320998 100644
--- a/mpc-core/src/protocols/rep3/yao.rs
+++ b/mpc-core/src/protocols/rep3/yao.rs
@@ -1043,7 +1043,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 }
 
                 // TODO this can be parallelized with joint_input_arithmetic_added_many
-                let x23 = yao::input_field_id2_many::<F, _>(None, None, $output_size, $net, $state)?;
+                let x23 = yao::input_field_id2_many::<K, _>(None, None, $output_size, $net, $state)?;
 
                 let mut evaluator = yao::evaluator::Rep3Evaluator::new($net);
                 evaluator.receive_circuit()?;
@@ -1053,7 +1053,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 let x1 = evaluator.output_to_id0_and_id1(x1.wires())?;
 
                 // Compose the bits
-                for (res, x1) in izip!(res.iter_mut(), x1.chunks(F::MODULUS_BIT_SIZE as usize)) {
+                for (res, x1) in izip!(res.iter_mut(), x1.chunks(K::MODULUS_BIT_SIZE as usize)) {
                     res.a = yao::GCUtils::bits_to_field(x1)?;
                 }
             }
@@ -1064,7 +1064,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 }
 
                 // TODO this can be parallelized with joint_input_arithmetic_added_many
-                let x23 = yao::input_field_id2_many::<F, _>(None, None, $output_size, $net, $state)?;
+                let x23 = yao::input_field_id2_many::<K, _>(None, None, $output_size, $net, $state)?;
 
                 let mut garbler =
                     yao::garbler::Rep3Garbler::new_with_delta($net, $state, delta.expect("Delta not provided"));
@@ -1075,7 +1075,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 let x1 = x1.ok_or_else(|| eyre::eyre!("No output received"))?;
 
                 // Compose the bits
-                for (res, x1) in izip!(res.iter_mut(), x1.chunks(F::MODULUS_BIT_SIZE as usize)) {
+                for (res, x1) in izip!(res.iter_mut(), x1.chunks(K::MODULUS_BIT_SIZE as usize)) {
                     res.b = yao::GCUtils::bits_to_field(x1)?;
                 }
             }
diff --git a/mpc-core/src/protocols/rep3/yao/circuits.rs b/mpc-core/src/protocols/rep3/yao/circuits.rs
index 556cc2b..6d6569f 100644
--- a/mpc-core/src/protocols/rep3/yao/circuits.rs
+++ b/mpc-core/src/protocols/rep3/yao/circuits.rs
@@ -978,7 +978,7 @@ impl GarbledCircuits {
         debug_assert_eq!(input_bitlen, F::MODULUS_BIT_SIZE as usize);
         debug_assert!(input_bitlen >= total_output_bitlen);
         debug_assert!(decompose_bitlen <= total_output_bitlen);
-        debug_assert_eq!(wires_c.len(), input_bitlen * num_decomps_per_field);
+        debug_assert_eq!(wires_c.len(), output_bitlen * num_decomps_per_field);
 
         let input_bits =
             Self::adder_mod_p_with_output_size::<_, F>(g, wires_a, wires_b, total_output_bitlen)?;
@@ -1021,7 +1021,7 @@ impl GarbledCircuits {
         debug_assert_eq!(input_size % input_bitlen, 0);
         debug_assert!(input_bitlen >= total_output_bitlen_per_field);
         debug_assert!(decompose_bitlen <= total_output_bitlen_per_field);
-        debug_assert_eq!(wires_c.size(), input_bitlen * total_output_elements);
+        debug_assert_eq!(wires_c.size(), output_bitlen * total_output_elements);
 
         let mut results = Vec::with_capacity(wires_c.size());
 
-- 
2.43.0


From f840180ee2471991f77e950617fddb502a041a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 21/36] fix: draw enough randomness for the masks of field
 vectors (they were biased)

---
 mpc-core/src/protocols/rep3/rngs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/rngs.rs b/mpc-core/src/protocols/rep3/rngs.rs
index ada4628..e2f12ef 100644
--- a/mpc-core/src/protocols/rep3/rngs.rs
+++ b/mpc-core/src/protocols/rep3/rngs.rs
@@ -135,9 +135,9 @@ impl Rep3Rand {
     // TODO do not collect the values
     /// Generate a vector of masking field elements
     pub fn masking_field_elements_vec<F: PrimeField>(&mut self, len: usize) -> Vec<F> {
-        let field_size = usize::try_from(F::MODULUS_BIT_SIZE)
-            .expect("u32 fits into usize")
-            .div_ceil(8);
+        // 128 bits more than the modulus, so that the bias of the reduction is negligible
+        let field_size =
+            (usize::try_from(F::MODULUS_BIT_SIZE).expect("u32 fits into usize") + 128).div_ceil(8);
         let mut a = vec![0_u8; field_size * len];
         let mut b = vec![0_u8; field_size * len];
         rayon::join(
-- 
2.43.0


From 30da239214b19972f04d20a418bb8c3654a355f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 22/36] fix: mask the coordinates of every point of a vector
 afresh

---
 mpc-core/src/protocols/rep3/conversion.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/conversion.rs b/mpc-core/src/protocols/rep3/conversion.rs
index 6c270c5..d64f8ef 100644
--- a/mpc-core/src/protocols/rep3/conversion.rs
+++ b/mpc-core/src/protocols/rep3/conversion.rs
@@ -930,8 +930,14 @@ where
     let mut x2_x = Vec::with_capacity(input_len);
     let mut x2_y = Vec::with_capacity(input_len);
 
-    let r_x = vec![state.rngs.rand.masking_field_element::<C::BaseField>(); input_len];
-    let r_y = vec![state.rngs.rand.masking_field_element::<C::BaseField>(); input_len];
+    let r_x = state
+        .rngs
+        .rand
+        .masking_field_elements_vec::<C::BaseField>(input_len);
+    let r_y = state
+        .rngs
+        .rand
+        .masking_field_elements_vec::<C::BaseField>(input_len);
 
     for (x, r_x, r_y) in izip!(x.iter(), r_x.iter(), r_y.iter()) {
         match state.id {
-- 
2.43.0


From 1e6b157fdb064323c37008a87ea7668e8c384c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 23/36] fix: reading a public two-entry lookup table panics
 (low-depth protocol needs two index bits)

---
 mpc-core/src/protocols/rep3_ring/lut_field.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mpc-core/src/protocols/rep3_ring/lut_field.rs b/mpc-core/src/protocols/rep3_ring/lut_field.rs
index 136a9b8..888adb1 100644
--- a/mpc-core/src/protocols/rep3_ring/lut_field.rs
+++ b/mpc-core/src/protocols/rep3_ring/lut_field.rs
@@ -84,9 +84,8 @@ impl<F: FieldUint> Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
-            Self::get_from_public_luts_internal::<Bit, _>(bits, luts, net0, net1, state0, state1)?
-        } else if k <= 8 {
+        // The low depth protocol uses at least two index bits, so Bit is too small for k == 1
+        let result = if k <= 8 {
             Self::get_from_public_luts_internal::<u8, _>(bits, luts, net0, net1, state0, state1)?
         } else if k <= 16 {
             Self::get_from_public_luts_internal::<u16, _>(bits, luts, net0, net1, state0, state1)?
@@ -333,9 +332,8 @@ impl<F: FieldUint> LookupTableProvider<F> for Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
-            Self::get_from_lut_internal::<Bit, _>(bits, lut, net0, net1, state0, state1)?
-        } else if k <= 8 {
+        // The low depth protocol for public tables uses at least two index bits, so Bit is too small for k == 1
+        let result = if k <= 8 {
             Self::get_from_lut_internal::<u8, _>(bits, lut, net0, net1, state0, state1)?
         } else if k <= 16 {
             Self::get_from_lut_internal::<u16, _>(bits, lut, net0, net1, state0, state1)?
-- 
2.43.0


From fa57aa46cc5b8a01e509e6bb1afe2acd69df6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 24/36] fix: one-hot vectors and lookup tables with a single
 entry panic

---
 mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs b/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
index f629da6..c616b79 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
@@ -25,7 +25,6 @@ pub fn rand_ohv<T: IntRing2k, N: Network>(
 where
     Standard: Distribution<T>,
 {
-    debug_assert!(k >= 1);
     debug_assert!(k <= T::K); // Make sure datatype is large enough for bitsize
     let (mut a, mut b) = state.rngs.rand.random_elements::<T>();
     if k != T::K {
@@ -49,9 +48,16 @@ pub fn ohv<T: IntRing2k, N: Network>(
     net: &N,
     state: &mut Rep3State,
 ) -> eyre::Result<Vec<Rep3RingShare<Bit>>> {
-    debug_assert!(k > 0);
     debug_assert!(k <= T::K); // Make sure datatype is large enough for bitsize
 
+    if k == 0 {
+        // No index bits, the vector has a single entry
+        return Ok(vec![binary::promote_to_trivial_share(
+            state.id,
+            &RingElement(Bit::new(true)),
+        )]);
+    }
+
     let new_k = k - 1;
     let vk = bits.get_bit(new_k);
 
-- 
2.43.0


From 13efbfcdb8f77d9d7db3e1ec5d77b604e1b6a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 25/36] fix: low-depth read of several public tables of
 different lengths panics

---
 mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs b/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
index 9293422..c8f90db 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
@@ -185,7 +185,7 @@ where
             for f1 in e_.iter() {
                 let index = j ^ c;
                 j += 1;
-                if index >= n {
+                if index >= lut.len() {
                     // The pad with 0 case
                     continue;
                 }
-- 
2.43.0


From 3fd1e941d27b060e0f8a8068eb35dae22dfe6baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 26/36] fix: reading several public curve tables sizes the
 one-hot vector by the number of tables

---
 mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
index 6dadaaf..ea71fe4 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
@@ -51,7 +51,7 @@ pub fn read_public_luts<C: CurveGroup, T: IntRing2k, N: Network>(
 where
     Standard: Distribution<T>,
 {
-    let n = luts.len();
+    let n = luts.iter().map(|l| l.len()).max().unwrap();
     let k = n.next_power_of_two().ilog2() as usize;
 
     assert!(k <= T::K);
-- 
2.43.0


From 2cb1853c56389a82666185fc581dd6c6b1283aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 27/36] fix: dividing an odd number of single-bit ring elements
 by, or out of, public values panics

---
 mpc-core/src/protocols/rep3/yao/circuits.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao/circuits.rs b/mpc-core/src/protocols/rep3/yao/circuits.rs
index 6d6569f..efb2cd2 100644
--- a/mpc-core/src/protocols/rep3/yao/circuits.rs
+++ b/mpc-core/src/protocols/rep3/yao/circuits.rs
@@ -2010,8 +2010,6 @@ impl GarbledCircuits {
     ) -> Result<BinaryBundle<G::Item>, G::Error> {
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(divisor.len(), length);
@@ -2046,8 +2044,6 @@ impl GarbledCircuits {
     ) -> Result<BinaryBundle<G::Item>, G::Error> {
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
-
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
         debug_assert_eq!(dividend.len(), length);
-- 
2.43.0


From 9df6b89eb0c2c3f3cdbf0c73a6eef7a3d46555db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 28/36] fix: a public false if without else leaves its entry on
 the stack of conditions

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index a3f3367..547e157 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -566,13 +566,21 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                         //push the new shared condition on stack
                         self.if_stack.push_shared(protocol, cond)?;
                     } else {
-                        self.if_stack.push_public();
                         //not shared we can just check
                         if protocol.is_zero(cond, false)? {
                             //we need to jump
                             ip += jump;
+                            //without an else branch we also jump past the end of this if,
+                            //so nothing would pop the element
+                            if !matches!(
+                                current_body[ip - 1],
+                                op_codes::MpcOpCode::EndTruthyBranch(0)
+                            ) {
+                                self.if_stack.push_public();
+                            }
                             continue;
                         }
+                        self.if_stack.push_public();
                     }
                 }
                 op_codes::MpcOpCode::EndTruthyBranch(jump) => {
-- 
2.43.0


From 19c1011197e8beba5b70c90c0c57817ff62fb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 29/36] fix: a division after a return under a shared condition
 fails on a zero divisor that is never reached

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 31 +++++++++++++++++++++++++--
 co-circom/circom-mpc-vm/src/stack.rs  |  4 ++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index 547e157..15ebced 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -623,8 +623,7 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                 op_codes::MpcOpCode::Div => {
                     let mut rhs = self.pop_field();
                     let lhs = self.pop_field();
-                    if self.if_stack.is_shared() {
-                        let cond = self.if_stack.get_shared_condition();
+                    if let Some(cond) = self.active_condition(protocol, &current_shared_ret_vals)? {
                         rhs = protocol.cmux(cond, rhs, protocol.public_one())?;
                     }
                     self.push_field(protocol.div(lhs, rhs)?);
@@ -889,6 +888,34 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
         Ok(())
     }
 
+    /// The shared condition under which the current instruction takes effect: the conditions of all shared ifs
+    /// we are in and that none of the earlier returns under a shared condition was taken (in this function or in
+    /// one of its callers). None if it takes effect for sure.
+    fn active_condition(
+        &self,
+        protocol: &mut C,
+        current_shared_ret_vals: &[(C::VmType, Vec<C::VmType>)],
+    ) -> Result<Option<C::VmType>> {
+        let mut active = if self.if_stack.is_shared() {
+            Some(self.if_stack.get_shared_condition())
+        } else {
+            None
+        };
+        for (returned, _) in self
+            .functions_ctx
+            .iter()
+            .flat_map(|ctx| ctx.shared_return_vals.iter())
+            .chain(current_shared_ret_vals)
+        {
+            let not_returned = protocol.bool_not(returned.to_owned())?;
+            active = Some(match active {
+                Some(active) => protocol.bool_and(active, not_returned)?,
+                None => not_returned,
+            });
+        }
+        Ok(active)
+    }
+
     fn handle_shared_fun_return(
         &mut self,
         protocol: &mut C,
diff --git a/co-circom/circom-mpc-vm/src/stack.rs b/co-circom/circom-mpc-vm/src/stack.rs
index e9ae939..15be0ea 100644
--- a/co-circom/circom-mpc-vm/src/stack.rs
+++ b/co-circom/circom-mpc-vm/src/stack.rs
@@ -46,6 +46,10 @@ impl<F: Clone> Stack<F> {
         stack_frame.pop().expect("stack frame is empty?")
     }
 
+    pub(crate) fn iter(&self) -> impl Iterator<Item = &F> {
+        self.stack.iter().flatten()
+    }
+
     #[inline(always)]
     pub(crate) fn frame_len(&self) -> usize {
         self.stack
-- 
2.43.0


From f4777b9a6918ff8da1c5a27cdc64852c91a75266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 30/36] fix: an assertion in a branch that is not taken, under
 a shared condition, fails the run

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index 15ebced..4aacac9 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -552,7 +552,15 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                     }
                 }
                 op_codes::MpcOpCode::Assert(line) => {
-                    let assertion = self.pop_field();
+                    let mut assertion = self.pop_field();
+                    if let Some(cond) = self.active_condition(protocol, &current_shared_ret_vals)? {
+                        // a public assertion that holds does so in every branch
+                        if protocol.is_shared(&assertion)?
+                            || protocol.is_zero(assertion.clone(), false)?
+                        {
+                            assertion = protocol.cmux(cond, assertion, protocol.public_one())?;
+                        }
+                    }
                     if protocol.is_zero(assertion, true)? {
                         bail!(
                             "Assertion failed during execution on line {line} in component {}",
-- 
2.43.0


From c671b145ef93ae3cb0e7070a34c89dbf3e388031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 31/36] fix: signals that are never assigned are empty instead
 of zero in the batched VM

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index 4aacac9..b87843e 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -1220,7 +1220,7 @@ impl<F: PrimeField + FieldUint> BatchedPlainWitnessExtension<F> {
         config: VMConfig,
         batch_size: usize,
     ) -> Self {
-        let mut signals = vec![Vec::with_capacity(batch_size); parser.amount_signals];
+        let mut signals = vec![vec![F::zero(); batch_size]; parser.amount_signals];
         signals[0] = vec![F::one(); batch_size];
         let batched_constant_table = parser
             .constant_table
@@ -1298,7 +1298,7 @@ impl<'a, F: PrimeField + FieldUint, N: Network> BatchedRep3WitnessExtension<'a,
         let driver =
             BatchedCircomRep3VmWitnessExtension::new(net0, net1, config.a2b_type, batch_size)?;
         let mut signals = vec![
-            BatchedRep3VmType::from(Vec::<F>::with_capacity(batch_size));
+            BatchedRep3VmType::from(vec![F::zero(); batch_size]);
             parser.amount_signals
         ];
         signals[0] = BatchedRep3VmType::from(vec![F::one(); batch_size]);
-- 
2.43.0


From 0f9a7510c96a748cd56a546e48e3708e1a444a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 32/36] fix: the remainder modulo 2^0 of a shared value panics

---
 mpc-core/src/protocols/rep3/yao.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao.rs b/mpc-core/src/protocols/rep3/yao.rs
index 2320998..92392f0 100644
--- a/mpc-core/src/protocols/rep3/yao.rs
+++ b/mpc-core/src/protocols/rep3/yao.rs
@@ -750,6 +750,9 @@ pub fn field_mod_power_2<F: FieldUint, N: Network>(
     state: &mut Rep3State,
     mod_bit: usize,
 ) -> eyre::Result<Rep3PrimeFieldShare<F>> {
+    if mod_bit == 0 {
+        return Ok(Rep3PrimeFieldShare::zero_share());
+    }
     let decomposed = decompose_arithmetic(input, net, state, mod_bit, mod_bit)?;
     debug_assert_eq!(decomposed.len(), 1);
     let res = decomposed[0];
-- 
2.43.0


From ff9373de3dbe3343ed0e469d812d768cf459106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 33/36] fix: comparing a public with a shared value is wrong
 when they are equal

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index 3b3fc0a..e119d21 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -271,7 +271,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -292,7 +292,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -313,7 +313,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -334,7 +334,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
-- 
2.43.0


From 57592243c6681f194ee2df21e1dcec9976a881d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 34/36] fix: the bitwise or and xor of shared values fails when
 the result exceeds the modulus

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 41 ++++++++-----------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index e119d21..f059de4 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -477,20 +477,13 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
     fn bit_xor(&mut self, a: Self::VmType, b: Self::VmType) -> eyre::Result<Self::VmType> {
         match (a, b) {
             (Rep3VmType::Public(a), Rep3VmType::Public(b)) => Ok(self.plain.bit_xor(a, b)?.into()),
-            (Rep3VmType::Public(b), Rep3VmType::Arithmetic(a))
-            | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
-                let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
-                let binary = binary::xor_public(&a, &b.to_uint(), self.id);
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
-            }
-            (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
-                let (a, b) = mpc_net::join(
-                    || conversion::a2b_selector(a, self.net0, &mut self.state0),
-                    || conversion::a2b_selector(b, self.net1, &mut self.state1),
-                );
-                let binary = binary::xor(&a?, &b?);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
-                Ok(result.into())
+            (a, b) => {
+                // a ^ b = a + b - 2 * (a & b). The xor of the bits itself can exceed the modulus and
+                // can therefore not be translated back to an arithmetic sharing.
+                let and = self.bit_and(a.clone(), b.clone())?;
+                let sum = self.add(a, b)?;
+                let diff = self.sub(sum, and.clone())?;
+                self.sub(diff, and)
             }
         }
     }
@@ -498,20 +491,12 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
     fn bit_or(&mut self, a: Self::VmType, b: Self::VmType) -> eyre::Result<Self::VmType> {
         match (a, b) {
             (Rep3VmType::Public(a), Rep3VmType::Public(b)) => Ok(self.plain.bit_or(a, b)?.into()),
-            (Rep3VmType::Public(b), Rep3VmType::Arithmetic(a))
-            | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
-                let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
-                let binary = binary::or_public(&a, &b.to_uint(), self.id);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
-                Ok(result.into())
-            }
-            (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
-                let (a, b) = mpc_net::join(
-                    || conversion::a2b_selector(a, self.net0, &mut self.state0),
-                    || conversion::a2b_selector(b, self.net1, &mut self.state1),
-                );
-                let binary = binary::or(&a?, &b?, self.net0, &mut self.state0)?;
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
+            (a, b) => {
+                // a | b = a + b - (a & b). The or of the bits itself can exceed the modulus and
+                // can therefore not be translated back to an arithmetic sharing.
+                let and = self.bit_and(a.clone(), b.clone())?;
+                let sum = self.add(a, b)?;
+                self.sub(sum, and)
             }
         }
     }
-- 
2.43.0


From 90b2ca68f72993c5d014f557d5cca3729921f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 35/36] fix: shamir openings and preprocessing reject messages
 with another number of elements

---
 mpc-core/src/protocols/shamir/arithmetic.rs |  9 +++++++++
 mpc-core/src/protocols/shamir/pointshare.rs | 10 ++++++++++
 mpc-core/src/protocols/shamir/rngs.rs       |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 91feb3a..85fadfb 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -200,6 +200,9 @@ pub fn open_vec<F: PrimeField, N: Network>(
     let mut transposed = vec![vec![F::zero(); state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!("During execution of open_vec in MPC: Invalid number of elements received");
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
@@ -286,11 +289,17 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
         .map(|(a, b)| Ok((a * b).a + zero_share_2t(net, state)?))
         .collect::<eyre::Result<Vec<_>>>()?;
 
+    let len = mul.len();
     let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
 
     let mut transposed = vec![vec![F::zero(); 2 * state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != len {
+            eyre::bail!(
+                "During execution of mul_open_vec in MPC: Invalid number of elements received"
+            );
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
diff --git a/mpc-core/src/protocols/shamir/pointshare.rs b/mpc-core/src/protocols/shamir/pointshare.rs
index 2b8cd8f..e817eb2 100644
--- a/mpc-core/src/protocols/shamir/pointshare.rs
+++ b/mpc-core/src/protocols/shamir/pointshare.rs
@@ -141,6 +141,11 @@ pub fn open_point_many<C: CurveGroup, N: Network>(
     let mut transposed = vec![vec![C::zero(); state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!(
+                "During execution of open_point_many in MPC: Invalid number of elements received"
+            );
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
@@ -188,6 +193,11 @@ pub fn open_point_and_field_many<C: CurveGroup, N: Network>(
     let mut transposed_fields = vec![vec![C::ScalarField::zero(); state.threshold + 1]; b.len()];
 
     for (j, (r_point, r_field)) in rcv.into_iter().enumerate() {
+        if r_point.len() != a.len() || r_field.len() != b.len() {
+            eyre::bail!(
+                "During execution of open_point_and_field_many in MPC: Invalid number of elements received"
+            );
+        }
         for (i, val) in r_point.into_iter().enumerate() {
             transposed_points[i][j] = val;
         }
diff --git a/mpc-core/src/protocols/shamir/rngs.rs b/mpc-core/src/protocols/shamir/rngs.rs
index bcf1ea8..0827365 100644
--- a/mpc-core/src/protocols/shamir/rngs.rs
+++ b/mpc-core/src/protocols/shamir/rngs.rs
@@ -323,6 +323,11 @@ impl<F: PrimeField> ShamirRng<F> {
         for i in 1..=receiving {
             let send_id = (self.id + self.num_parties - seeded - i) % self.num_parties;
             let shares = net.recv_many(send_id)?;
+            if shares.len() != output.len() {
+                eyre::bail!(
+                    "During execution of random_double_share in MPC: Invalid number of elements received"
+                );
+            }
             for (r, s) in output.iter_mut().zip(shares.iter()) {
                 r[send_id] = *s;
             }
-- 
2.43.0


From 6e085a1ba1e40c5e3f59977977adcdfa0035f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 36/36] fix: rep3 protocols reject messages with another number
 of elements

---
 mpc-core/src/protocols/rep3/arithmetic.rs     | 10 +++
 mpc-core/src/protocols/rep3/conversion.rs     | 20 ++++-
 mpc-core/src/protocols/rep3/network.rs        | 14 +++-
 .../src/protocols/rep3_ring/conversion.rs     | 13 +++-
 .../src/protocols/rep3_ring/gadgets/sort.rs   | 76 ++++++++++++++++++-
 5 files changed, 125 insertions(+), 8 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/arithmetic.rs b/mpc-core/src/protocols/rep3/arithmetic.rs
index ba6eba6..16229e1 100644
--- a/mpc-core/src/protocols/rep3/arithmetic.rs
+++ b/mpc-core/src/protocols/rep3/arithmetic.rs
@@ -824,6 +824,11 @@ pub fn reshare_from_2_to_3_parties<F: PrimeField, N: Network>(
         }
         let comm_id = state.id.next();
         let rcv = net.send_and_recv_many(comm_id, &rand, comm_id)?;
+        if rcv.len() != len {
+            eyre::bail!(
+                "During execution of reshare_from_2_to_3_parties in MPC: Invalid number of elements received"
+            );
+        }
         for (res, r) in result.iter_mut().zip(rcv) {
             res.a += r;
         }
@@ -837,6 +842,11 @@ pub fn reshare_from_2_to_3_parties<F: PrimeField, N: Network>(
         }
         let comm_id = state.id.prev();
         let rcv = net.send_and_recv_many(comm_id, &rand, comm_id)?;
+        if rcv.len() != len {
+            eyre::bail!(
+                "During execution of reshare_from_2_to_3_parties in MPC: Invalid number of elements received"
+            );
+        }
         for (res, r) in result.iter_mut().zip(rcv) {
             res.b += r;
         }
diff --git a/mpc-core/src/protocols/rep3/conversion.rs b/mpc-core/src/protocols/rep3/conversion.rs
index d64f8ef..f847938 100644
--- a/mpc-core/src/protocols/rep3/conversion.rs
+++ b/mpc-core/src/protocols/rep3/conversion.rs
@@ -269,8 +269,7 @@ pub fn b2a_many<F: FieldUint, N: Network>(
 
     // reshare y
     let y_a = r_vec;
-    net.send_next_many(&y_a)?;
-    let local_b = net.recv_prev_many()?;
+    let local_b = net.reshare_many(&y_a)?;
 
     let y = izip!(y_a, local_b)
         .map(|(a, b)| BinaryShare::new(a, b))
@@ -289,6 +288,11 @@ pub fn b2a_many<F: FieldUint, N: Network>(
             let z_b = z.iter().map(|z| z.b).collect::<Vec<_>>();
             net.send_next_many(&z_b)?;
             let rcv: Vec<F::Uint> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!(
+                    "During execution of b2a_many in MPC: Invalid number of elements received"
+                );
+            }
 
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.a = F::from_uint_unchecked(&(z.a ^ z.b ^ *rcv));
@@ -296,6 +300,11 @@ pub fn b2a_many<F: FieldUint, N: Network>(
         }
         PartyID::ID1 => {
             let rcv: Vec<F::Uint> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!(
+                    "During execution of b2a_many in MPC: Invalid number of elements received"
+                );
+            }
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.b = F::from_uint_unchecked(&(z.a ^ z.b ^ *rcv));
             }
@@ -765,7 +774,12 @@ pub fn y2b_many<F: FieldUint, N: Network>(
             }
         }
         PartyID::ID2 => {
-            let r_xor_x_xor_px = net.recv_many(PartyID::ID0)?;
+            let r_xor_x_xor_px: Vec<F::Uint> = net.recv_many(PartyID::ID0)?;
+            if r_xor_x_xor_px.len() != collapsed.len() {
+                eyre::bail!(
+                    "During execution of y2b_many in MPC: Invalid number of elements received"
+                );
+            }
 
             for (px, r_xor_x_xor_px_) in izip!(collapsed, r_xor_x_xor_px) {
                 result.push(Rep3UintShare::new(r_xor_x_xor_px_, px));
diff --git a/mpc-core/src/protocols/rep3/network.rs b/mpc-core/src/protocols/rep3/network.rs
index d544c7c..94e9759 100644
--- a/mpc-core/src/protocols/rep3/network.rs
+++ b/mpc-core/src/protocols/rep3/network.rs
@@ -32,7 +32,11 @@ pub trait Rep3NetworkExt: Network {
         data: &[F],
     ) -> eyre::Result<Vec<F>> {
         let id = PartyID::try_from(self.id())?;
-        self.send_and_recv_many(id.next(), data, id.prev())
+        let res = self.send_and_recv_many(id.next(), data, id.prev())?;
+        if res.len() != data.len() {
+            eyre::bail!("Expected {} elements, got {}", data.len(), res.len());
+        }
+        Ok(res)
     }
 
     /// Broadcast data to the other two parties and receive data from them
@@ -75,6 +79,14 @@ pub trait Rep3NetworkExt: Network {
         self.send_both_many(data)?;
         let prev_res = self.recv_many(prev_id)?;
         let next_res = self.recv_many(next_id)?;
+        if prev_res.len() != data.len() || next_res.len() != data.len() {
+            eyre::bail!(
+                "Expected {} elements, got {} and {}",
+                data.len(),
+                prev_res.len(),
+                next_res.len()
+            );
+        }
         Ok((prev_res, next_res))
     }
 
diff --git a/mpc-core/src/protocols/rep3_ring/conversion.rs b/mpc-core/src/protocols/rep3_ring/conversion.rs
index 36d2dcc..2193758 100644
--- a/mpc-core/src/protocols/rep3_ring/conversion.rs
+++ b/mpc-core/src/protocols/rep3_ring/conversion.rs
@@ -276,8 +276,7 @@ where
 
     // reshare y
     let y_a = r_vec;
-    net.send_next_many(&y_a)?;
-    let local_b = net.recv_prev_many()?;
+    let local_b = net.reshare_many(&y_a)?;
 
     let y = izip!(y_a, local_b)
         .map(|(a, b)| Rep3RingShare::new_ring(a, b))
@@ -290,6 +289,11 @@ where
             let z_b = z.iter().cloned().map(|z| z.b).collect::<Vec<_>>();
             net.send_next_many(&z_b)?;
             let rcv: Vec<RingElement<T>> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!(
+                    "During execution of b2a_many in MPC: Invalid number of elements received"
+                );
+            }
 
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.a = z.a ^ z.b ^ rcv;
@@ -297,6 +301,11 @@ where
         }
         PartyID::ID1 => {
             let rcv: Vec<RingElement<T>> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!(
+                    "During execution of b2a_many in MPC: Invalid number of elements received"
+                );
+            }
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.b = z.a ^ z.b ^ rcv;
             }
diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs b/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs
index 7a42950..86e21e1 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs
@@ -502,6 +502,11 @@ where
             }
             let rcv: Vec<RingElement<T>> =
                 net.send_and_recv_many(PartyID::ID2, &rand, PartyID::ID2)?;
+            if rcv.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle in MPC: Invalid number of elements received"
+                );
+            }
             for (res, (r1, r2)) in result.iter_mut().zip(rcv.into_iter().zip(rand)) {
                 res.a = r1 + r2;
             }
@@ -515,6 +520,11 @@ where
                 alpha_3.push(alpha_3_);
             }
             let gamma: Vec<RingElement<T>> = net.recv_prev_many()?;
+            if gamma.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle in MPC: Invalid number of elements received"
+                );
+            }
             // first shuffle
             let mut shuffled_1 = Vec::with_capacity(len);
             for (pi, alpha) in pi.iter().zip(alpha_3.iter()) {
@@ -538,6 +548,11 @@ where
             }
             let rcv: Vec<RingElement<T>> =
                 net.send_and_recv_many(PartyID::ID1, &rand, PartyID::ID1)?;
+            if rcv.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle in MPC: Invalid number of elements received"
+                );
+            }
             for (res, (r1, r2)) in result.iter_mut().zip(rcv.into_iter().zip(rand)) {
                 res.b = r1 + r2;
             }
@@ -623,6 +638,11 @@ fn shuffle_field<F: FieldUint, N: Network>(
                 result.push(Rep3PrimeFieldShare::new(F::zero(), b));
             }
             let rcv: Vec<F> = net.send_and_recv_many(PartyID::ID2, &rand, PartyID::ID2)?;
+            if rcv.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle_field in MPC: Invalid number of elements received"
+                );
+            }
             for (res, (r1, r2)) in result.iter_mut().zip(rcv.into_iter().zip(rand)) {
                 res.a = r1 + r2;
             }
@@ -636,6 +656,11 @@ fn shuffle_field<F: FieldUint, N: Network>(
                 alpha_3.push(alpha_3_);
             }
             let gamma: Vec<F> = net.recv_prev_many()?;
+            if gamma.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle_field in MPC: Invalid number of elements received"
+                );
+            }
             // first shuffle
             let mut shuffled_1 = Vec::with_capacity(len);
             for (pi, alpha) in pi.iter().zip(alpha_3.iter()) {
@@ -658,6 +683,11 @@ fn shuffle_field<F: FieldUint, N: Network>(
                 result.push(Rep3PrimeFieldShare::new(a, F::zero()));
             }
             let rcv: Vec<F> = net.send_and_recv_many(PartyID::ID1, &rand, PartyID::ID1)?;
+            if rcv.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle_field in MPC: Invalid number of elements received"
+                );
+            }
             for (res, (r1, r2)) in result.iter_mut().zip(rcv.into_iter().zip(rand)) {
                 res.b = r1 + r2;
             }
@@ -694,7 +724,13 @@ where
                 let pi_1 = pi.a.0 as usize;
                 shuffled.push(beta_1[pi_1] - alpha);
             }
-            net.send_and_recv_many(PartyID::ID2, &shuffled, PartyID::ID2)?
+            let shuffled = net.send_and_recv_many(PartyID::ID2, &shuffled, PartyID::ID2)?;
+            if shuffled.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle_reveal in MPC: Invalid number of elements received"
+                );
+            }
+            shuffled
         }
         PartyID::ID1 => {
             // has p2, p1
@@ -711,11 +747,27 @@ where
                 let pi_1 = pi.b.0 as usize;
                 shuffled.push(beta_2[pi_1] + alpha);
             }
-            net.send_and_recv_many(PartyID::ID2, &shuffled, PartyID::ID2)?
+            let shuffled = net.send_and_recv_many(PartyID::ID2, &shuffled, PartyID::ID2)?;
+            if shuffled.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle_reveal in MPC: Invalid number of elements received"
+                );
+            }
+            shuffled
         }
         PartyID::ID2 => {
             let delta = net.recv_many::<RingElement<T>>(PartyID::ID0)?;
+            if delta.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle_reveal in MPC: Invalid number of elements received"
+                );
+            }
             let gamma = net.recv_many::<RingElement<T>>(PartyID::ID1)?;
+            if gamma.len() != len {
+                eyre::bail!(
+                    "During execution of shuffle_reveal in MPC: Invalid number of elements received"
+                );
+            }
             // shuffle
             let mut shuffled = Vec::with_capacity(len);
             for p in pi {
@@ -753,6 +805,11 @@ where
                 alpha_3.push(alpha_3_);
             }
             let gamma: Vec<RingElement<T>> = net.recv_many(PartyID::ID1)?;
+            if gamma.len() != len {
+                eyre::bail!(
+                    "During execution of unshuffle in MPC: Invalid number of elements received"
+                );
+            }
             // first shuffle
             let mut shuffled_3 = vec![RingElement::zero(); len];
             for (pi, (alpha, gamma)) in pi.iter().zip(alpha_3.iter().zip(gamma)) {
@@ -776,6 +833,11 @@ where
             }
             let rcv: Vec<RingElement<T>> =
                 net.send_and_recv_many(PartyID::ID1, &rand, PartyID::ID1)?;
+            if rcv.len() != len {
+                eyre::bail!(
+                    "During execution of unshuffle in MPC: Invalid number of elements received"
+                );
+            }
             for (res, (r1, r2)) in result.iter_mut().zip(rcv.into_iter().zip(rand)) {
                 res.a = r1 + r2;
             }
@@ -797,6 +859,11 @@ where
                 shuffled_3[pi_2] = alpha + beta_2;
             }
             let delta = net.send_and_recv_many(PartyID::ID0, &shuffled_3, PartyID::ID2)?;
+            if delta.len() != len {
+                eyre::bail!(
+                    "During execution of unshuffle in MPC: Invalid number of elements received"
+                );
+            }
             // second shuffle
             let mut beta_2_prime = beta_2;
             for (src, pi) in delta.into_iter().zip(pi) {
@@ -814,6 +881,11 @@ where
             }
             let rcv: Vec<RingElement<T>> =
                 net.send_and_recv_many(PartyID::ID0, &rand, PartyID::ID0)?;
+            if rcv.len() != len {
+                eyre::bail!(
+                    "During execution of unshuffle in MPC: Invalid number of elements received"
+                );
+            }
             for (res, (r1, r2)) in result.iter_mut().zip(rcv.into_iter().zip(rand)) {
                 res.b = r1 + r2;
             }
-- 
2.43.0

