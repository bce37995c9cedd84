From c832291b26781e84b63095df299cfa79e98f0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 01/25] fix: vru-kyber: round the generated public key so it
 encapsulates like its encoding

---
 vru-kyber/src/indcpa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/indcpa.rs b/vru-kyber/src/indcpa.rs
index d4e99b6..fe96438 100644
--- a/vru-kyber/src/indcpa.rs
+++ b/vru-kyber/src/indcpa.rs
@@ -124,7 +124,9 @@ where
             Coefficient::acc(a.iter().zip(b.iter()))
         });
         let p = p.ntt();
-        Poly::functor_2(&p, &e[i], |p, e| p + e)
+        let p: Poly<S, typenum::B1> = Poly::functor_2(&p, &e[i], |p, e| p + e);
+        // the public key is the rounded value, the same as the peer will parse
+        Poly::decompress_slightly(&p.compress_slightly())
     });
 
     (
-- 
2.43.0


From fd6d02adb1b4c329639bb6cc20867a31d150d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 02/25] fix: vru-kyber: derive the rejection secret from the
 received ciphertext

---
 vru-kyber/src/kem.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index 4b6835b..2dc35bb 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -94,7 +94,8 @@ where
         let ct_prime = cipher_text.clone_line();
         let flag = ct.ct_eq(ct_prime.as_ref());
 
-        let ct_hash = Sha3_256::default().chain(ct).finalize_fixed();
+        // hash the ciphertext that was received, so a rejected one gives a secret of its own
+        let ct_hash = Sha3_256::default().chain(ct_prime).finalize_fixed();
         for i in 0..32 {
             r[i].conditional_assign(&reject[i], !flag);
         }
-- 
2.43.0


From 76d5c0a809ab7da2a254e62337e136021ee41e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 03/25] fix: vru-noise: reject a buffer shorter than the tag
 instead of panicking

---
 vru-noise/src/cipher_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index 96862b6..a407cf8 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -183,7 +183,8 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut tag = GenericArray::default();
-        let pos = buffer.len() - <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let tag_size = <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let pos = buffer.len().checked_sub(tag_size).ok_or(MacMismatch)?;
         tag.clone_from_slice(&buffer[pos..]);
         buffer.resize(pos, 0);
         self.decrypt(associated_data, buffer.as_mut(), &tag)
-- 
2.43.0


From 0cccbd267a8b2a1775f6bdc12f3376e1f1b4182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 04/25] fix: vru-noise: mix the whole psk hash output into the
 transcript, as Noise specifies

---
 vru-noise/src/hash.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/vru-noise/src/hash.rs b/vru-noise/src/hash.rs
index 5d5683c..3006cbd 100644
--- a/vru-noise/src/hash.rs
+++ b/vru-noise/src/hash.rs
@@ -119,7 +119,7 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     );
 }
@@ -170,15 +170,11 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     ) {
         let keys = Self::hkdf_split(Some(chaining_key), data);
         let [chaining_key, middle, key]: [_; 3] = keys.into();
-        (
-            chaining_key,
-            truncate::<A>(middle.as_ref()),
-            truncate::<A>(key.as_ref()),
-        )
+        (chaining_key, middle, truncate::<A>(key.as_ref()))
     }
 }
-- 
2.43.0


From cd4c026e76cbc3ed7277c72cc0280a6cbfec4a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 05/25] fix: vru-session: report an invalid point when
 deserializing a public key

---
 vru-session/src/handshake/key.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 9d9a78b..049ba2f 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -154,7 +154,8 @@ mod implementations {
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
             Ok(PublicKey {
-                elliptic: LineValid::try_clone_array(&a).unwrap(),
+                elliptic: LineValid::try_clone_array(&a)
+                    .map_err(|()| de::Error::custom("invalid elliptic curve point"))?,
                 lattice: Line::clone_array(&b),
                 lattice_hash: c,
             })
-- 
2.43.0


From 79f1df6724775a32b1aadb038278c4c854b76d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 06/25] fix: vru-session: reject an identity string of the
 wrong length instead of panicking

---
 vru-session/src/handshake/key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 049ba2f..348fa44 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -119,6 +119,9 @@ impl FromStr for Identity {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let bytes = base64::decode(s)?;
+        if bytes.len() != 33 {
+            return Err(base64::DecodeError::InvalidLength);
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From 5c6f3faa27b6906ca4ef1338568577b0dffab811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 07/25] fix: vru-session: report an undecodable key received in
 a handshake message

---
 vru-session/src/handshake/key.rs | 11 ++++++++---
 vru-session/src/handshake/xx.rs  | 12 +++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 348fa44..dbf24a2 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -40,15 +40,20 @@ impl PublicKey {
     }
 
     pub fn decompress(bytes: PublicKeyBytes) -> Self {
+        Self::try_decompress(bytes).unwrap()
+    }
+
+    /// `None` if the elliptic part is not a valid point
+    pub fn try_decompress(bytes: PublicKeyBytes) -> Option<Self> {
         let Concat(elliptic_bytes, lattice_bytes) = bytes;
         let lattice = Pk::clone_array(&lattice_bytes);
-        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).unwrap();
+        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).ok()?;
         let lattice_hash = lattice::pk_hash(&lattice);
-        PublicKey {
+        Some(PublicKey {
             elliptic,
             lattice,
             lattice_hash,
-        }
+        })
     }
 
     pub fn elliptic(&self) -> Array<typenum::U32> {
diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index f2b543b..7db936d 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -53,6 +53,10 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("ephemeral key is not a valid point")]
+    EphemeralKey,
+    #[error("static key is not a valid point")]
+    StaticKey,
 }
 
 #[derive(Debug, Error)]
@@ -63,6 +67,8 @@ pub enum RespondersError {
     PayloadRMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("static key is not a valid point")]
+    StaticKey,
 }
 
 // the handshake variant is xx, but the initiator know responder pk
@@ -121,12 +127,12 @@ where
         .decrypt_line(payload_p)
         .map_err(InitiatorsError::PayloadPMac)?;
     let symmetric_state = symmetric_state.mix_hash(&peer_e_pkc.clone_line());
-    let peer_e_pk = PublicKey::decompress(peer_e_pkc);
+    let peer_e_pk = PublicKey::try_decompress(peer_e_pkc).ok_or(InitiatorsError::EphemeralKey)?;
     let (symmetric_state, peer_s_pkc) = symmetric_state
         .mix_shared_secret(&peer_e_pk.dh(&e_sk))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk = PublicKey::try_decompress(peer_s_pkc).ok_or(InitiatorsError::StaticKey)?;
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
@@ -263,7 +269,7 @@ where
         .mix_shared_secret(&s_pk.decapsulate(&s_sk, &peer_s_ct))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(RespondersError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk = PublicKey::try_decompress(peer_s_pkc).ok_or(RespondersError::StaticKey)?;
     let (symmetric_state, payload_r) = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
         .decrypt_line(payload_r)
-- 
2.43.0


From 49e5688c42b4876c6beacf89264bab4db8f38155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 08/25] fix: vru-session: the initiator only accepts the static
 key of the identity it dialled

---
 vru-session/src/handshake/xx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index 7db936d..0b94c9e 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -31,6 +31,7 @@ pub type Message3<S> = Concat<Ct, EncryptedDefault<S>>;
 
 pub struct InitiatorsEphemeral {
     symmetric_state: SymmetricState<Noise, ChainingKey<Noise>>,
+    peer_s_pi: Identity,
     e_pk: PublicKey,
     e_sk: SecretKey,
 }
@@ -57,6 +58,8 @@ pub enum InitiatorsError {
     EphemeralKey,
     #[error("static key is not a valid point")]
     StaticKey,
+    #[error("static key does not belong to the expected peer")]
+    Identity,
 }
 
 #[derive(Debug, Error)]
@@ -90,6 +93,7 @@ pub fn out0(seed: &Array<typenum::U96>, peer_s_pi: &Identity) -> (InitiatorsEphe
     (
         InitiatorsEphemeral {
             symmetric_state,
+            peer_s_pi: peer_s_pi.clone(),
             e_pk,
             e_sk,
         },
@@ -118,6 +122,7 @@ where
     let (Concat(peer_e_ct, payload_p), peer_e_pkc, enc_peer_s_pkc) = message;
     let InitiatorsEphemeral {
         symmetric_state,
+        peer_s_pi,
         e_pk,
         e_sk,
     } = state;
@@ -133,6 +138,9 @@ where
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
     let peer_s_pk = PublicKey::try_decompress(peer_s_pkc).ok_or(InitiatorsError::StaticKey)?;
+    if peer_s_pk.identity() != peer_s_pi {
+        return Err(InitiatorsError::Identity);
+    }
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
-- 
2.43.0


From eb9a0ff5ba275c9ec500dc9731b83e3da7f2da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 09/25] fix: vru-udp: put the whole first handshake message
 into the datagram

---
 vru-udp/src/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 87e3f60..903519b 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -186,7 +186,7 @@ impl NodeState {
                 rand::Rng::fill(&mut rand::thread_rng(), seed.as_mut());
                 let mut datagram = Datagram::default();
                 let (state, message) = xx::out0(&seed, &peer_pi);
-                datagram.as_mut()[..1120].clone_from_slice(&message.0.clone_line());
+                datagram.as_mut()[..1120].clone_from_slice(&message.clone_line());
                 rand::Rng::fill(&mut rand::thread_rng(), datagram.as_mut()[1120..].as_mut());
                 if let Err(error) = self.socket.send_to(datagram.as_ref(), address) {
                     self.sender
-- 
2.43.0


From 3272680eced909bca4cb6632e51d5d590bcb7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 10/25] fix: vru-udp: report an oversized datagram instead of
 accepting its beginning

---
 vru-udp/src/global.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 903519b..2e25a5f 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -139,6 +139,8 @@ impl NodeState {
         let mut sources = Sources::with_capacity(1);
         sources.register((), &self.socket, interest::READ);
         let mut events = Events::with_capacity(1);
+        // bigger than any datagram, otherwise a long one would be cut and pass for a valid one
+        let mut buffer = vec![0; 0x10000];
 
         while running.load(Ordering::Acquire) {
             loop {
@@ -153,13 +155,14 @@ impl NodeState {
                     Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
                 }
             }
-            let mut datagram = Datagram::default();
-            match self.socket.recv_from(datagram.as_mut()) {
+            match self.socket.recv_from(buffer.as_mut()) {
                 Ok((length, address)) => {
                     if length != Datagram::SIZE {
                         self.sender
                             .report(Event::Error(Error::FrameSize(address, length)));
                     } else {
+                        let mut datagram = Datagram::default();
+                        datagram.as_mut().clone_from_slice(&buffer[..length]);
                         self.process(address, datagram);
                     }
                 },
-- 
2.43.0


From e677f8375b47f3c21149bd1ecddc90b43be06534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 11/25] fix: vru-udp: a local command does not stop the peer's
 worker, a late one does not panic

---
 vru-udp/src/local.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 55c656a..3e45b4a 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -65,7 +65,9 @@ pub struct PeerHandle {
 
 impl PeerHandle {
     pub fn send(&self, command: LocalCommand) {
-        self.sender.send(PeerMessage::Command(command)).unwrap()
+        if self.sender.send(PeerMessage::Command(command)).is_err() {
+            log::warn!("the peer is already stopped");
+        }
     }
 }
 
@@ -82,10 +84,16 @@ impl PeerState {
     fn run(self) {
         // TODO:
         let _ = (&self.sk, &self.pk, &self.handshake_state);
-        while let Ok(PeerMessage::Network { address, datagram }) = self.receiver.recv() {
-            let _ = datagram;
-            self.event_sender
-                .report(Event::Info(format!("process connection with: {}", address)));
+        while let Ok(message) = self.receiver.recv() {
+            match message {
+                PeerMessage::Network { address, datagram } => {
+                    let _ = datagram;
+                    self.event_sender
+                        .report(Event::Info(format!("process connection with: {}", address)));
+                },
+                // TODO:
+                PeerMessage::Command(command) => log::warn!("not sent yet: {:?}", command),
+            }
         }
     }
 }
-- 
2.43.0


From 218ef14fd78763ffc9742687ecc186fce135e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 12/25] fix: vru-udp: stop the worker of a peer before joining
 it

---
 vru-udp/src/local.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 3e45b4a..3a48021 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -11,6 +11,7 @@ enum PeerMessage {
         datagram: Datagram,
     },
     Command(LocalCommand),
+    Stop,
 }
 
 pub struct Peer {
@@ -26,6 +27,8 @@ impl Peer {
     }
 
     pub fn join(self) {
+        // other senders (this one, the handle) are still alive, the worker must be told to stop
+        let _ = self.sender.send(PeerMessage::Stop);
         self.worker_thread.join().unwrap();
     }
 
@@ -93,6 +96,7 @@ impl PeerState {
                 },
                 // TODO:
                 PeerMessage::Command(command) => log::warn!("not sent yet: {:?}", command),
+                PeerMessage::Stop => break,
             }
         }
     }
-- 
2.43.0


From 4d4f633fea693d641da9a3b32810f02bf2a5d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 13/25] fix: vru-tcp: report a failed connect instead of
 panicking

---
 vru-tcp/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 4e6346e..7f5ab26 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -107,7 +107,12 @@ where
     fn command(&self, command: Command<Self::Address>) {
         match command {
             Command::Connect { peer_pi, address } => {
-                let stream = TcpStream::connect(address).unwrap();
+                if let Err(error) = TcpStream::connect(address) {
+                    let event = Event::Error(NodeError::Io(error));
+                    if let Err(mpsc::SendError(event)) = self.sender.send(event) {
+                        log::warn!("failed to send event: {:?}", event);
+                    }
+                }
             },
             _ => (),
         }
-- 
2.43.0


From 35a12b485323740c0412641fe498597cffc8c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 14/25] fix: vru-node: flush the new key seed before using it

---
 vru-node/src/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 5f768c7..2ca05ba 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -27,6 +27,8 @@ impl Database {
         } else {
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
+            // the identity must not change after it has been announced
+            self.db.flush()?;
         }
         Ok(PublicKey::gen(&s))
     }
-- 
2.43.0


From 03c64092560dcca214d915cff323008e556e0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 15/25] fix: vru-node: register the control listener once, not
 for every command

---
 vru-node/src/listener_unix.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index f64e4d1..408707a 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -33,10 +33,14 @@ impl CommandListener {
         P: AsRef<Path>,
     {
         let _ = fs::remove_file(&path);
+        let listener = UnixListener::bind(path)?;
+        // once, every registration adds an entry to poll
+        let mut sources = Sources::with_capacity(1);
+        sources.register((), &listener, interest::READ);
         Ok(CommandListener {
             running,
-            listener: UnixListener::bind(path)?,
-            sources: Sources::with_capacity(1),
+            listener,
+            sources,
             events: Events::with_capacity(1),
         })
     }
@@ -59,9 +63,6 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.inner
-            .sources
-            .register((), &self.inner.listener, interest::READ);
         loop {
             match self
                 .inner
-- 
2.43.0


From 4815883d0282c44f8ab4583e082ea4cc47f39dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 16/25] fix: vru-node: do not wait forever for a stalled
 control client

---
 vru-node/src/listener_unix.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 408707a..a251aea 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -82,7 +82,13 @@ where
             }
         }
         match self.inner.listener.accept() {
-            Ok((stream, _)) => Some(bincode::deserialize_from(stream)),
+            Ok((stream, _)) => {
+                // a stalled client must not block the other clients and the shutdown
+                if let Err(error) = stream.set_read_timeout(Some(Duration::from_secs(2))) {
+                    return Some(Err(error.into()));
+                }
+                Some(bincode::deserialize_from(stream))
+            },
             Err(error) => {
                 if error.kind() == io::ErrorKind::Interrupted {
                     None
-- 
2.43.0


From a6a6ed37f743fda26be3e079b374904345dba272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 17/25] fix: vru-tcp: an interrupted wait (e.g. after SIGCONT)
 does not stop the node

---
 vru-tcp/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 7f5ab26..e25952a 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -156,7 +156,11 @@ where
                             return;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
+                    Err(error) if error.kind() == io::ErrorKind::Interrupted => {
+                        if !running.load(Ordering::Acquire) {
+                            return;
+                        }
+                    },
                     Err(error) => self.report(Event::Error(NodeError::Io(error))),
                 }
             }
-- 
2.43.0


From 1931b190ab0cc0bd40e6238441ec5815a26332a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 18/25] fix: vru-udp: an interrupted wait does not stop the
 node

---
 vru-udp/src/global.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 2e25a5f..3ef997d 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -151,7 +151,11 @@ impl NodeState {
                             return;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
+                    Err(error) if error.kind() == io::ErrorKind::Interrupted => {
+                        if !running.load(Ordering::Acquire) {
+                            return;
+                        }
+                    },
                     Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
                 }
             }
-- 
2.43.0


From 94bfc0d4d74bfc17420e7b1b4d8dcb0a946c85d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 19/25] fix: vru-udp: the first local command to a peer does
 not borrow the handles twice

---
 vru-udp/src/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 3ef997d..5b72b52 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -106,14 +106,15 @@ impl Node {
                 destination,
                 command,
             } => {
-                if let Some(handle) = self.handles.borrow().get(&destination) {
+                let mut handles = self.handles.borrow_mut();
+                if let Some(handle) = handles.get(&destination) {
                     handle.send(command);
                 } else {
                     let mut h = self.pending_handles.lock().unwrap();
                     if let Some(handle) = h.remove(&destination) {
                         drop(h);
                         handle.send(command);
-                        self.handles.borrow_mut().insert(destination, handle);
+                        handles.insert(destination, handle);
                     }
                 }
             },
-- 
2.43.0


From 0a92cbf23c9ab8c69c855ad89735288a8b161f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 20/25] fix: a steady stream of control clients kept the daemon
 from stopping on interrupt

---
 vru-node/src/listener_unix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index a251aea..5926b74 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -64,6 +64,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
+            // the wait does not time out while clients keep coming
+            if !self.inner.running.load(Ordering::Acquire) {
+                return None;
+            }
             match self
                 .inner
                 .sources
-- 
2.43.0


From 3552f6098f3a7f0fbb64bfd20c410af08652344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 21/25] fix: a control client that never finished its command
 blocked the others and the shutdown

---
 vru-node/src/listener_unix.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 5926b74..7e45231 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -1,5 +1,5 @@
 use std::{
-    os::unix::net::UnixListener,
+    os::unix::net::{UnixListener, UnixStream},
     path::Path,
     io, fs,
     sync::{
@@ -7,7 +7,7 @@ use std::{
         atomic::{Ordering, AtomicBool},
     },
     marker::PhantomData,
-    time::Duration,
+    time::{Duration, Instant},
 };
 use serde::de::DeserializeOwned;
 use popol::{Sources, Events, interest};
@@ -27,6 +27,23 @@ where
     phantom_data: PhantomData<T>,
 }
 
+/// A client that never finishes must not block the other clients and the shutdown,
+/// even if it keeps sending.
+struct Limited<'a> {
+    stream: UnixStream,
+    end: Instant,
+    running: &'a AtomicBool,
+}
+
+impl<'a> io::Read for Limited<'a> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if Instant::now() >= self.end || !self.running.load(Ordering::Acquire) {
+            return Err(io::ErrorKind::TimedOut.into());
+        }
+        self.stream.read(buf)
+    }
+}
+
 impl CommandListener {
     pub fn bind<P>(path: P, running: Arc<AtomicBool>) -> io::Result<Self>
     where
@@ -91,7 +108,12 @@ where
                 if let Err(error) = stream.set_read_timeout(Some(Duration::from_secs(2))) {
                     return Some(Err(error.into()));
                 }
-                Some(bincode::deserialize_from(stream))
+                let limited = Limited {
+                    stream,
+                    end: Instant::now() + Duration::from_secs(20),
+                    running: &self.inner.running,
+                };
+                Some(bincode::deserialize_from(limited))
             },
             Err(error) => {
                 if error.kind() == io::ErrorKind::Interrupted {
-- 
2.43.0


From 51b99afd1a88730289d592ec92c2bf6b3f5bc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 22/25] fix: accept paths and texts that are not valid UTF-8
 instead of panicking

---
 vru-node/src/bin/client.rs | 14 +++++++++-----
 vru-node/src/main.rs       |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/vru-node/src/bin/client.rs b/vru-node/src/bin/client.rs
index 5ac0352..f7d4719 100644
--- a/vru-node/src/bin/client.rs
+++ b/vru-node/src/bin/client.rs
@@ -1,10 +1,10 @@
-use std::{path::PathBuf, net::SocketAddr};
+use std::{ffi::OsString, path::PathBuf, net::SocketAddr};
 use structopt::StructOpt;
 use vru_session::handshake::Identity;
 
 #[derive(StructOpt)]
 pub struct Args {
-    #[structopt(long)]
+    #[structopt(long, parse(from_os_str))]
     path: PathBuf,
     #[structopt(subcommand)]
     cmd: Cmd,
@@ -13,11 +13,15 @@ pub struct Args {
 #[derive(StructOpt)]
 pub enum Cmd {
     Connect { peer: Identity, address: SocketAddr },
-    SendText { peer: Identity, text: String },
+    SendText {
+        peer: Identity,
+        #[structopt(parse(from_os_str))]
+        text: OsString,
+    },
 }
 
 fn main() {
-    use std::os::unix::net::UnixStream;
+    use std::os::unix::{net::UnixStream, ffi::OsStringExt};
     use vru_session::Command;
 
     let Args { path, cmd } = StructOpt::from_args();
@@ -28,7 +32,7 @@ fn main() {
         },
         Cmd::SendText { peer, text } => Command::Local {
             destination: peer,
-            command: text.into_bytes(),
+            command: text.into_vec(),
         },
     };
 
diff --git a/vru-node/src/main.rs b/vru-node/src/main.rs
index ee29e10..c8a74f5 100644
--- a/vru-node/src/main.rs
+++ b/vru-node/src/main.rs
@@ -11,7 +11,7 @@ use structopt::StructOpt;
 
 #[derive(StructOpt)]
 struct Args {
-    #[structopt(long)]
+    #[structopt(long, parse(from_os_str))]
     path: PathBuf,
     #[structopt(long)]
     port: u16,
-- 
2.43.0


From 9c7bfe882494bdb4321873760d5c2c78f821ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 23/25] fix: reject texts whose first byte is not that of the
 text form of an identity

---
 vru-session/src/handshake/key.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index dbf24a2..a5177ea 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -127,6 +127,10 @@ impl FromStr for Identity {
         if bytes.len() != 33 {
             return Err(base64::DecodeError::InvalidLength);
         }
+        if bytes[0] != 0 {
+            // the text form begins with a zero byte, anything else is not the text of an identity
+            return Err(base64::DecodeError::InvalidByte(0, s.as_bytes()[0]));
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From 200cfe6e12b0e4d1d0c7ceafa57ebc7225fd8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 24/25] fix: reject a serialised public key whose hash is not
 that of its lattice part

---
 vru-session/src/handshake/key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index a5177ea..27a5c03 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -165,6 +165,9 @@ mod implementations {
             D: de::Deserializer<'de>,
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
+            if super::lattice::pk_hash(&Line::clone_array(&b)) != c {
+                return Err(de::Error::custom("the hash is not that of the lattice key"));
+            }
             Ok(PublicKey {
                 elliptic: LineValid::try_clone_array(&a)
                     .map_err(|()| de::Error::custom("invalid elliptic curve point"))?,
-- 
2.43.0


From 97174fc42b19bddcdb2f1d6d0570ccd00b89beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 25/25] fix: start on a directory whose database was being
 created or snapshotted when the node was killed

---
 vru-node/src/database.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 2ca05ba..43b5fa6 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{fs, path::Path};
 use sled::Db;
 use rac::{Array, generic_array::typenum};
 use vru_session::handshake::{SecretKey, PublicKey};
@@ -12,9 +12,16 @@ impl Database {
     where
         P: AsRef<Path>,
     {
-        Ok(Database {
-            db: sled::open(path)?,
-        })
+        let path = path.as_ref();
+        let db = sled::open(path).or_else(|error| {
+            // the process was killed while it was creating the database or taking a snapshot
+            if discard_unfinished(path, &error) {
+                sled::open(path)
+            } else {
+                Err(error)
+            }
+        })?;
+        Ok(Database { db })
     }
 
     pub fn key_or_insert<F>(&self, randomize: F) -> sled::Result<(PublicKey, SecretKey)>
@@ -33,3 +40,24 @@ impl Database {
         Ok(PublicKey::gen(&s))
     }
 }
+
+/// Removes what an interrupted `sled::open` may have left half-written and refuses to open,
+/// never anything that holds data.
+fn discard_unfinished(path: &Path, error: &sled::Error) -> bool {
+    let mut discarded = false;
+    // the settings are written before the data file is created
+    if !path.join("db").exists() {
+        discarded |= fs::remove_file(path.join("conf")).is_ok();
+    }
+    // this error means that the lock was taken, so nobody else is writing the snapshot
+    if let sled::Error::Corruption { .. } = error {
+        for entry in fs::read_dir(path).into_iter().flatten().flatten() {
+            let name = entry.file_name();
+            let name = name.to_string_lossy();
+            if name.starts_with("snap.") && name.ends_with(".generating") {
+                discarded |= fs::remove_file(entry.path()).is_ok();
+            }
+        }
+    }
+    discarded
+}
-- 
2.43.0

