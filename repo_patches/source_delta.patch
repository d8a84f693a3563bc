From 94a1c2c37b7e9c05b6f1306fb268c008701af410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 01/22] fix: implicit rejection must hash the received
 ciphertext

Decapsulation hashed the re-encrypted ciphertext into the shared secret, so
two different invalid ciphertexts that decrypt to the same message shared
their rejection secret, which was not the one Kyber defines.
---
 vru-kyber/src/kem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index 4b6835b..af3a943 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -94,7 +94,7 @@ where
         let ct_prime = cipher_text.clone_line();
         let flag = ct.ct_eq(ct_prime.as_ref());
 
-        let ct_hash = Sha3_256::default().chain(ct).finalize_fixed();
+        let ct_hash = Sha3_256::default().chain(ct_prime).finalize_fixed();
         for i in 0..32 {
             r[i].conditional_assign(&reject[i], !flag);
         }
-- 
2.43.0


From 60d27b4bae6982fe8eeb2171bfa7dbb9691fe692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 02/22] fix: a generated kyber public key must equal its
 decoded form

The coefficients of a fresh public key were not yet compressed, so a
ciphertext made with it in memory could not be decapsulated, where the key is
taken from its encoding.
---
 vru-kyber/src/kem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index af3a943..72944b0 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -48,7 +48,9 @@ where
         seed: &GenericArray<u8, Self::PairSeedLength>,
     ) -> (Self::PublicKey, Self::SecretKey) {
         let Concat(seed, reject) = C::clone_array(seed);
-        let (sk, pk) = key_pair(&seed);
+        let (sk, pk) = key_pair::<S, W>(&seed);
+        // the encoding is lossy, everyone should use the same key the peer will decode
+        let pk = PublicKey::try_clone_array(&pk.clone_line()).unwrap();
         (pk, Concat(sk, reject))
     }
 
-- 
2.43.0


From 3fa23d421448aedd664e432eabfae3295cebe50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 03/22] fix: refuse a transport message shorter than its tag
 instead of panicking

---
 vru-noise/src/cipher_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index 96862b6..9a59b83 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -183,7 +183,10 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut tag = GenericArray::default();
-        let pos = buffer.len() - <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let pos = buffer
+            .len()
+            .checked_sub(<<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE)
+            .ok_or(MacMismatch)?;
         tag.clone_from_slice(&buffer[pos..]);
         buffer.resize(pos, 0);
         self.decrypt(associated_data, buffer.as_mut(), &tag)
-- 
2.43.0


From 258fd54da3fe014bcfe044e87024755fe02d742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 04/22] fix: mix the whole hash-length output into the
 transcript with a pre-shared key

---
 vru-noise/src/hash.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/vru-noise/src/hash.rs b/vru-noise/src/hash.rs
index 5d5683c..3006cbd 100644
--- a/vru-noise/src/hash.rs
+++ b/vru-noise/src/hash.rs
@@ -119,7 +119,7 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     );
 }
@@ -170,15 +170,11 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     ) {
         let keys = Self::hkdf_split(Some(chaining_key), data);
         let [chaining_key, middle, key]: [_; 3] = keys.into();
-        (
-            chaining_key,
-            truncate::<A>(middle.as_ref()),
-            truncate::<A>(key.as_ref()),
-        )
+        (chaining_key, middle, truncate::<A>(key.as_ref()))
     }
 }
-- 
2.43.0


From 29716b668de0aa8dedfccc24f9d00c2dde6333fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 05/22] fix: parsing an identity from anything but its text
 form is an error

---
 vru-session/src/handshake/key.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 9d9a78b..060a25b 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -119,6 +119,12 @@ impl FromStr for Identity {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let bytes = base64::decode(s)?;
+        if bytes.len() != 33 {
+            return Err(base64::DecodeError::InvalidLength);
+        }
+        if bytes[0] != 0 {
+            return Err(base64::DecodeError::InvalidByte(0, s.as_bytes()[0]));
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From bfab74f61efe35941167dc3437982a6aac8b0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 06/22] fix: a peer's key that is not a point of the curve is
 an error, not a panic

---
 vru-session/src/handshake/key.rs | 28 +++++++++++++++++++++++-----
 vru-session/src/handshake/mod.rs |  2 +-
 vru-session/src/handshake/xx.rs  | 17 +++++++++++++----
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 060a25b..8bd4bb3 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -5,6 +5,17 @@ use rac::{Array, Concat, Curve, LineValid, Line, generic_array::typenum};
 use self::lattice::{Sk, Pk, PkHash};
 pub use self::lattice::{Ct, SharedSecret, Encapsulated};
 
+#[derive(Debug)]
+pub struct InvalidPublicKey;
+
+impl fmt::Display for InvalidPublicKey {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "invalid public key")
+    }
+}
+
+impl std::error::Error for InvalidPublicKey {}
+
 pub struct PublicKey {
     elliptic: EdwardsPoint,
     lattice: Pk,
@@ -39,16 +50,22 @@ impl PublicKey {
         )
     }
 
+    /// panics if the bytes are not a valid public key
     pub fn decompress(bytes: PublicKeyBytes) -> Self {
+        Self::try_decompress(bytes).unwrap()
+    }
+
+    pub fn try_decompress(bytes: PublicKeyBytes) -> Result<Self, InvalidPublicKey> {
         let Concat(elliptic_bytes, lattice_bytes) = bytes;
         let lattice = Pk::clone_array(&lattice_bytes);
-        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).unwrap();
+        let elliptic =
+            EdwardsPoint::try_clone_array(&elliptic_bytes).map_err(|()| InvalidPublicKey)?;
         let lattice_hash = lattice::pk_hash(&lattice);
-        PublicKey {
+        Ok(PublicKey {
             elliptic,
             lattice,
             lattice_hash,
-        }
+        })
     }
 
     pub fn elliptic(&self) -> Array<typenum::U32> {
@@ -139,7 +156,7 @@ pub struct SecretKey {
 mod implementations {
     use serde::{ser, de};
     use rac::{Concat, Line, LineLike, LineValid};
-    use super::{PublicKey, SecretKey};
+    use super::{InvalidPublicKey, PublicKey, SecretKey};
 
     impl ser::Serialize for PublicKey {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -160,7 +177,8 @@ mod implementations {
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
             Ok(PublicKey {
-                elliptic: LineValid::try_clone_array(&a).unwrap(),
+                elliptic: LineValid::try_clone_array(&a)
+                    .map_err(|()| de::Error::custom(InvalidPublicKey))?,
                 lattice: Line::clone_array(&b),
                 lattice_hash: c,
             })
diff --git a/vru-session/src/handshake/mod.rs b/vru-session/src/handshake/mod.rs
index 3e24e4f..18258ca 100644
--- a/vru-session/src/handshake/mod.rs
+++ b/vru-session/src/handshake/mod.rs
@@ -1,5 +1,5 @@
 mod key;
-pub use self::key::{SecretKey, PublicKey, Identity};
+pub use self::key::{SecretKey, PublicKey, InvalidPublicKey, Identity};
 
 mod noise;
 pub use self::noise::{TrivialRotor, TrivialCipher, TrivialUnidirectional};
diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index f2b543b..622a26a 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -2,7 +2,7 @@ use vru_noise::{SymmetricState, MacMismatch, ChainingKey, Key, Cipher, Rotor};
 use rac::{Array, Concat, LineValid, Line, generic_array::typenum};
 use thiserror::Error;
 use super::{
-    key::{Identity, PublicKey, PublicKeyBytes, SecretKey, Ct},
+    key::{Identity, InvalidPublicKey, PublicKey, PublicKeyBytes, SecretKey, Ct},
     noise::{Noise, EncryptedDefault, SymmetricStateOps},
 };
 
@@ -53,6 +53,10 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("ephemeral key {}", _0)]
+    EphemeralKey(InvalidPublicKey),
+    #[error("static key {}", _0)]
+    StaticKey(InvalidPublicKey),
 }
 
 #[derive(Debug, Error)]
@@ -63,6 +67,8 @@ pub enum RespondersError {
     PayloadRMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("static key {}", _0)]
+    StaticKey(InvalidPublicKey),
 }
 
 // the handshake variant is xx, but the initiator know responder pk
@@ -121,12 +127,14 @@ where
         .decrypt_line(payload_p)
         .map_err(InitiatorsError::PayloadPMac)?;
     let symmetric_state = symmetric_state.mix_hash(&peer_e_pkc.clone_line());
-    let peer_e_pk = PublicKey::decompress(peer_e_pkc);
+    let peer_e_pk =
+        PublicKey::try_decompress(peer_e_pkc).map_err(InitiatorsError::EphemeralKey)?;
     let (symmetric_state, peer_s_pkc) = symmetric_state
         .mix_shared_secret(&peer_e_pk.dh(&e_sk))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(InitiatorsError::StaticKey)?;
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
@@ -263,7 +271,8 @@ where
         .mix_shared_secret(&s_pk.decapsulate(&s_sk, &peer_s_ct))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(RespondersError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).map_err(RespondersError::StaticKey)?;
     let (symmetric_state, payload_r) = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
         .decrypt_line(payload_r)
-- 
2.43.0


From f4d183096455714dc582bb32c1c32978d319dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 07/22] fix: the initiator refuses a responder whose static key
 has another identity

---
 vru-session/src/handshake/xx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index 622a26a..7c93afe 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -30,6 +30,7 @@ pub type Message2<Q, R> = (
 pub type Message3<S> = Concat<Ct, EncryptedDefault<S>>;
 
 pub struct InitiatorsEphemeral {
+    peer_s_pi: Identity,
     symmetric_state: SymmetricState<Noise, ChainingKey<Noise>>,
     e_pk: PublicKey,
     e_sk: SecretKey,
@@ -57,6 +58,8 @@ pub enum InitiatorsError {
     EphemeralKey(InvalidPublicKey),
     #[error("static key {}", _0)]
     StaticKey(InvalidPublicKey),
+    #[error("static key has another identity than the one dialed")]
+    Identity,
 }
 
 #[derive(Debug, Error)]
@@ -89,6 +92,7 @@ pub fn out0(seed: &Array<typenum::U96>, peer_s_pi: &Identity) -> (InitiatorsEphe
 
     (
         InitiatorsEphemeral {
+            peer_s_pi: peer_s_pi.clone(),
             symmetric_state,
             e_pk,
             e_sk,
@@ -117,6 +121,7 @@ where
 {
     let (Concat(peer_e_ct, payload_p), peer_e_pkc, enc_peer_s_pkc) = message;
     let InitiatorsEphemeral {
+        peer_s_pi,
         symmetric_state,
         e_pk,
         e_sk,
@@ -135,6 +140,9 @@ where
         .map_err(InitiatorsError::StaticKeyMac)?;
     let peer_s_pk =
         PublicKey::try_decompress(peer_s_pkc).map_err(InitiatorsError::StaticKey)?;
+    if peer_s_pk.identity() != peer_s_pi {
+        return Err(InitiatorsError::Identity);
+    }
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
-- 
2.43.0


From 6d6ba224278b51b4d1b890538d03d68200d0f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 08/22] fix: a decoded signature keeps its scalar, it is not a
 key to be clamped

---
 rac/src/curve25519_dalek_m.rs | 7 +++++++
 rac/src/elliptic.rs           | 6 ++++++
 rac/src/schnorr.rs            | 8 ++++++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/rac/src/curve25519_dalek_m.rs b/rac/src/curve25519_dalek_m.rs
index c35cfbb..1ce2afe 100644
--- a/rac/src/curve25519_dalek_m.rs
+++ b/rac/src/curve25519_dalek_m.rs
@@ -41,6 +41,13 @@ impl Scalar for C25519Scalar {
     fn inv_ff(&self) -> Result<Self, ()> {
         unimplemented!()
     }
+
+    // no clamping here
+    fn try_clone_canonical(a: &Array<Self::Length>) -> Result<Self, ()> {
+        let mut buffer = [0; 32];
+        buffer.clone_from_slice(a.as_slice());
+        C25519Scalar::from_canonical_bytes(buffer).ok_or(())
+    }
 }
 
 impl LineValid for MontgomeryPoint {
diff --git a/rac/src/elliptic.rs b/rac/src/elliptic.rs
index 4d23e80..7ed94fc 100644
--- a/rac/src/elliptic.rs
+++ b/rac/src/elliptic.rs
@@ -9,6 +9,12 @@ where
     fn sub_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn mul_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn inv_ff(&self) -> Result<Self, ()>;
+
+    /// Decode a scalar that is the result of a computation, rather than a secret key.
+    /// The value is taken as it is, or refused.
+    fn try_clone_canonical(a: &Array<Self::Length>) -> Result<Self, ()> {
+        Self::try_clone_array(a)
+    }
 }
 
 pub trait Curve
diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index 09ae327..9b787b3 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -45,8 +45,12 @@ where
     type Length = <Concat<Array<C::CoordinateLength>, C::Scalar> as LineValid>::Length;
 
     fn try_clone_array(a: &Array<Self::Length>) -> Result<Self, ()> {
-        Concat::try_clone_array(a).map(|Concat(r, s)| Schnorr {
-            r: r,
+        use generic_array::typenum::Unsigned;
+
+        let m = <C::CoordinateLength as Unsigned>::USIZE;
+        let s = C::Scalar::try_clone_canonical(Array::from_slice(&a[m..]))?;
+        Ok(Schnorr {
+            r: Array::from_slice(&a[..m]).clone(),
             s: s,
             phantom_data: PhantomData,
         })
-- 
2.43.0


From b85afe5997b681f37c9844da597c95905ecbd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 09/22] fix: a crafted secp256k1 signature is refused instead
 of panicking the verifier

---
 rac/src/elliptic.rs    | 6 ++++++
 rac/src/schnorr.rs     | 2 +-
 rac/src/secp256k1_m.rs | 5 +++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rac/src/elliptic.rs b/rac/src/elliptic.rs
index 7ed94fc..055af7d 100644
--- a/rac/src/elliptic.rs
+++ b/rac/src/elliptic.rs
@@ -29,6 +29,12 @@ where
 
     fn base() -> Self;
     fn mul_ec(&self, rhs: &Self) -> Self;
+
+    /// The same, for curves whose type cannot hold every result.
+    fn try_mul_ec(&self, rhs: &Self) -> Result<Self, ()> {
+        Ok(self.mul_ec(rhs))
+    }
+
     fn exp_ec(&self, rhs: &Self::Scalar) -> Self;
     fn decompress(packed: &Array<Self::CompressedLength>) -> Result<Self, ()>;
     fn compress(&self) -> Array<Self::CompressedLength>;
diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index 9b787b3..26c2596 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -110,7 +110,7 @@ where
             .chain(message)
             .finalize_fixed();
         let h = LineValid::try_clone_array(&h)?;
-        let qk = y.exp_ec(&h).mul_ec(&C::base().exp_ec(&s));
+        let qk = y.exp_ec(&h).try_mul_ec(&C::base().exp_ec(&s))?;
         if qk.x_coordinate().eq(r) {
             Ok(())
         } else {
diff --git a/rac/src/secp256k1_m.rs b/rac/src/secp256k1_m.rs
index ccb7db7..90c637a 100644
--- a/rac/src/secp256k1_m.rs
+++ b/rac/src/secp256k1_m.rs
@@ -85,6 +85,11 @@ impl Curve for PublicKey {
         self.combine(rhs).unwrap()
     }
 
+    // fails if the result is the point at infinity
+    fn try_mul_ec(&self, rhs: &Self) -> Result<Self, ()> {
+        self.combine(rhs).map_err(|_| ())
+    }
+
     fn exp_ec(&self, rhs: &Self::Scalar) -> Self {
         use secp256k1::Secp256k1;
 
-- 
2.43.0


From ab225252053a55a763456b2617990b640b72050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 10/22] fix: the first message of a UDP handshake is all of the
 public key

---
 vru-udp/src/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 87e3f60..903519b 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -186,7 +186,7 @@ impl NodeState {
                 rand::Rng::fill(&mut rand::thread_rng(), seed.as_mut());
                 let mut datagram = Datagram::default();
                 let (state, message) = xx::out0(&seed, &peer_pi);
-                datagram.as_mut()[..1120].clone_from_slice(&message.0.clone_line());
+                datagram.as_mut()[..1120].clone_from_slice(&message.clone_line());
                 rand::Rng::fill(&mut rand::thread_rng(), datagram.as_mut()[1120..].as_mut());
                 if let Err(error) = self.socket.send_to(datagram.as_ref(), address) {
                     self.sender
-- 
2.43.0


From 250955845d70ad79c2685be79a040cd125c2441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 11/22] fix: a command to a peer does not borrow the handles
 twice

---
 vru-udp/src/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 903519b..7bf5ae5 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -106,14 +106,15 @@ impl Node {
                 destination,
                 command,
             } => {
-                if let Some(handle) = self.handles.borrow().get(&destination) {
+                let mut handles = self.handles.borrow_mut();
+                if let Some(handle) = handles.get(&destination) {
                     handle.send(command);
                 } else {
                     let mut h = self.pending_handles.lock().unwrap();
                     if let Some(handle) = h.remove(&destination) {
                         drop(h);
                         handle.send(command);
-                        self.handles.borrow_mut().insert(destination, handle);
+                        handles.insert(destination, handle);
                     }
                 }
             },
-- 
2.43.0


From a4346e5eb8818b4d75385cdf5eb85b913d7a8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 12/22] fix: a peer's worker survives a command

---
 vru-udp/src/local.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 55c656a..d3954ca 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -82,10 +82,16 @@ impl PeerState {
     fn run(self) {
         // TODO:
         let _ = (&self.sk, &self.pk, &self.handshake_state);
-        while let Ok(PeerMessage::Network { address, datagram }) = self.receiver.recv() {
-            let _ = datagram;
-            self.event_sender
-                .report(Event::Info(format!("process connection with: {}", address)));
+        while let Ok(message) = self.receiver.recv() {
+            match message {
+                PeerMessage::Network { address, datagram } => {
+                    let _ = datagram;
+                    self.event_sender
+                        .report(Event::Info(format!("process connection with: {}", address)));
+                },
+                // TODO:
+                PeerMessage::Command(command) => log::warn!("not sent: {:?}", command),
+            }
         }
     }
 }
-- 
2.43.0


From a564b7e6107171f543b9b43bada1b710824ee03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 13/22] fix: joining a UDP node with a connected peer does not
 deadlock

---
 vru-udp/src/local.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index d3954ca..899f4d0 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -11,6 +11,7 @@ enum PeerMessage {
         datagram: Datagram,
     },
     Command(LocalCommand),
+    Shutdown,
 }
 
 pub struct Peer {
@@ -26,6 +27,8 @@ impl Peer {
     }
 
     pub fn join(self) {
+        // there may be a handle, so the worker would not see a disconnect
+        let _ = self.sender.send(PeerMessage::Shutdown);
         self.worker_thread.join().unwrap();
     }
 
@@ -65,7 +68,10 @@ pub struct PeerHandle {
 
 impl PeerHandle {
     pub fn send(&self, command: LocalCommand) {
-        self.sender.send(PeerMessage::Command(command)).unwrap()
+        // the worker is gone if the node is shutting down
+        if let Err(mpsc::SendError(_)) = self.sender.send(PeerMessage::Command(command)) {
+            log::warn!("failed to send a command, the peer is down");
+        }
     }
 }
 
@@ -91,6 +97,7 @@ impl PeerState {
                 },
                 // TODO:
                 PeerMessage::Command(command) => log::warn!("not sent: {:?}", command),
+                PeerMessage::Shutdown => break,
             }
         }
     }
-- 
2.43.0


From 4bf95851011a08b2631558764666743df15ed035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 14/22] fix: a datagram longer than the buffer is not taken for
 a full one

---
 vru-udp/src/global.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 7bf5ae5..37d1f4f 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -141,6 +141,9 @@ impl NodeState {
         sources.register((), &self.socket, interest::READ);
         let mut events = Events::with_capacity(1);
 
+        // any datagram fits, otherwise a longer one would be cut and look like a proper one
+        let mut buffer = vec![0; 0x10000];
+
         while running.load(Ordering::Acquire) {
             loop {
                 match sources.wait_timeout(&mut events, Duration::from_secs(2)) {
@@ -154,13 +157,14 @@ impl NodeState {
                     Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
                 }
             }
-            let mut datagram = Datagram::default();
-            match self.socket.recv_from(datagram.as_mut()) {
+            match self.socket.recv_from(buffer.as_mut()) {
                 Ok((length, address)) => {
                     if length != Datagram::SIZE {
                         self.sender
                             .report(Event::Error(Error::FrameSize(address, length)));
                     } else {
+                        let mut datagram = Datagram::default();
+                        datagram.as_mut().clone_from_slice(&buffer[..length]);
                         self.process(address, datagram);
                     }
                 },
-- 
2.43.0


From e6b7f312329bb8fc8a2159490a23f6a1253c2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 15/22] fix: a connect that fails at once is an error event of
 the TCP node, not a panic

---
 vru-tcp/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 4e6346e..d5629fd 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -107,7 +107,16 @@ where
     fn command(&self, command: Command<Self::Address>) {
         match command {
             Command::Connect { peer_pi, address } => {
-                let stream = TcpStream::connect(address).unwrap();
+                let stream = match TcpStream::connect(address) {
+                    Ok(stream) => stream,
+                    Err(error) => {
+                        let event = Event::Error(NodeError::Io(error));
+                        if let Err(mpsc::SendError(event)) = self.sender.send(event) {
+                            log::warn!("failed to send event: {:?}", event);
+                        }
+                        return;
+                    },
+                };
             },
             _ => (),
         }
-- 
2.43.0


From a7b06d8ccca2d5f96851841986b28e2bc16f3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 16/22] fix: a new key is stored durably before it is used

---
 vru-node/src/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 5f768c7..3bd1679 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -27,6 +27,7 @@ impl Database {
         } else {
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
+            self.db.flush()?;
         }
         Ok(PublicKey::gen(&s))
     }
-- 
2.43.0


From 12527a6bc9e06e9c0e2c19833793162cc09bdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 17/22] fix: register the command socket for polling once, not
 for every command

---
 vru-node/src/listener_unix.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index f64e4d1..45db38c 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -33,10 +33,13 @@ impl CommandListener {
         P: AsRef<Path>,
     {
         let _ = fs::remove_file(&path);
+        let listener = UnixListener::bind(path)?;
+        let mut sources = Sources::with_capacity(1);
+        sources.register((), &listener, interest::READ);
         Ok(CommandListener {
             running,
-            listener: UnixListener::bind(path)?,
-            sources: Sources::with_capacity(1),
+            listener,
+            sources,
             events: Events::with_capacity(1),
         })
     }
@@ -59,9 +62,6 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.inner
-            .sources
-            .register((), &self.inner.listener, interest::READ);
         loop {
             match self
                 .inner
-- 
2.43.0


From 9afc7a87c70955b4a5ebaacb3b51b67f87995661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 18/22] fix: a client that sends nothing does not block the
 command socket

---
 vru-node/src/listener_unix.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 45db38c..2db684f 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -81,7 +81,10 @@ where
             }
         }
         match self.inner.listener.accept() {
-            Ok((stream, _)) => Some(bincode::deserialize_from(stream)),
+            Ok((stream, _)) => match stream.set_read_timeout(Some(Duration::from_secs(2))) {
+                Ok(()) => Some(bincode::deserialize_from(stream)),
+                Err(error) => Some(Err(error.into())),
+            },
             Err(error) => {
                 if error.kind() == io::ErrorKind::Interrupted {
                     None
-- 
2.43.0


From f4f66ad036d82bc93189e236c4e60fa435755ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 19/22] fix: a busy command socket does not keep the node from
 stopping

---
 vru-node/src/listener_unix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 2db684f..2b67463 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -62,6 +62,9 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if !self.inner.running.load(Ordering::Acquire) {
+            return None;
+        }
         loop {
             match self
                 .inner
-- 
2.43.0


From 091b7b1770450845b62d17e7724b866690cc4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 20/22] fix: a node killed while its store writes a snapshot
 can be started again

---
 vru-node/src/database.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 3bd1679..b859dbd 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{fs, io, path::Path};
 use sled::Db;
 use rac::{Array, generic_array::typenum};
 use vru_session::handshake::{SecretKey, PublicKey};
@@ -12,9 +12,14 @@ impl Database {
     where
         P: AsRef<Path>,
     {
-        Ok(Database {
-            db: sled::open(path)?,
-        })
+        let db = match sled::open(&path) {
+            // sled takes a snapshot it was killed at writing for a complete one
+            Err(sled::Error::Corruption { .. }) if remove_unfinished(path.as_ref())? => {
+                sled::open(path)?
+            },
+            result => result?,
+        };
+        Ok(Database { db })
     }
 
     pub fn key_or_insert<F>(&self, randomize: F) -> sled::Result<(PublicKey, SecretKey)>
@@ -32,3 +37,19 @@ impl Database {
         Ok(PublicKey::gen(&s))
     }
 }
+
+/// removes snapshots that are not finished, their content is still in the log,
+/// returns whether there was any
+fn remove_unfinished(path: &Path) -> io::Result<bool> {
+    let mut removed = false;
+    for entry in fs::read_dir(path)? {
+        let entry = entry?;
+        let name = entry.file_name();
+        let name = name.to_string_lossy();
+        if name.starts_with("snap.") && name.ends_with(".generating") {
+            fs::remove_file(entry.path())?;
+            removed = true;
+        }
+    }
+    Ok(removed)
+}
-- 
2.43.0


From e9a28757c390d5a0b12fd30e87b10312e95d61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 21/22] fix: a data directory whose name is not UTF-8 can be
 used

---
 vru-node/src/bin/client.rs | 2 +-
 vru-node/src/main.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vru-node/src/bin/client.rs b/vru-node/src/bin/client.rs
index 5ac0352..cd957d3 100644
--- a/vru-node/src/bin/client.rs
+++ b/vru-node/src/bin/client.rs
@@ -4,7 +4,7 @@ use vru_session::handshake::Identity;
 
 #[derive(StructOpt)]
 pub struct Args {
-    #[structopt(long)]
+    #[structopt(long, parse(from_os_str))]
     path: PathBuf,
     #[structopt(subcommand)]
     cmd: Cmd,
diff --git a/vru-node/src/main.rs b/vru-node/src/main.rs
index ee29e10..c8a74f5 100644
--- a/vru-node/src/main.rs
+++ b/vru-node/src/main.rs
@@ -11,7 +11,7 @@ use structopt::StructOpt;
 
 #[derive(StructOpt)]
 struct Args {
-    #[structopt(long)]
+    #[structopt(long, parse(from_os_str))]
     path: PathBuf,
     #[structopt(long)]
     port: u16,
-- 
2.43.0


From 1207692c90f35dd1c0baf4e32274f7774148f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 22/22] fix: a signal or a suspension does not end a node's
 main loop

---
 vru-tcp/src/lib.rs    | 7 +++++--
 vru-udp/src/global.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index d5629fd..936180d 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -155,12 +155,15 @@ where
             loop {
                 match self.poll.poll(&mut events, Some(Duration::from_secs(1))) {
                     Ok(events) => break events,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
+                    // a signal, it is up to the flag whether to stop
+                    Err(error)
+                        if error.kind() == io::ErrorKind::TimedOut
+                            || error.kind() == io::ErrorKind::Interrupted =>
+                    {
                         if !running.load(Ordering::Acquire) {
                             return;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
                     Err(error) => self.report(Event::Error(NodeError::Io(error))),
                 }
             }
diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 37d1f4f..5102d0a 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -148,12 +148,15 @@ impl NodeState {
             loop {
                 match sources.wait_timeout(&mut events, Duration::from_secs(2)) {
                     Ok(()) => break,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
+                    // a signal, it is up to the flag whether to stop
+                    Err(error)
+                        if error.kind() == io::ErrorKind::TimedOut
+                            || error.kind() == io::ErrorKind::Interrupted =>
+                    {
                         if !running.load(Ordering::Acquire) {
                             return;
                         }
                     },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
                     Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
                 }
             }
-- 
2.43.0

