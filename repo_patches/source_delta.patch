From 675879f7c2294f794074cabca86693cd97ff4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 01/50] fix: v1 indexer panics on transactions without eligible
 inputs

---
 indexer/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..caa2873 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,10 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        // A transaction without inputs eligible for silent payments has nothing to index
+        let Ok(ecdh_shared_secret) = self.scanner.get_shared_secret(tx, &prevouts) else {
+            return Ok(tx_graph::ChangeSet::<A>::default());
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From bf32fd1411ba4c33f3c7a78b59814d5883ed71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 02/50] fix: partial secret derivation fails when the keys of
 some inputs cancel out

---
 silentpayments/src/send/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..bcdc1bd 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -46,11 +46,17 @@ pub fn create_silentpayment_partial_secret(
     }
 
     // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
+    let mut maybe_a_sum = Some(available_keys[0]);
     // Then skip first element to avoid reuse
     for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
+        maybe_a_sum = match maybe_a_sum {
+            // The sum of a proper subset of the keys can be zero, which is not representable as a
+            // secret key, only the total sum is required to be valid
+            Some(a_sum) => a_sum.add_tweak(&Scalar::from(*sk)).ok(),
+            None => Some(*sk),
+        };
     }
+    let a_sum = maybe_a_sum.ok_or(bitcoin::secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From 2e7c59e5449e149612d4bc8c8d207bcdf85da3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 03/50] fix: psbt derivation ignores the script_sig of wrapped
 segwit inputs

---
 silentpayments/src/send/psbt/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..dbd013d 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -330,6 +330,8 @@ fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSend
     if let Some(ref witness) = psbt_input.final_script_witness {
         Ok(TxIn {
             witness: witness.clone(),
+            // Wrapped segwit inputs have both
+            script_sig: psbt_input.final_script_sig.clone().unwrap_or_default(),
             ..txin.clone()
         })
     } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-- 
2.43.0


From 64da8442d43b66d9c7aaa33ae0b48f78ba5ebcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 04/50] fix: psbt derivation silently skips eligible inputs
 with unknown keys

---
 silentpayments/src/send/psbt/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index dbd013d..470758f 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -233,6 +233,7 @@ where
 {
     let mut data_for_partial_secret = DataForPartialSecret::default();
     let mut lex_min = LexMin::default();
+    let mut missing_key = false;
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
@@ -241,7 +242,7 @@ where
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
-            extract_pubkey(full_txin.clone(), &prevout)
+            let eligible_input_secret = extract_pubkey(full_txin.clone(), &prevout)
                 .map(|pubkey_data| match pubkey_data {
                     (SpInputs::Tr, even_tr_output_key) => {
                         match get_taproot_secret(psbt_input, k, secp) {
@@ -260,8 +261,9 @@ where
                     _ => get_non_taproot_secret(psbt_input, k, secp)
                         .map_err(|_| SpSendError::KeyError),
                 })
-                .transpose()?
-                .flatten()
+                .transpose()?;
+            missing_key |= eligible_input_secret == Some(None);
+            eligible_input_secret.flatten()
         };
 
         if let Some(secret_key) = maybe_secret_key {
@@ -275,6 +277,9 @@ where
 
     if data_for_partial_secret.scripts_with_secrets.is_empty() {
         Err(SpSendError::MissingInputsForSharedSecretDerivation)
+    } else if missing_key {
+        // The receivers account for every eligible input, so all their secrets are needed
+        Err(SpSendError::KeyError)
     } else {
         data_for_partial_secret.lex_min_outpoint = lex_min
             .bytes()
-- 
2.43.0


From e323639ccba7da8ba30abb6cd0e763fa0cf3ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 05/50] fix: psbt derivation counts recipients without
 placeholder output

---
 silentpayments/src/send/psbt/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 470758f..55adca1 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -199,7 +199,19 @@ where
 
     let partial_secret =
         create_silentpayment_partial_secret(&lex_min_outpoint, &scripts_with_secrets)?;
-    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, recipients);
+    // Recipients which are not paid by this transaction must not take a derivation order
+    let recipients = recipients
+        .iter()
+        .filter(|sp_code| {
+            let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
+            psbt.unsigned_tx
+                .output
+                .iter()
+                .any(|txout| txout.script_pubkey == placeholder_spk)
+        })
+        .cloned()
+        .collect::<Vec<SilentPaymentCode>>();
+    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, &recipients);
 
     update_outputs(psbt, &silent_payments)?;
 
-- 
2.43.0


From 2c698c698df245c60f83a41f850f3afa8c09e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 06/50] fix: failed psbt derivation leaves some outputs updated

---
 silentpayments/src/send/psbt/mod.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 55adca1..82d562d 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -552,6 +552,8 @@ fn update_outputs(
         map
     };
 
+    // Check all the recipients before updating any of the outputs
+    let mut updates = <Vec<(usize, XOnlyPublicKey)>>::new();
     for (sp_code, x_only_pks) in silent_payments.iter() {
         let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
 
@@ -560,19 +562,21 @@ fn update_outputs(
                 Ordering::Greater => return Err(SpSendError::MissingDerivations),
                 Ordering::Less => return Err(SpSendError::MissingOutputs),
                 Ordering::Equal => {
-                    for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
-                        let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
-                        let value = psbt.unsigned_tx.output[*idx].value;
-
-                        psbt.unsigned_tx.output[*idx] = TxOut {
-                            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
-                            value,
-                        };
-                    }
+                    updates.extend(indexes.iter().copied().zip(x_only_pks.iter().copied()))
                 }
             }
         }
     }
 
+    for (idx, xonly_pk) in updates {
+        let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(xonly_pk);
+        let value = psbt.unsigned_tx.output[idx].value;
+
+        psbt.unsigned_tx.output[idx] = TxOut {
+            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
+            value,
+        };
+    }
+
     Ok(())
 }
-- 
2.43.0


From 61eabd2330d7512825575d6a1aff5373dea7023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 07/50] fix: psbt derivation accepts secrets which do not match
 the input public key

---
 silentpayments/src/send/psbt/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 82d562d..abb5d2b 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -270,8 +270,12 @@ where
                             Err(_) => Err(SpSendError::KeyError),
                         }
                     }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
+                    (_, input_pubkey) => match get_non_taproot_secret(psbt_input, k, secp) {
+                        Ok(Some(secret)) if secret.public_key(secp) != input_pubkey => {
+                            Err(SpSendError::KeyError)
+                        }
+                        other => other.map_err(|_| SpSendError::KeyError),
+                    },
                 })
                 .transpose()?;
             missing_key |= eligible_input_secret == Some(None);
-- 
2.43.0


From 92d628d5363668524c1b09061ce6de75805c3c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 08/50] fix: xpriv sender applies the taproot tweak to the keys
 of other inputs

---
 silentpayments/src/send/bip32.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..9cd404d 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -36,6 +36,12 @@ impl XprivSilentPaymentSender {
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
             let mut internal_privkey = bip32_privkey.private_key;
+            if !spk.is_p2tr() {
+                // Only taproot outputs commit to a tweaked key
+                spks_with_keys.push((spk.clone(), internal_privkey));
+                continue;
+            }
+
             let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
 
             if let Parity::Odd = parity {
-- 
2.43.0


From 2491391286cf222a7d603a1e87b9e1cc5d99d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 09/50] fix: input tagging panics on truncated control blocks

---
 silentpayments/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..579a6de 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,9 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| {
+                                control_block.get(1..33).is_some_and(|key| key == NUMS_H)
+                            })
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From 41cd4dda66f75e0e39889c6fa3b6c01a9239b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 10/50] fix: malformed silent payment data in psbt inputs
 causes panics

---
 silentpayments/src/send/psbt/mod.rs  | 36 +++++++++++++--------
 silentpayments/src/send/psbt/sign.rs | 47 ++++++++++++++++++----------
 2 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index abb5d2b..288b4f2 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -386,20 +386,28 @@ where
 {
     for (key, value) in psbt_input.proprietary.clone() {
         if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
-            } else {
+            let Ok(spend_pk) = PublicKey::from_slice(&key.key) else {
+                continue;
+            };
+            let Ok(scalar) = <[u8; 32]>::try_from(value.as_slice()) else {
+                continue;
+            };
+
+            let Ok(tweak) = Scalar::from_be_bytes(scalar) else {
+                continue;
+            };
+            let output_key = match &psbt_input.witness_utxo {
+                Some(txout) if txout.script_pubkey.is_p2tr() => {
+                    match XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..]) {
+                        Ok(output_key) => output_key,
+                        Err(_) => continue,
+                    }
+                }
+                _ => continue,
+            };
+            let Ok(tweaked_spend_pk) = spend_pk.add_exp_tweak(secp, &tweak) else {
                 continue;
             };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
             let spend_sk = if let Ok(Some(sk)) =
                 k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
             {
@@ -408,7 +416,9 @@ where
                 continue;
             };
             if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
+                let Ok(sk) = spend_sk.inner.add_tweak(&tweak) else {
+                    continue;
+                };
                 return Ok(Some(sk));
             }
         }
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..c37127e 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -40,20 +40,28 @@ where
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
             if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
+                let Ok(spend_pk) = PublicKey::from_slice(&key.key) else {
+                    continue;
+                };
+                let Ok(scalar) = <[u8; 32]>::try_from(value.as_slice()) else {
+                    continue;
+                };
 
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
-                } else {
+                let Ok(tweak) = Scalar::from_be_bytes(scalar) else {
+                    continue;
+                };
+                let output_key = match &psbt.inputs[i].witness_utxo {
+                    Some(txout) if txout.script_pubkey.is_p2tr() => {
+                        match XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..]) {
+                            Ok(output_key) => output_key,
+                            Err(_) => continue,
+                        }
+                    }
+                    _ => continue,
+                };
+                let Ok(tweaked_spend_pk) = spend_pk.add_exp_tweak(secp, &tweak) else {
                     continue;
                 };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
                 let spend_sk = if let Ok(Some(sk)) =
                     k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
                 {
@@ -65,11 +73,14 @@ where
                     && tweaked_spend_pk.x_only_public_key().0 == output_key
                 {
                     let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
-                        .inputs
-                        .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
+                    // The taproot sighash commits to all the prevouts
+                    let Ok(prevouts) = psbt
+                        .iter_funding_utxos()
+                        .map(|utxo| utxo.cloned())
+                        .collect::<Result<Vec<TxOut>, _>>()
+                    else {
+                        continue;
+                    };
                     let prevouts = Prevouts::All(&prevouts);
 
                     let sighash = cache
@@ -79,7 +90,9 @@ where
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
+                    let Ok(sk) = spend_sk.inner.add_tweak(&tweak) else {
+                        continue;
+                    };
                     let keypair = Keypair::from_secret_key(secp, &sk);
 
                     let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
-- 
2.43.0


From ccff8699bf13c03d3501bcc312a350958ce2be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 11/50] fix: transactions spending unknown witness versions are
 not silent payments

---
 silentpayments/src/receive/mod.rs   | 12 +++++++++++-
 silentpayments/src/send/psbt/mod.rs | 10 +++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/receive/mod.rs b/silentpayments/src/receive/mod.rs
index eb03d89..a348bd4 100644
--- a/silentpayments/src/receive/mod.rs
+++ b/silentpayments/src/receive/mod.rs
@@ -8,7 +8,8 @@ use bitcoin::{
     self,
     key::{Parity, Secp256k1, TweakedPublicKey},
     secp256k1::{self, PublicKey, Scalar, SecretKey},
-    Amount, OutPoint, PubkeyHash, ScriptBuf, Transaction, TxIn, TxOut, Txid, XOnlyPublicKey,
+    Amount, OutPoint, PubkeyHash, ScriptBuf, Transaction, TxIn, TxOut, Txid, WitnessVersion,
+    XOnlyPublicKey,
 };
 use std::collections::BTreeMap;
 
@@ -247,6 +248,15 @@ pub fn compute_tweak_data(
     let mut input_pubkeys = <Vec<PublicKey>>::new();
     let mut lex_min = LexMin::default();
     for (txin, prevout) in tx.input.iter().zip(prevouts) {
+        if prevout
+            .script_pubkey
+            .witness_version()
+            .is_some_and(|version| version > WitnessVersion::V1)
+        {
+            return Err(SpReceiveError::PubKeyExtractionError(
+                "spends an output with unknown witness version",
+            ));
+        }
         lex_min.update(&txin.previous_output);
         // NOTE: Public keys which couldn't be extracted will be ignored
         if let Some((_, key)) = extract_pubkey(txin.clone(), &prevout.script_pubkey) {
diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 288b4f2..e5df2cc 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -13,7 +13,8 @@ use bitcoin::{
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
     psbt::{self, GetKey, KeyRequest},
     secp256k1::{SecretKey, Signing},
-    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
+    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, WitnessVersion,
+    XOnlyPublicKey,
 };
 
 #[cfg(feature = "psbt_sp_spend")]
@@ -249,6 +250,13 @@ where
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
+        if prevout
+            .witness_version()
+            .is_some_and(|version| version > WitnessVersion::V1)
+        {
+            // Receivers skip transactions which spend unknown witness versions
+            return Err(SpSendError::MissingInputsForSharedSecretDerivation);
+        }
 
         let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, k, secp) {
             Some(secret)
-- 
2.43.0


From f07179f6bcc586d9abb74219a1abcb2194dbd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 12/50] fix: indexer changeset with keys only is reported as
 empty

---
 indexer/src/v2/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..384199c 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -437,7 +437,9 @@ impl<A: Ord> Merge for ChangeSet<A> {
     }
 
     fn is_empty(&self) -> bool {
-        self.txid_to_partial_secret.is_empty()
+        self.scan_sk.is_none()
+            && self.spend_pk.is_none()
+            && self.txid_to_partial_secret.is_empty()
             && self.label_lookup.is_empty()
             && self.graph.is_empty()
     }
-- 
2.43.0


From e6acaf5918fec8740b2386d44848510874770a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 13/50] fix: labels cannot be deserialized from formats without
 native bytes

---
 indexer/src/v2/indexes.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..818667c 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // Formats like JSON represent bytes as a sequence
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: de::SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (idx, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(idx, &self))?;
+                }
+                if seq.next_element::<u8>()?.is_some() {
+                    return Err(de::Error::invalid_length(33, &self));
+                }
+                Ok(arr)
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From badf3d4ff85be7603903d1778ff7a9eac3b8604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 14/50] fix: merging wallet changesets loses the birthday

---
 wallet/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 5235102..3b99826 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -77,6 +77,9 @@ impl Merge for ChangeSet {
             );
             self.network = other.network;
         }
+        if other.birthday != BlockId::default() {
+            self.birthday = other.birthday;
+        }
 
         Merge::merge(&mut self.chain, other.chain);
         Merge::merge(&mut self.indexer, other.indexer);
-- 
2.43.0


From 4a39ab79b43229e7c072ae114f12d05b07ad3be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 15/50] fix: outputs for labels added after indexing a
 transaction are found only on restore

---
 indexer/src/v2/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 384199c..8067739 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -57,6 +57,12 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         let label = self.sp_pub.create_label(num);
         self.index.index_label(&label);
         changeset.label_lookup.insert(label);
+        // The transactions already indexed could have outputs for the new label
+        for (txid, partial_secret) in self.index.txid_to_partial_secret.clone() {
+            if let Some(tx) = self.graph.get_tx(txid) {
+                changeset.merge(self.index_tx(tx.as_ref(), &partial_secret));
+            }
+        }
         changeset
     }
 
-- 
2.43.0


From d0497f04b80e5cd98405af19ff542253e04ae1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 16/50] fix: scan ignores spends of owned outputs without
 taproot outputs

---
 cli/v1/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index a0bc788..c987a0c 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -536,7 +536,9 @@ fn main() -> anyhow::Result<()> {
 
                 let block_id = BlockId { hash, height };
                 for (tx_pos, tx) in txdata.iter().enumerate().skip(1) {
-                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
+                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr())
+                        && !sp_indexer.spends_owned_spouts(tx)
+                    {
                         continue;
                     }
                     let tx_graph_stage = sp_indexer.index_tx(tx)?;
-- 
2.43.0


From 483478ef48fdb3edf7c97a3acb2b5e701ef78275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 17/50] fix: only the first input of a psbt gets a valid
 signature

---
 cli/v1/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index c987a0c..2d21ad1 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -921,12 +921,7 @@ fn main() -> anyhow::Result<()> {
                 .collect::<Vec<TxOut>>();
             let prevouts = Prevouts::All(&prevouts);
 
-            let sighash = SighashCache::new(&mut psbt.unsigned_tx)
-                .taproot_key_spend_signature_hash(0, &prevouts, sighash_type)
-                .expect("failed to construct sighash");
-
-            // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-            let msg = Message::from(sighash);
+            let mut sighash_cache = SighashCache::new(&psbt.unsigned_tx);
 
             for i in 0..psbt.inputs.len() {
                 let psbt_input = &mut psbt.inputs[i];
@@ -936,6 +931,13 @@ fn main() -> anyhow::Result<()> {
                         let keypair = Keypair::from_secret_key(&secp, &sk);
                         let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
 
+                        // The sighash commits to the index of the input being signed
+                        let sighash = sighash_cache
+                            .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                            .expect("failed to construct sighash");
+
+                        // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+                        let msg = Message::from(sighash);
                         let signature = secp.sign_schnorr(&msg, &keypair);
 
                         let signature = Signature {
-- 
2.43.0


From 5e75b03d3db54f05ddb31c952e537188084b4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 18/50] fix: parsing a code without payload panics

---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..53c3846 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = payload
+            .next()
+            .ok_or(VersionError::WrongPayloadLength)?
+            .to_u8();
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From 9c917d4d964fb0e3656baa898ea84d154a3cf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 19/50] fix: version 0 codes with non-zero padding are accepted

---
 silentpayments/src/encoding/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index 53c3846..2b970cf 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -330,10 +330,14 @@ impl TryFrom<&str> for SilentPaymentCode {
             .next()
             .ok_or(VersionError::WrongPayloadLength)?
             .to_u8();
-        let data = payload.fes_to_bytes().collect::<Vec<u8>>();
+        let groups = payload.collect::<Vec<Fe32>>();
+        let data = groups.iter().copied().fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-                if data.len() != 66 {
+                // The padding must be shorter than a group and zero (as in BIP173), otherwise
+                // several strings would stand for the same code
+                let canonical = data.iter().copied().bytes_to_fes().eq(groups);
+                if data.len() != 66 || !canonical {
                     return Err(VersionError::WrongPayloadLength)?;
                 } else {
                     data
-- 
2.43.0


From db0d98125e9f080a1800fe8e46b1067f4de9325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:14 +0000
Subject: [PATCH 20/50] fix: wallet misses unspent outputs whose script another
 indexed output has

The index by script keeps one output per script, so the unspent scripts and the
spend candidates lost an output when a replaced or reorganized transaction
with the same inputs paid the same script.
---
 wallet/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 3b99826..00ea6f9 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -224,8 +224,9 @@ impl SpWallet {
                 CanonicalizationParams::default(),
                 self.indexer()
                     .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                    .by_label
+                    .iter()
+                    .map(|(_, outpoint)| ((), *outpoint)),
             )
             .unwrap()
         {
@@ -322,11 +323,14 @@ impl SpWallet {
                 CanonicalizationParams::default(),
                 self.indexer()
                     .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                    .by_label
+                    .iter()
+                    .map(|(_, outpoint)| ((), *outpoint)),
             )
             .unwrap()
-            .filter_map(|(xonly, full_txout)| {
+            .filter_map(|(_, full_txout)| {
+                let spk = full_txout.txout.script_pubkey.as_bytes();
+                let xonly = XOnlyPublicKey::from_slice(spk.get(2..)?).ok()?;
                 self.spending_plan(xonly)
                     .map(|plan| (full_txout.outpoint, plan))
             });
-- 
2.43.0


From fd8f06c4b38e78a621850e9286bb061be73e31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 21/50] fix: filter of a reorganized block is kept instead of
 its replacement

Filters compare by height, so inserting a second one for a height into the set
dropped it.
---
 oracles/src/filters/kyoto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f48ff40..dd7f023 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -48,7 +48,8 @@ impl DatabaseBuffer {
     }
 
     pub fn push_filter(&mut self, filter: IndexedFilter) -> Option<WriteRange> {
-        self.queue.insert(filter);
+        // filters compare by height, a filter from a reorganization must take the older one's place
+        self.queue.replace(filter);
         if self.queue.len() > QUEUE_SIZE {
             return Some(self.write_queue());
         }
-- 
2.43.0


From 7c5e1d1e9f9bf607db1d464425c6e9a756e48cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 22/50] fix: spends in blocks without tweaks are never reported

A transaction that spends an owned output without creating taproot outputs has
no tweak, and tweak servers leave out more; the filter of such a block matches
the unspent script but was not looked at.
---
 oracles/src/tweaks/blindbit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 0b77150..6f39e82 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -215,11 +215,11 @@ impl BlindbitSubscriber {
                 .collect::<HashMap<[u8; 34], PublicKey>>();
 
             let mut only_spks: Vec<[u8; 34]> = all_spks.clone().into_keys().collect();
-            // unspent script pubkeys can only be present in blocks with tweaks, because they are
-            // by themselves inputs available for shared secret derivation
+            // unspent script pubkeys can be present in blocks without tweaks, when the transactions
+            // which spend them have no taproot outputs, or the tweak server filters them
             only_spks.extend_from_slice(&self.unspent_script_pubkeys);
 
-            if !all_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
+            if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-- 
2.43.0


From bbea2a2256189a5e8620c6e366269612a5ce69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 23/50] fix: anchor a payment to the wallet again when it is
 mined in another block

---
 cli/v1/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 2d21ad1..efdeb89 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -542,8 +542,10 @@ fn main() -> anyhow::Result<()> {
                         continue;
                     }
                     let tx_graph_stage = sp_indexer.index_tx(tx)?;
-                    if !tx_graph_stage.is_empty() || sp_indexer.spends_owned_spouts(tx) {
-                        let txid = tx.compute_txid();
+                    let txid = tx.compute_txid();
+                    // A transaction indexed before may be mined again in another block
+                    let pays_wallet = sp_indexer.indexes.txouts_in_tx(txid).next().is_some();
+                    if pays_wallet || sp_indexer.spends_owned_spouts(tx) {
                         db_stage.tx_graph.merge(tx_graph_stage);
                         let anchor = TxPosInBlock {
                             block,
-- 
2.43.0


From 2dbfd69972bc90b8f9b702eaa546f56a51d78ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 24/50] fix: xpriv sender accepts inputs whose script its key
 does not control

The outputs are then derived from a key which never signs the input, so
the recipient cannot find the payment: a path to another key, or a
taproot output which commits to a script tree.
---
 silentpayments/src/send/bip32.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index 9cd404d..8f7dba3 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -7,9 +7,9 @@ use crate::{
 };
 use bitcoin::{
     bip32::{DerivationPath, Xpriv},
-    key::{Parity, Secp256k1},
+    key::{CompressedPublicKey, Parity, Secp256k1, TweakedPublicKey},
     secp256k1::SecretKey,
-    OutPoint, ScriptBuf, TapTweakHash, XOnlyPublicKey,
+    OutPoint, PublicKey, ScriptBuf, TapTweakHash, XOnlyPublicKey,
 };
 use std::collections::HashMap;
 
@@ -38,6 +38,16 @@ impl XprivSilentPaymentSender {
             let mut internal_privkey = bip32_privkey.private_key;
             if !spk.is_p2tr() {
                 // Only taproot outputs commit to a tweaked key
+                let pubkey = CompressedPublicKey(internal_privkey.public_key(&secp));
+                let p2wpkh = ScriptBuf::new_p2wpkh(&pubkey.wpubkey_hash());
+                // The derived key must be the one which is going to sign the input
+                if (spk.is_p2pkh()
+                    && *spk != ScriptBuf::new_p2pkh(&PublicKey::from(pubkey).pubkey_hash()))
+                    || (spk.is_p2sh() && *spk != p2wpkh.to_p2sh())
+                    || (spk.is_p2wpkh() && *spk != p2wpkh)
+                {
+                    return Err(SpSendError::KeyError);
+                }
                 spks_with_keys.push((spk.clone(), internal_privkey));
                 continue;
             }
@@ -55,6 +65,15 @@ impl XprivSilentPaymentSender {
             let external_privkey = internal_privkey.add_tweak(&tap_tweak.to_scalar())
                 .expect("computationally unreachable: can only fail if tap_tweak = -internal_privkey, but tap_tweak is the output of a hash function");
 
+            let (x_only_external, _) = external_privkey.x_only_public_key(&secp);
+            if *spk
+                != ScriptBuf::new_p2tr_tweaked(TweakedPublicKey::dangerous_assume_tweaked(
+                    x_only_external,
+                ))
+            {
+                return Err(SpSendError::KeyError);
+            }
+
             spks_with_keys.push((spk.clone(), external_privkey));
         }
 
-- 
2.43.0


From 7ba082e357eb5a8de5ada664ad31e69088d02058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 25/50] fix: senders derive outputs when an input has an
 unknown witness version

Receivers skip such transactions, as BIP352 demands, so the payment would
never be found. The PSBT sender refuses them already.
---
 silentpayments/src/send/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index bcdc1bd..14430a0 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -7,7 +7,7 @@ use crate::{
 use bitcoin::{
     key::{Parity, Secp256k1},
     secp256k1::{PublicKey, Scalar, SecretKey},
-    ScriptBuf, XOnlyPublicKey,
+    ScriptBuf, WitnessVersion, XOnlyPublicKey,
 };
 use std::collections::HashMap;
 
@@ -22,6 +22,14 @@ pub fn create_silentpayment_partial_secret(
 ) -> Result<SecretKey, SpSendError> {
     let secp = Secp256k1::new();
 
+    if spks_with_keys.iter().any(|(spk, _)| {
+        spk.witness_version()
+            .is_some_and(|version| version > WitnessVersion::V1)
+    }) {
+        // Receivers skip transactions which spend unknown witness versions
+        return Err(SpSendError::MissingInputsForSharedSecretDerivation);
+    }
+
     let available_keys = spks_with_keys
         .iter()
         .cloned()
-- 
2.43.0


From 674cd5f8a558a201a906593bc89628abd27a3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 26/50] fix: to-silent-payment ignores inputs it has no key for

The recipient looks at every input, so the payment could not be found.
A missing output of a previous transaction is an error instead of a panic.
---
 cli/v1/src/main.rs | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index efdeb89..d5b80e3 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -411,32 +411,22 @@ fn main() -> anyhow::Result<()> {
             let mut outputs_and_derivation_paths =
                 <Vec<(OutPoint, (ScriptBuf, DerivationPath))>>::new();
             for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.clone()) {
-                for (fingerprint, path) in psbt_input
+                let spk = match (&psbt_input.witness_utxo, &psbt_input.non_witness_utxo) {
+                    (Some(txout), _) => txout.script_pubkey.clone(),
+                    (None, Some(tx)) => tx
+                        .tx_out(txin.previous_output.vout as usize)?
+                        .script_pubkey
+                        .clone(),
+                    (None, None) => bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input"),
+                };
+                // Every input matters for the recipient, not only the ones of this descriptor
+                let (_, path) = psbt_input
                     .bip32_derivation
                     .values()
                     .chain(psbt_input.tap_key_origins.values().map(|x| &x.1))
-                {
-                    let spk = {
-                        psbt_input.witness_utxo.clone().map_or(
-                            psbt_input.non_witness_utxo.clone().map(|tx| {
-                                tx.tx_out(txin.previous_output.vout as usize)
-                                    .expect("should be in range")
-                                    .script_pubkey
-                                    .clone()
-                            }),
-                            |txout| Some(txout.script_pubkey),
-                        )
-                    };
-                    if let Some(spk) = spk {
-                        if *fingerprint == master_privkey.fingerprint(&secp) {
-                            outputs_and_derivation_paths
-                                .push((txin.previous_output, (spk, path.clone())));
-                            break;
-                        }
-                    } else {
-                        bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input");
-                    }
-                }
+                    .find(|(fingerprint, _)| *fingerprint == master_privkey.fingerprint(&secp))
+                    .context("Cannot create silentpayment output without the keys of all inputs")?;
+                outputs_and_derivation_paths.push((txin.previous_output, (spk, path.clone())));
             }
 
             let mut sp_script_pubkeys =
-- 
2.43.0


From 8cb831e9ee8ae2f12aa9d561cc3bc98e11dbb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 27/50] fix: to-silent-payment changes other outputs than the
 one it replaces

Outputs with the script of the replaced output got its amount. With several
outputs of the amount, or none, there is no telling which one to replace.
---
 cli/v1/src/main.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index d5b80e3..2730897 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -372,13 +372,18 @@ fn main() -> anyhow::Result<()> {
         } => {
             let mut psbt = Psbt::from_str(psbt.as_str())?;
 
-            let single_external_txout = psbt
+            let mut external_txouts = psbt
                 .unsigned_tx
                 .output
                 .iter()
-                .find(|x| x.value == Amount::from_sat(amount))
-                .expect("send to multiple addresses not implemented yet")
-                .clone();
+                .enumerate()
+                .filter(|(_, x)| x.value == Amount::from_sat(amount));
+            let (index, single_external_txout) =
+                match (external_txouts.next(), external_txouts.next()) {
+                    (Some((index, txout)), None) => (index, txout.clone()),
+                    (None, _) => bail!("no output has the given amount"),
+                    _ => bail!("send to multiple addresses not implemented yet"),
+                };
 
             if !single_external_txout.script_pubkey.is_p2tr() {
                 bail!("can only replace p2tr outputs");
@@ -453,19 +458,8 @@ fn main() -> anyhow::Result<()> {
                 })
                 .collect::<Vec<TxOut>>();
 
-            psbt.unsigned_tx.output = psbt
-                .unsigned_tx
-                .output
-                .into_iter()
-                .map(|x| {
-                    if x.script_pubkey == single_external_txout.script_pubkey {
-                        // TODO: Generalize for all outputs to replace
-                        txouts[0].clone()
-                    } else {
-                        x
-                    }
-                })
-                .collect();
+            // TODO: Generalize for all outputs to replace
+            psbt.unsigned_tx.output[index] = txouts[0].clone();
 
             if debug {
                 dbg!(psbt);
-- 
2.43.0


From 7b58f5350ad70e5f20bf6d396e4598e78e7ad9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 28/50] fix: scan-rpc skips blocks after a reorganization

Starting at the height of the wallet's tip leaves out every block between
the fork and that height when they were replaced, and fails when the node
is below it.
---
 cli/v2/src/main.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2a31fcd..116ef45 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -479,11 +479,9 @@ async fn main() -> anyhow::Result<()> {
         }
         Commands::ScanRpc { rpc_args } => {
             let rpc_client = rpc_args.new_client()?;
-            let start_height = if wallet.birthday.height <= wallet.chain().tip().height() {
-                wallet.chain().tip().height()
-            } else {
-                wallet.birthday.height
-            };
+            // the emitter resumes after the last block shared with the node, the blocks which replace
+            // those the wallet knows have to be scanned too
+            let start_height = wallet.birthday.height;
 
             tracing::info!("Synchronizing from block height {}", start_height);
 
-- 
2.43.0


From a4e10e4544930c064c42ae45b55e2e51463454f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 29/50] fix: scan-cbf never ends when the node stops

The channel is closed then, and nothing is received anymore.
---
 cli/v2/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 116ef45..4f753af 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -474,6 +474,8 @@ async fn main() -> anyhow::Result<()> {
                             break;
                         }
                     }
+                } else {
+                    bail!("The node stopped before the wallet was synchronized");
                 }
             }
         }
-- 
2.43.0


From 8b4fe3b23341f29ac67c45972e3c14e8e1d7c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 30/50] fix: scan-cbf skips blocks it could not download

The scan ended as if everything was found, and what the block pays was
never looked for again.
---
 cli/v2/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 4f753af..da462fb 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -462,7 +462,11 @@ async fn main() -> anyhow::Result<()> {
                                     // if all outputs in transactions in the block are not p2tr
                                     // outputs, partial secrets is going to be empty
                                     wallet.apply_block_relevant(block, partial_secrets, height);
+                                } else {
+                                    bail!("Could not get block {hash}");
                                 }
+                            } else {
+                                bail!("Could not request block {hash}");
                             }
                         }
                         TweakEvent::Synced(new_tip) => {
-- 
2.43.0


From 75ef0259cfe91a1534d5d13a2b79b0b76e8fbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 31/50] fix: new-tx refuses every silent payment code on signet

Codes of testnet and signet look the same and are parsed as testnet codes.
---
 cli/v2/src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index da462fb..907923d 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -634,10 +634,16 @@ async fn main() -> anyhow::Result<()> {
 
             let mut sp_recipients: Vec<SilentPaymentCode> = vec![wallet.get_change_address()];
             if let Some(sp_codes) = maybe_sp_codes {
-                for (sp_code, value) in sp_codes {
-                    if sp_code.network != wallet.network() {
-                        bail!("");
+                for (mut sp_code, value) in sp_codes {
+                    // all test networks but regtest share a prefix
+                    let same_network = match wallet.network() {
+                        Network::Bitcoin | Network::Regtest => sp_code.network == wallet.network(),
+                        _ => !matches!(sp_code.network, Network::Bitcoin | Network::Regtest),
+                    };
+                    if !same_network {
+                        bail!("Silent payment code {sp_code} is for another network");
                     }
+                    sp_code.network = wallet.network();
                     let placeholder_script = sp_code.get_placeholder_p2tr_spk();
                     outputs.push(Output::with_script(
                         placeholder_script,
-- 
2.43.0


From ed6a7d45abae512b212490fe80200337ba5e2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 32/50] fix: scan-rpc loses payments when the node does not
 answer

A transaction whose inputs could not be looked up was taken for one which
pays nobody, and its block is never scanned again.
---
 cli/v2/src/main.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 907923d..8426451 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -253,7 +253,8 @@ async fn main() -> anyhow::Result<()> {
                 bail!("Should provide a txid to request tx or the serialized tx")
             };
 
-            let partial_secret = get_partial_secret(&rpc_client, &tx).expect("will fix later");
+            let partial_secret = get_partial_secret(&rpc_client, &tx)?
+                .context("the transaction has no input which can be used for silent payments")?;
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
             let maybe_label =
@@ -510,14 +511,12 @@ async fn main() -> anyhow::Result<()> {
                 let block = &emission.block;
                 let Block { ref txdata, .. } = block;
 
-                let partial_secrets: HashMap<Txid, PublicKey> = txdata
-                    .iter()
-                    .skip(1)
-                    .filter_map(|tx| {
-                        get_partial_secret(&rpc_client, tx)
-                            .map(|partial_secret| (tx.compute_txid(), partial_secret))
-                    })
-                    .collect();
+                let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                for tx in txdata.iter().skip(1) {
+                    if let Some(partial_secret) = get_partial_secret(&rpc_client, tx)? {
+                        partial_secrets.insert(tx.compute_txid(), partial_secret);
+                    }
+                }
 
                 wallet.apply_block_relevant(block, partial_secrets, height);
 
@@ -833,16 +832,15 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
 fn get_partial_secret(
     client: &impl RpcApi,
     tx: &Transaction,
-) -> Option<bitcoin::secp256k1::PublicKey> {
+) -> anyhow::Result<Option<bitcoin::secp256k1::PublicKey>> {
     let mut prevouts = <Vec<TxOut>>::new();
     let outpoint_refs = tx.input.iter().map(|x| x.previous_output);
     for OutPoint { txid, vout } in outpoint_refs {
         let prev_tx = client
-            .get_raw_transaction_info(&txid, None)
-            .ok()
-            .and_then(|tx| tx.transaction().ok())?;
-        let prevout = prev_tx.tx_out(vout as usize).ok()?.clone();
+            .get_raw_transaction_info(&txid, None)?
+            .transaction()?;
+        let prevout = prev_tx.tx_out(vout as usize)?.clone();
         prevouts.push(prevout);
     }
-    compute_tweak_data(tx, &prevouts).ok()
+    Ok(compute_tweak_data(tx, &prevouts).ok())
 }
-- 
2.43.0


From e64edd678faeec52e14e2c35ccb17edd51d37642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 33/50] fix: derive-sp-for-tx ignores labels the wallet does
 not have

The script it prints is the one without a label.
---
 cli/v2/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 8426451..bd3a5ea 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -257,8 +257,17 @@ async fn main() -> anyhow::Result<()> {
                 .context("the transaction has no input which can be used for silent payments")?;
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
-            let maybe_label =
-                maybe_label.and_then(|label| wallet.indexer().index().num_to_label.get(&label));
+            let maybe_label = match maybe_label {
+                Some(num) => Some(
+                    wallet
+                        .indexer()
+                        .index()
+                        .num_to_label
+                        .get(&num)
+                        .with_context(|| format!("the wallet has no label {num}"))?,
+                ),
+                None => None,
+            };
             let spk = get_silentpayment_script_pubkey(
                 wallet.indexer().spend_pk(),
                 &ecdh_shared_secret,
-- 
2.43.0


From 3dc1079603db35e40c1d8f34a06a03b3972e7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 34/50] fix: new-tx cannot pay addresses and silent payment
 codes together

---
 cli/v2/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index bd3a5ea..e79c3cc 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -188,6 +188,7 @@ pub enum Commands {
     ArgGroup::new("at least one recipient is required")
         .args(["addresses", "sp_codes"])
         .required(true)
+        .multiple(true)
     ))]
     NewTx {
         /// Recipient address
-- 
2.43.0


From a39408d323e9f02ac25c825a345914db9216f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 35/50] fix: scan-rpc panics when the tip of a light scan was
 replaced

The wallet knows only some blocks then, and the update does not link to
those which are not in the best chain anymore.
---
 wallet/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 00ea6f9..c4181a1 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -24,7 +24,7 @@ use indexer::{
     bdk_chain::{
         bdk_core::Merge,
         bitcoin::{bip32::DerivationPath, key::Secp256k1, BlockHash, Network},
-        local_chain::{self, LocalChain},
+        local_chain::{self, CannotConnectError, LocalChain},
         miniscript::{
             descriptor::{DescriptorSecretKey, DescriptorType},
             Descriptor,
@@ -550,9 +550,23 @@ impl SpWallet {
     ///
     /// * `checkpoint` - The [`CheckPoint`] representing the latest chain state.
     pub fn update_chain(&mut self, checkpoint: CheckPoint) {
-        self.stage
-            .chain
-            .merge(self.chain.apply_update(checkpoint).expect("will fix later"));
+        loop {
+            match self.chain.apply_update(checkpoint.clone()) {
+                Ok(changes) => {
+                    self.stage.chain.merge(changes);
+                    return;
+                }
+                Err(CannotConnectError { try_include_height }) => {
+                    // a block which is not linked to the latest state has been replaced
+                    let replaced = self.chain.get(try_include_height).expect("must be there");
+                    let changes = self
+                        .chain
+                        .disconnect_from(replaced.block_id())
+                        .expect("must share the genesis block");
+                    self.stage.chain.merge(changes);
+                }
+            }
+        }
     }
 
     /// Returns a reference to the wallet's local blockchain.
-- 
2.43.0


From 45e54f94eef5c40e92da69f7b615f20a0d586ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 36/50] fix: scan-cbf misses payments spent during the scan

Only outputs known before the scan were watched for.  Blocks come in order
of height, and the outputs found in them are watched for from then on.
---
 indexer/src/v2/mod.rs          | 14 ++++++++++++--
 oracles/src/tweaks/blindbit.rs | 21 ++++++++++++++++++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 8067739..ee96338 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -123,6 +123,16 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
     }
 
     pub fn derive_spks_for_tweak(&self, tweak: &PublicKey) -> Vec<[u8; 34]> {
+        self.derive_spks_for_tweak_and_order(tweak, 0)
+    }
+
+    /// Like [`Self::derive_spks_for_tweak`], for a derivation order other than the first. A
+    /// transaction which pays more than once uses consecutive orders.
+    pub fn derive_spks_for_tweak_and_order(
+        &self,
+        tweak: &PublicKey,
+        derivation_order: u32,
+    ) -> Vec<[u8; 34]> {
         let ecdh_shared_secret = compute_shared_secret(self.scan_sk(), tweak);
 
         let mut script_pubkeys = self
@@ -133,7 +143,7 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
                 get_silentpayment_script_pubkey(
                     self.spend_pk(),
                     &ecdh_shared_secret,
-                    0u32,
+                    derivation_order,
                     Some(label_pk),
                 )
             })
@@ -142,7 +152,7 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         script_pubkeys.push(get_silentpayment_script_pubkey(
             self.spend_pk(),
             &ecdh_shared_secret,
-            0u32,
+            derivation_order,
             None,
         ));
 
diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 6f39e82..c29f388 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -192,7 +192,8 @@ impl BlindbitSubscriber {
                     }
                 }
             })
-            .buffer_unordered(200);
+            // in order of height, a block can spend what the ones before it paid
+            .buffered(200);
 
         let read = self.db.lock().unwrap().begin_read().unwrap();
         let table = read.open_table(TABLE_DEF).unwrap();
@@ -224,6 +225,24 @@ impl BlindbitSubscriber {
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
                     .unwrap();
+
+                let received = tweaks
+                    .par_iter()
+                    .flat_map_iter(|tweak| {
+                        (0..)
+                            .map(|order| {
+                                let mut spks =
+                                    self.indexer.derive_spks_for_tweak_and_order(tweak, order);
+                                spks.retain(|spk| {
+                                    filter.match_any(&hash, std::iter::once(*spk)).unwrap()
+                                });
+                                spks
+                            })
+                            .take_while(|spks| !spks.is_empty())
+                            .flatten()
+                    })
+                    .collect::<Vec<[u8; 34]>>();
+                self.unspent_script_pubkeys.extend(received);
             }
         }
     }
-- 
2.43.0


From 79831f0c204be132f67e5d1a4c6bc1e156a45820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 37/50] fix: new-tx fails to pay the change code when there is
 no change

It derived an output for the change which is not there.
---
 cli/v2/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index e79c3cc..4a9200d 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -641,7 +641,7 @@ async fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let mut sp_recipients: Vec<SilentPaymentCode> = vec![wallet.get_change_address()];
+            let mut sp_recipients: Vec<SilentPaymentCode> = vec![];
             if let Some(sp_codes) = maybe_sp_codes {
                 for (mut sp_code, value) in sp_codes {
                     // all test networks but regtest share a prefix
@@ -671,6 +671,7 @@ async fn main() -> anyhow::Result<()> {
                 let script = ScriptBuf::new_op_return(bytes);
                 outputs.push(Output::with_script(script, Amount::from_sat(0)));
             }
+            let n_outputs = outputs.len();
 
             let (tip_height, tip_time) = wallet.tip_info();
             let longterm_feerate = FeeRate::from_sat_per_vb_unchecked(1);
@@ -708,6 +709,10 @@ async fn main() -> anyhow::Result<()> {
                 fallback_sequence: Sequence::ENABLE_RBF_NO_LOCKTIME,
                 ..Default::default()
             })?;
+            // there is no change if all of the selected coins is spent
+            if psbt.outputs.len() > n_outputs {
+                sp_recipients.push(wallet.get_change_address());
+            }
 
             let finalizer = selection.clone().into_finalizer();
             let descriptor = descriptor.expect("already checked is some");
-- 
2.43.0


From df0ccddec67d9230f3829d124f1bb0d8b2a30db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 38/50] fix: sp-cli2 create panics when the wallet cannot be
 stored

---
 cli/v2/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 4a9200d..2b2ff6f 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -822,7 +822,7 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
             let wallet = SpWallet::new(birthday, block_hash, &tr_xprv, network).unwrap();
             let mut db = Store::<ChangeSet>::create(db_magic, db_path)?;
             if let Some(stage) = wallet.staged() {
-                db.append(stage).unwrap();
+                db.append(stage)?;
             }
             Ok(None)
         }
-- 
2.43.0


From 4cbb5d453a0790e6c4946eb62c221316704fca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 39/50] fix: sp-cli1 panics on a wallet file in which nothing
 was stored

---
 cli/v1/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 2730897..02b2bb2 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -1052,7 +1052,7 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
             let (db, changeset) =
                 Store::<ChangeSet>::load(db_magic, db_path).context("could not open file store")?;
 
-            let changeset = changeset.expect("should not be empty");
+            let changeset = changeset.context("the file store is empty")?;
 
             let network = changeset.network.expect("changeset network");
             let sp_code = if let (Some(scan_d), Some(spend_d)) =
-- 
2.43.0


From 06fffaf99b99da7f53662690110725cd5a29b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 40/50] fix: a loaded wallet stages its whole state again

---
 wallet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index c4181a1..b89c8e7 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -614,7 +614,7 @@ impl TryFrom<ChangeSet> for SpWallet {
                 network,
                 chain,
                 indexer,
-                stage: value,
+                stage: ChangeSet::default(),
             })
         } else {
             Err(())
-- 
2.43.0


From 2ab84fb4bc45d6b8bced4e71b494c41da83995d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 41/50] fix: sp-cli1 panics on scan descriptors without an
 extended private key

---
 cli/v1/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 02b2bb2..d3e57e1 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -1108,7 +1108,7 @@ fn get_sk_from_sp_descriptor(desc_str: String) -> Result<SecretKey, anyhow::Erro
             let derived_key = privkey.xkey.derive_priv(&secp, &privkey.derivation_path)?;
             Ok(derived_key.private_key)
         }
-        _ => unimplemented!("multi xkey signer"),
+        _ => bail!("only extended private keys with a single path are supported"),
     }
 }
 
-- 
2.43.0


From 9ca04607953053a02d92ba70eeffa3fe3ed881f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 42/50] fix: sp-cli1 derives codes, payments and scans with
 keys of other wallets

---
 cli/v1/src/main.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index d3e57e1..7a3b385 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -29,7 +29,7 @@ use bdk_sp::{
         bip32::{self, DerivationPath},
         constants,
         key::{Keypair, UntweakedPublicKey},
-        secp256k1::{Message, Scalar, Secp256k1, SecretKey},
+        secp256k1::{Message, PublicKey, Scalar, Secp256k1, SecretKey},
         sighash::{Prevouts, SighashCache},
         taproot::Signature,
         transaction::Version,
@@ -345,7 +345,7 @@ fn main() -> anyhow::Result<()> {
                 }
                 Some(_) if scan_descriptor.is_none() => bail!("unable to generate labelled silent payment code without spend private descriptor"),
                 Some(m) => {
-                    let scan_sk = get_sk_from_sp_descriptor(scan_descriptor.unwrap())?;
+                    let scan_sk = get_sk_from_sp_descriptor(scan_descriptor.unwrap(), &sp_code.scan)?;
                     let labelled_sp_code = indexes.add_label(sp_code, scan_sk, m)?;
                     {
                         let db = &mut *db.lock().unwrap();
@@ -481,8 +481,11 @@ fn main() -> anyhow::Result<()> {
             let graph = &mut *graph.lock().unwrap();
 
             let start = Instant::now();
-            let scan_sk = get_sk_from_sp_descriptor(scan_descriptor)?;
+            let scan_sk = get_sk_from_sp_descriptor(scan_descriptor, &sp_code.scan)?;
             let silent_payment_code = SilentPaymentCode::try_from(silent_payment_code.as_str())?;
+            if silent_payment_code.spend != sp_code.spend {
+                bail!("the silent payment code does not belong to the wallet")
+            }
 
             let rpc_client = rpc_args.new_client()?;
             let custom_client = Custom(&rpc_client);
@@ -831,7 +834,7 @@ fn main() -> anyhow::Result<()> {
             }
 
             if !sp_codes.is_empty() {
-                let spend_sk = get_sk_from_sp_descriptor(spend_descriptor)?;
+                let spend_sk = get_sk_from_sp_descriptor(spend_descriptor, &sp_code.spend)?;
                 let spouts = selected.into_iter().map(|x| x.0).collect::<Vec<SpOut>>();
                 let just_sp_codes = sp_codes
                     .clone()
@@ -897,7 +900,7 @@ fn main() -> anyhow::Result<()> {
             spend_descriptor,
         } => {
             let secp = Secp256k1::new();
-            let spend_sk = get_sk_from_sp_descriptor(spend_descriptor)?;
+            let spend_sk = get_sk_from_sp_descriptor(spend_descriptor, &sp_code.spend)?;
             let mut psbt = Psbt::from_str(psbt.as_str())?;
             let sighash_type = TapSighashType::Default;
             let prevouts = psbt
@@ -1031,7 +1034,7 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
 
             let sp_code = get_sp_code_from_descriptors(&scan, &spend, network)?;
 
-            let scan_sk = get_sk_from_sp_descriptor(scan_descriptor)?;
+            let scan_sk = get_sk_from_sp_descriptor(scan_descriptor, &sp_code.scan)?;
             indexes.add_label(sp_code, scan_sk, CHANGE_LABEL)?;
 
             changeset.indexes = indexes.into();
@@ -1089,7 +1092,11 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
     }
 }
 
-fn get_sk_from_sp_descriptor(desc_str: String) -> Result<SecretKey, anyhow::Error> {
+/// Get the private key of `pubkey`, a key of the wallet, from a private descriptor.
+fn get_sk_from_sp_descriptor(
+    desc_str: String,
+    pubkey: &PublicKey,
+) -> Result<SecretKey, anyhow::Error> {
     let secp = Secp256k1::signing_only();
     let (descriptor, keymap) = Descriptor::parse_descriptor(&secp, &desc_str)?;
 
@@ -1106,6 +1113,9 @@ fn get_sk_from_sp_descriptor(desc_str: String) -> Result<SecretKey, anyhow::Erro
     match keymap.iter().next().expect("not empty") {
         (_, DescriptorSecretKey::XPrv(privkey)) => {
             let derived_key = privkey.xkey.derive_priv(&secp, &privkey.derivation_path)?;
+            if derived_key.private_key.public_key(&secp) != *pubkey {
+                bail!("the descriptor does not belong to the wallet")
+            }
             Ok(derived_key.private_key)
         }
         _ => bail!("only extended private keys with a single path are supported"),
-- 
2.43.0


From 8d2afc37f79b2a56432eb8ac9a7d7ad0253b989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 43/50] fix: sign-psbt panics when a previous output is missing

---
 cli/v1/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 7a3b385..7f0f7f2 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -906,8 +906,9 @@ fn main() -> anyhow::Result<()> {
             let prevouts = psbt
                 .inputs
                 .iter()
-                .map(|x| x.witness_utxo.clone().unwrap())
-                .collect::<Vec<TxOut>>();
+                .map(|x| x.witness_utxo.clone())
+                .collect::<Option<Vec<TxOut>>>()
+                .context("the previous output of an input is missing")?;
             let prevouts = Prevouts::All(&prevouts);
 
             let mut sighash_cache = SighashCache::new(&psbt.unsigned_tx);
-- 
2.43.0


From 52afad1d0c38c459c47d5a431810b805f9446ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 44/50] fix: SpWallet::new panics on descriptors it cannot use

---
 wallet/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index b89c8e7..c22ce4a 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -118,6 +118,9 @@ pub enum SpWalletError {
     PrivateDataNotAvailable,
     /// Indicates that the provided descriptor is not a Taproot descriptor.
     NonTaprootDescriptor,
+    /// Indicates that the provided descriptor cannot be parsed or is not of a single extended
+    /// private key.
+    InvalidDescriptor,
 }
 
 impl SpWallet {
@@ -150,6 +153,8 @@ impl SpWallet {
     ///
     /// * [`SpWalletError::NonTaprootDescriptor`] if the provided descriptor is not a Taproot descriptor.
     /// * [`SpWalletError::PrivateDataNotAvailable`] if the descriptor cannot provide private key data.
+    /// * [`SpWalletError::InvalidDescriptor`] if the descriptor cannot be parsed or is not of a
+    ///   single extended private key.
     pub fn new(
         birthday: BlockId,
         genesis_hash: BlockHash,
@@ -172,7 +177,8 @@ impl SpWallet {
             .unwrap();
 
         let secp = Secp256k1::signing_only();
-        let (descriptor, keymap) = Descriptor::parse_descriptor(&secp, tr_xprv).unwrap();
+        let (descriptor, keymap) = Descriptor::parse_descriptor(&secp, tr_xprv)
+            .map_err(|_| SpWalletError::InvalidDescriptor)?;
 
         if descriptor.desc_type() != DescriptorType::Tr {
             return Err(SpWalletError::NonTaprootDescriptor);
@@ -190,7 +196,7 @@ impl SpWallet {
                 let spend_pk = spend_xprv.private_key.public_key(&secp);
                 (scan_sk, spend_pk)
             }
-            _ => unimplemented!("only supported single xkeys"),
+            _ => return Err(SpWalletError::InvalidDescriptor),
         };
 
         let mut indexer = SpIndexer::new(scan_sk, spend_pk);
-- 
2.43.0


From 43a04aae5aa8d4e6154cadd840fa77f4aa9318a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 45/50] fix: new-tx panics on recipients and keys it cannot use

---
 cli/v2/src/main.rs    | 11 ++++++-----
 wallet/src/signers.rs | 15 +++++++++------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2b2ff6f..d4f154e 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -631,9 +631,7 @@ async fn main() -> anyhow::Result<()> {
             let mut outputs = vec![];
             if let Some(addresses) = maybe_addresses {
                 for (address, value) in addresses {
-                    let checked_address = address
-                        .require_network(wallet.network())
-                        .expect("will fix later");
+                    let checked_address = address.require_network(wallet.network())?;
                     outputs.push(Output::with_script(
                         checked_address.script_pubkey(),
                         Amount::from_sat(value),
@@ -716,7 +714,8 @@ async fn main() -> anyhow::Result<()> {
 
             let finalizer = selection.clone().into_finalizer();
             let descriptor = descriptor.expect("already checked is some");
-            let spend_sk = get_spend_sk(&descriptor, wallet.network());
+            let spend_sk = get_spend_sk(&descriptor, wallet.network())
+                .map_err(|e| anyhow::anyhow!("Cannot use the descriptor: {e:?}"))?;
 
             for i in 0..psbt.inputs.len() {
                 let tweak = wallet
@@ -734,7 +733,9 @@ async fn main() -> anyhow::Result<()> {
 
             let spend_prv = PrivateKey::new(spend_sk, wallet.network());
             let spend_pub = bitcoin::PublicKey::new(*wallet.indexer().spend_pk());
-            assert_eq!(spend_prv.public_key(&secp), spend_pub);
+            if spend_prv.public_key(&secp) != spend_pub {
+                bail!("The descriptor does not belong to the wallet");
+            }
             let mut spend_keys = HashMap::<bitcoin::PublicKey, PrivateKey>::new();
             spend_keys.insert(spend_pub, spend_prv);
 
diff --git a/wallet/src/signers.rs b/wallet/src/signers.rs
index 16aef06..8235680 100644
--- a/wallet/src/signers.rs
+++ b/wallet/src/signers.rs
@@ -1,3 +1,4 @@
+use crate::SpWalletError;
 use bdk_sp::bitcoin::{
     bip32::DerivationPath,
     key::Secp256k1,
@@ -23,7 +24,7 @@ pub fn populate_sp_keymap(spend_sk: &SecretKey, index: &SpIndex, network: Networ
     keymap
 }
 
-pub fn get_spend_sk(descriptor_str: &str, network: Network) -> SecretKey {
+pub fn get_spend_sk(descriptor_str: &str, network: Network) -> Result<SecretKey, SpWalletError> {
     let spend_derivation = "0h/0";
     let path = if let Network::Bitcoin = network {
         "352h/0h/0h"
@@ -33,13 +34,15 @@ pub fn get_spend_sk(descriptor_str: &str, network: Network) -> SecretKey {
     let spend_derivation = DerivationPath::from_str(&format!("{path}/{spend_derivation}")).unwrap();
 
     let secp = Secp256k1::signing_only();
-    let (_, keymap) = Descriptor::parse_descriptor(&secp, descriptor_str).unwrap();
+    let (_, keymap) = Descriptor::parse_descriptor(&secp, descriptor_str)
+        .map_err(|_| SpWalletError::InvalidDescriptor)?;
 
-    match keymap.iter().next().expect("not empty") {
-        (_, DescriptorSecretKey::XPrv(privkey)) => {
+    match keymap.iter().next() {
+        Some((_, DescriptorSecretKey::XPrv(privkey))) => {
             let spend_xprv = privkey.xkey.derive_priv(&secp, &spend_derivation).unwrap();
-            spend_xprv.private_key
+            Ok(spend_xprv.private_key)
         }
-        _ => unimplemented!("only supported single xkeys"),
+        Some(_) => Err(SpWalletError::InvalidDescriptor),
+        None => Err(SpWalletError::PrivateDataNotAvailable),
     }
 }
-- 
2.43.0


From 757bc72f049d9da545f40890e84dc6bdd9a4e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 46/50] fix: to-silent-payment panics on descriptors without a
 single extended key

---
 cli/v1/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 7f0f7f2..2499d92 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -403,7 +403,7 @@ fn main() -> anyhow::Result<()> {
 
             let master_privkey = match keymap.iter().next().expect("not empty") {
                 (_, DescriptorSecretKey::XPrv(privkey)) => privkey.xkey,
-                _ => unimplemented!("multi xkey signer"),
+                _ => bail!("only extended private keys with a single path are supported"),
             };
 
             let sp_sender = XprivSilentPaymentSender::new(master_privkey);
-- 
2.43.0


From 5e54af64688f17df458308209a88f989336bb48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 47/50] fix: sp-cli2 panics on transactions and networks it
 does not know

---
 cli/v2/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index d4f154e..71287c4 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -249,7 +249,7 @@ async fn main() -> anyhow::Result<()> {
                     Transaction::consensus_decode_from_finite_reader(&mut tx_bytes.as_slice())?;
                 tx
             } else if let Some(txid) = maybe_txid {
-                rpc_client.get_raw_transaction(&txid, None).unwrap()
+                rpc_client.get_raw_transaction(&txid, None)?
             } else {
                 bail!("Should provide a txid to request tx or the serialized tx")
             };
@@ -378,7 +378,7 @@ async fn main() -> anyhow::Result<()> {
                         ServiceFlags::P2P_V2,
                     ));
                 }
-                _ => unimplemented!("Not mainnet nor testnet environments"),
+                _ => bail!("Not mainnet nor testnet environments"),
             };
 
             if let Some(extra_peer) = maybe_extra_peer {
-- 
2.43.0


From 193e4df59128abed6b9ee7c6ff470e60e41239aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 48/50] fix: half of the rpc credentials causes panics

---
 cli/v1/src/main.rs | 4 ++--
 cli/v2/src/main.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 2499d92..8c2ab04 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -139,8 +139,8 @@ impl RpcArgs {
             match (&self.rpc_user, &self.rpc_password) {
                 (None, None) => Auth::None,
                 (Some(user), Some(pass)) => Auth::UserPass(user.clone(), pass.clone()),
-                (Some(_), None) => panic!("rpc auth: missing rpc_pass"),
-                (None, Some(_)) => panic!("rpc auth: missing rpc_user"),
+                (Some(_), None) => bail!("rpc auth: missing rpc_pass"),
+                (None, Some(_)) => bail!("rpc auth: missing rpc_user"),
             },
         )?)
     }
diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 71287c4..fce7b1f 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -118,8 +118,8 @@ impl RpcArgs {
             match (&self.rpc_user, &self.rpc_password) {
                 (None, None) => Auth::None,
                 (Some(user), Some(pass)) => Auth::UserPass(user.clone(), pass.clone()),
-                (Some(_), None) => panic!("rpc auth: missing rpc_pass"),
-                (None, Some(_)) => panic!("rpc auth: missing rpc_user"),
+                (Some(_), None) => bail!("rpc auth: missing rpc_pass"),
+                (None, Some(_)) => bail!("rpc auth: missing rpc_user"),
             },
         )?)
     }
-- 
2.43.0


From a1cbdf22ff7756efaf5c74ddc002babd62c282ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 49/50] fix: new-psbt pays silent payment codes of other
 networks

---
 cli/v1/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 8c2ab04..e00c9e0 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -686,11 +686,17 @@ fn main() -> anyhow::Result<()> {
             let chain_tip = chain.get_chain_tip()?;
             let mut sp_codes = <Vec<(ScriptBuf, SilentPaymentCode)>>::new();
             let final_address = match (&silent_payment_code, address) {
-                (Some(sp_code), None) => {
-                    sp_codes.push((
-                        fake_address.script_pubkey(),
-                        SilentPaymentCode::try_from(sp_code.as_str())?,
-                    ));
+                (Some(recipient), None) => {
+                    let recipient = SilentPaymentCode::try_from(recipient.as_str())?;
+                    // all test networks but regtest share a prefix
+                    let same_network = match sp_code.network {
+                        Network::Bitcoin | Network::Regtest => recipient.network == sp_code.network,
+                        _ => !matches!(recipient.network, Network::Bitcoin | Network::Regtest),
+                    };
+                    if !same_network {
+                        bail!("silent payment code {recipient} is for another network");
+                    }
+                    sp_codes.push((fake_address.script_pubkey(), recipient));
                     fake_address.clone()
                 }
                 (None, Some(address)) => address.require_network(sp_code.network)?,
-- 
2.43.0


From 706ca3d74407cc9bc0e4a28ce17e930db17f6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 50/50] fix: amounts and fee rates beyond all money cause
 overflows

---
 cli/v1/src/main.rs |  4 ++++
 cli/v2/src/main.rs | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index e00c9e0..04da193 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -683,6 +683,10 @@ fn main() -> anyhow::Result<()> {
             let chain = &*chain.lock().unwrap();
             let graph = &*graph.lock().unwrap();
 
+            if value > Amount::MAX_MONEY.to_sat() {
+                bail!("there is no such amount: {value}");
+            }
+
             let chain_tip = chain.get_chain_tip()?;
             let mut sp_codes = <Vec<(ScriptBuf, SilentPaymentCode)>>::new();
             let final_address = match (&silent_payment_code, address) {
diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index fce7b1f..7a3379b 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -77,6 +77,9 @@ fn parse_recipients(s: &str) -> Result<(Address<NetworkUnchecked>, u64), String>
         .trim()
         .parse::<u64>()
         .map_err(|_| format!("Invalid number '{}' for key '{}'", parts[1], value_0))?;
+    if value > Amount::MAX_MONEY.to_sat() {
+        return Err(format!("There is no such amount: {value}"));
+    }
     Ok((address, value))
 }
 
@@ -94,6 +97,9 @@ fn parse_sp_recipients(s: &str) -> Result<(SilentPaymentCode, u64), String> {
         .trim()
         .parse::<u64>()
         .map_err(|_| format!("Invalid number '{}' for key '{}'", parts[1], key))?;
+    if value > Amount::MAX_MONEY.to_sat() {
+        return Err(format!("There is no such amount: {value}"));
+    }
 
     Ok((key, value))
 }
@@ -628,6 +634,8 @@ async fn main() -> anyhow::Result<()> {
             data,
         } => {
             let secp = Secp256k1::new();
+            let fee_rate =
+                FeeRate::from_sat_per_vb(fee_rate).context("The fee rate is too high")?;
             let mut outputs = vec![];
             if let Some(addresses) = maybe_addresses {
                 for (address, value) in addresses {
@@ -682,7 +690,7 @@ async fn main() -> anyhow::Result<()> {
                 .into_selection(
                     selection_algorithm_lowest_fee_bnb(longterm_feerate, 100_000),
                     SelectorParams::new(
-                        bdk_tx::FeeStrategy::FeeRate(FeeRate::from_sat_per_vb_unchecked(fee_rate)),
+                        bdk_tx::FeeStrategy::FeeRate(fee_rate),
                         outputs,
                         bdk_tx::ScriptSource::from_script(
                             wallet.get_change_address().get_placeholder_p2tr_spk(),
-- 
2.43.0

