From b8e87c96502e97d2f016bb62e601cff69c6df18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 01/42] fix: refuse a silent payment code without a data part

SilentPaymentCode::try_from indexed into an empty list, and so panicked, on a
bech32m string whose data part holds nothing but the checksum.
---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..53c3846 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = payload
+            .next()
+            .ok_or(VersionError::WrongPayloadLength)?
+            .to_u8();
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From 731517995b4b130c2662f1280f46c1072df403b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 02/42] fix: refuse silent payment codes with a non canonical
 padding

The groups left over after the last whole byte were dropped whatever they
held, so that many strings with a valid checksum were read as one code.
---
 silentpayments/src/encoding/error.rs | 4 ++++
 silentpayments/src/encoding/mod.rs   | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/error.rs b/silentpayments/src/encoding/error.rs
index 9d4bff5..abd5cdf 100644
--- a/silentpayments/src/encoding/error.rs
+++ b/silentpayments/src/encoding/error.rs
@@ -11,6 +11,8 @@ pub enum ParseError {
     UnknownHrp(UnknownHrpError),
     /// Some public key couldn't be derived from the provided payload
     InvalidPubKey(secp256k1::Error),
+    /// The payload is not padded with zeros to the next 5 bits
+    InvalidPadding,
 }
 
 impl core::error::Error for ParseError {
@@ -22,6 +24,7 @@ impl core::error::Error for ParseError {
             Version(ref e) => Some(e),
             UnknownHrp(ref e) => Some(e),
             InvalidPubKey(ref e) => Some(e),
+            InvalidPadding => None,
         }
     }
 }
@@ -35,6 +38,7 @@ impl core::fmt::Display for ParseError {
             Version(ref e) => e.fmt(f),
             UnknownHrp(ref e) => e.fmt(f),
             InvalidPubKey(ref e) => e.fmt(f),
+            InvalidPadding => write!(f, "invalid padding of the payload"),
         }
     }
 }
diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index 53c3846..6845dc6 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -330,7 +330,12 @@ impl TryFrom<&str> for SilentPaymentCode {
             .next()
             .ok_or(VersionError::WrongPayloadLength)?
             .to_u8();
-        let data = payload.fes_to_bytes().collect::<Vec<u8>>();
+        let groups = payload.collect::<Vec<Fe32>>();
+        let data = groups.iter().copied().fes_to_bytes().collect::<Vec<u8>>();
+        // What is left of the groups after the last whole byte should be less than a group of zeros
+        if !data.iter().copied().bytes_to_fes().eq(groups) {
+            return Err(ParseError::InvalidPadding);
+        }
         let keys = match version {
             0 => {
                 if data.len() != 66 {
-- 
2.43.0


From b7d25c9726f6e7e30399017ffded59c8c3a9ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 03/42] fix: do not panic on a taproot witness with a short
 control block

Transactions seen before the activation of taproot, or handed over by an
untrusted source, may have a witness whose last element is too short to be a
control block.
---
 silentpayments/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..5fbeebc 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,7 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| control_block.get(1..33) == Some(&NUMS_H[..]))
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From 369e84ea0b69e889f63260e9da1dcb688d2bdd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 04/42] fix: allow the sender's keys to cancel along the way

Adding up the secret keys of the inputs failed when the first few of them sum
to zero, although the total is fine and the recipients can compute the shared
secret.
---
 silentpayments/src/send/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..f0cc9cb 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -45,12 +45,15 @@ pub fn create_silentpayment_partial_secret(
         return Err(SpSendError::MissingInputsForSharedSecretDerivation);
     }
 
-    // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
-    // Then skip first element to avoid reuse
-    for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
-    }
+    // A partial sum may well be zero, only the total can't. As zero is not a valid secret key, None
+    // stands for it.
+    let a_sum = available_keys
+        .iter()
+        .fold(None::<SecretKey>, |a_sum, sk| match a_sum {
+            Some(a_sum) => a_sum.add_tweak(&Scalar::from(*sk)).ok(),
+            None => Some(*sk),
+        })
+        .ok_or(bitcoin::secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From 3dff1179327d2476e6ea665aada06441fb1ecce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 05/42] fix: tweak only the taproot keys of an extended key
 sender

The keys of P2WPKH, nested P2WPKH and P2PKH inputs were tweaked as if they
were the internal keys of a taproot output, so that no recipient could find
the payment.
---
 silentpayments/src/send/bip32.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..8f3b769 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -36,6 +36,13 @@ impl XprivSilentPaymentSender {
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
             let mut internal_privkey = bip32_privkey.private_key;
+
+            // Only the keys of taproot outputs are tweaked
+            if !spk.is_p2tr() {
+                spks_with_keys.push((spk.clone(), internal_privkey));
+                continue;
+            }
+
             let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
 
             if let Parity::Odd = parity {
-- 
2.43.0


From 9f7db0e6de92fecc5ce857935d93e2569d4473ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 06/42] fix: leave out P2SH inputs that are not nested P2WPKH
 from the extended key sender

Receivers ignore such inputs, so a sender who counts them pays to outputs
nobody can find.
---
 silentpayments/src/send/bip32.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index 8f3b769..654830e 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use bitcoin::{
     bip32::{DerivationPath, Xpriv},
-    key::{Parity, Secp256k1},
+    key::{CompressedPublicKey, Parity, Secp256k1},
     secp256k1::SecretKey,
     OutPoint, ScriptBuf, TapTweakHash, XOnlyPublicKey,
 };
@@ -37,6 +37,15 @@ impl XprivSilentPaymentSender {
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
             let mut internal_privkey = bip32_privkey.private_key;
 
+            // The only eligible P2SH outputs are those nesting the P2WPKH output of the key
+            if spk.is_p2sh() {
+                let pubkey = CompressedPublicKey(internal_privkey.public_key(&secp));
+                let redeem_script = ScriptBuf::new_p2wpkh(&pubkey.wpubkey_hash());
+                if *spk != redeem_script.to_p2sh() {
+                    continue;
+                }
+            }
+
             // Only the keys of taproot outputs are tweaked
             if !spk.is_p2tr() {
                 spks_with_keys.push((spk.clone(), internal_privkey));
-- 
2.43.0


From fbebb28485b57018894dbb6c19b943b56b521292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 07/42] fix: read both the witness and the script_sig of
 finalized PSBT inputs

---
 silentpayments/src/send/psbt/mod.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..ca79185 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -314,7 +314,7 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Builds a complete transaction input with witness or script_sig data from [`Psbt`] input.
 ///
 /// This function constructs a complete [`TxIn`] by copying the base transaction input and adding
-/// the final witness or script_sig from the [`Psbt`] input data. For this step to succeed is
+/// the final witness and script_sig from the [`Psbt`] input data. For this step to succeed is
 /// important the [`Psbt`] is finalized.
 ///
 /// # Arguments
@@ -327,19 +327,20 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Returns a complete [`TxIn`] with witness or script_sig populated, or a [`SpSendError`] if
 /// neither final witness nor script_sig is available.
 fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSendError> {
+    if psbt_input.final_script_witness.is_none() && psbt_input.final_script_sig.is_none() {
+        return Err(SpSendError::MissingWitness);
+    }
+
+    // Nested segwit inputs have both
+    let mut full_txin = txin.clone();
     if let Some(ref witness) = psbt_input.final_script_witness {
-        Ok(TxIn {
-            witness: witness.clone(),
-            ..txin.clone()
-        })
-    } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-        Ok(TxIn {
-            script_sig: script_sig.clone(),
-            ..txin.clone()
-        })
-    } else {
-        Err(SpSendError::MissingWitness)
+        full_txin.witness = witness.clone();
+    }
+    if let Some(ref script_sig) = psbt_input.final_script_sig {
+        full_txin.script_sig = script_sig.clone();
     }
+
+    Ok(full_txin)
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-- 
2.43.0


From 7b5f8bf6af5424b2b6859a115b71414d1d021dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 08/42] fix: derive PSBT outputs only with the right keys of
 all the eligible inputs

---
 silentpayments/src/send/psbt/mod.rs | 46 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index ca79185..50eebbf 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -233,6 +233,7 @@ where
 {
     let mut data_for_partial_secret = DataForPartialSecret::default();
     let mut lex_min = LexMin::default();
+    let mut missing_keys = false;
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
@@ -241,27 +242,30 @@ where
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
-            extract_pubkey(full_txin.clone(), &prevout)
-                .map(|pubkey_data| match pubkey_data {
-                    (SpInputs::Tr, even_tr_output_key) => {
-                        match get_taproot_secret(psbt_input, k, secp) {
-                            Ok(Some(secret)) => {
-                                let (xonly, _) = secret.x_only_public_key(secp);
-                                if even_tr_output_key == xonly.public_key(Parity::Even) {
-                                    Ok(Some(secret))
-                                } else {
-                                    Err(SpSendError::KeyError)
-                                }
-                            }
-                            Ok(None) => Ok(None),
-                            Err(_) => Err(SpSendError::KeyError),
+            match extract_pubkey(full_txin, &prevout) {
+                Some((input_type, input_pubkey)) => {
+                    let maybe_secret = match input_type {
+                        SpInputs::Tr => get_taproot_secret(psbt_input, k, secp),
+                        _ => get_non_taproot_secret(psbt_input, k, secp),
+                    }
+                    .map_err(|_| SpSendError::KeyError)?;
+
+                    if let Some(secret) = maybe_secret {
+                        let mut pubkey = secret.public_key(secp);
+                        if let SpInputs::Tr = input_type {
+                            pubkey = pubkey.x_only_public_key().0.public_key(Parity::Even);
+                        }
+                        if pubkey != input_pubkey {
+                            return Err(SpSendError::KeyError);
                         }
+                    } else {
+                        missing_keys = true;
                     }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
-                })
-                .transpose()?
-                .flatten()
+
+                    maybe_secret
+                }
+                None => None,
+            }
         };
 
         if let Some(secret_key) = maybe_secret_key {
@@ -275,6 +279,10 @@ where
 
     if data_for_partial_secret.scripts_with_secrets.is_empty() {
         Err(SpSendError::MissingInputsForSharedSecretDerivation)
+    } else if missing_keys {
+        // The receiver is going to use the public keys of all the inputs available for shared
+        // secret derivation: leaving one out would make the payment impossible to find.
+        Err(SpSendError::KeyError)
     } else {
         data_for_partial_secret.lex_min_outpoint = lex_min
             .bytes()
-- 
2.43.0


From e43a820f9e3328f2d4782b28799c3b9918dae6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 09/42] fix: take the taproot secret of a PSBT input from its
 internal key

---
 silentpayments/src/send/psbt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 50eebbf..0d600ad 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -457,6 +457,12 @@ where
     psbt_input
         .tap_key_origins
         .iter()
+        // The output key is a tweak of the internal key, other origins are keys of the leaves
+        .filter(|(xonly, _)| {
+            psbt_input
+                .tap_internal_key
+                .map_or(true, |internal_key| internal_key == **xonly)
+        })
         .find_map(|key_origin| match try_tr_keys(key_origin) {
             Ok(Some(private_key)) => Some(Ok(get_taproot_output_key(private_key))),
             Ok(None) => None,
-- 
2.43.0


From ed95736ce6277d82c97ecfdb146533430fce125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 10/42] fix: leave a PSBT as it is when its silent payments
 cannot be derived

---
 silentpayments/src/send/psbt/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 0d600ad..fb3c132 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -13,7 +13,7 @@ use bitcoin::{
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
     psbt::{self, GetKey, KeyRequest},
     secp256k1::{SecretKey, Signing},
-    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
+    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, XOnlyPublicKey,
 };
 
 #[cfg(feature = "psbt_sp_spend")]
@@ -548,6 +548,7 @@ fn update_outputs(
         map
     };
 
+    let mut new_spks = <Vec<(usize, ScriptBuf)>>::new();
     for (sp_code, x_only_pks) in silent_payments.iter() {
         let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
 
@@ -558,17 +559,17 @@ fn update_outputs(
                 Ordering::Equal => {
                     for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
                         let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
-                        let value = psbt.unsigned_tx.output[*idx].value;
-
-                        psbt.unsigned_tx.output[*idx] = TxOut {
-                            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
-                            value,
-                        };
+                        new_spks.push((*idx, ScriptBuf::new_p2tr_tweaked(x_only_tweaked)));
                     }
                 }
             }
         }
     }
 
+    // Replace the placeholders only once nothing can fail anymore
+    for (idx, script_pubkey) in new_spks {
+        psbt.unsigned_tx.output[idx].script_pubkey = script_pubkey;
+    }
+
     Ok(())
 }
-- 
2.43.0


From 593cb55313b5fa7b6f265710e71f05a8726efee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 11/42] fix: derive PSBT outputs only for the recipients that
 have one

---
 silentpayments/src/send/psbt/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index fb3c132..97a1e50 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -199,7 +199,20 @@ where
 
     let partial_secret =
         create_silentpayment_partial_secret(&lex_min_outpoint, &scripts_with_secrets)?;
-    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, recipients);
+    // Recipients without outputs should not take a derivation from the others sharing its scan key,
+    // as receivers stop scanning at the first missing one.
+    let recipients = recipients
+        .iter()
+        .filter(|sp_code| {
+            let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
+            psbt.unsigned_tx
+                .output
+                .iter()
+                .any(|txout| txout.script_pubkey == placeholder_spk)
+        })
+        .cloned()
+        .collect::<Vec<_>>();
+    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, &recipients);
 
     update_outputs(psbt, &silent_payments)?;
 
-- 
2.43.0


From cdf1bb21727ef57845904ecf5f627e53ad9671bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 12/42] fix: ignore silent payment spend data of PSBT inputs
 that is malformed or of other keys

---
 silentpayments/src/send/psbt/mod.rs  |  46 ++--------
 silentpayments/src/send/psbt/sign.rs | 131 ++++++++++++++++-----------
 2 files changed, 87 insertions(+), 90 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 97a1e50..f2a489f 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -16,9 +16,6 @@ use bitcoin::{
     PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, XOnlyPublicKey,
 };
 
-#[cfg(feature = "psbt_sp_spend")]
-use bitcoin::secp256k1::{PublicKey, Scalar};
-
 use std::{
     cmp::Ordering,
     collections::{BTreeMap, HashMap},
@@ -251,7 +248,8 @@ where
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
 
-        let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, k, secp) {
+        let maybe_sp_secret = get_sp_secret(psbt_input, &prevout, k, secp);
+        let maybe_secret_key = if let Ok(Some(secret)) = maybe_sp_secret {
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
@@ -365,7 +363,12 @@ fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSend
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-fn get_sp_secret<C, K, E>(_: &psbt::Input, _: &K, _: &Secp256k1<C>) -> Result<Option<SecretKey>, E>
+fn get_sp_secret<C, K, E>(
+    _: &psbt::Input,
+    _: &ScriptBuf,
+    _: &K,
+    _: &Secp256k1<C>,
+) -> Result<Option<SecretKey>, E>
 where
     C: Signing + Verification,
     K: GetKey<Error = E>,
@@ -376,6 +379,7 @@ where
 #[cfg(feature = "psbt_sp_spend")]
 fn get_sp_secret<C, K, E>(
     psbt_input: &psbt::Input,
+    prevout: &ScriptBuf,
     k: &K,
     secp: &Secp256k1<C>,
 ) -> Result<Option<SecretKey>, E>
@@ -383,37 +387,7 @@ where
     C: Signing + Verification,
     K: GetKey<Error = E>,
 {
-    for (key, value) in psbt_input.proprietary.clone() {
-        if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
-            } else {
-                continue;
-            };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
-            let spend_sk = if let Ok(Some(sk)) =
-                k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
-            {
-                sk
-            } else {
-                continue;
-            };
-            if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
-                return Ok(Some(sk));
-            }
-        }
-    }
-
-    Ok(None)
+    Ok(sign::find_spend_secret(psbt_input, prevout, k, secp))
 }
 
 /// Retrieves the secret key for a taproot input from [`Psbt`] data.
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..227b5e4 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -1,10 +1,10 @@
 use bitcoin::{
     key::{Keypair, Secp256k1, Verification},
-    psbt::{raw::ProprietaryKey, GetKey, KeyRequest},
-    secp256k1::{Message, PublicKey, Scalar, Signing},
+    psbt::{self, raw::ProprietaryKey, GetKey, KeyRequest},
+    secp256k1::{Message, PublicKey, Scalar, SecretKey, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
-    Psbt, TapSighashType, TxOut, XOnlyPublicKey,
+    Psbt, ScriptBuf, TapSighashType, TxOut, XOnlyPublicKey,
 };
 
 pub const SPEND_PK_SUBTYPE: u8 = 0x01;
@@ -29,68 +29,91 @@ pub fn add_sp_data_to_input(
     }
 }
 
-pub fn sign_sp<C, K>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>)
+/// Finds the secret key of the silent payment output spent by a [`Psbt`] input.
+///
+/// Spend data which is malformed, or does not belong to the output, is ignored.
+pub(super) fn find_spend_secret<C, K>(
+    psbt_input: &psbt::Input,
+    prevout: &ScriptBuf,
+    k: &K,
+    secp: &Secp256k1<C>,
+) -> Option<SecretKey>
 where
     C: Signing + Verification,
     K: GetKey,
 {
-    let tx = psbt.unsigned_tx.clone(); // clone because we need to mutably borrow when signing.
-    let mut cache = SighashCache::new(&tx);
+    if !prevout.is_p2tr() {
+        return None;
+    }
+    let output_key = XOnlyPublicKey::from_slice(&prevout.as_bytes()[2..]).ok()?;
 
-    for i in 0..psbt.inputs.len() {
-        for (key, value) in psbt.inputs[i].proprietary.clone() {
-            if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
+    psbt_input
+        .proprietary
+        .iter()
+        .filter(|(key, _)| key.prefix == b"bip352" && key.subtype == SPEND_PK_SUBTYPE)
+        .find_map(|(key, value)| {
+            let spend_pk = PublicKey::from_slice(&key.key).ok()?;
+            let tweak = Scalar::from_be_bytes(value.as_slice().try_into().ok()?).ok()?;
+            let tweaked_spend_pk = spend_pk.add_exp_tweak(secp, &tweak).ok()?;
+            if tweaked_spend_pk.x_only_public_key().0 != output_key {
+                return None;
+            }
+            let request = KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk));
+            let spend_sk = k.get_key(request, secp).ok()??;
+            let secret = spend_sk.inner.add_tweak(&tweak).ok()?;
+            (secret.x_only_public_key(secp).0 == output_key).then_some(secret)
+        })
+}
 
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
-                } else {
-                    continue;
-                };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
-                let spend_sk = if let Ok(Some(sk)) =
-                    k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
-                {
-                    sk
-                } else {
-                    continue;
-                };
-                if psbt.inputs[i].tap_key_sig.is_none()
-                    && tweaked_spend_pk.x_only_public_key().0 == output_key
-                {
-                    let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
-                        .inputs
-                        .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
-                    let prevouts = Prevouts::All(&prevouts);
+/// The previous outputs of all the inputs, if all of them are known.
+fn get_prevouts(psbt: &Psbt) -> Option<Vec<TxOut>> {
+    psbt.inputs
+        .iter()
+        .zip(psbt.unsigned_tx.input.iter())
+        .map(|(psbt_input, txin)| match &psbt_input.witness_utxo {
+            Some(txout) => Some(txout.clone()),
+            None => psbt_input
+                .non_witness_utxo
+                .as_ref()
+                .and_then(|tx| tx.output.get(txin.previous_output.vout as usize).cloned()),
+        })
+        .collect()
+}
 
-                    let sighash = cache
-                        .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
-                        .expect("failed to construct sighash");
+pub fn sign_sp<C, K>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>)
+where
+    C: Signing + Verification,
+    K: GetKey,
+{
+    let tx = psbt.unsigned_tx.clone(); // clone because we need to mutably borrow when signing.
+    let mut cache = SighashCache::new(&tx);
 
-                    // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-                    let msg = Message::from(sighash);
+    // Signatures commit to all the previous outputs
+    let prevouts = match get_prevouts(psbt) {
+        Some(prevouts) => prevouts,
+        None => return,
+    };
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
-                    let keypair = Keypair::from_secret_key(secp, &sk);
+    for (i, prevout) in prevouts.iter().enumerate() {
+        if psbt.inputs[i].tap_key_sig.is_some() {
+            continue;
+        }
+        let secret = find_spend_secret(&psbt.inputs[i], &prevout.script_pubkey, k, secp);
+        if let Some(sk) = secret {
+            let sighash_type = TapSighashType::Default;
+            let sighash = cache
+                .taproot_key_spend_signature_hash(i, &Prevouts::All(&prevouts), sighash_type)
+                .expect("failed to construct sighash");
 
-                    let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
+            // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+            let msg = Message::from(sighash);
+            let keypair = Keypair::from_secret_key(secp, &sk);
+            let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
 
-                    let signature = Signature {
-                        signature,
-                        sighash_type,
-                    };
-                    psbt.inputs[i].tap_key_sig = Some(signature);
-                }
-            }
+            psbt.inputs[i].tap_key_sig = Some(Signature {
+                signature,
+                sighash_type,
+            });
         }
     }
 }
-- 
2.43.0


From f9e8bbfc4b5ffa928d8fbb1d915902be689f107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 13/42] fix: skip transactions without a shared secret in the
 basic indexer

---
 indexer/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..902c831 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,10 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        // A transaction without a shared secret cannot have silent payment outputs
+        let Ok(ecdh_shared_secret) = self.scanner.get_shared_secret(tx, &prevouts) else {
+            return Ok(tx_graph::ChangeSet::default());
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From a44a92353181c3d004c23890e580bd5c6005d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 14/42] fix: do not report a change set with keys as empty

---
 indexer/src/v2/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..384199c 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -437,7 +437,9 @@ impl<A: Ord> Merge for ChangeSet<A> {
     }
 
     fn is_empty(&self) -> bool {
-        self.txid_to_partial_secret.is_empty()
+        self.scan_sk.is_none()
+            && self.spend_pk.is_none()
+            && self.txid_to_partial_secret.is_empty()
             && self.label_lookup.is_empty()
             && self.graph.is_empty()
     }
-- 
2.43.0


From ec5b1cf030a452328a5e2ddcee7c911ae460be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 15/42] fix: read back labels stored in formats without a type
 for bytes

---
 indexer/src/v2/indexes.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..ef1ef60 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -123,7 +123,7 @@ impl<'de> Deserialize<'de> for ScalarBytes {
 mod scalar_serde {
     use super::Scalar;
     use core::fmt;
-    use serde::de::Visitor;
+    use serde::de::{SeqAccess, Visitor};
     use serde::{de, Deserializer, Serializer};
 
     pub fn serialize<S>(s: &Scalar, ser: S) -> Result<S::Ok, S::Error>
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // Formats without a type for bytes, like JSON, store them as a sequence
+            fn visit_seq<S>(self, mut seq: S) -> Result<Self::Value, S::Error>
+            where
+                S: SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (i, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+                }
+                if seq.next_element::<u8>()?.is_some() {
+                    return Err(de::Error::invalid_length(33, &self));
+                }
+                Ok(arr)
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From 30cc3ba816505f84725f2e3f69d07128a2621ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 16/42] fix: find outputs of a new label in the transactions
 indexed before

---
 indexer/src/v2/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 384199c..1739add 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -55,8 +55,18 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
     pub fn add_label(&mut self, num: u32) -> ChangeSet<A> {
         let mut changeset = ChangeSet::default();
         let label = self.sp_pub.create_label(num);
+        let is_new = self.index.get_label(num).is_none();
         self.index.index_label(&label);
         changeset.label_lookup.insert(label);
+        if is_new {
+            // The transactions indexed before may have outputs of the new label, which are found
+            // when restoring from the changesets too
+            for (txid, partial_secret) in self.index.txid_to_partial_secret.clone() {
+                if let Some(tx) = self.graph.get_tx(txid) {
+                    changeset.merge(self.index_tx(tx.as_ref(), &partial_secret));
+                }
+            }
+        }
         changeset
     }
 
-- 
2.43.0


From 38989adfa3ca124d56fc21f66c2145dd355ea4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 17/42] fix: list the coins of a script paid by several
 transactions

---
 wallet/src/lib.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 5235102..20a469f 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -7,7 +7,7 @@
 use bdk_sp::{
     bitcoin::{
         absolute::{self, Height, LockTime, Time},
-        secp256k1, Block, ScriptBuf, Transaction, Txid,
+        secp256k1, Block, OutPoint, ScriptBuf, Transaction, Txid,
     },
     encoding::SilentPaymentCode,
 };
@@ -211,6 +211,12 @@ impl SpWallet {
         })
     }
 
+    /// All the outputs found for this wallet, also those sharing a script with another one, like
+    /// the outputs of a transaction and of its replacement.
+    fn owned_outpoints(&self) -> impl Iterator<Item = OutPoint> + '_ {
+        self.indexer().index().by_shared_secret.keys().copied()
+    }
+
     pub fn unspent_spks(&self) -> Vec<[u8; 34]> {
         let mut unspent_spks = Vec::<ScriptBuf>::new();
         for (_, txout) in self
@@ -219,10 +225,7 @@ impl SpWallet {
                 self.chain(),
                 self.chain().tip().block_id(),
                 CanonicalizationParams::default(),
-                self.indexer()
-                    .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                self.owned_outpoints().map(|outpoint| ((), outpoint)),
             )
             .unwrap()
         {
@@ -317,13 +320,13 @@ impl SpWallet {
                 self.chain(),
                 self.chain().tip().block_id(),
                 CanonicalizationParams::default(),
-                self.indexer()
-                    .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                self.owned_outpoints().map(|outpoint| ((), outpoint)),
             )
             .unwrap()
-            .filter_map(|(xonly, full_txout)| {
+            .filter_map(|(_, full_txout)| {
+                let script_pubkey = &full_txout.txout.script_pubkey;
+                let xonly = XOnlyPublicKey::from_slice(&script_pubkey.as_bytes()[2..])
+                    .expect("p2tr script");
                 self.spending_plan(xonly)
                     .map(|plan| (full_txout.outpoint, plan))
             });
-- 
2.43.0


From b47dcea9f28917588f07b0362b3c067beaafded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 18/42] fix: keep the birthday when merging wallet change sets

---
 wallet/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 20a469f..3fe17bf 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -70,6 +70,10 @@ impl Merge for ChangeSet {
     ///
     /// * `other` - The [`ChangeSet`] to merge from.
     fn merge(&mut self, other: Self) {
+        if other.birthday != BlockId::default() {
+            self.birthday = other.birthday;
+        }
+
         if other.network.is_some() {
             debug_assert!(
                 self.network.is_none() || self.network == other.network,
@@ -88,7 +92,10 @@ impl Merge for ChangeSet {
     ///
     /// `true` if the [`ChangeSet`] is empty, `false` otherwise.
     fn is_empty(&self) -> bool {
-        self.network.is_none() && self.chain.is_empty() && self.indexer.is_empty()
+        self.birthday == BlockId::default()
+            && self.network.is_none()
+            && self.chain.is_empty()
+            && self.indexer.is_empty()
     }
 }
 
-- 
2.43.0


From 0a7d8a13f66363c36fcb7a91f62c0ffd5dfd2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 19/42] fix: refuse answers of the tweak server with an error
 status

---
 oracles/src/tweaks/blindbit.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 0b77150..debc9fb 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -86,7 +86,8 @@ impl BlindbitClient {
             .get(url)
             .timeout(Duration::from_secs(5))
             .send()
-            .await?;
+            .await?
+            .error_for_status()?;
         let blkheight: BlockHeightResponse = serde_json::from_str(&res.text().await?)?;
         Ok(blkheight.height)
     }
@@ -103,7 +104,8 @@ impl BlindbitClient {
             .get(url)
             .query(&[("dustLimit", format!("{}", dust_limit.to_sat()))])
             .send()
-            .await?;
+            .await?
+            .error_for_status()?;
 
         Ok(serde_json::from_str(&res.text().await?)?)
     }
@@ -111,7 +113,7 @@ impl BlindbitClient {
     pub async fn info(&self) -> Result<InfoResponse, BlindbitError> {
         let url = self.host_url.join("info")?;
 
-        let res = self.client.get(url).send().await?;
+        let res = self.client.get(url).send().await?.error_for_status()?;
         Ok(serde_json::from_str(&res.text().await?)?)
     }
 }
-- 
2.43.0


From 90053b074599d7756485b94beeee59caefb3bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 20/42] fix: keep the latest filter of a height in the queue

---
 oracles/src/filters/kyoto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f48ff40..3d2550a 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -48,7 +48,8 @@ impl DatabaseBuffer {
     }
 
     pub fn push_filter(&mut self, filter: IndexedFilter) -> Option<WriteRange> {
-        self.queue.insert(filter);
+        // filters compare by height: after a reorganization the latest one replaces the stale one
+        self.queue.replace(filter);
         if self.queue.len() > QUEUE_SIZE {
             return Some(self.write_queue());
         }
-- 
2.43.0


From cf7c6e5e292d9d1601fae861dd8fdd041c0824c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 21/42] fix: report spends in blocks without tweaks

---
 oracles/src/tweaks/blindbit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index debc9fb..e50ca31 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -217,11 +217,11 @@ impl BlindbitSubscriber {
                 .collect::<HashMap<[u8; 34], PublicKey>>();
 
             let mut only_spks: Vec<[u8; 34]> = all_spks.clone().into_keys().collect();
-            // unspent script pubkeys can only be present in blocks with tweaks, because they are
-            // by themselves inputs available for shared secret derivation
+            // unspent script pubkeys can be spent in blocks without tweaks, because transactions
+            // with no taproot outputs have none
             only_spks.extend_from_slice(&self.unspent_script_pubkeys);
 
-            if !all_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
+            if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-- 
2.43.0


From 0f5e9916be17aa90f6adff231b522f01d33a4001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 22/42] fix: use the secret of the internal key of a descriptor

---
 cli/v1/src/main.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index a0bc788..974ad5a 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -8,10 +8,7 @@ use std::{
 use anyhow::{self, bail, Context};
 use bitcoin::key::TweakedPublicKey;
 use clap::{self, Args, Parser, Subcommand};
-use miniscript::{
-    descriptor::{DescriptorSecretKey, DescriptorType},
-    Descriptor, DescriptorPublicKey, ToPublicKey,
-};
+use miniscript::{descriptor::DescriptorSecretKey, Descriptor, DescriptorPublicKey, ToPublicKey};
 use rand::{rng, seq::SliceRandom, RngCore};
 use serde_json::json;
 
@@ -1103,22 +1100,21 @@ fn get_sk_from_sp_descriptor(desc_str: String) -> Result<SecretKey, anyhow::Erro
     let secp = Secp256k1::signing_only();
     let (descriptor, keymap) = Descriptor::parse_descriptor(&secp, &desc_str)?;
 
-    if descriptor.desc_type() != DescriptorType::Tr {
+    let Descriptor::Tr(tr) = &descriptor else {
         bail!("silent payment descriptors should be Taproot")
-    }
-
-    if keymap.is_empty() {
-        bail!("unable to derive label")
-    }
+    };
 
-    // note: we're only looking at the first entry in the keymap
-    // the idea is to find something that impls `GetKey`
-    match keymap.iter().next().expect("not empty") {
-        (_, DescriptorSecretKey::XPrv(privkey)) => {
+    // note: the keymap may also hold keys of the script tree, which are not the ones to be used
+    match keymap.get(tr.internal_key()) {
+        None => bail!("unable to derive label"),
+        Some(DescriptorSecretKey::Single(privkey)) => Ok(privkey.key.inner),
+        Some(DescriptorSecretKey::XPrv(privkey)) => {
             let derived_key = privkey.xkey.derive_priv(&secp, &privkey.derivation_path)?;
             Ok(derived_key.private_key)
         }
-        _ => unimplemented!("multi xkey signer"),
+        Some(DescriptorSecretKey::MultiXPrv(_)) => {
+            bail!("silent payment descriptors should have a single derivation path")
+        }
     }
 }
 
-- 
2.43.0


From 9f3321095660846f9d8c03464ca717c0ac4521b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 23/42] fix: read previous transactions with anchor outputs

---
 indexer/src/lib.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 902c831..e5dafbb 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -224,12 +224,9 @@ impl PrevoutSource for Custom<'_> {
         let mut prevouts = <Vec<TxOut>>::new();
         let outpoint_refs = tx.input.iter().map(|x| x.previous_output);
         for OutPoint { txid, vout } in outpoint_refs {
-            let prev_tx = self
-                .0
-                .get_raw_transaction_info(&txid, None)
-                .expect("reckless")
-                .transaction()
-                .expect("reckless");
+            // Not the decoded form, which cannot be read when it has script types added to bitcoind
+            // since, like those of anchors
+            let prev_tx = self.0.get_raw_transaction(&txid, None).expect("reckless");
             let prevout = prev_tx.tx_out(vout as usize).expect("reckless").clone();
             prevouts.push(prevout);
         }
-- 
2.43.0


From b1aef3f0560dfa6a6dd3644f18cdf5b6ee0d7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 24/42] fix: notice spends by transactions without taproot
 outputs

---
 cli/v1/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 974ad5a..8f03035 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -533,7 +533,9 @@ fn main() -> anyhow::Result<()> {
 
                 let block_id = BlockId { hash, height };
                 for (tx_pos, tx) in txdata.iter().enumerate().skip(1) {
-                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
+                    let has_p2tr_outputs = tx.output.iter().any(|x| x.script_pubkey.is_p2tr());
+                    // A transaction without taproot outputs may still spend outputs we own
+                    if !has_p2tr_outputs && !sp_indexer.spends_owned_spouts(tx) {
                         continue;
                     }
                     let tx_graph_stage = sp_indexer.index_tx(tx)?;
-- 
2.43.0


From 66008be1284092e21dce3a6ff8c7345fe5c7ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:12 +0000
Subject: [PATCH 25/42] fix: anchor known payments in the block they are
 confirmed in after a reorganisation

---
 cli/v1/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 8f03035..6a93438 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -539,8 +539,11 @@ fn main() -> anyhow::Result<()> {
                         continue;
                     }
                     let tx_graph_stage = sp_indexer.index_tx(tx)?;
-                    if !tx_graph_stage.is_empty() || sp_indexer.spends_owned_spouts(tx) {
-                        let txid = tx.compute_txid();
+                    let txid = tx.compute_txid();
+                    // A transaction which was indexed before may be in another block now, in that
+                    // case there are no changes to stage but there is a new anchor
+                    let pays_us = sp_indexer.indexes.txid_to_shared_secret.contains_key(&txid);
+                    if pays_us || sp_indexer.spends_owned_spouts(tx) {
                         db_stage.tx_graph.merge(tx_graph_stage);
                         let anchor = TxPosInBlock {
                             block,
-- 
2.43.0


From 39362fb1edb48dba8ae057b24e02157c0e64b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 26/42] fix: sign every input of a PSBT with its own sighash

---
 cli/v1/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 6a93438..06d0749 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -921,12 +921,7 @@ fn main() -> anyhow::Result<()> {
                 .collect::<Vec<TxOut>>();
             let prevouts = Prevouts::All(&prevouts);
 
-            let sighash = SighashCache::new(&mut psbt.unsigned_tx)
-                .taproot_key_spend_signature_hash(0, &prevouts, sighash_type)
-                .expect("failed to construct sighash");
-
-            // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-            let msg = Message::from(sighash);
+            let mut sighash_cache = SighashCache::new(&psbt.unsigned_tx);
 
             for i in 0..psbt.inputs.len() {
                 let psbt_input = &mut psbt.inputs[i];
@@ -936,6 +931,13 @@ fn main() -> anyhow::Result<()> {
                         let keypair = Keypair::from_secret_key(&secp, &sk);
                         let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
 
+                        // Every input has its own sighash
+                        let sighash = sighash_cache
+                            .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                            .expect("failed to construct sighash");
+
+                        // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+                        let msg = Message::from(sighash);
                         let signature = secp.sign_schnorr(&msg, &keypair);
 
                         let signature = Signature {
-- 
2.43.0


From 1ffc388063520021687f8dc8533a49511560f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 27/42] fix: replace only the output asked for by a silent
 payment

---
 cli/v1/src/main.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 06d0749..d88c130 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -369,13 +369,14 @@ fn main() -> anyhow::Result<()> {
         } => {
             let mut psbt = Psbt::from_str(psbt.as_str())?;
 
-            let single_external_txout = psbt
+            let (replaced, single_external_txout) = psbt
                 .unsigned_tx
                 .output
                 .iter()
-                .find(|x| x.value == Amount::from_sat(amount))
-                .expect("send to multiple addresses not implemented yet")
-                .clone();
+                .cloned()
+                .enumerate()
+                .find(|(_, x)| x.value == Amount::from_sat(amount))
+                .context("there is no output with this amount")?;
 
             if !single_external_txout.script_pubkey.is_p2tr() {
                 bail!("can only replace p2tr outputs");
@@ -460,19 +461,8 @@ fn main() -> anyhow::Result<()> {
                 })
                 .collect::<Vec<TxOut>>();
 
-            psbt.unsigned_tx.output = psbt
-                .unsigned_tx
-                .output
-                .into_iter()
-                .map(|x| {
-                    if x.script_pubkey == single_external_txout.script_pubkey {
-                        // TODO: Generalize for all outputs to replace
-                        txouts[0].clone()
-                    } else {
-                        x
-                    }
-                })
-                .collect();
+            // TODO: Generalize for all outputs to replace
+            psbt.unsigned_tx.output[replaced] = txouts[0].clone();
 
             if debug {
                 dbg!(psbt);
-- 
2.43.0


From 159b54773b5a002b28e6fe7b70c9f77c8ce18fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:01 +0000
Subject: [PATCH 28/42] fix: count every input for a silent payment added to a
 PSBT

---
 cli/v1/src/main.rs | 48 +++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index d88c130..dcc4eba 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -408,33 +408,37 @@ fn main() -> anyhow::Result<()> {
 
             let mut outputs_and_derivation_paths =
                 <Vec<(OutPoint, (ScriptBuf, DerivationPath))>>::new();
+            let fingerprint = master_privkey.fingerprint(&secp);
             for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.clone()) {
-                for (fingerprint, path) in psbt_input
+                let Some(spk) = psbt_input.witness_utxo.clone().map_or(
+                    psbt_input.non_witness_utxo.clone().map(|tx| {
+                        tx.tx_out(txin.previous_output.vout as usize)
+                            .expect("should be in range")
+                            .script_pubkey
+                            .clone()
+                    }),
+                    |txout| Some(txout.script_pubkey),
+                ) else {
+                    bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input");
+                };
+
+                let own_path = psbt_input
                     .bip32_derivation
                     .values()
                     .chain(psbt_input.tap_key_origins.values().map(|x| &x.1))
-                {
-                    let spk = {
-                        psbt_input.witness_utxo.clone().map_or(
-                            psbt_input.non_witness_utxo.clone().map(|tx| {
-                                tx.tx_out(txin.previous_output.vout as usize)
-                                    .expect("should be in range")
-                                    .script_pubkey
-                                    .clone()
-                            }),
-                            |txout| Some(txout.script_pubkey),
-                        )
-                    };
-                    if let Some(spk) = spk {
-                        if *fingerprint == master_privkey.fingerprint(&secp) {
-                            outputs_and_derivation_paths
-                                .push((txin.previous_output, (spk, path.clone())));
-                            break;
-                        }
-                    } else {
-                        bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input");
+                    .find(|(origin, _)| *origin == fingerprint)
+                    .map(|(_, path)| path.clone());
+
+                // Every outpoint counts for the shared secret, but not every input has a key which
+                // does
+                let path = match own_path {
+                    Some(path) => path,
+                    None if spk.is_p2tr() || spk.is_p2wpkh() || spk.is_p2pkh() || spk.is_p2sh() => {
+                        bail!("Cannot create silent payment output without the keys of all inputs")
                     }
-                }
+                    None => DerivationPath::default(),
+                };
+                outputs_and_derivation_paths.push((txin.previous_output, (spk, path)));
             }
 
             let mut sp_script_pubkeys =
-- 
2.43.0


From 407d2281d17c5cbca109cb66fbcd4c054f51fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:44 +0000
Subject: [PATCH 29/42] fix: scan again the blocks a reorganisation replaced

---
 cli/v2/src/main.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2a31fcd..21297c5 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -479,11 +479,9 @@ async fn main() -> anyhow::Result<()> {
         }
         Commands::ScanRpc { rpc_args } => {
             let rpc_client = rpc_args.new_client()?;
-            let start_height = if wallet.birthday.height <= wallet.chain().tip().height() {
-                wallet.chain().tip().height()
-            } else {
-                wallet.birthday.height
-            };
+            // the emitter continues from the last block both chains have in common, which after a
+            // reorganisation is below the tip of the wallet
+            let start_height = wallet.birthday.height;
 
             tracing::info!("Synchronizing from block height {}", start_height);
 
-- 
2.43.0


From 66e55884c299b39b2c69dab216f535edc2906ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:44 +0000
Subject: [PATCH 30/42] fix: do not skip a transaction when the node's answer
 is missing

---
 cli/v2/src/main.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 21297c5..6ccc8ca 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -248,12 +248,13 @@ async fn main() -> anyhow::Result<()> {
                     Transaction::consensus_decode_from_finite_reader(&mut tx_bytes.as_slice())?;
                 tx
             } else if let Some(txid) = maybe_txid {
-                rpc_client.get_raw_transaction(&txid, None).unwrap()
+                rpc_client.get_raw_transaction(&txid, None)?
             } else {
                 bail!("Should provide a txid to request tx or the serialized tx")
             };
 
-            let partial_secret = get_partial_secret(&rpc_client, &tx).expect("will fix later");
+            let partial_secret = get_partial_secret(&rpc_client, &tx)?
+                .context("transaction has no inputs to derive a shared secret from")?;
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
             let maybe_label =
@@ -504,14 +505,12 @@ async fn main() -> anyhow::Result<()> {
                 let block = &emission.block;
                 let Block { ref txdata, .. } = block;
 
-                let partial_secrets: HashMap<Txid, PublicKey> = txdata
-                    .iter()
-                    .skip(1)
-                    .filter_map(|tx| {
-                        get_partial_secret(&rpc_client, tx)
-                            .map(|partial_secret| (tx.compute_txid(), partial_secret))
-                    })
-                    .collect();
+                let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                for tx in txdata.iter().skip(1) {
+                    if let Some(partial_secret) = get_partial_secret(&rpc_client, tx)? {
+                        partial_secrets.insert(tx.compute_txid(), partial_secret);
+                    }
+                }
 
                 wallet.apply_block_relevant(block, partial_secrets, height);
 
@@ -821,16 +820,13 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
 fn get_partial_secret(
     client: &impl RpcApi,
     tx: &Transaction,
-) -> Option<bitcoin::secp256k1::PublicKey> {
+) -> anyhow::Result<Option<bitcoin::secp256k1::PublicKey>> {
     let mut prevouts = <Vec<TxOut>>::new();
     let outpoint_refs = tx.input.iter().map(|x| x.previous_output);
     for OutPoint { txid, vout } in outpoint_refs {
-        let prev_tx = client
-            .get_raw_transaction_info(&txid, None)
-            .ok()
-            .and_then(|tx| tx.transaction().ok())?;
-        let prevout = prev_tx.tx_out(vout as usize).ok()?.clone();
+        let prev_tx = client.get_raw_transaction(&txid, None)?;
+        let prevout = prev_tx.tx_out(vout as usize)?.clone();
         prevouts.push(prevout);
     }
-    compute_tweak_data(tx, &prevouts).ok()
+    Ok(compute_tweak_data(tx, &prevouts).ok())
 }
-- 
2.43.0


From 0503b93b67d1dc7e1f59f4485fca15822d0a6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:44 +0000
Subject: [PATCH 31/42] fix: refuse to derive a script for an unknown label

---
 cli/v2/src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 6ccc8ca..5b89a1e 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -257,8 +257,16 @@ async fn main() -> anyhow::Result<()> {
                 .context("transaction has no inputs to derive a shared secret from")?;
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
-            let maybe_label =
-                maybe_label.and_then(|label| wallet.indexer().index().num_to_label.get(&label));
+            let maybe_label = maybe_label
+                .map(|num| {
+                    wallet
+                        .indexer()
+                        .index()
+                        .num_to_label
+                        .get(&num)
+                        .with_context(|| format!("label {num} is not used by this wallet"))
+                })
+                .transpose()?;
             let spk = get_silentpayment_script_pubkey(
                 wallet.indexer().spend_pk(),
                 &ecdh_shared_secret,
-- 
2.43.0


From 877d0ac828d931eaa34e76dccfb246cd02279ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:45 +0000
Subject: [PATCH 32/42] fix: report a recipient of another network instead of
 panicking

---
 cli/v2/src/main.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 5b89a1e..2171f66 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -623,9 +623,7 @@ async fn main() -> anyhow::Result<()> {
             let mut outputs = vec![];
             if let Some(addresses) = maybe_addresses {
                 for (address, value) in addresses {
-                    let checked_address = address
-                        .require_network(wallet.network())
-                        .expect("will fix later");
+                    let checked_address = address.require_network(wallet.network())?;
                     outputs.push(Output::with_script(
                         checked_address.script_pubkey(),
                         Amount::from_sat(value),
-- 
2.43.0


From d56f35879ed79e55dbd767ecc362dee9bf61af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 33/42] fix: pay silent payment codes on signet

---
 cli/v2/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2171f66..8a79c39 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -633,9 +633,14 @@ async fn main() -> anyhow::Result<()> {
 
             let mut sp_recipients: Vec<SilentPaymentCode> = vec![wallet.get_change_address()];
             if let Some(sp_codes) = maybe_sp_codes {
+                // silent payment codes of all public test networks have the same prefix
+                let network = match wallet.network() {
+                    Network::Testnet4 | Network::Signet => Network::Testnet,
+                    network => network,
+                };
                 for (sp_code, value) in sp_codes {
-                    if sp_code.network != wallet.network() {
-                        bail!("");
+                    if sp_code.network != network {
+                        bail!("silent payment code {sp_code} is not valid on this network");
                     }
                     let placeholder_script = sp_code.get_placeholder_p2tr_spk();
                     outputs.push(Output::with_script(
-- 
2.43.0


From f4e6baf35fc09f06a6d8cf658decc4eaeba471c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 34/42] fix: allow addresses and silent payment codes in one
 transaction

---
 cli/v2/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 8a79c39..6e5dcc9 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -188,6 +188,7 @@ pub enum Commands {
     ArgGroup::new("at least one recipient is required")
         .args(["addresses", "sp_codes"])
         .required(true)
+        .multiple(true)
     ))]
     NewTx {
         /// Recipient address
-- 
2.43.0


From bf2fc4bbd4ca1f317fe5f22a3f61523a276cf3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 35/42] fix: look for spends of outputs found in the same
 light-client scan

The script pubkeys whose spends the filters are searched for were those the
wallet had when the scan started. An output found and spent between two scans
stayed in the balance, because the block that spends it need not match anything
else. Once synchronized, search again with the outputs found.
---
 cli/v2/src/main.rs             | 18 ++++++++++++++++++
 oracles/src/tweaks/blindbit.rs | 11 ++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 6e5dcc9..820057d 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -415,6 +415,8 @@ async fn main() -> anyhow::Result<()> {
             )
             .unwrap();
 
+            let unspent_spks = blindbit_subscriber.unspent_script_pubkeys();
+
             let mut filter_subscriber =
                 FilterSubscriber::new(db_buffer, event_rx, changes_tx, sync_point.height);
 
@@ -479,6 +481,22 @@ async fn main() -> anyhow::Result<()> {
                             tracing::info!("Updating to last checkpoint");
                             let checkpoint = wallet.chain().tip().insert(new_tip);
                             wallet.update_chain(checkpoint);
+
+                            // the outputs found could be spent in blocks that did not match,
+                            // because nobody knew of them yet
+                            let new_spks = {
+                                let mut known = unspent_spks.lock().unwrap();
+                                let mut new_spks = wallet.unspent_spks();
+                                new_spks.retain(|spk| !known.contains(spk));
+                                known.extend_from_slice(&new_spks);
+                                new_spks
+                            };
+                            if !new_spks.is_empty() {
+                                tracing::info!("Looking for spends of the outputs found");
+                                requester.rescan()?;
+                                continue;
+                            }
+
                             tracing::info!("Shutting Down");
                             requester.shutdown().unwrap();
                             break;
diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index e50ca31..e268f3e 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -125,7 +125,7 @@ pub enum TweakEvent {
 
 pub struct BlindbitSubscriber {
     db: Arc<Mutex<Database>>,
-    unspent_script_pubkeys: Vec<[u8; 34]>,
+    unspent_script_pubkeys: Arc<Mutex<Vec<[u8; 34]>>>,
     indexer: SpIndexer<ConfirmationBlockTime>,
     client: BlindbitClient,
     requests: UnboundedReceiver<FilterEvent>,
@@ -147,7 +147,7 @@ impl BlindbitSubscriber {
         Ok((
             Self {
                 db,
-                unspent_script_pubkeys,
+                unspent_script_pubkeys: Arc::new(Mutex::new(unspent_script_pubkeys)),
                 indexer,
                 client: BlindbitClient::new(host_url)?,
                 requests,
@@ -157,6 +157,11 @@ impl BlindbitSubscriber {
         ))
     }
 
+    /// The script pubkeys whose spends are looked for, to be extended with those found meanwhile.
+    pub fn unspent_script_pubkeys(&self) -> Arc<Mutex<Vec<[u8; 34]>>> {
+        Arc::clone(&self.unspent_script_pubkeys)
+    }
+
     pub async fn run(&mut self) {
         while let Some(filter_event) = self.requests.recv().await {
             match filter_event {
@@ -219,7 +224,7 @@ impl BlindbitSubscriber {
             let mut only_spks: Vec<[u8; 34]> = all_spks.clone().into_keys().collect();
             // unspent script pubkeys can be spent in blocks without tweaks, because transactions
             // with no taproot outputs have none
-            only_spks.extend_from_slice(&self.unspent_script_pubkeys);
+            only_spks.extend_from_slice(&self.unspent_script_pubkeys.lock().unwrap());
 
             if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
-- 
2.43.0


From 9366a8d7558642ecd72b6aee58fe153681adea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 36/42] fix: end a light-client scan when the node has stopped

Without a reachable peer the node stops and the channel of matches closes, and
the loop waiting for matches never ended. When it stops right after the last
match, asking it to shut down failed and the wallet panicked before it saved
what was found.
---
 cli/v2/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 820057d..228a97f 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -498,10 +498,13 @@ async fn main() -> anyhow::Result<()> {
                             }
 
                             tracing::info!("Shutting Down");
-                            requester.shutdown().unwrap();
+                            // the node stops by itself when it has lost its last peer
+                            let _ = requester.shutdown();
                             break;
                         }
                     }
+                } else {
+                    bail!("the light client stopped before the wallet was synchronized");
                 }
             }
         }
-- 
2.43.0


From 733e3f83bb4ce57bb7201b48e86d9b94e35b7406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 37/42] fix: report a block that could not be fetched in a
 light-client scan

The failure was ignored and the wallet's tip advanced past the block, so its
payments were missed for good. Only a block that has been replaced meanwhile
may be skipped.
---
 cli/v2/src/main.rs | 65 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 228a97f..22dc6d1 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -29,6 +29,7 @@ use bdk_sp::{
 use bdk_sp_oracles::{
     bip157::{
         self,
+        error::FetchBlockError,
         tokio::{self, select},
         AddrV2, Builder, Client as KyotoClient, HeaderCheckpoint, IndexedBlock, Info, ServiceFlags,
         TrustedPeer, UnboundedReceiver, Warning,
@@ -443,39 +444,41 @@ async fn main() -> anyhow::Result<()> {
                     match tweak_event {
                         TweakEvent::Matches((hash, spks_tweak_map)) => {
                             tracing::info!("Checking matches...");
-                            if let Ok(rrx) = requester.request_block(hash) {
-                                if let Ok(Ok(IndexedBlock { height, ref block })) = rrx.await {
-                                    let checkpoint =
-                                        wallet.chain().tip().insert(BlockId { height, hash });
-                                    wallet.update_chain(checkpoint);
-
-                                    let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
-                                    for tx in block.txdata.iter() {
-                                        let spks = tx
-                                            .output
-                                            .iter()
-                                            .filter(|txout| txout.script_pubkey.is_p2tr())
-                                            .map(|txout| {
-                                                txout
-                                                    .script_pubkey
-                                                    .to_bytes()
-                                                    .try_into()
-                                                    .expect("p2tr script, should succeed")
-                                            })
-                                            .collect::<HashSet<[u8; 34]>>();
-                                        if let Some(tweak) =
-                                            spks.iter().find_map(|spk| spks_tweak_map.get(spk))
-                                        {
-                                            partial_secrets.insert(tx.compute_txid(), *tweak);
-                                        }
-                                    }
-
-                                    tracing::info!("Block {hash} is relevant, indexing.");
-                                    // if all outputs in transactions in the block are not p2tr
-                                    // outputs, partial secrets is going to be empty
-                                    wallet.apply_block_relevant(block, partial_secrets, height);
+                            let IndexedBlock { height, ref block } =
+                                match requester.get_block(hash).await {
+                                    Ok(indexed_block) => indexed_block,
+                                    // another block has replaced it meanwhile
+                                    Err(FetchBlockError::UnknownHash) => continue,
+                                    Err(e) => return Err(e.into()),
+                                };
+                            let checkpoint = wallet.chain().tip().insert(BlockId { height, hash });
+                            wallet.update_chain(checkpoint);
+
+                            let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                            for tx in block.txdata.iter() {
+                                let spks = tx
+                                    .output
+                                    .iter()
+                                    .filter(|txout| txout.script_pubkey.is_p2tr())
+                                    .map(|txout| {
+                                        txout
+                                            .script_pubkey
+                                            .to_bytes()
+                                            .try_into()
+                                            .expect("p2tr script, should succeed")
+                                    })
+                                    .collect::<HashSet<[u8; 34]>>();
+                                if let Some(tweak) =
+                                    spks.iter().find_map(|spk| spks_tweak_map.get(spk))
+                                {
+                                    partial_secrets.insert(tx.compute_txid(), *tweak);
                                 }
                             }
+
+                            tracing::info!("Block {hash} is relevant, indexing.");
+                            // if all outputs in transactions in the block are not p2tr
+                            // outputs, partial secrets is going to be empty
+                            wallet.apply_block_relevant(block, partial_secrets, height);
                         }
                         TweakEvent::Synced(new_tip) => {
                             tracing::info!("Updating to last checkpoint");
-- 
2.43.0


From 2ccb7f106aad27f36591f02fbb22b60246dfc9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 38/42] fix: leave out transactions spending outputs of unknown
 witness versions

BIP352: a transaction which spends an output of a segwit version greater than 1
is no silent payment. Neither receivers nor senders took that into account: the
receiver found outputs no other wallet would find, and the sender created
payments which no receiver following BIP352 would find.
---
 silentpayments/src/lib.rs           | 10 +++++++++-
 silentpayments/src/receive/mod.rs   |  6 ++++++
 silentpayments/src/send/error.rs    |  3 +++
 silentpayments/src/send/mod.rs      |  8 ++++++++
 silentpayments/src/send/psbt/mod.rs |  8 +++++++-
 5 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 5fbeebc..8eb92b3 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -2,7 +2,7 @@
 use bitcoin::{
     hashes::Hash,
     secp256k1::{ecdh::shared_secret_point, PublicKey, SecretKey},
-    OutPoint, ScriptBuf, TxIn,
+    OutPoint, ScriptBuf, TxIn, WitnessVersion,
 };
 
 pub mod encoding;
@@ -66,6 +66,14 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
     }
 }
 
+/// Whether the script belongs to a segwit version that is not defined yet. Transactions spending
+/// such outputs are no silent payments, as nobody knows which keys their inputs have.
+pub(crate) fn has_unknown_witness_version(script_pubkey: &ScriptBuf) -> bool {
+    script_pubkey
+        .witness_version()
+        .is_some_and(|version| version > WitnessVersion::V1)
+}
+
 #[derive(Debug)]
 pub enum LexMinError {
     NoMinOutpoint,
diff --git a/silentpayments/src/receive/mod.rs b/silentpayments/src/receive/mod.rs
index eb03d89..9611109 100644
--- a/silentpayments/src/receive/mod.rs
+++ b/silentpayments/src/receive/mod.rs
@@ -1,5 +1,6 @@
 pub use self::error::SpReceiveError;
 use crate::{
+    has_unknown_witness_version,
     hashes::{get_input_hash, get_shared_secret},
     tag_txin, LexMin, SpInputs,
 };
@@ -247,6 +248,11 @@ pub fn compute_tweak_data(
     let mut input_pubkeys = <Vec<PublicKey>>::new();
     let mut lex_min = LexMin::default();
     for (txin, prevout) in tx.input.iter().zip(prevouts) {
+        if has_unknown_witness_version(&prevout.script_pubkey) {
+            return Err(SpReceiveError::PubKeyExtractionError(
+                "the transaction spends an output of an unknown witness version",
+            ));
+        }
         lex_min.update(&txin.previous_output);
         // NOTE: Public keys which couldn't be extracted will be ignored
         if let Some((_, key)) = extract_pubkey(txin.clone(), &prevout.script_pubkey) {
diff --git a/silentpayments/src/send/error.rs b/silentpayments/src/send/error.rs
index 235ec50..2b7104f 100644
--- a/silentpayments/src/send/error.rs
+++ b/silentpayments/src/send/error.rs
@@ -22,6 +22,8 @@ pub enum SpSendError {
     MissingDerivations,
     /// There are not enough outputs for the silent payments derived
     MissingOutputs,
+    /// Transactions spending outputs of unknown witness versions can't be silent payments
+    UnknownWitnessVersion,
 }
 
 impl From<crate::LexMinError> for SpSendError {
@@ -65,6 +67,7 @@ impl std::fmt::Display for SpSendError {
             Self::MissingOutputs => write!(f, "From PSBT, there are not enough outputs for the silent payments derived"),
             Self::MissingPrevout => write!(f, "From PSBT, unable to extract prevout script pubkey"),
             Self::MissingPlaceholderScript => write!(f, "From PSBT, missing placeholder script pubkey for associated silent payment recipient."),
+            Self::UnknownWitnessVersion => write!(f, "Silent payment sending error: an input spends an output of an unknown witness version"),
         }
     }
 }
diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index f0cc9cb..bd68157 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -1,6 +1,7 @@
 use crate::{
     compute_shared_secret,
     encoding::SilentPaymentCode,
+    has_unknown_witness_version,
     hashes::{get_input_hash, get_shared_secret},
     send::error::SpSendError,
 };
@@ -22,6 +23,13 @@ pub fn create_silentpayment_partial_secret(
 ) -> Result<SecretKey, SpSendError> {
     let secp = Secp256k1::new();
 
+    if spks_with_keys
+        .iter()
+        .any(|(spk, _)| has_unknown_witness_version(spk))
+    {
+        return Err(SpSendError::UnknownWitnessVersion);
+    }
+
     let available_keys = spks_with_keys
         .iter()
         .cloned()
diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index f2a489f..9b6ba56 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -7,7 +7,10 @@
 use super::{
     create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys, error::SpSendError,
 };
-use crate::{encoding::SilentPaymentCode, receive::extract_pubkey, LexMin, SpInputs};
+use crate::{
+    encoding::SilentPaymentCode, has_unknown_witness_version, receive::extract_pubkey, LexMin,
+    SpInputs,
+};
 use bitcoin::{
     bip32::KeySource,
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
@@ -247,6 +250,9 @@ where
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
+        if has_unknown_witness_version(&prevout) {
+            return Err(SpSendError::UnknownWitnessVersion);
+        }
 
         let maybe_sp_secret = get_sp_secret(psbt_input, &prevout, k, secp);
         let maybe_secret_key = if let Ok(Some(secret)) = maybe_sp_secret {
-- 
2.43.0


From 39b122f1f18ecc046d19bd2ff61b6f9568f4a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 39/42] fix: sign silent payment inputs with the sighash type
 they ask for

---
 silentpayments/src/send/psbt/sign.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index 227b5e4..23340c3 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -4,7 +4,7 @@ use bitcoin::{
     secp256k1::{Message, PublicKey, Scalar, SecretKey, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
-    Psbt, ScriptBuf, TapSighashType, TxOut, XOnlyPublicKey,
+    Psbt, ScriptBuf, TxOut, XOnlyPublicKey,
 };
 
 pub const SPEND_PK_SUBTYPE: u8 = 0x01;
@@ -100,10 +100,20 @@ where
         }
         let secret = find_spend_secret(&psbt.inputs[i], &prevout.script_pubkey, k, secp);
         if let Some(sk) = secret {
-            let sighash_type = TapSighashType::Default;
-            let sighash = cache
-                .taproot_key_spend_signature_hash(i, &Prevouts::All(&prevouts), sighash_type)
-                .expect("failed to construct sighash");
+            // The type the input asks for, which is the default one unless it is given
+            let sighash_type = match psbt.inputs[i].taproot_hash_ty() {
+                Ok(sighash_type) => sighash_type,
+                Err(_) => continue,
+            };
+            // Fails for a type which commits to the output of the same index if there is none
+            let sighash = match cache.taproot_key_spend_signature_hash(
+                i,
+                &Prevouts::All(&prevouts),
+                sighash_type,
+            ) {
+                Ok(sighash) => sighash,
+                Err(_) => continue,
+            };
 
             // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
             let msg = Message::from(sighash);
-- 
2.43.0


From 22eb0a0119e693005578e0d0ea2718ec1e00ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 40/42] fix: refuse keys of other wallets in the command-line
 wallet

---
 cli/v1/src/main.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index dcc4eba..c1ad3e7 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -26,7 +26,7 @@ use bdk_sp::{
         bip32::{self, DerivationPath},
         constants,
         key::{Keypair, UntweakedPublicKey},
-        secp256k1::{Message, Scalar, Secp256k1, SecretKey},
+        secp256k1::{Message, PublicKey, Scalar, Secp256k1, SecretKey},
         sighash::{Prevouts, SighashCache},
         taproot::Signature,
         transaction::Version,
@@ -343,6 +343,7 @@ fn main() -> anyhow::Result<()> {
                 Some(_) if scan_descriptor.is_none() => bail!("unable to generate labelled silent payment code without spend private descriptor"),
                 Some(m) => {
                     let scan_sk = get_sk_from_sp_descriptor(scan_descriptor.unwrap())?;
+                    check_key_of_code(&scan_sk, &sp_code.scan)?;
                     let labelled_sp_code = indexes.add_label(sp_code, scan_sk, m)?;
                     {
                         let db = &mut *db.lock().unwrap();
@@ -489,7 +490,11 @@ fn main() -> anyhow::Result<()> {
 
             let start = Instant::now();
             let scan_sk = get_sk_from_sp_descriptor(scan_descriptor)?;
+            check_key_of_code(&scan_sk, &sp_code.scan)?;
             let silent_payment_code = SilentPaymentCode::try_from(silent_payment_code.as_str())?;
+            if silent_payment_code.spend != sp_code.spend {
+                bail!("the silent payment code is not the one of this wallet")
+            }
 
             let rpc_client = rpc_args.new_client()?;
             let custom_client = Custom(&rpc_client);
@@ -840,6 +845,7 @@ fn main() -> anyhow::Result<()> {
 
             if !sp_codes.is_empty() {
                 let spend_sk = get_sk_from_sp_descriptor(spend_descriptor)?;
+                check_key_of_code(&spend_sk, &sp_code.spend)?;
                 let spouts = selected.into_iter().map(|x| x.0).collect::<Vec<SpOut>>();
                 let just_sp_codes = sp_codes
                     .clone()
@@ -906,6 +912,7 @@ fn main() -> anyhow::Result<()> {
         } => {
             let secp = Secp256k1::new();
             let spend_sk = get_sk_from_sp_descriptor(spend_descriptor)?;
+            check_key_of_code(&spend_sk, &sp_code.spend)?;
             let mut psbt = Psbt::from_str(psbt.as_str())?;
             let sighash_type = TapSighashType::Default;
             let prevouts = psbt
@@ -1119,6 +1126,15 @@ fn get_sk_from_sp_descriptor(desc_str: String) -> Result<SecretKey, anyhow::Erro
     }
 }
 
+/// Keys of other wallets would make payments nobody finds, and scans finding nothing.
+fn check_key_of_code(sk: &SecretKey, pk: &PublicKey) -> anyhow::Result<()> {
+    let secp = Secp256k1::signing_only();
+    if sk.public_key(&secp) != *pk {
+        bail!("the key of the descriptor is not the one of this wallet")
+    }
+    Ok(())
+}
+
 fn get_sp_code_from_descriptors(
     scan: &Descriptor<DescriptorPublicKey>,
     spend: &Descriptor<DescriptorPublicKey>,
-- 
2.43.0


From 892acf7ced9313b585bb7c50eec68a3eff278dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 41/42] fix: refuse silent payment codes of other networks when
 paying

---
 cli/v1/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index c1ad3e7..a9da141 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -696,11 +696,17 @@ fn main() -> anyhow::Result<()> {
             let chain_tip = chain.get_chain_tip()?;
             let mut sp_codes = <Vec<(ScriptBuf, SilentPaymentCode)>>::new();
             let final_address = match (&silent_payment_code, address) {
-                (Some(sp_code), None) => {
-                    sp_codes.push((
-                        fake_address.script_pubkey(),
-                        SilentPaymentCode::try_from(sp_code.as_str())?,
-                    ));
+                (Some(recipient), None) => {
+                    let recipient = SilentPaymentCode::try_from(recipient.as_str())?;
+                    // silent payment codes of all public test networks have the same prefix
+                    let network = match sp_code.network {
+                        Network::Testnet4 | Network::Signet => Network::Testnet,
+                        network => network,
+                    };
+                    if recipient.network != network {
+                        bail!("silent payment code {recipient} is not valid on this network");
+                    }
+                    sp_codes.push((fake_address.script_pubkey(), recipient));
                     fake_address.clone()
                 }
                 (None, Some(address)) => address.require_network(sp_code.network)?,
-- 
2.43.0


From 88a6c1e0b061a6f6ded474ae1a82827a0b57989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 42/42] fix: sign with the sighash type the inputs of the PSBT
 ask for

---
 cli/v1/src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index a9da141..5a1cdc0 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -30,8 +30,8 @@ use bdk_sp::{
         sighash::{Prevouts, SighashCache},
         taproot::Signature,
         transaction::Version,
-        Address, Amount, Block, Network, OutPoint, Psbt, ScriptBuf, Sequence, TapSighashType,
-        Transaction, TxIn, TxOut, XOnlyPublicKey,
+        Address, Amount, Block, Network, OutPoint, Psbt, ScriptBuf, Sequence, Transaction, TxIn,
+        TxOut, XOnlyPublicKey,
     },
     encoding::SilentPaymentCode,
     receive::{scan::Scanner, SpOut},
@@ -920,7 +920,6 @@ fn main() -> anyhow::Result<()> {
             let spend_sk = get_sk_from_sp_descriptor(spend_descriptor)?;
             check_key_of_code(&spend_sk, &sp_code.spend)?;
             let mut psbt = Psbt::from_str(psbt.as_str())?;
-            let sighash_type = TapSighashType::Default;
             let prevouts = psbt
                 .inputs
                 .iter()
@@ -938,10 +937,11 @@ fn main() -> anyhow::Result<()> {
                         let keypair = Keypair::from_secret_key(&secp, &sk);
                         let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
 
-                        // Every input has its own sighash
+                        // Every input has its own sighash, of the type it asks for
+                        let sighash_type = psbt_input.taproot_hash_ty()?;
                         let sighash = sighash_cache
                             .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
-                            .expect("failed to construct sighash");
+                            .context("failed to construct sighash")?;
 
                         // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                         let msg = Message::from(sighash);
-- 
2.43.0

