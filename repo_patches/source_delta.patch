From eb5132f3c48aa4220157ccaf6ac04c45b2bec0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 01/11] fix: DecimalAmount::with_decimals must accept zero for
 any increase of decimals

The multiplier 10^extra does not fit u128 once extra reaches 39, but zero is
representable with any number of decimals.
---
 common/src/primitives/amount/decimal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index b8ba9fd..730f1e4 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -73,7 +73,12 @@ impl DecimalAmount {
     /// Change the number of decimals. Can only increase decimals, otherwise we risk losing digits.
     pub fn with_decimals(self, decimals: u8) -> Option<Self> {
         let extra_decimals = decimals.checked_sub(self.decimals)?;
-        let mantissa = self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?;
+        // Zero is representable with any number of decimals, even when the multiplier itself is not.
+        let mantissa = if self.mantissa == 0 {
+            0
+        } else {
+            self.mantissa.checked_mul(TEN.checked_pow(extra_decimals as u32)?)?
+        };
         Some(Self::from_uint_decimal(mantissa, decimals))
     }
 
-- 
2.43.0


From b91c13000738d0abd3f69640c87b3872c3a0c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 02/11] fix: DecimalAmount::from_str must not panic on a
 256-digit fractional part

The length check leaves room for 257 bytes, so "." followed by 256 digits
passed it and then failed the conversion of the digit count to u8.
---
 common/src/primitives/amount/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/primitives/amount/decimal.rs b/common/src/primitives/amount/decimal.rs
index 730f1e4..f38feda 100644
--- a/common/src/primitives/amount/decimal.rs
+++ b/common/src/primitives/amount/decimal.rs
@@ -158,7 +158,7 @@ impl std::str::FromStr for DecimalAmount {
         let int: UnsignedIntType = empty_to_zero(int_str).parse()?;
         let frac: UnsignedIntType = empty_to_zero(frac_str).parse()?;
 
-        let decimals: u8 = frac_str.len().try_into().expect("Checked string length above");
+        let decimals: u8 = frac_str.len().try_into().map_err(|_| ParseError::StringTooLong)?;
 
         let mantissa = if int == 0 {
             Some(0)
-- 
2.43.0


From 81ec9f888f39e8a749b0527239a8439732124bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 03/11] fix: Rational ordering must treat zero fractions as
 equal

With equal numerators the order of denominators was reversed, which is wrong
when the numerator is zero: 0/1 compared as greater than 0/2.
---
 common/src/primitives/rational.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/common/src/primitives/rational.rs b/common/src/primitives/rational.rs
index 0bc8b9e..3945817 100644
--- a/common/src/primitives/rational.rs
+++ b/common/src/primitives/rational.rs
@@ -54,10 +54,6 @@ impl<T: Into<Uint512> + ComparableType + Ord + Copy> Ord for Rational<T> {
             return self.numer.cmp(&other.numer);
         }
 
-        if self.numer == other.numer {
-            return other.denom.cmp(&self.denom);
-        }
-
         let self_numer_big: Uint512 = self.numer.into();
         let self_denom_big: Uint512 = self.denom.into();
 
-- 
2.43.0


From 55be88bd36d2201918202b01a2d8f358a26c16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 04/11] fix: DeltaDataCollection kept nothing for a key after a
 refused merge

merge_delta_data_element took the existing delta out of the collection before
combining it; when combining failed, the entry was lost.
---
 accounting/src/delta/delta_data_collection/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/accounting/src/delta/delta_data_collection/mod.rs b/accounting/src/delta/delta_data_collection/mod.rs
index f8b2d4f..0a676bc 100644
--- a/accounting/src/delta/delta_data_collection/mod.rs
+++ b/accounting/src/delta/delta_data_collection/mod.rs
@@ -16,7 +16,7 @@
 pub mod undo;
 use self::undo::*;
 
-use std::collections::{BTreeMap, btree_map::Entry};
+use std::collections::BTreeMap;
 
 use serialization::{Decode, Encode};
 
@@ -121,9 +121,10 @@ impl<K: Ord + Copy, T: Clone + Eq> DeltaDataCollection<K, T> {
     ) -> Result<DataDeltaUndo<T>, Error> {
         let undo = other.clone().invert();
 
-        let el = match self.data.entry(key) {
-            Entry::Occupied(e) => combine_delta_data(e.remove(), other)?,
-            Entry::Vacant(_) => other,
+        // Note: if the deltas cannot be combined, the existing one must stay in place.
+        let el = match self.data.get(&key) {
+            Some(existing) => combine_delta_data(existing.clone(), other)?,
+            None => other,
         };
 
         self.data.insert(key, el);
-- 
2.43.0


From c525222867ee6dec6a066f60b6912e7f58cf6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 05/11] fix: OP_CODESEPARATOR took effect in a branch that is
 not executed

---
 script/src/interpreter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/script/src/interpreter.rs b/script/src/interpreter.rs
index 045fbc8..1eb1736 100644
--- a/script/src/interpreter.rs
+++ b/script/src/interpreter.rs
@@ -302,8 +302,10 @@ pub fn run_script<'a, Ctx: Context>(
                 }
                 opcodes::Class::ControlFlow(cf) => match cf {
                     opcodes::ControlFlow::OP_CODESEPARATOR => {
-                        subscript = instr_iter.subscript();
-                        codesep_idx = cur_instr_num;
+                        if executing {
+                            subscript = instr_iter.subscript();
+                            codesep_idx = cur_instr_num;
+                        }
                     }
                     opcodes::ControlFlow::OP_IF | opcodes::ControlFlow::OP_NOTIF => {
                         let cond = executing && {
-- 
2.43.0


From 0c471155d62351e0e0cb6bed4bd096c7cfd95d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 06/11] fix: build_scriptint panicked for i64::MIN

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index c8ffd0e..6ccaca4 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -107,7 +107,7 @@ pub fn build_scriptint(n: i64) -> Vec<u8> {
 
     let neg = n < 0;
 
-    let mut abs = if neg { -n } else { n } as usize;
+    let mut abs = n.unsigned_abs() as usize;
     let mut v = vec![];
     while abs > 0xFF {
         v.push((abs & 0xFF) as u8);
-- 
2.43.0


From b1af0d07e901ed2e4d53a07b21c94d10cfd38914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 07/11] fix: upper case hex of a script was written in lower
 case

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index 6ccaca4..b5e2122 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -89,7 +89,7 @@ impl fmt::LowerHex for Script {
 impl fmt::UpperHex for Script {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         for &ch in self.0.iter() {
-            write!(f, "{ch:02x}")?;
+            write!(f, "{ch:02X}")?;
         }
         Ok(())
     }
-- 
2.43.0


From 4e431c5a1db5a0b5bf8b2b2d920b5cb380c368ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 08/11] fix: the text form of a script read only one length
 byte of OP_PUSHDATA2 and OP_PUSHDATA4

---
 script/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/src/script.rs b/script/src/script.rs
index b5e2122..8b66477 100644
--- a/script/src/script.rs
+++ b/script/src/script.rs
@@ -370,7 +370,7 @@ impl Script {
                             f.write_str("<unexpected end>")?;
                             break;
                         }
-                        match read_uint(&script[index..], 1) {
+                        match read_uint(&script[index..], push_opc.data_size_bytes()) {
                             Ok(n) => {
                                 index += push_opc.data_size_bytes();
                                 n
-- 
2.43.0


From 2f70a499b9df030fd6eb711be408d48cabc48e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 09/11] fix: PoW retargeting panicked if the interval's last
 block was older than its first

---
 consensus/src/pow/work.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/consensus/src/pow/work.rs b/consensus/src/pow/work.rs
index c517bb9..db72a30 100644
--- a/consensus/src/pow/work.rs
+++ b/consensus/src/pow/work.rs
@@ -135,8 +135,9 @@ where
 impl PoW {
     /// The difference (in block time) between the current block and 2016th block before the current one.
     fn actual_timespan(&self, prev_block_blocktime: u64, retarget_blocktime: u64) -> u64 {
-        // TODO: this needs to be fixed because it could suffer from an underflow
-        let actual_timespan = prev_block_blocktime - retarget_blocktime;
+        // Block times are not necessarily monotonic, so the last block of the interval may be older
+        // than the first one; the timespan is then as short as it may be.
+        let actual_timespan = prev_block_blocktime.saturating_sub(retarget_blocktime);
 
         num::clamp(
             actual_timespan,
-- 
2.43.0


From f69f37670aae9187bfd9eb3e2d8a9af60e813a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 10/11] fix: a relative block-count time lock close to the
 maximal block distance made the time lock check panic instead of failing

---
 mintscript/src/checker/timelock.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mintscript/src/checker/timelock.rs b/mintscript/src/checker/timelock.rs
index 0e6978b..467d6d8 100644
--- a/mintscript/src/checker/timelock.rs
+++ b/mintscript/src/checker/timelock.rs
@@ -15,7 +15,7 @@
 
 use common::{
     chain::{block::timestamp::BlockTimestamp, timelock::OutputTimeLock},
-    primitives::{BlockDistance, BlockHeight},
+    primitives::BlockHeight,
 };
 
 pub trait TimelockChecker<C> {
@@ -80,8 +80,10 @@ impl<C: TimelockContext> TimelockChecker<C> for StandardTimelockChecker {
                 check_at_least(ctx.spending_time(), *required, E::TimestampLocked)
             }
             OutputTimeLock::ForBlockCount(d) => {
-                let distance = BlockDistance::new((*d).try_into().map_err(|_| E::HeightArith)?);
-                let required = (ctx.source_height()? + distance).ok_or(E::HeightArith)?;
+                // Note: adding a `BlockDistance` to a `BlockHeight` panics if the sum is not a valid
+                // distance, and the block count here can be anything.
+                i64::try_from(*d).map_err(|_| E::HeightArith)?;
+                let required = ctx.source_height()?.checked_add(*d).ok_or(E::HeightArith)?;
                 check_at_least(ctx.spending_height(), required, E::HeightLocked)
             }
             OutputTimeLock::ForSeconds(dt) => {
-- 
2.43.0


From f5019d70d966262532d2fa84cd4b945cdc9e3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 11/11] fix: refuse a wrong number of kernel witnesses instead
 of panicking

The inputs and the witnesses of a block reward are separate lists of the
block, so a peer can send a PoS block in which their lengths differ. The
input check asserted that they are equal, which brought down the node.
---
 .../src/transaction_verifier/input_check/mod.rs            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs b/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs
index 5c3b6f0..c17e254 100644
--- a/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs
+++ b/chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs
@@ -342,7 +342,12 @@ impl<'a> CoreContext<'a> {
         let inputs = transaction.inputs().unwrap_or_default();
         let sigs = transaction.signatures();
 
-        assert_eq!(inputs.len(), sigs.len());
+        if inputs.len() != sigs.len() {
+            return Err(InputCheckError::new(
+                inputs.len().min(sigs.len()),
+                ScriptError::Signature(DestinationSigError::InvalidWitnessCount),
+            ));
+        }
 
         let inputs_and_sigs = inputs
             .iter()
-- 
2.43.0

