From 50c56e8b86e53c8fa11a6d6fc1a47834f171ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 01/28] fix: write the whole address version byte, retrying
 interrupted writes

StacksAddress::codec_serialize used a single write() and asserted that it
took the byte: an interrupted write was reported as a failure and a full
writer made it panic.
---
 stacks-core/src/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index a002cb9..36f7090 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -104,7 +104,7 @@ impl StacksAddress {
 
 impl Codec for StacksAddress {
 	fn codec_serialize<W: Write>(&self, dest: &mut W) -> io::Result<()> {
-		assert_eq!(dest.write(&[self.version() as u8])?, 1);
+		dest.write_all(&[self.version() as u8])?;
 		dest.write_all(self.hash().as_ref())
 	}
 
-- 
2.43.0


From 34098d9e80c3e2efdd3072a8e67084920f09e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 02/28] fix: reject unknown address versions instead of
 panicking

Anyone can put a deposit with an unknown address version byte on the
Bitcoin chain; decoding it panicked.
---
 stacks-core/src/address.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index 36f7090..f8731d1 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -112,7 +112,8 @@ impl Codec for StacksAddress {
 		let mut version_buffer = [0; 1];
 		data.read_exact(&mut version_buffer)?;
 
-		let version = AddressVersion::from_repr(version_buffer[0]).unwrap();
+		let version = AddressVersion::try_from(version_buffer[0])
+			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 
 		let mut hash_buffer = [0; HASH160_LENGTH];
 		data.read_exact(&mut hash_buffer)?;
-- 
2.43.0


From 39c4e35d5807367bf47d2ea6a22e181c44e04b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 03/28] fix: report a truncated contract name as an error

take().read_to_end() accepted a stream that ends inside the name and
returned a different, shorter name.
---
 stacks-core/src/contract_name.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stacks-core/src/contract_name.rs b/stacks-core/src/contract_name.rs
index 5326262..088a14c 100644
--- a/stacks-core/src/contract_name.rs
+++ b/stacks-core/src/contract_name.rs
@@ -2,7 +2,7 @@
 use std::{
 	borrow::Borrow,
 	fmt::{Display, Formatter},
-	io::{self, Read},
+	io,
 	ops::Deref,
 };
 
@@ -83,9 +83,8 @@ impl Codec for ContractName {
 		data.read_exact(&mut length_buffer)?;
 		let contract_name_length = length_buffer[0] as usize;
 
-		let mut name_buffer = Vec::with_capacity(contract_name_length);
-		data.take(contract_name_length as u64)
-			.read_to_end(&mut name_buffer)?;
+		let mut name_buffer = vec![0u8; contract_name_length];
+		data.read_exact(&mut name_buffer)?;
 
 		let contract_name_string = String::from_utf8(name_buffer)
 			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
-- 
2.43.0


From fb89dbb53c5c23b7a73a93e59d6aa60b03e6ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 04/28] fix: let commit reveal deposit data be serialized

Every call wrote the data and then hit todo!(), so neither a commit
address nor a reveal transaction could be made for a deposit.
---
 sbtc-core/src/operations/commit_reveal/deposit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sbtc-core/src/operations/commit_reveal/deposit.rs b/sbtc-core/src/operations/commit_reveal/deposit.rs
index 20a7f62..fc38f66 100644
--- a/sbtc-core/src/operations/commit_reveal/deposit.rs
+++ b/sbtc-core/src/operations/commit_reveal/deposit.rs
@@ -23,9 +23,7 @@ impl Codec for DepositData {
 	fn codec_serialize<W: io::Write>(&self, dest: &mut W) -> io::Result<()> {
 		Codec::codec_serialize(&Opcode::Deposit, dest)?;
 		self.principal.codec_serialize(dest)?;
-		self.reveal_fee.codec_serialize(dest)?;
-
-		todo!()
+		self.reveal_fee.codec_serialize(dest)
 	}
 
 	fn codec_deserialize<R: io::Read>(data: &mut R) -> io::Result<Self>
-- 
2.43.0


From e158b1d67f18f044ba78ba2aca505f64b3ed240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 05/28] fix: keep every output when reordering equal or
 unlisted outputs

---
 sbtc-core/src/operations/op_return/utils.rs | 36 ++++++++++-----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/utils.rs b/sbtc-core/src/operations/op_return/utils.rs
index b6b68d5..04a287d 100644
--- a/sbtc-core/src/operations/op_return/utils.rs
+++ b/sbtc-core/src/operations/op_return/utils.rs
@@ -1,7 +1,5 @@
 //! Utilities for sBTC OP_RETURN transactions
 
-use std::collections::{BTreeMap, HashMap};
-
 use bdk::bitcoin::{
 	blockdata::{opcodes::all::OP_RETURN, script::Builder},
 	Script, TxOut,
@@ -16,27 +14,27 @@ pub(crate) fn build_op_return_script(data: &[u8]) -> Script {
 }
 
 /// Reorders outputs according to the provided order
+///
+/// Every output is kept: equal outputs are matched one by one, and outputs that
+/// are not part of the order (change) follow after it.
 pub fn reorder_outputs(
 	outputs: impl IntoIterator<Item = TxOut>,
 	order: impl IntoIterator<Item = (Script, u64)>,
 ) -> Vec<TxOut> {
-	let indices: HashMap<(Script, u64), usize> = order
-		.into_iter()
-		.enumerate()
-		.map(|(idx, val)| (val, idx))
-		.collect();
+	let mut remaining: Vec<TxOut> = outputs.into_iter().collect();
+	let mut outputs_ordered = Vec::with_capacity(remaining.len());
+
+	for (script, value) in order {
+		let position = remaining
+			.iter()
+			.position(|out| out.script_pubkey == script && out.value == value);
+
+		if let Some(position) = position {
+			outputs_ordered.push(remaining.remove(position));
+		}
+	}
 
-	let outputs_ordered: BTreeMap<usize, TxOut> = outputs
-		.into_iter()
-		.map(|txout| {
-			(
-				*indices
-					.get(&(txout.script_pubkey.clone(), txout.value))
-					.unwrap_or(&usize::MAX), // Change amount
-				txout,
-			)
-		})
-		.collect();
+	outputs_ordered.extend(remaining); // Change amount
 
-	outputs_ordered.into_values().collect()
+	outputs_ordered
 }
-- 
2.43.0


From 6775d3d46919f6945916fe9663a12e4d39b4948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 06/28] fix: refuse to build transactions with amounts beyond
 the money supply

Such amounts wrap around in release builds of the wallet library, which then
returns a signed transaction that spends far more than its inputs.
---
 sbtc-core/src/operations/op_return/deposit.rs   |  8 +++++++-
 sbtc-core/src/operations/op_return/utils.rs     | 17 ++++++++++++++++-
 .../op_return/withdrawal_fulfillment.rs         |  4 +++-
 .../operations/op_return/withdrawal_request.rs  |  6 +++++-
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/deposit.rs b/sbtc-core/src/operations/op_return/deposit.rs
index 7c5781f..d1e9d4a 100644
--- a/sbtc-core/src/operations/op_return/deposit.rs
+++ b/sbtc-core/src/operations/op_return/deposit.rs
@@ -56,7 +56,9 @@ use stacks_core::{codec::Codec, utils::PrincipalData};
 use crate::{
 	operations::{
 		magic_bytes,
-		op_return::utils::{build_op_return_script, reorder_outputs},
+		op_return::utils::{
+			build_op_return_script, check_amount, reorder_outputs,
+		},
 		utils::setup_wallet,
 		Opcode,
 	},
@@ -84,6 +86,8 @@ pub fn build_deposit_transaction<T: BatchDatabase>(
 		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
 	}
 
+	check_amount(amount)?;
+
 	let outputs = [(op_return_script, 0), (sbtc_wallet_script, amount)];
 
 	for (script, amount) in outputs.clone() {
@@ -256,6 +260,8 @@ fn create_partially_signed_deposit_transaction(
 		return Err(SBTCError::AmountInsufficient(amount, dust_amount));
 	}
 
+	check_amount(amount)?;
+
 	let outputs = [(op_return_script, 0), (sbtc_wallet_script, amount)];
 
 	for (script, amount) in outputs.clone() {
diff --git a/sbtc-core/src/operations/op_return/utils.rs b/sbtc-core/src/operations/op_return/utils.rs
index 04a287d..6a7e543 100644
--- a/sbtc-core/src/operations/op_return/utils.rs
+++ b/sbtc-core/src/operations/op_return/utils.rs
@@ -2,9 +2,24 @@
 
 use bdk::bitcoin::{
 	blockdata::{opcodes::all::OP_RETURN, script::Builder},
-	Script, TxOut,
+	Amount, Script, TxOut,
 };
 
+use crate::{SBTCError, SBTCResult};
+
+/// Checks that an amount of satoshis can exist at all
+///
+/// Sums of larger values can overflow while the transaction is built.
+pub(crate) fn check_amount(amount: u64) -> SBTCResult<()> {
+	if amount > Amount::MAX_MONEY.to_sat() {
+		return Err(SBTCError::MalformedData(
+			"Amount exceeds the total supply of bitcoin",
+		));
+	}
+
+	Ok(())
+}
+
 /// Builds an OP_RETURN script from the provided data
 pub(crate) fn build_op_return_script(data: &[u8]) -> Script {
 	Builder::new()
diff --git a/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs b/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs
index f47eb6c..57f48e3 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs
@@ -31,7 +31,7 @@ use bdk::{
 };
 use stacks_core::{codec::Codec, BlockId};
 
-use super::utils::reorder_outputs;
+use super::utils::{check_amount, reorder_outputs};
 use crate::{
 	operations::{
 		magic_bytes, op_return::utils::build_op_return_script, Opcode,
@@ -105,6 +105,8 @@ pub fn create_outputs(
 	recipient_bitcoin_address: &BitcoinAddress,
 	amount: u64,
 ) -> SBTCResult<[(Script, u64); 2]> {
+	check_amount(amount)?;
+
 	let data = ParsedWithdrawalFulfillmentData {
 		network: bitcoin_network,
 		chain_tip: stacks_chain_tip,
diff --git a/sbtc-core/src/operations/op_return/withdrawal_request.rs b/sbtc-core/src/operations/op_return/withdrawal_request.rs
index 2abf998..3a0be70 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_request.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_request.rs
@@ -91,7 +91,9 @@ use stacks_core::{
 use crate::{
 	operations::{
 		magic_bytes,
-		op_return::utils::{build_op_return_script, reorder_outputs},
+		op_return::utils::{
+			build_op_return_script, check_amount, reorder_outputs,
+		},
 		Opcode,
 	},
 	SBTCError, SBTCResult,
@@ -272,6 +274,8 @@ pub fn create_outputs(
 		));
 	}
 
+	check_amount(fulfillment_amount)?;
+
 	let op_return_script = build_op_return_script(
 		&WithdrawalRequestDataOutputData::new(
 			payee_bitcoin_address,
-- 
2.43.0


From df4fb9acaeb37c945cc58ccef1f57d3c2bdd2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 07/28] fix: refuse withdrawal requests with addresses of
 another network

The payee address is signed in text form. A request built with an address of
another network pays the right script but its signature recovers to nobody.
---
 .../src/operations/op_return/withdrawal_request.rs     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sbtc-core/src/operations/op_return/withdrawal_request.rs b/sbtc-core/src/operations/op_return/withdrawal_request.rs
index 3a0be70..07dccd4 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_request.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_request.rs
@@ -260,6 +260,16 @@ pub fn create_outputs(
 	fulfillment_amount: u64,
 	network: BitcoinNetwork,
 ) -> SBTCResult<[(Script, u64); 3]> {
+	// The payee address is signed in its text form, so it has to be the form
+	// that readers of the transaction will see on this network
+	if !payee_bitcoin_address.is_valid_for_network(network)
+		|| !sbtc_wallet_bitcoin_address.is_valid_for_network(network)
+	{
+		return Err(SBTCError::MalformedData(
+			"Bitcoin address is not valid for the network",
+		));
+	}
+
 	let recipient_script = payee_bitcoin_address.script_pubkey();
 	let sbtc_wallet_script = sbtc_wallet_bitcoin_address.script_pubkey();
 
-- 
2.43.0


From 9a1f850126771001de92419a24938cb94171f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 08/28] fix: report output that could not be written

The last line of output was left in the buffer of standard output,
which is flushed at exit without anyone seeing the error: on a full
disk the commands succeeded with truncated or no output.
---
 sbtc-cli/src/commands/broadcast.rs | 3 ++-
 sbtc-cli/src/commands/deposit.rs   | 6 +++++-
 sbtc-cli/src/commands/generate.rs  | 3 ++-
 sbtc-cli/src/commands/withdraw.rs  | 6 +++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sbtc-cli/src/commands/broadcast.rs b/sbtc-cli/src/commands/broadcast.rs
index a296248..6d843b0 100644
--- a/sbtc-cli/src/commands/broadcast.rs
+++ b/sbtc-cli/src/commands/broadcast.rs
@@ -1,4 +1,4 @@
-use std::io::stdout;
+use std::io::{stdout, Write};
 
 use bdk::{
 	bitcoin::{psbt::serialize::Deserialize, Transaction},
@@ -23,6 +23,7 @@ pub fn broadcast_tx(broadcast: &BroadcastArgs) -> anyhow::Result<()> {
 
 	client.transaction_broadcast(&tx)?;
 	serde_json::to_writer_pretty(stdout(), &tx.txid().to_string())?;
+	stdout().flush()?;
 
 	Ok(())
 }
diff --git a/sbtc-cli/src/commands/deposit.rs b/sbtc-cli/src/commands/deposit.rs
index 4ad1190..96e00bc 100644
--- a/sbtc-cli/src/commands/deposit.rs
+++ b/sbtc-cli/src/commands/deposit.rs
@@ -1,4 +1,7 @@
-use std::{io::stdout, str::FromStr};
+use std::{
+	io::{stdout, Write},
+	str::FromStr,
+};
 
 use bdk::{
 	bitcoin::{
@@ -86,6 +89,7 @@ pub fn build_deposit_tx(deposit: &DepositArgs) -> anyhow::Result<()> {
 			hex: hex::encode(tx.serialize()),
 		},
 	)?;
+	stdout().flush()?;
 
 	Ok(())
 }
diff --git a/sbtc-cli/src/commands/generate.rs b/sbtc-cli/src/commands/generate.rs
index 732f83c..855ceaf 100644
--- a/sbtc-cli/src/commands/generate.rs
+++ b/sbtc-cli/src/commands/generate.rs
@@ -1,4 +1,4 @@
-use std::io::stdout;
+use std::io::{stdout, Write};
 
 use bdk::bitcoin::Network as BitcoinNetwork;
 use clap::Parser;
@@ -52,6 +52,7 @@ pub fn generate(generate_args: &GenerateArgs) -> anyhow::Result<()> {
 			)?;
 		}
 	};
+	stdout().flush()?;
 
 	Ok(())
 }
diff --git a/sbtc-cli/src/commands/withdraw.rs b/sbtc-cli/src/commands/withdraw.rs
index 774dce2..5dc0556 100644
--- a/sbtc-cli/src/commands/withdraw.rs
+++ b/sbtc-cli/src/commands/withdraw.rs
@@ -1,4 +1,7 @@
-use std::{io::stdout, str::FromStr};
+use std::{
+	io::{stdout, Write},
+	str::FromStr,
+};
 
 use bdk::{
 	bitcoin::{
@@ -99,6 +102,7 @@ pub fn build_withdrawal_tx(withdrawal: &WithdrawalArgs) -> anyhow::Result<()> {
 			hex: hex::encode(tx.serialize()),
 		},
 	)?;
+	stdout().flush()?;
 
 	Ok(())
 }
-- 
2.43.0


From 6de274ddccb680dbdd2f25144aa63ea86df2884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 09/28] fix: drop an incomplete last record when loading the
 event log

---
 romeo/src/system.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index 30d27b2..b1e49fc 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -21,7 +21,7 @@ use tokio::{
 	sync::mpsc,
 	task::JoinHandle,
 };
-use tracing::{debug, info, trace};
+use tracing::{debug, info, trace, warn};
 
 use crate::{
 	bitcoin_client::Client as BitcoinClient,
@@ -107,12 +107,27 @@ impl Storage {
 			.await
 			.unwrap();
 
-		let mut r = BufReader::new(&mut file).lines();
+		let mut r = BufReader::new(&mut file);
+		let mut record = Vec::new();
+		let mut valid_len = 0;
 
-		while let Some(line) = r.next_line().await.unwrap() {
-			let event: Event = serde_json::from_str(&line).unwrap();
+		while r.read_until(b'\n', &mut record).await.unwrap() > 0 {
+			// The process stopped before this last record was written
+			// completely, so nobody has acted on it.
+			if record.last() != Some(&b'\n') {
+				break;
+			}
 
+			let event: Event = serde_json::from_slice(&record).unwrap();
 			state.update(event, config);
+
+			valid_len += record.len() as u64;
+			record.clear();
+		}
+
+		if !record.is_empty() {
+			warn!("Dropping an incomplete record at the end of the log");
+			file.set_len(valid_len).await.unwrap();
 		}
 
 		(Self(BufWriter::new(file)), state)
-- 
2.43.0


From 2a37835103ac6db5b2267d13f3f36a68e3ee3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:12 +0000
Subject: [PATCH 10/28] fix: sync the event log before acting on what it
 records

---
 romeo/src/system.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index b1e49fc..5c7eb09 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -130,6 +130,9 @@ impl Storage {
 			file.set_len(valid_len).await.unwrap();
 		}
 
+		// Whatever was replayed is acted upon from here on.
+		file.sync_data().await.unwrap();
+
 		(Self(BufWriter::new(file)), state)
 	}
 
@@ -138,6 +141,7 @@ impl Storage {
 		self.0.write_all(&bytes).await.unwrap();
 		self.0.write_all(b"\n").await.unwrap();
 		self.0.flush().await.unwrap();
+		self.0.get_ref().sync_data().await.unwrap();
 	}
 }
 
-- 
2.43.0


From 04fa3c14db0331989b9a76c98b6b41a3a24e9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:12 +0000
Subject: [PATCH 11/28] fix: ignore requests that are not broadcasted in status
 updates

---
 romeo/src/state.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index c8e0701..b10d6d1 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -308,18 +308,15 @@ impl State {
 							.filter_map(|withdrawal| withdrawal.burn.as_mut()),
 					)
 					.map(|req| {
+						// Transactions that are not broadcasted yet are
+						// not the subject of this update.
 						let TransactionRequest::Acknowledged {
 							txid: current_txid,
 							status: current_status,
 							has_pending_task,
 						} = req
 						else {
-							if config.strict {
-								panic!("Got an {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-							} else {
-								debug!("Ignoring {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-								return false;
-							}
+							return false;
 						};
 
 						if txid != *current_txid {
@@ -382,18 +379,15 @@ impl State {
 	        .iter_mut()
 	        .filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
 			.map(|req| {
+				// Transactions that are not broadcasted yet are not the
+				// subject of this update.
 				let TransactionRequest::Acknowledged {
 					txid: current_txid,
 					status: current_status,
 					has_pending_task,
 				} = req
 				else {
-					if config.strict {
-						panic!("Got an {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-					} else {
-						debug!("Ignoring {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-						return false;
-					};
+					return false;
 				};
 
 				if txid != *current_txid {
-- 
2.43.0


From 7cdd396d546480784c9bc044d5374cb89698b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 12/28] fix: find deposits and withdrawals by transaction id
 when replaying

---
 romeo/src/state.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index b10d6d1..1085087 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -663,7 +663,7 @@ impl State {
 
 		let deposit = deposits
 			.iter_mut()
-			.find(|deposit| deposit.info == deposit_info)
+			.find(|deposit| deposit.info.txid == deposit_info.txid)
 			.expect("Could not find a deposit for the mint");
 
 		debug!("Mint broadcasted: {:?}", deposit.mint);
@@ -693,7 +693,8 @@ impl State {
 
 		let withdrawal = withdrawals
 			.iter_mut()
-			.find(|withdrawal| withdrawal.info == withdrawal_info)
+			// The recipient's network does not survive serialization
+			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
 			.expect("Could not find a withdrawal for the burn");
 
 		if config.strict {
@@ -722,7 +723,8 @@ impl State {
 
 		let withdrawal = withdrawals
 			.iter_mut()
-			.find(|withdrawal| withdrawal.info == withdrawal_info)
+			// The recipient's network does not survive serialization
+			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
 			.expect("Could not find a withdrawal for the fulfillment");
 
 		if config.strict {
-- 
2.43.0


From fd2e05b651c3c41566d86e3184faf9371ee25cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:05 +0000
Subject: [PATCH 13/28] fix: retry failed tasks instead of losing their
 operation

---
 romeo/src/system.rs | 152 ++++++++++++++++++++++++--------------------
 romeo/src/task.rs   |   2 +-
 2 files changed, 83 insertions(+), 71 deletions(-)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index 5c7eb09..cfd5776 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -1,7 +1,8 @@
 //! System
 
-use std::{fs::create_dir_all, io::Cursor};
+use std::{fs::create_dir_all, io::Cursor, time::Duration};
 
+use anyhow::Context;
 use bdk::bitcoin::Txid as BitcoinTxId;
 use blockstack_lib::{
 	burnchains::Txid as StacksTxId,
@@ -20,8 +21,9 @@ use tokio::{
 	io::{AsyncBufReadExt, AsyncWriteExt, BufReader, BufWriter},
 	sync::mpsc,
 	task::JoinHandle,
+	time::sleep,
 };
-use tracing::{debug, info, trace, warn};
+use tracing::{info, trace, warn};
 
 use crate::{
 	bitcoin_client::Client as BitcoinClient,
@@ -34,10 +36,8 @@ use crate::{
 	task::Task,
 };
 
-const DUMMY_STACKS_ID: StacksTxId = StacksTxId([
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0,
-]);
+/// The delay before a task that failed is run again.
+const TASK_RETRY_INTERVAL: Duration = Duration::from_secs(10);
 
 /// The main run loop of this system.
 /// This function feeds all events to the `state::update` function and spawns
@@ -156,8 +156,24 @@ fn spawn(
 	info!("Spawning");
 
 	tokio::task::spawn(async move {
-		let event =
-			run_task(&config, bitcoin_client, stacks_client, task).await;
+		let event = loop {
+			let res = run_task(
+				&config,
+				bitcoin_client.clone(),
+				stacks_client.clone(),
+				task.clone(),
+			)
+			.await;
+
+			match res {
+				Ok(event) => break event,
+				Err(err) => {
+					warn!("Task {:?} failed, retrying: {:?}", task, err);
+					sleep(TASK_RETRY_INTERVAL).await;
+				}
+			}
+		};
+
 		result.send(event).await.expect("Failed to return event");
 	})
 }
@@ -167,7 +183,7 @@ async fn run_task(
 	bitcoin_client: BitcoinClient,
 	stacks_client: LockedClient,
 	task: Task,
-) -> Event {
+) -> anyhow::Result<Event> {
 	match task {
 		Task::GetContractBlockHeight => {
 			get_contract_block_height(config, stacks_client).await
@@ -210,28 +226,31 @@ async fn run_task(
 async fn get_contract_block_height(
 	config: &Config,
 	client: LockedClient,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let block_height = client
 		.lock()
 		.await
 		.get_contract_block_height(config.contract_name.clone())
 		.await
-		.expect("Could not get block height. Binary needs to be restarted after contract deployment.");
+		.context("Could not get block height")?;
 
 	let bitcoin_block_height = client
 		.lock()
 		.await
 		.get_bitcoin_block_height(block_height)
 		.await
-		.expect("Could not get burnchain block height. Binary needs to be restarted after bitcoin node is online again.");
+		.context("Could not get burnchain block height")?;
 
-	Event::ContractBlockHeight(block_height, bitcoin_block_height)
+	Ok(Event::ContractBlockHeight(
+		block_height,
+		bitcoin_block_height,
+	))
 }
 
 async fn update_contract_public_key(
 	config: &Config,
 	stacks_client: LockedClient,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let public_key = StacksPublicKey::from_slice(
 		&config.stacks_credentials.public_key().serialize(),
 	)
@@ -276,9 +295,11 @@ async fn update_contract_public_key(
 		.await
 		.sign_and_broadcast(tx)
 		.await
-		.expect("Unable to sign and broadcast the set public key transaction");
+		.context(
+			"Unable to sign and broadcast the set public key transaction",
+		)?;
 
-	Event::ContractPublicKeySetBroadcasted(txid)
+	Ok(Event::ContractPublicKeySetBroadcasted(txid))
 }
 
 async fn mint_asset(
@@ -286,13 +307,13 @@ async fn mint_asset(
 	bitcoin_client: BitcoinClient,
 	stacks_client: LockedClient,
 	deposit_info: DepositInfo,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let proof_data = get_tx_proof(
 		&bitcoin_client,
 		deposit_info.block_height,
 		deposit_info.txid,
 	)
-	.await;
+	.await?;
 
 	let public_key = StacksPublicKey::from_slice(
 		&config.stacks_credentials.public_key().serialize(),
@@ -333,20 +354,14 @@ async fn mint_asset(
 
 	let tx = StacksTransaction::new(tx_version, tx_auth, tx_payload);
 
-	match stacks_client.lock().await.sign_and_broadcast(tx).await {
-		Ok(txid) => Event::MintBroadcasted(deposit_info, txid),
-		Err(err) => {
-			if config.strict {
-				panic!(
-					"Unable to sign and broadcast the mint transaction: {}",
-					err
-				);
-			} else {
-				debug!("Ignoring failure to sign and broadcast the mint transaction: {}", err);
-				Event::MintBroadcasted(deposit_info, DUMMY_STACKS_ID)
-			}
-		}
-	}
+	let txid = stacks_client
+		.lock()
+		.await
+		.sign_and_broadcast(tx)
+		.await
+		.context("Unable to sign and broadcast the mint transaction")?;
+
+	Ok(Event::MintBroadcasted(deposit_info, txid))
 }
 
 async fn burn_asset(
@@ -354,13 +369,13 @@ async fn burn_asset(
 	bitcoin_client: BitcoinClient,
 	stacks_client: LockedClient,
 	withdrawal_info: WithdrawalInfo,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let proof_data = get_tx_proof(
 		&bitcoin_client,
 		withdrawal_info.block_height,
 		withdrawal_info.txid,
 	)
-	.await;
+	.await?;
 
 	let public_key = StacksPublicKey::from_slice(
 		&config.stacks_credentials.public_key().serialize(),
@@ -401,20 +416,14 @@ async fn burn_asset(
 
 	let tx = StacksTransaction::new(tx_version, tx_auth, tx_payload);
 
-	match stacks_client.lock().await.sign_and_broadcast(tx).await {
-		Ok(txid) => Event::BurnBroadcasted(withdrawal_info, txid),
-		Err(err) => {
-			if config.strict {
-				panic!(
-					"Unable to sign and broadcast the burn transaction: {}",
-					err
-				);
-			} else {
-				debug!("Ignoring failure to sign and broadcast the burn transaction: {}", err);
-				Event::BurnBroadcasted(withdrawal_info, DUMMY_STACKS_ID)
-			}
-		}
-	}
+	let txid = stacks_client
+		.lock()
+		.await
+		.sign_and_broadcast(tx)
+		.await
+		.context("Unable to sign and broadcast the burn transaction")?;
+
+	Ok(Event::BurnBroadcasted(withdrawal_info, txid))
 }
 
 async fn fulfill_asset(
@@ -422,13 +431,13 @@ async fn fulfill_asset(
 	bitcoin_client: BitcoinClient,
 	stacks_client: LockedClient,
 	withdrawal_info: WithdrawalInfo,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let stacks_chain_tip = stacks_client
 		.lock()
 		.await
 		.get_block_hash_from_bitcoin_height(withdrawal_info.block_height)
 		.await
-		.expect("Unable to get stacks block hash");
+		.context("Unable to get stacks block hash")?;
 
 	let outputs = create_outputs(
 		BlockId::new(stacks_chain_tip),
@@ -436,83 +445,86 @@ async fn fulfill_asset(
 		&withdrawal_info.recipient,
 		withdrawal_info.amount,
 	)
-	.expect("Could not create withdrawal fulfillment outputs");
+	.context("Could not create withdrawal fulfillment outputs")?;
 
 	let txid = bitcoin_client
 		.sign_and_broadcast(outputs.to_vec())
 		.await
-		.expect(
+		.context(
 		"Unable to sign and broadcast the withdrawal fulfillment transaction",
-	);
+	)?;
 
-	Event::FulfillBroadcasted(withdrawal_info, txid)
+	Ok(Event::FulfillBroadcasted(withdrawal_info, txid))
 }
 
 async fn get_tx_proof(
 	bitcoin_client: &BitcoinClient,
 	height: u32,
 	txid: BitcoinTxId,
-) -> ProofDataClarityValues {
+) -> anyhow::Result<ProofDataClarityValues> {
 	let (_, block) = bitcoin_client
 		.get_block(height)
 		.await
-		.expect("Failed to fetch block");
+		.context("Failed to fetch block")?;
 
 	let index = block
 		.txdata
 		.iter()
 		.position(|tx| tx.txid() == txid)
-		.expect("Failed to find transaction in block");
+		.context("Failed to find transaction in block")?;
 
-	ProofData::from_block_and_index(&block, index).to_values()
+	Ok(ProofData::from_block_and_index(&block, index).to_values())
 }
 
 async fn check_bitcoin_transaction_status(
 	_config: &Config,
 	client: BitcoinClient,
 	txid: BitcoinTxId,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let status = client
 		.get_tx_status(txid)
 		.await
-		.expect("Could not get Bitcoin transaction status");
+		.context("Could not get Bitcoin transaction status")?;
 
-	Event::BitcoinTransactionUpdate(txid, status)
+	Ok(Event::BitcoinTransactionUpdate(txid, status))
 }
 
 async fn check_stacks_transaction_status(
 	client: LockedClient,
 	txid: StacksTxId,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let status = client
 		.lock()
 		.await
 		.get_transation_status(txid)
 		.await
-		.expect("Could not get Stacks transaction status");
+		.context("Could not get Stacks transaction status")?;
 
-	Event::StacksTransactionUpdate(txid, status)
+	Ok(Event::StacksTransactionUpdate(txid, status))
 }
 
-async fn fetch_stacks_block(client: LockedClient, block_height: u32) -> Event {
+async fn fetch_stacks_block(
+	client: LockedClient,
+	block_height: u32,
+) -> anyhow::Result<Event> {
 	let txs = client
 		.lock()
 		.await
 		.get_block(block_height)
 		.await
-		.expect("Failed to get Stacks block");
+		.context("Failed to get Stacks block")?;
 
-	Event::StacksBlock(block_height, txs)
+	Ok(Event::StacksBlock(block_height, txs))
 }
 
 async fn fetch_bitcoin_block(
 	client: BitcoinClient,
 	block_height: u32,
-) -> Event {
+) -> anyhow::Result<Event> {
 	let (height, block) = client
 		.get_block(block_height)
 		.await
-		.expect("Failed to fetch bitcoin block");
+		.context("Failed to fetch bitcoin block")?;
 
-	Event::BitcoinBlock(height, block)
+	Ok(Event::BitcoinBlock(height, block))
 }
diff --git a/romeo/src/task.rs b/romeo/src/task.rs
index 4580a4b..028e554 100644
--- a/romeo/src/task.rs
+++ b/romeo/src/task.rs
@@ -6,7 +6,7 @@ use blockstack_lib::burnchains::Txid as StacksTxId;
 use crate::state;
 
 /// Represents I/O operations performed by the system
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub enum Task {
 	/// Get the block height of the contract deployment
 	GetContractBlockHeight,
-- 
2.43.0


From 0cc38259cc4d8ad72a5ee95a8c9e8d95275e3329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 14/28] fix: report unexpected Stacks API answers as errors

---
 romeo/src/stacks_client.rs | 43 +++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index a0820be..c861c05 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -2,7 +2,7 @@
 
 use std::{io::Cursor, sync::Arc, time::Duration};
 
-use anyhow::{anyhow, Error};
+use anyhow::{anyhow, Context, Error};
 use blockstack_lib::{
 	burnchains::Txid as StacksTxId,
 	chainstate::stacks::{
@@ -196,20 +196,20 @@ impl StacksClient {
 			Ok(json) => json["tx_status"]
 				.as_str()
 				.map(|s| s.to_string())
-				.expect("Could not get raw transaction from response"),
+				.context("Could not get transaction status from response")?,
 			// Stacks node sometimes returns 404 for pending transactions
 			// :shrug:
 			Err(err) if err.to_string().contains("404 Not Found") => {
 				"pending".to_string()
 			}
-			err => panic!("Unknown transation status: {:?}", err),
+			Err(err) => Err(err)?,
 		};
 
 		Ok(match tx_status_str.as_str() {
 			"pending" => TransactionStatus::Broadcasted,
 			"success" => TransactionStatus::Confirmed,
 			"abort_by_response" => TransactionStatus::Rejected,
-			status => panic!("Unknown transation status: {}", status),
+			status => Err(anyhow!("Unknown transation status: {}", status))?,
 		})
 	}
 
@@ -249,7 +249,10 @@ impl StacksClient {
 		if let Some(err) = res["error"].as_str() {
 			Err(Error::msg(err.to_string()))
 		} else {
-			Ok(res["block_height"].as_u64().unwrap() as u32)
+			res["block_height"]
+				.as_u64()
+				.map(|height| height as u32)
+				.context("Could not get block height from response")
 		}
 	}
 
@@ -267,7 +270,10 @@ impl StacksClient {
 			})
 			.await?;
 
-		Ok(res["burn_block_height"].as_u64().unwrap() as u32)
+		res["burn_block_height"]
+			.as_u64()
+			.map(|height| height as u32)
+			.context("Could not get burn block height from response")
 	}
 
 	/// Get the block at height
@@ -298,17 +304,15 @@ impl StacksClient {
 
 		let tx_ids: Vec<StacksTxId> = res["txs"]
 			.as_array()
-			.unwrap_or_else(|| {
-				panic!("Could not get txs from response: {:?}", res)
-			})
+			.context("Could not get txs from response")?
 			.iter()
 			.map(|id| {
-				let mut id = id.as_str().unwrap().to_string();
-				id = id.replace("0x", "");
+				let id =
+					id.as_str().context("Transaction id is not a string")?;
 
-				StacksTxId::from_hex(&id).unwrap()
+				Ok(StacksTxId::from_hex(&id.replace("0x", ""))?)
 			})
-			.collect();
+			.collect::<anyhow::Result<_>>()?;
 
 		let mut txs = Vec::with_capacity(tx_ids.len());
 
@@ -335,12 +339,13 @@ impl StacksClient {
 			})
 			.await?;
 
-		let mut raw_tx: String = res["raw_tx"].as_str().unwrap().to_string();
-		raw_tx = raw_tx.replace("0x", "");
+		let raw_tx = res["raw_tx"]
+			.as_str()
+			.context("Could not get raw transaction from response")?
+			.replace("0x", "");
 
-		let bytes = hex::decode(raw_tx).unwrap();
-		let tx =
-			StacksTransaction::consensus_deserialize(&mut &bytes[..]).unwrap();
+		let bytes = hex::decode(raw_tx)?;
+		let tx = StacksTransaction::consensus_deserialize(&mut &bytes[..])?;
 
 		Ok(tx)
 	}
@@ -362,7 +367,7 @@ impl StacksClient {
 
 		let hash_str = res["hash"]
 			.as_str()
-			.unwrap_or_else(|| panic!("Could not get block hash: {:?}", res));
+			.with_context(|| format!("Could not get block hash: {:?}", res))?;
 		let hash_bytes = hex::decode(hash_str.replace("0x", ""))?;
 
 		Ok(Uint256::deserialize(&mut Cursor::new(hash_bytes))?)
-- 
2.43.0


From aac99e0239d28ea3ee0f97ad89cf7f096935e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 15/28] fix: use the chain id of the configured Stacks network

---
 romeo/src/stacks_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index c861c05..4a2a813 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -10,7 +10,7 @@ use blockstack_lib::{
 		TransactionPostConditionMode,
 	},
 	codec::StacksMessageCodec,
-	core::CHAIN_ID_TESTNET,
+	core::{CHAIN_ID_MAINNET, CHAIN_ID_TESTNET},
 	types::chainstate::StacksPrivateKey,
 	vm::{
 		types::{QualifiedContractIdentifier, StandardPrincipalData},
@@ -22,7 +22,7 @@ use rand::{distributions::Alphanumeric, thread_rng, Rng};
 use reqwest::{Request, RequestBuilder, Response, StatusCode};
 use serde::de::DeserializeOwned;
 use serde_json::Value;
-use stacks_core::{codec::Codec, uint::Uint256};
+use stacks_core::{codec::Codec, uint::Uint256, Network as StacksNetwork};
 use tokio::{
 	sync::{Mutex, MutexGuard},
 	time::sleep,
@@ -139,7 +139,10 @@ impl StacksClient {
 
 		tx.anchor_mode = TransactionAnchorMode::Any;
 		tx.post_condition_mode = TransactionPostConditionMode::Allow;
-		tx.chain_id = CHAIN_ID_TESTNET;
+		tx.chain_id = match self.config.stacks_network {
+			StacksNetwork::Mainnet => CHAIN_ID_MAINNET,
+			StacksNetwork::Testnet => CHAIN_ID_TESTNET,
+		};
 
 		let mut signer = StacksTransactionSigner::new(&tx);
 
-- 
2.43.0


From a52cf8d1a563f5a205608ecb61559ef283f561b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 16/28] fix: send the same transaction again when the outcome
 is unknown

---
 romeo/src/stacks_client.rs | 71 ++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 4a2a813..2d89a41 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -164,20 +164,65 @@ impl StacksClient {
 		let mut tx_bytes = vec![];
 		tx.consensus_serialize(&mut tx_bytes).unwrap();
 
-		let res = self
-			.send_request(|| {
-				let tx_bytes = tx_bytes.clone();
+		let txid = tx.txid();
+
+		loop {
+			let res = self
+				.send_request(|| {
+					let tx_bytes = tx_bytes.clone();
 
+					self.http_client
+						.post(self.transaction_url())
+						.header("Content-type", "application/octet-stream")
+						.body(tx_bytes)
+						.build()
+						.unwrap()
+				})
+				.await;
+
+			let err = match res {
+				Ok(txid) => return Ok(txid),
+				Err(err) => err,
+			};
+
+			let refused = err
+				.downcast_ref::<reqwest::Error>()
+				.and_then(|err| err.status())
+				.is_some_and(|status| status.is_client_error());
+
+			// The node also refuses a transaction that it accepted when it
+			// was sent before, if only the reply got lost.
+			if refused {
+				match self.is_known(txid).await {
+					Ok(true) => return Ok(txid),
+					Ok(false) => return Err(err),
+					Err(_) => {}
+				}
+			}
+
+			// The node may have accepted this transaction, so no other one
+			// can take its place.
+			warn!("Sending transaction {} again after: {:?}", txid, err);
+			sleep(BLOCK_POLLING_INTERVAL).await;
+		}
+	}
+
+	async fn is_known(&self, txid: StacksTxId) -> anyhow::Result<bool> {
+		let res: anyhow::Result<Value> = self
+			.send_request(|| {
 				self.http_client
-					.post(self.transaction_url())
-					.header("Content-type", "application/octet-stream")
-					.body(tx_bytes)
+					.get(self.cachebust(self.get_transation_details_url(txid)))
+					.header("Accept", "application/json")
 					.build()
 					.unwrap()
 			})
-			.await?;
+			.await;
 
-		Ok(res)
+		match res {
+			Ok(_) => Ok(true),
+			Err(err) if err.to_string().contains("404 Not Found") => Ok(false),
+			Err(err) => Err(err),
+		}
 	}
 
 	/// Get transaction status for a given txid
@@ -378,11 +423,9 @@ impl StacksClient {
 
 	async fn calculate_fee(&self, tx_len: u64) -> anyhow::Result<u64> {
 		let fee_rate: u64 = self
-			.http_client
-			.get(self.fee_url())
-			.send()
-			.await?
-			.json()
+			.send_request(|| {
+				self.http_client.get(self.fee_url()).build().unwrap()
+			})
 			.await?;
 
 		// TODO: Figure out what's the right multiplier #98
@@ -496,7 +539,7 @@ where
 						.unwrap_or(StatusCode::IM_A_TEAPOT)
 						.as_u16();
 					match status_code_number {
-						429 | 522 => {
+						429 | 500..=599 => {
 							backoff::Error::transient(anyhow::anyhow!(err))
 						}
 						_ => backoff::Error::permanent(anyhow::anyhow!(err)),
-- 
2.43.0


From d5ceddd550fa3ce06236ad54df59d71bb2d7f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 17/28] fix: count an operation the contract already executed
 as confirmed

---
 romeo/src/stacks_client.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 2d89a41..2b7719c 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -33,6 +33,9 @@ use crate::{config::Config, event::TransactionStatus};
 
 const BLOCK_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 
+/// Response of the asset contract to a mint or a burn that is already done
+const ERR_BTC_TX_ALREADY_USED: &str = "(err u500)";
+
 /// Wrapped Stacks Client which can be shared safely between threads.
 #[derive(Clone, Debug)]
 pub struct LockedClient(Arc<Mutex<StacksClient>>);
@@ -240,22 +243,30 @@ impl StacksClient {
 			})
 			.await;
 
-		let tx_status_str = match res {
-			Ok(json) => json["tx_status"]
-				.as_str()
-				.map(|s| s.to_string())
-				.context("Could not get transaction status from response")?,
+		let json = match res {
+			Ok(json) => json,
 			// Stacks node sometimes returns 404 for pending transactions
 			// :shrug:
 			Err(err) if err.to_string().contains("404 Not Found") => {
-				"pending".to_string()
+				return Ok(TransactionStatus::Broadcasted);
 			}
 			Err(err) => Err(err)?,
 		};
 
-		Ok(match tx_status_str.as_str() {
+		let tx_status = json["tx_status"]
+			.as_str()
+			.context("Could not get transaction status from response")?;
+
+		Ok(match tx_status {
 			"pending" => TransactionStatus::Broadcasted,
 			"success" => TransactionStatus::Confirmed,
+			// Another transaction for the same operation, sent before a
+			// restart, has been executed already.
+			"abort_by_response"
+				if json["tx_result"]["repr"] == ERR_BTC_TX_ALREADY_USED =>
+			{
+				TransactionStatus::Confirmed
+			}
 			"abort_by_response" => TransactionStatus::Rejected,
 			status => Err(anyhow!("Unknown transation status: {}", status))?,
 		})
-- 
2.43.0


From 8fd2b84f47df25050e902c136fe63fe417062fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 18/28] fix: resume interrupted mints, burns and status checks
 on start

---
 romeo/src/state.rs | 76 +++++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 1085087..dd58d4b 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -76,8 +76,11 @@ impl State {
 			}
 			State::ContractPublicKeySetup {
 				stacks_block_height,
+				public_key_setup,
 				..
 			} => {
+				public_key_setup.forget_pending_task();
+
 				vec![Task::FetchStacksBlock(*stacks_block_height + 1)]
 			}
 			State::Initialized {
@@ -86,44 +89,35 @@ impl State {
 				deposits,
 				withdrawals,
 			} => {
-				iter::empty()
-					.chain(
-						deposits
-							.iter_mut()
-							.filter_map(|deposit| deposit.mint.as_mut()),
-					)
-					.chain(
-						withdrawals
-							.iter_mut()
-							.filter_map(|withdrawal| withdrawal.burn.as_mut()),
-					)
-					.for_each(|req| {
-						if let TransactionRequest::Acknowledged {
-							has_pending_task,
-							..
-						} = req
-						{
-							*has_pending_task = false;
-						}
-					});
+				let mut tasks = vec![
+					Task::FetchStacksBlock(*stacks_block_height + 1),
+					Task::FetchBitcoinBlock(*bitcoin_block_height + 1),
+				];
 
-				withdrawals
-					.iter_mut()
-					.filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
-					.for_each(|req| {
-						if let TransactionRequest::Acknowledged {
-							has_pending_task,
-							..
-						} = req
-						{
-							*has_pending_task = false;
+				for deposit in deposits {
+					match deposit.mint.as_mut() {
+						Some(TransactionRequest::Created) => {
+							tasks.push(Task::CreateMint(deposit.info.clone()))
 						}
-					});
+						Some(mint) => mint.forget_pending_task(),
+						None => {}
+					}
+				}
 
-				vec![
-					Task::FetchStacksBlock(*stacks_block_height + 1),
-					Task::FetchBitcoinBlock(*bitcoin_block_height + 1),
-				]
+				for withdrawal in withdrawals {
+					match withdrawal.burn.as_mut() {
+						Some(TransactionRequest::Created) => tasks
+							.push(Task::CreateBurn(withdrawal.info.clone())),
+						Some(burn) => burn.forget_pending_task(),
+						None => {}
+					}
+
+					if let Some(fulfillment) = withdrawal.fulfillment.as_mut() {
+						fulfillment.forget_pending_task();
+					}
+				}
+
+				tasks
 			}
 		}
 	}
@@ -863,6 +857,18 @@ pub enum TransactionRequest<T> {
 	},
 }
 
+impl<T> TransactionRequest<T> {
+	/// Forget about the task of a previous run
+	fn forget_pending_task(&mut self) {
+		if let TransactionRequest::Acknowledged {
+			has_pending_task, ..
+		} = self
+		{
+			*has_pending_task = false;
+		}
+	}
+}
+
 /// A parsed deposit
 #[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
 pub struct Deposit {
-- 
2.43.0


From 5db23ed8bafc5aaf399af7d07b05d16e8aa958ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 19/28] fix: wait for the Electrum server when it is
 unreachable on start

---
 romeo/src/system.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index cfd5776..c7b3084 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -46,8 +46,15 @@ const TASK_RETRY_INTERVAL: Duration = Duration::from_secs(10);
 /// The system is bootstrapped by emitting the CreateAssetContract task.
 pub async fn run(config: Config) {
 	let (tx, mut rx) = mpsc::channel::<Event>(128); // TODO: Make capacity configurable
-	let bitcoin_client = BitcoinClient::new(config.clone())
-		.expect("Failed to instantiate bitcoin client");
+	let bitcoin_client = loop {
+		match BitcoinClient::new(config.clone()) {
+			Ok(client) => break client,
+			Err(err) => {
+				warn!("Failed to instantiate bitcoin client: {:?}", err);
+				sleep(TASK_RETRY_INTERVAL).await;
+			}
+		}
+	};
 	let stacks_client: LockedClient =
 		StacksClient::new(config.clone(), reqwest::Client::new()).into();
 
-- 
2.43.0


From ca58200b963e5ebdaed36176a9c94d620f07c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 20/28] fix: decide the status of a Bitcoin transaction from a
 single answer

---
 romeo/src/bitcoin_client.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index f5bc13b..9d47e95 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -109,26 +109,19 @@ impl Client {
 		&self,
 		txid: Txid,
 	) -> anyhow::Result<TransactionStatus> {
-		let is_confirmed = self
+		let res = match self
 			.execute(move |client| client.get_raw_transaction_info(&txid, None))
 			.await?
-			.ok()
-			.and_then(|tx| tx.confirmations)
-			.map(|confirmations| confirmations > 0)
-			.unwrap_or_default();
-
-		let in_mempool = self
-			.execute(move |client| client.get_mempool_entry(&txid))
-			.await?
-			.is_ok();
-
-		let res = match (is_confirmed, in_mempool) {
-			(true, false) => TransactionStatus::Confirmed,
-			(false, true) => TransactionStatus::Broadcasted,
-			(false, false) => TransactionStatus::Rejected,
-			(true, true) => {
-				panic!("Transaction cannot be both confirmed and pending")
+		{
+			Ok(tx) if tx.confirmations.unwrap_or_default() > 0 => {
+				TransactionStatus::Confirmed
 			}
+			Ok(_) => TransactionStatus::Broadcasted,
+			// Neither in a block nor in the mempool
+			Err(bitcoincore_rpc::Error::JsonRpc(
+				bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+			)) if err.code == -5 => TransactionStatus::Rejected,
+			Err(err) => Err(err)?,
 		};
 
 		tracing::debug!("BTC TX {} IS {:?}", txid, res);
-- 
2.43.0


From 7347a1fb96dd90ddc93571409a41fea4d7021681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 21/28] fix: record signed fulfillments before broadcasting
 them

---
 romeo/src/bitcoin_client.rs | 72 +++++++++++++++++++++----------------
 romeo/src/event.rs          | 10 ++++--
 romeo/src/state.rs          | 47 ++++++++++++++++++++++--
 romeo/src/system.rs         | 42 ++++++++++++++++++----
 romeo/src/task.rs           |  7 ++--
 5 files changed, 134 insertions(+), 44 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index 9d47e95..b2ad8d9 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -96,12 +96,29 @@ impl Client {
 		Ok(spawn_blocking(move || f(client)).await?)
 	}
 
-	/// Broadcast a transaction
-	pub async fn broadcast(&self, tx: Transaction) -> anyhow::Result<()> {
-		self.execute(move |client| client.send_raw_transaction(&tx))
-			.await??;
+	/// Broadcast a transaction. Broadcasting it again changes nothing. Returns
+	/// false if the node refuses the transaction, and an error if it is unknown
+	/// whether the node accepted it.
+	pub async fn broadcast(&self, tx: Transaction) -> anyhow::Result<bool> {
+		let txid = tx.txid();
+
+		let res = self
+			.execute(move |client| client.send_raw_transaction(&tx))
+			.await?;
 
-		Ok(())
+		match res {
+			Ok(_) => Ok(true),
+			Err(bitcoincore_rpc::Error::JsonRpc(
+				bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+			)) if matches!(err.code, -25 | -26 | -27) => {
+				trace!("Bitcoin node refuses {}: {:?}", txid, err);
+
+				// It may have accepted it before
+				Ok(self.get_tx_status(txid).await?
+					!= TransactionStatus::Rejected)
+			}
+			Err(err) => Err(err)?,
+		}
 	}
 
 	/// Get transaction status
@@ -191,46 +208,39 @@ impl Client {
 		Ok(info.blocks as u32)
 	}
 
-	/// Sign and broadcast a transaction
-	pub async fn sign_and_broadcast(
+	/// Create and sign a transaction
+	pub async fn sign(
 		&self,
 		outputs: Vec<(Script, u64)>,
-	) -> anyhow::Result<Txid> {
+	) -> anyhow::Result<Transaction> {
 		sleep(Duration::from_secs(3)).await;
 
 		let blockchain = self.blockchain.clone();
 		let wallet = self.wallet.clone();
 
-		let tx: Transaction =
-			spawn_blocking::<_, anyhow::Result<Transaction>>(move || {
-				let wallet = wallet
-					.lock()
-					.map_err(|_| anyhow!("Cannot get wallet read lock"))?;
+		spawn_blocking::<_, anyhow::Result<Transaction>>(move || {
+			let wallet = wallet
+				.lock()
+				.map_err(|_| anyhow!("Cannot get wallet read lock"))?;
 
-				wallet.sync(&blockchain, SyncOptions::default())?;
+			wallet.sync(&blockchain, SyncOptions::default())?;
 
-				let mut tx_builder = wallet.build_tx();
+			let mut tx_builder = wallet.build_tx();
 
-				for (script, amount) in outputs.clone() {
-					tx_builder.add_recipient(script, amount);
-				}
-
-				let (mut partial_tx, _) = tx_builder.finish()?;
-
-				partial_tx.unsigned_tx.output =
-					reorder_outputs(partial_tx.unsigned_tx.output, outputs);
+			for (script, amount) in outputs.clone() {
+				tx_builder.add_recipient(script, amount);
+			}
 
-				wallet.sign(&mut partial_tx, SignOptions::default())?;
+			let (mut partial_tx, _) = tx_builder.finish()?;
 
-				Ok(partial_tx.extract_tx())
-			})
-			.await??;
+			partial_tx.unsigned_tx.output =
+				reorder_outputs(partial_tx.unsigned_tx.output, outputs);
 
-		let txid: Txid = self
-			.execute(move |client| client.send_raw_transaction(&tx))
-			.await??;
+			wallet.sign(&mut partial_tx, SignOptions::default())?;
 
-		Ok(txid)
+			Ok(partial_tx.extract_tx())
+		})
+		.await?
 	}
 }
 
diff --git a/romeo/src/event.rs b/romeo/src/event.rs
index fb644af..3b94bad 100644
--- a/romeo/src/event.rs
+++ b/romeo/src/event.rs
@@ -1,6 +1,8 @@
 //! Event
 
-use bdk::bitcoin::{Block, Txid as BitcoinTxId};
+use bdk::bitcoin::{
+	Block, Transaction as BitcoinTransaction, Txid as BitcoinTxId,
+};
 use blockstack_lib::{
 	burnchains::Txid as StacksTxId, chainstate::stacks::StacksTransaction,
 };
@@ -26,7 +28,11 @@ pub enum Event {
 	/// A burn transaction has been created and broadcasted
 	BurnBroadcasted(WithdrawalInfo, StacksTxId),
 
-	/// A fulfill transaction has been created and broadcasted
+	/// A fulfill transaction has been created and signed, and is the only one
+	/// that may be broadcasted
+	FulfillSigned(WithdrawalInfo, BitcoinTransaction),
+
+	/// A fulfill transaction has been broadcasted
 	FulfillBroadcasted(WithdrawalInfo, BitcoinTxId),
 
 	/// A stacks node has responded with an updated status regarding this txid
diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index dd58d4b..f06d5d3 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -2,7 +2,10 @@
 
 use std::{io::Cursor, iter};
 
-use bdk::bitcoin::{Address as BitcoinAddress, Block, Txid as BitcoinTxId};
+use bdk::bitcoin::{
+	Address as BitcoinAddress, Block, Transaction as BitcoinTransaction,
+	Txid as BitcoinTxId,
+};
 use blockstack_lib::{
 	burnchains::Txid as StacksTxId, chainstate::stacks::StacksTransaction,
 	codec::StacksMessageCodec, types::chainstate::StacksAddress,
@@ -112,8 +115,19 @@ impl State {
 						None => {}
 					}
 
-					if let Some(fulfillment) = withdrawal.fulfillment.as_mut() {
-						fulfillment.forget_pending_task();
+					match withdrawal.fulfillment.as_mut() {
+						Some(TransactionRequest::Created) => {
+							let info = withdrawal.info.clone();
+
+							tasks.push(match &withdrawal.fulfillment_tx {
+								Some(tx) => {
+									Task::BroadcastFulfillment(info, tx.clone())
+								}
+								None => Task::CreateFulfillment(info),
+							})
+						}
+						Some(fulfillment) => fulfillment.forget_pending_task(),
+						None => {}
 					}
 				}
 
@@ -158,6 +172,9 @@ impl State {
 				self.process_burn_broadcasted(withdrawal_info, txid, config);
 				vec![]
 			}
+			Event::FulfillSigned(withdrawal_info, tx) => {
+				self.process_fulfillment_signed(withdrawal_info, tx)
+			}
 			Event::FulfillBroadcasted(withdrawal_info, txid) => {
 				self.process_fulfillment_broadcasted(
 					withdrawal_info,
@@ -705,6 +722,26 @@ impl State {
 		});
 	}
 
+	fn process_fulfillment_signed(
+		&mut self,
+		withdrawal_info: WithdrawalInfo,
+		tx: BitcoinTransaction,
+	) -> Vec<Task> {
+		let State::Initialized { withdrawals, .. } = self else {
+			panic!("Cannot process signed fulfillment if uninitialized")
+		};
+
+		let withdrawal = withdrawals
+			.iter_mut()
+			// The recipient's network does not survive serialization
+			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
+			.expect("Could not find a withdrawal for the fulfillment");
+
+		withdrawal.fulfillment_tx = Some(tx.clone());
+
+		vec![Task::BroadcastFulfillment(withdrawal.info.clone(), tx)]
+	}
+
 	fn process_fulfillment_broadcasted(
 		&mut self,
 		withdrawal_info: WithdrawalInfo,
@@ -829,6 +866,7 @@ fn parse_withdrawals(config: &Config, block: &Block) -> Vec<Withdrawal> {
 						},
 						burn: None,
 						fulfillment: None,
+						fulfillment_tx: None,
 					}
 				},
 			)
@@ -898,6 +936,9 @@ pub struct Withdrawal {
 	info: WithdrawalInfo,
 	burn: Option<TransactionRequest<StacksTxId>>,
 	fulfillment: Option<TransactionRequest<BitcoinTxId>>,
+	/// The transaction to broadcast, again after a restart, until its
+	/// broadcast is acknowledged
+	fulfillment_tx: Option<BitcoinTransaction>,
 }
 
 /// Relevant information for processing withdrawals
diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index c7b3084..31e9b9f 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -3,7 +3,7 @@
 use std::{fs::create_dir_all, io::Cursor, time::Duration};
 
 use anyhow::Context;
-use bdk::bitcoin::Txid as BitcoinTxId;
+use bdk::bitcoin::{Transaction as BitcoinTransaction, Txid as BitcoinTxId};
 use blockstack_lib::{
 	burnchains::Txid as StacksTxId,
 	chainstate::stacks::{
@@ -215,6 +215,16 @@ async fn run_task(
 			)
 			.await
 		}
+		Task::BroadcastFulfillment(withdrawal_info, tx) => {
+			broadcast_fulfillment(
+				config,
+				bitcoin_client,
+				stacks_client,
+				withdrawal_info,
+				tx,
+			)
+			.await
+		}
 		Task::CheckBitcoinTransactionStatus(txid) => {
 			check_bitcoin_transaction_status(config, bitcoin_client, txid).await
 		}
@@ -454,14 +464,34 @@ async fn fulfill_asset(
 	)
 	.context("Could not create withdrawal fulfillment outputs")?;
 
-	let txid = bitcoin_client
-		.sign_and_broadcast(outputs.to_vec())
+	let tx = bitcoin_client
+		.sign(outputs.to_vec())
 		.await
-		.context(
-		"Unable to sign and broadcast the withdrawal fulfillment transaction",
+		.context("Unable to sign the withdrawal fulfillment transaction")?;
+
+	Ok(Event::FulfillSigned(withdrawal_info, tx))
+}
+
+async fn broadcast_fulfillment(
+	config: &Config,
+	bitcoin_client: BitcoinClient,
+	stacks_client: LockedClient,
+	withdrawal_info: WithdrawalInfo,
+	tx: BitcoinTransaction,
+) -> anyhow::Result<Event> {
+	let txid = tx.txid();
+
+	let accepted = bitcoin_client.broadcast(tx).await.context(
+		"Unable to broadcast the withdrawal fulfillment transaction",
 	)?;
 
-	Ok(Event::FulfillBroadcasted(withdrawal_info, txid))
+	if accepted {
+		return Ok(Event::FulfillBroadcasted(withdrawal_info, txid));
+	}
+
+	// Another fulfillment was faster in spending the same coins.
+	warn!("Fulfillment {} was refused, creating another one", txid);
+	fulfill_asset(config, bitcoin_client, stacks_client, withdrawal_info).await
 }
 
 async fn get_tx_proof(
diff --git a/romeo/src/task.rs b/romeo/src/task.rs
index 028e554..b2db1c7 100644
--- a/romeo/src/task.rs
+++ b/romeo/src/task.rs
@@ -1,6 +1,6 @@
 //! Task
 
-use bdk::bitcoin::Txid as BitcoinTxId;
+use bdk::bitcoin::{Transaction as BitcoinTransaction, Txid as BitcoinTxId};
 use blockstack_lib::burnchains::Txid as StacksTxId;
 
 use crate::state;
@@ -20,9 +20,12 @@ pub enum Task {
 	/// Create and broadcast a burn stacks transaction
 	CreateBurn(state::WithdrawalInfo),
 
-	/// Create and broadcast a fulfill bitcoin transaction
+	/// Create and sign a fulfill bitcoin transaction
 	CreateFulfillment(state::WithdrawalInfo),
 
+	/// Broadcast a signed fulfill bitcoin transaction
+	BroadcastFulfillment(state::WithdrawalInfo, BitcoinTransaction),
+
 	/// Poll a bitcoin node for the status of a transaction
 	CheckBitcoinTransactionStatus(BitcoinTxId),
 
-- 
2.43.0


From edef4521d2af303d717f4335dba17c035a72f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 22/28] fix: name the last Stacks block in fulfillments when a
 Bitcoin block has none

---
 romeo/src/stacks_client.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 2b7719c..06726ee 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -409,20 +409,33 @@ impl StacksClient {
 		Ok(tx)
 	}
 
-	/// Get the block hash for a given Bitcoin height
+	/// Get the hash of the last block up to a given Bitcoin height
 	pub async fn get_block_hash_from_bitcoin_height(
 		&mut self,
-		height: u32,
+		mut height: u32,
 	) -> anyhow::Result<Uint256> {
-		let res: Value = self
-			.send_request(|| {
-				self.http_client
-					.get(self.block_by_bitcoin_height_url(height))
-					.header("Accept", "application/json")
-					.build()
-					.unwrap()
-			})
-			.await?;
+		let res: Value = loop {
+			let res: anyhow::Result<Value> = self
+				.send_request(|| {
+					self.http_client
+						.get(self.block_by_bitcoin_height_url(height))
+						.header("Accept", "application/json")
+						.build()
+						.unwrap()
+				})
+				.await;
+
+			match res {
+				// Not every Bitcoin block comes with a Stacks block
+				Err(err)
+					if err.to_string().contains("404 Not Found")
+						&& height > 0 =>
+				{
+					height -= 1
+				}
+				res => break res?,
+			}
+		};
 
 		let hash_str = res["hash"]
 			.as_str()
-- 
2.43.0


From ca8511d73ab3c032a5c31ff40d49be7abe47b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 23/28] fix: sign a separate fulfillment for each of identical
 withdrawals

---
 romeo/src/state.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index f06d5d3..111f9c9 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -731,12 +731,25 @@ impl State {
 			panic!("Cannot process signed fulfillment if uninitialized")
 		};
 
+		// Identical withdrawals that are fulfilled at the same time get the
+		// same transaction, which pays only one of them.
+		let txid = tx.txid();
+		let is_taken = withdrawals
+			.iter()
+			.filter(|withdrawal| withdrawal.info.txid != withdrawal_info.txid)
+			.filter_map(|withdrawal| withdrawal.fulfillment_tx.as_ref())
+			.any(|fulfillment_tx| fulfillment_tx.txid() == txid);
+
 		let withdrawal = withdrawals
 			.iter_mut()
 			// The recipient's network does not survive serialization
 			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
 			.expect("Could not find a withdrawal for the fulfillment");
 
+		if is_taken {
+			return vec![Task::CreateFulfillment(withdrawal.info.clone())];
+		}
+
 		withdrawal.fulfillment_tx = Some(tx.clone());
 
 		vec![Task::BroadcastFulfillment(withdrawal.info.clone(), tx)]
-- 
2.43.0


From dcd06679540db44b62d766804df08baa1616b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 24/28] fix: issue mints, burns and the key setup again when
 their transaction came too early or was dropped

---
 romeo/src/event.rs         |  3 +++
 romeo/src/stacks_client.rs | 12 ++++++++++++
 romeo/src/state.rs         | 40 +++++++++++++++++++++++++++++++++++---
 3 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/romeo/src/event.rs b/romeo/src/event.rs
index 3b94bad..34412f1 100644
--- a/romeo/src/event.rs
+++ b/romeo/src/event.rs
@@ -58,4 +58,7 @@ pub enum TransactionStatus {
 	Confirmed,
 	/// There are indications that this transaction will never be mined
 	Rejected,
+	/// This transaction had no effect, but another one for the same operation
+	/// may have
+	Failed,
 }
diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 06726ee..88d3ab2 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -36,6 +36,10 @@ const BLOCK_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 /// Response of the asset contract to a mint or a burn that is already done
 const ERR_BTC_TX_ALREADY_USED: &str = "(err u500)";
 
+/// Response of the asset contract to a mint or a burn of a Bitcoin block that
+/// the Stacks chain does not know yet
+const ERR_HEADER_HEIGHT_MISMATCH: &str = "(err u6)";
+
 /// Wrapped Stacks Client which can be shared safely between threads.
 #[derive(Clone, Debug)]
 pub struct LockedClient(Arc<Mutex<StacksClient>>);
@@ -267,7 +271,15 @@ impl StacksClient {
 			{
 				TransactionStatus::Confirmed
 			}
+			"abort_by_response"
+				if json["tx_result"]["repr"] == ERR_HEADER_HEIGHT_MISMATCH =>
+			{
+				TransactionStatus::Failed
+			}
 			"abort_by_response" => TransactionStatus::Rejected,
+			status if status.starts_with("dropped_") => {
+				TransactionStatus::Failed
+			}
 			status => Err(anyhow!("Unknown transation status: {}", status))?,
 		})
 	}
diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 111f9c9..24a609c 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -82,9 +82,17 @@ impl State {
 				public_key_setup,
 				..
 			} => {
-				public_key_setup.forget_pending_task();
+				let mut tasks =
+					vec![Task::FetchStacksBlock(*stacks_block_height + 1)];
 
-				vec![Task::FetchStacksBlock(*stacks_block_height + 1)]
+				match public_key_setup {
+					TransactionRequest::Created => {
+						tasks.push(Task::UpdateContractPublicKey)
+					}
+					setup => setup.forget_pending_task(),
+				}
+
+				tasks
 			}
 			State::Initialized {
 				stacks_block_height,
@@ -208,6 +216,20 @@ impl State {
 		&mut self,
 		txid: StacksTxId,
 	) -> Vec<Task> {
+		if let State::ContractPublicKeySetup {
+			public_key_setup: public_key_setup @ TransactionRequest::Created,
+			..
+		} = self
+		{
+			*public_key_setup = TransactionRequest::Acknowledged {
+				txid,
+				status: TransactionStatus::Broadcasted,
+				has_pending_task: false,
+			};
+
+			return vec![];
+		}
+
 		let State::ContractDetected {
 			stacks_block_height,
 			bitcoin_block_height,
@@ -285,7 +307,11 @@ impl State {
 				*current_status = status.clone();
 				*has_pending_task = false;
 
-				if *current_status == TransactionStatus::Confirmed {
+				if *current_status == TransactionStatus::Failed {
+					*public_key_setup = TransactionRequest::Created;
+
+					tasks.push(Task::UpdateContractPublicKey);
+				} else if *current_status == TransactionStatus::Confirmed {
 					let bitcoin_block_height = *bitcoin_block_height;
 
 					*self = Self::Initialized {
@@ -305,6 +331,7 @@ impl State {
 			State::Initialized {
 				deposits,
 				withdrawals,
+				stacks_block_height,
 				..
 			} => {
 				let statuses_updated: usize = iter::empty()
@@ -349,6 +376,13 @@ impl State {
 					    *current_status = status.clone();
 					    *has_pending_task = false;
 
+					    if status == TransactionStatus::Failed {
+							*req = TransactionRequest::Scheduled {
+								block_height: *stacks_block_height
+									+ STX_TRANSACTION_DELAY_BLOCKS,
+							};
+					    }
+
 					    true
 					}).map(|updated| updated as usize).sum();
 
-- 
2.43.0


From f92e93311ccc62484ac0a26bfd9950fda4c26e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 25/28] fix: deploy the contract without debug mode on testnet

---
 romeo/asset-contract/deployments/default.testnet-plan.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/romeo/asset-contract/deployments/default.testnet-plan.yaml b/romeo/asset-contract/deployments/default.testnet-plan.yaml
index 316d7e7..0e1661e 100644
--- a/romeo/asset-contract/deployments/default.testnet-plan.yaml
+++ b/romeo/asset-contract/deployments/default.testnet-plan.yaml
@@ -12,7 +12,7 @@ plan:
             contract-name: clarity-bitcoin-mini
             expected-sender: ST1PQHQKV0RJXZFY1DGX8MNSNYVE3VGZJSRTPGZGM
             cost: 54380
-            path: contracts/clarity-bitcoin-mini.clar
+            path: contracts/clarity-bitcoin-mini-deploy.clar
             anchor-block-only: true
             clarity-version: 2
         - contract-publish:
-- 
2.43.0


From 3085ed920fac55762e77699eac0f3c1219622a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 26/28] fix: fill the nonces of transactions that were dropped

---
 romeo/src/stacks_client.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 88d3ab2..48f4d66 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -141,7 +141,7 @@ impl StacksClient {
 			sleep(Duration::from_secs(3)).await;
 		}
 
-		tx.set_origin_nonce(self.get_nonce_info().await?.possible_next_nonce);
+		tx.set_origin_nonce(self.get_nonce_info().await?.next_nonce());
 		tx.set_tx_fee(self.calculate_fee(tx.tx_len()).await?);
 
 		tx.anchor_mode = TransactionAnchorMode::Any;
@@ -553,6 +553,21 @@ impl StacksClient {
 #[derive(serde::Deserialize)]
 struct NonceInfo {
 	possible_next_nonce: u64,
+	/// Nonces before the possible next one that no transaction uses
+	#[serde(default)]
+	detected_missing_nonces: Vec<u64>,
+}
+
+impl NonceInfo {
+	/// The nonce of the next transaction. Transactions after a missing nonce
+	/// are not mined, so it comes first.
+	fn next_nonce(&self) -> u64 {
+		self.detected_missing_nonces
+			.iter()
+			.copied()
+			.min()
+			.unwrap_or(self.possible_next_nonce)
+	}
 }
 
 async fn retry<O, Fut>(operation: O) -> anyhow::Result<Response>
-- 
2.43.0


From de9e029493bc12688ab385fe414f948dfc5e2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 27/28] fix: broadcast a fulfillment again when the nodes
 forgot it

---
 romeo/src/state.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 24a609c..5f1d724 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -420,10 +420,17 @@ impl State {
 			}
 		}
 
+		let mut tasks = vec![];
+
 		let statuses_updated: usize = withdrawals
 	        .iter_mut()
-	        .filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
-			.map(|req| {
+	        .filter_map(|withdrawal| {
+				let Withdrawal { info, fulfillment, fulfillment_tx, .. } =
+					withdrawal;
+
+				Some((fulfillment.as_mut()?, info, fulfillment_tx))
+			})
+			.map(|(req, info, fulfillment_tx)| {
 				// Transactions that are not broadcasted yet are not the
 				// subject of this update.
 				let TransactionRequest::Acknowledged {
@@ -454,6 +461,18 @@ impl State {
 			    *current_status = status.clone();
 			    *has_pending_task = false;
 
+			    // The nodes forgot about the transaction.
+			    if let (TransactionStatus::Rejected, Some(tx)) =
+					(&status, fulfillment_tx)
+			    {
+					*req = TransactionRequest::Created;
+
+					tasks.push(Task::BroadcastFulfillment(
+						info.clone(),
+						tx.clone(),
+					));
+			    }
+
 			    true
 			}).map(|updated| updated as usize).sum();
 
@@ -464,7 +483,9 @@ impl State {
 			);
 		}
 
-		self.get_stacks_transactions()
+		tasks.extend(self.get_stacks_transactions());
+
+		tasks
 	}
 
 	fn process_stacks_block(
-- 
2.43.0


From 07928fd12fdca4124b6fbc80a70fa58a71fc55bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 28/28] fix: ignore withdrawals that are too small to be paid
 out

---
 romeo/src/state.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 5f1d724..9d38463 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -910,6 +910,16 @@ fn parse_withdrawals(config: &Config, block: &Block) -> Vec<Withdrawal> {
 			.filter(|parsed_withdrawal| {
 				parsed_withdrawal.sbtc_wallet == sbtc_wallet_address
 			})
+			// Bitcoin nodes don't relay outputs of less than the dust amount, so
+			// the withdrawal could not be fulfilled.
+			.filter(|parsed_withdrawal| {
+				parsed_withdrawal.amount
+					>= parsed_withdrawal
+						.payee_bitcoin_address
+						.script_pubkey()
+						.dust_value()
+						.to_sat()
+			})
 			.map(
 				|WithdrawalRequestData {
 				     payee_bitcoin_address,
-- 
2.43.0

