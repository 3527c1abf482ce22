#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a program so that the text is easy to edit).
import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})

BR=["romeo/src/system.rs","romeo/src/state.rs","romeo/src/stacks_client.rs","romeo/src/bitcoin_client.rs"]
NOTEST="Romeo's tests are five proof-data examples and one address example; nothing runs the bridge loop, and romeo is not even built by the baseline test run."

p("B01","Every sBTC mint is backed by exactly one confirmed Bitcoin deposit",
 "Every unit of sBTC ever minted corresponds to a distinct Bitcoin transaction, confirmed on the Bitcoin chain, that carries an sBTC deposit operation and whose second output pays the bridge's own wallet; the minted amount and the credited account are exactly the value of that output and the recipient written in the operation. No deposit is credited more than once, whatever crashes, restarts, repeated or lost messages and concurrent operations happen around it.",
 ["schedules","crash_points","inputs","histories","configurations","fault_sequences"],
 "all interleavings of bridge tasks, all block contents (including foreign, malformed and look-alike transactions), all crash/restart points and network or disk faults, strict and lenient mode",
 NOTEST+" Deposit parsing is unit-tested on a handful of fixed transactions only.",
 BR+["sbtc-core/src/operations/op_return/deposit.rs","romeo/asset-contract/contracts/asset.clar"],
 [("deposit parsing and wallet filter","romeo/src/state.rs parse_deposits"),("per-deposit request state machine","romeo/src/state.rs get_stacks_transactions/process_mint_broadcasted"),("used-txid map in the contract","asset.clar amounts-by-btc-tx")],
 state=[("deposits","deposits seen and the state of their mint","romeo/src/state.rs State::Initialized")],
 observe=["contract-call transactions accepted by the Stacks node and the token ledger they produce"])

p("B02","Every sBTC burn is authorised by the account it debits, once",
 "Every unit of sBTC burned corresponds to a distinct confirmed Bitcoin transaction carrying an sBTC withdrawal request that pays the bridge's wallet its fulfilment output; the debited account is the Stacks account whose key signed that request's exact amount and payee, and the burned amount is exactly the signed amount. No request is burned more than once and no account can be debited by a request it did not sign.",
 ["schedules","crash_points","inputs","histories","configurations","fault_sequences"],
 "all block contents (forged, altered, replayed, truncated requests), all interleavings, crashes and faults",
 NOTEST+" Withdrawal parsing is unit-tested on one or two fixed vectors; forged and altered requests are not.",
 BR+["sbtc-core/src/operations/op_return/withdrawal_request.rs","romeo/asset-contract/contracts/asset.clar"],
 [("signature recovery over amount and payee","sbtc-core withdrawal_request.rs recover_signature"),("per-withdrawal request state machine","romeo/src/state.rs"),("used-txid map in the contract","asset.clar")],
 observe=["contract-call transactions accepted by the Stacks node and the token ledger they produce"])

p("B03","Every Bitcoin payout settles exactly one confirmed burn, exactly once",
 "Every Bitcoin transaction the bridge broadcasts from its wallet is a withdrawal fulfilment: it pays exactly the requested amount to exactly the payee of one withdrawal request whose sBTC burn is already confirmed, names in its data output the last Stacks block up to the request's Bitcoin block, and otherwise only returns change to the wallet and pays a network fee. No withdrawal is ever paid twice, through any crash, power loss, restart, retry or lost reply.",
 ["schedules","crash_points","histories","configurations","fault_sequences"],
 "all interleavings of concurrent withdrawals and status checks, all process crashes and power losses, all lost or repeated replies from the Bitcoin and Electrum nodes",
 NOTEST+" The ordering burn-confirmed-before-payout and its survival across restarts is exercised by nothing.",
 BR+["sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs","sbtc-core/src/operations/op_return/utils.rs"],
 [("fulfilment only created from a confirmed burn","romeo/src/state.rs get_bitcoin_transactions"),("event log replayed on start","romeo/src/system.rs Storage"),("outputs construction and ordering","sbtc-core withdrawal_fulfillment.rs create_outputs, op_return/utils.rs reorder_outputs")],
 observe=["raw transactions received by the Bitcoin node"])

p("B04","Every confirmed deposit is eventually credited",
 "Once a well-formed deposit of a positive amount to the bridge's wallet is confirmed, the recipient's sBTC balance grows by that amount within a bounded number of further blocks after faults stop. This also holds when the bridge crashed, was restarted, had to wait for unreachable nodes, or the nodes dropped some of its transactions in between.",
 ["schedules","crash_points","inputs","histories","configurations","fault_sequences"],
 "all mixes and timings of deposits, blocks holding several operations, every crash point and outage that ends, strict and lenient mode",
 NOTEST+" Progress over time and across restarts cannot be sampled by unit tests.",
 BR,
 [("block polling and re-scheduling","romeo/src/state.rs process_bitcoin_block/process_stacks_block"),("bootstrap after replay","romeo/src/state.rs bootstrap")],
 observe=["token ledger after faults stop"])

p("B05","Every valid withdrawal request is eventually burned and paid",
 "Once a correctly signed withdrawal request with its fulfilment output to the bridge's wallet is confirmed, the drawee holds enough sBTC, the wallet holds enough Bitcoin and the amount is one the Bitcoin network relays (not dust), the sBTC is burned and the payee receives the requested amount within a bounded number of further blocks after faults stop. Nothing is burned for a request too small to be paid out. This also holds when the bridge crashed, was restarted, had to wait for unreachable nodes, or (in lenient mode) when the nodes forgot an unconfirmed payout in between.",
 ["schedules","crash_points","inputs","histories","configurations","fault_sequences"],
 "all mixes and timings of withdrawals, every crash point and outage that ends, strict and lenient mode, amounts above the dust limit",
 NOTEST+" Progress over time and across restarts cannot be sampled by unit tests.",
 BR+["sbtc-core/src/operations/op_return/withdrawal_request.rs","sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"],
 [("burn then fulfilment pipeline","romeo/src/state.rs"),("bootstrap after replay","romeo/src/state.rs bootstrap")],
 observe=["token ledger and Bitcoin chain after faults stop"])

p("B06","The bridge restarts from whatever a crash leaves on disk",
 "After a process crash, a power loss, a torn or refused write or a full disk at any instant, restarting the bridge on the surviving event log succeeds and resumes from a state no further back than the last durable event. Replaying the log never fails, never depends on how often the bridge was restarted, and reproduces every recorded deposit and withdrawal with its progress.",
 ["crash_points","histories","configurations","fault_sequences"],
 "every crash instant including inside a log write, torn tails of any length, disk-full and power-loss, repeated restarts, every supported Bitcoin network",
 NOTEST+" No test writes, tears or replays the event log.",
 ["romeo/src/system.rs","romeo/src/event.rs","romeo/src/state.rs"],
 [("event log","romeo/src/system.rs Storage::record"),("replay","romeo/src/system.rs Storage::load_and_replay")],
 state=[("log.ndjson","append-only event log","state_directory")],
 observe=["process exit after start-up, requests made after start-up"])

p("B07","Blocks are processed in order, without gaps or repeats",
 "The bridge records Bitcoin blocks and Stacks blocks with strictly consecutive heights starting right after the contract's deployment heights, each with the content the node served for that height, across any restarts, polling delays and bursts of new blocks. No block is skipped, processed twice or processed out of order.",
 ["schedules","crash_points","histories","fault_sequences"],
 "all block arrival timings (bursts, long gaps, catch-up from far behind), crash points and request faults",
 NOTEST+" Block following across restarts is exercised by nothing.",
 BR,
 [("fetch of height+1 scheduled by the block handlers","romeo/src/state.rs process_bitcoin_block, process_stacks_block, bootstrap")],
 observe=["event log lines, requests for block heights"])

p("B08","Nothing others put on either chain can stop or confuse the bridge",
 "For any valid Bitcoin block — with arbitrary scripts, data outputs, almost-correct sBTC operations, operations for other wallets, repeated outputs and any number of transactions — and any Stacks block content, the bridge keeps running, skips what is not for it, and processes every valid operation in the same block as if the rest were absent. This holds in lenient and in strict mode and when the same blocks are replayed from the log.",
 ["inputs","histories","configurations"],
 "all transaction contents an adversary can get mined, alone or mixed with valid operations, in both modes, before and after a restart",
 "The unit tests parse a handful of well-formed and a few malformed fixed scripts; the space of adversarial scripts and their effect on the running bridge is unexplored.",
 ["sbtc-core/src/operations/op_return/deposit.rs","sbtc-core/src/operations/op_return/withdrawal_request.rs","stacks-core/src/address.rs","stacks-core/src/contract_name.rs","stacks-core/src/utils.rs","romeo/src/state.rs"],
 [("parsers return errors rather than panic","sbtc-core op_return parsers, stacks-core Codec impls"),("operations to other wallets filtered","romeo/src/state.rs parse_deposits/parse_withdrawals")],
 observe=["the bridge process and its task set"])

p("B09","Passing node outages are ridden out without an operator",
 "Connection failures, lost replies, rate limiting, temporary unavailability (5xx, gateway errors, a node warming up) and slow answers from the Bitcoin, Electrum and Stacks nodes, if each outage ends within the retry window, never make the bridge skip a block, drop a deposit or withdrawal, or stop following either chain, and need no restart.",
 ["schedules","fault_sequences","histories"],
 "all placements of transient faults on all requests of a run without crashes",
 NOTEST+" Request failures cannot be produced by the existing tests at all.",
 ["romeo/src/stacks_client.rs","romeo/src/bitcoin_client.rs","romeo/src/system.rs"],
 [("retry with exponential backoff","romeo/src/stacks_client.rs retry"),("polling loops","romeo/src/bitcoin_client.rs get_block, stacks_client.rs get_block")],
 observe=["requests received by the nodes, ledger and chain after the outage"])

p("B10","The bridge acts only on events that are already durable",
 "Every externally visible action that depends on an observation — a mint, burn or payout caused by a block or a confirmation — is taken only after that observation is in the event log on stable storage; a payout is broadcast only after the signed transaction itself is there. So a power loss right after the action never leaves a restarted bridge unaware of why it acted. At any instant the log on stable storage is a prefix of the events processed and lacks at most the event being written.",
 ["schedules","crash_points","fault_sequences"],
 "every instant of power loss, every slow or failed write or flush",
 NOTEST+" Durability ordering is invisible without control over the disk.",
 ["romeo/src/system.rs"],
 [("record before update and spawn","romeo/src/system.rs run"),("flush of the log","romeo/src/system.rs Storage::record")],
 observe=["stable storage content at the instant each request reaches a node"])

p("B11","The bridge wallet key is registered before any operation is handled",
 "Before it handles any deposit or withdrawal the bridge has had the public key of its own Bitcoin wallet recorded in the asset contract by a confirmed transaction, and the key recorded is the one of the wallet it spends from. This setup completes from every crash point, also when set-up transactions are slow to confirm.",
 ["schedules","crash_points","configurations","fault_sequences"],
 "all crash points and outages during set-up, all confirmation delays, all credentials",
 NOTEST+" The set-up sequence is not executed by any test.",
 ["romeo/src/system.rs","romeo/src/state.rs","stacks-core/src/wallet.rs"],
 [("set-up states","romeo/src/state.rs ContractDetected/ContractPublicKeySetup"),("set-bitcoin-wallet-public-key","asset.clar")],
 observe=["contract data var and order of accepted contract calls"])

p("B12","Every mint and burn carries an inclusion proof the contract accepts",
 "For every operation the bridge submits, the transaction id, block height, block header, position and merkle path it sends prove that transaction's inclusion in the Bitcoin block at that height, for every block size and every position in the block. The contract accepts them as soon as it knows that block.",
 ["inputs","histories","configurations"],
 "all block sizes (odd, even, powers of two, one less and more), all positions of operations in a block, several operations per block, witness and legacy transactions",
 "Four fixed blocks are used to compare proof data literally; the verification by the contract is tested separately with other fixed data.",
 ["romeo/src/proof_data.rs","romeo/src/system.rs","romeo/asset-contract/contracts/clarity-bitcoin-mini.clar","romeo/asset-contract/contracts/asset.clar"],
 [("merkle tree and proof","romeo/src/proof_data.rs BitcoinMerkleTree"),("verification","clarity-bitcoin-mini.clar was-txid-mined")],
 observe=["arguments of contract calls and the contract's result for them"])

p("B13","Every Stacks transaction sent is valid and has a nonce of its own",
 "Every transaction the bridge submits to the Stacks network is completely signed by the bridge's key for the configured network, calls the configured contract, carries a fee, may be put into a block and is not undone by post-conditions of its own, and uses a nonce that no other transaction of the bridge uses which may still be mined; a resubmission after a lost reply is byte-for-byte the same transaction. Concurrent mints and burns never compete for the same nonce.",
 ["schedules","crash_points","configurations","fault_sequences"],
 "all interleavings of concurrent mints, burns and set-up calls, lost replies and retries; the node's nonce answer reflects what it accepted",
 NOTEST+" Transaction submission is not executed by any test.",
 ["romeo/src/stacks_client.rs","romeo/src/system.rs"],
 [("exclusive client lock around nonce query and broadcast","romeo/src/stacks_client.rs LockedClient"),("nonce from the node","romeo/src/stacks_client.rs get_nonce_info")],
 observe=["transactions received by the Stacks node"])

p("C01","The token ledger conserves value and obeys only its owners",
 "In every history of contract calls, over forks of both chains and reordered, delayed, lost or repeated transactions: the total supply equals the sum of balances, never exceeds 21 million bitcoin, and changes only by mints and burns that the contract owner calls directly. A balance falls only by a transfer its holder sent (or the holding contract itself called) or by an owner burn. Each of these moves exactly the named amount between exactly the named accounts when the balance and the cap allow it, and is refused otherwise; a call that fails changes nothing. Ownership and the wallet key change only by a direct call of the current owner, to exactly the given value. The read-only functions report exactly this ledger.",
 ["histories","inputs","schedules"],
 "all sequences and orderings of calls by any set of principals, including through other contracts, any amounts and recipients",
 "The contract tests are fixed scenarios for clarinet (not run by the baseline) and cover a few calls each.",
 ["romeo/asset-contract/contracts/asset.clar"],
 [("owner check","asset.clar is-contract-owner"),("sender check in transfer","asset.clar transfer")],
 observe=["results and ledger after each call"])

p("C02","The contract accepts each Bitcoin transaction at most once and only if mined",
 "A mint or burn succeeds only with a merkle path that leads from the named Bitcoin transaction id, at the named position, to the merkle root of the header of the burn-chain block at the named height, and at most one mint or burn ever succeeds per Bitcoin transaction. An altered header, height, path or id and the position of another transaction are refused, and the owner's call with the correct proof of any unused transaction in a known block of two to 16384 transactions is accepted, whatever its position. The amount recorded for a transaction is the amount minted or the negated amount burned, and nothing is recorded by a call that fails.",
 ["histories","inputs","schedules"],
 "all sequences of calls with correct, replayed and altered proofs over blocks of all sizes",
 "Contract tests use a few fixed blocks and proofs.",
 ["romeo/asset-contract/contracts/asset.clar","romeo/asset-contract/contracts/clarity-bitcoin-mini.clar","romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar"],
 [("map-insert on amounts-by-btc-tx","asset.clar mint/burn"),("was-txid-mined","clarity-bitcoin-mini.clar")],
 observe=["results of calls and the used-txid map"])

p("T01","A built deposit transaction is valid and says exactly what was asked",
 "For every funded wallet, recipient, amount and network, the deposit transaction a client builds spends only the client's coins with valid signatures, has the data output first and exactly the asked amount to the given wallet address second, returns the rest minus a sane fee to the client, and the bridge's parser reads back precisely that recipient, amount and wallet. If it cannot, building fails with an error and yields no transaction.",
 ["inputs","configurations","schedules","fault_sequences"],
 "all coin sets, amounts (including ones equal to the change), recipients (accounts and contracts with names of any legal length), output shuffles and coin selections",
 "Existing tests compare one or two fixed transactions; coin selection and output order are random at run time.",
 ["sbtc-core/src/operations/op_return/deposit.rs","sbtc-core/src/operations/op_return/utils.rs","stacks-core/src/utils.rs","stacks-core/src/contract_name.rs","stacks-core/src/address.rs"],
 [("output ordering","sbtc-core op_return/utils.rs reorder_outputs"),("data output codec","sbtc-core deposit.rs DepositOutputData")],
 observe=["the transaction returned, checked by an independent verifier"])

p("T02","A built withdrawal request authorises exactly the asked withdrawal",
 "For every funded wallet, drawee key, payee, amount, fee and network, the withdrawal request a client builds spends only the client's coins with valid signatures, has the data, payee and fulfilment-fee outputs in this order, and the bridge's parser reads back exactly that drawee, payee, amount and fee. Changing the amount or the payee in it, or replacing the signature by one the drawee did not make, makes it authorise no withdrawal from the drawee.",
 ["inputs","configurations","schedules","fault_sequences"],
 "all coin sets, keys, payee address kinds, amounts and fees, output shuffles, and all single alterations by a third party",
 "Existing tests cover one fixed key and address.",
 ["sbtc-core/src/operations/op_return/withdrawal_request.rs","sbtc-core/src/operations/op_return/utils.rs","stacks-core/src/crypto/mod.rs"],
 [("signed message","sbtc-core withdrawal_request.rs signing message"),("signature recovery","sbtc-core withdrawal_request.rs recover_signature")],
 observe=["the transaction returned, parsed by the bridge's parser and an independent one"])

p("T03","A built fulfilment pays exactly the payee and keeps every output",
 "For every funded bridge wallet, payee, amount, Stacks block id and network, the withdrawal fulfilment transaction has the data output with that block id first and exactly the amount to the payee second, returns all the rest minus a sane fee to the wallet, and is validly signed. No output is dropped, merged or changed, whatever the order the wallet library shuffles outputs into.",
 ["inputs","configurations","schedules"],
 "all coin sets, payees (including the wallet's own address), amounts equal to the change, output shuffles",
 "No test builds a fulfilment transaction with colliding outputs.",
 ["sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs","sbtc-core/src/operations/op_return/utils.rs"],
 [("output ordering","sbtc-core op_return/utils.rs reorder_outputs")],
 observe=["the transaction returned, checked by an independent verifier"])

p("T04","The command-line client emits a complete correct transaction or an error",
 "Each run of the deposit and withdraw commands against an Electrum server either prints one complete, valid transaction (with its id) that is correct for the arguments and spends coins the server reported, or exits with an error and prints no transaction; connection loss, garbled or truncated replies, server errors and history changing during the run never make it print a wrong or partial one. The broadcast command submits exactly the given transaction and reports success only if the server accepted it.",
 ["inputs","schedules","fault_sequences","histories"],
 "all arguments, wallet histories, Electrum faults at every message, mempool changes during the run",
 "The command-line client has no tests at all.",
 ["sbtc-cli/src/commands/deposit.rs","sbtc-cli/src/commands/withdraw.rs","sbtc-cli/src/commands/broadcast.rs"],
 [("sync then build then print","sbtc-cli/src/commands/deposit.rs build_deposit_tx")],
 observe=["standard output, exit result, messages at the Electrum server"])

p("T05","A commit-reveal commitment can be revealed or reclaimed by exactly its parties",
 "For every deposit or withdrawal payload and pair of keys, funds sent to the commitment address can be spent by the revealer's signature with the reveal transaction built for it, which discloses exactly the committed payload, and by the reclaimer's signature through the reclaim path; no other key or payload can spend them. The reveal transaction pays the wallet and recipient exactly what the parameters say, provided the committed amount covers its fee.",
 ["inputs","schedules","histories"],
 "all payloads and keys, both spending orders raced against each other, wrong keys and altered payloads",
 "The commit-reveal code has no behavioural tests.",
 ["sbtc-core/src/operations/commit_reveal/utils.rs","sbtc-core/src/operations/commit_reveal/deposit.rs","sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"],
 [("taproot tree with reveal and reclaim leaves","sbtc-core commit_reveal/utils.rs taproot_spend_info")],
 observe=["acceptance of the spending transactions by an independent script interpreter"])

p("S01","Encoding to any writer is complete or reported as an error",
 "Whenever encoding a value to a writer reports success, exactly the value's full canonical bytes have been written, also if the writer accepts only part of the data at a time or is interrupted; a writer that only delays in this way never makes it fail; if the writer fails or is full, an error is returned. Encoding never panics.",
 ["inputs","schedules","fault_sequences"],
 "all encodable values, all splits into partial writes, interruptions, failures at any byte",
 "Tests only encode into in-memory vectors, which never write short or fail.",
 ["stacks-core/src/codec.rs","stacks-core/src/address.rs","stacks-core/src/contract_name.rs","stacks-core/src/utils.rs","stacks-core/src/uint.rs","sbtc-core/src/operations/op_return/deposit.rs","sbtc-core/src/operations/op_return/withdrawal_request.rs","sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"],
 [("Codec trait implementations","stacks-core/src/codec.rs")],
 observe=["bytes received by the writer and the returned result"])

p("S02","Decoding any stream returns the original value however it is delivered",
 "Decoding a value's encoding from a reader returns an equal value and consumes exactly its bytes, so that values written one after another are read back one by one, whatever sizes the reads come in and however often they are interrupted. A stream that ends or fails early yields an error and never a value.",
 ["inputs","schedules","fault_sequences"],
 "all encodable values and sequences of values, all read splits and interruptions, truncation and failure at every byte",
 "Tests only decode complete in-memory slices of a few values.",
 ["stacks-core/src/codec.rs","stacks-core/src/address.rs","stacks-core/src/contract_name.rs","stacks-core/src/utils.rs","stacks-core/src/uint.rs","sbtc-core/src/operations/op_return/deposit.rs","sbtc-core/src/operations/op_return/withdrawal_request.rs"],
 [("Codec trait implementations","stacks-core/src/codec.rs")],
 observe=["decoded value, bytes consumed, returned result"])

p("S03","Corrupt data is rejected or decodes canonically, and never crashes",
 "Decoding arbitrary or corrupted bytes never panics and never reads beyond what the format allows; whenever it succeeds, encoding the result gives back exactly the bytes consumed, so no two byte strings decode to the same value. Data of a different operation, unknown network tag, principal kind, address version or illegal name is rejected.",
 ["inputs","fault_sequences"],
 "all byte strings: random, bit-flipped, spliced and truncated encodings",
 "Tests decode a few malformed constants.",
 ["stacks-core/src/codec.rs","stacks-core/src/address.rs","stacks-core/src/contract_name.rs","stacks-core/src/utils.rs","stacks-core/src/uint.rs","sbtc-core/src/operations/mod.rs","sbtc-core/src/operations/op_return/deposit.rs","sbtc-core/src/operations/op_return/withdrawal_request.rs","sbtc-core/src/operations/op_return/withdrawal_fulfillment.rs"],
 [("Codec trait implementations","stacks-core/src/codec.rs"),("contract name rules","stacks-core/src/contract_name.rs")],
 observe=["returned result and bytes consumed"])

p("N01","Fixed-width integers follow two's-power arithmetic",
 "Arithmetic, comparison, shifting and byte or hex conversion of the 256-bit and 512-bit unsigned integers agree with the mathematical operations on integers of that width.",
 ["inputs"],"all operands","Unit tests sample operands.",
 ["stacks-core/src/uint.rs"],[("limb arithmetic","stacks-core/src/uint.rs")])
p("N02","Stacks addresses and c32 text round-trip and reject corruption",
 "Encoding any address to its text form and back gives the same version and hash, and a text with a wrong checksum, character or length is rejected.",
 ["inputs"],"all versions, hashes and corrupted texts","Unit tests sample vectors.",
 ["stacks-core/src/c32.rs","stacks-core/src/address.rs"],[("c32check","stacks-core/src/c32.rs")])
p("N03","Key derivation is deterministic and matches the published paths",
 "A mnemonic and account index always yield the same Stacks and Bitcoin keys, addresses and WIF strings, as any other wallet following the same derivation paths.",
 ["inputs","configurations"],"all mnemonics, indexes and networks","Unit tests sample vectors.",
 ["stacks-core/src/wallet.rs","stacks-core/src/crypto/wif.rs"],[("BIP32 derivation","stacks-core/src/wallet.rs")])
p("N04","Threshold signing rounds produce a valid group signature",
 "A coordinator and any sufficient set of signers complete a signing round with one valid group signature, and fewer cannot.",
 ["schedules","fault_sequences"],"all message orders and signer failures","Not implemented, so not tested.",
 ["sbtc-core/src/signer/mod.rs","sbtc-core/src/signer/coordinator/mod.rs"],[("signer and coordinator traits (unimplemented)","sbtc-core/src/signer")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
