NOTES = "No hooks in /repo: every seam is a patched or stubbed dependency (see DESIGN.md). Unguarded changes in /repo are the fix: commits listed in known-findings.txt."
NOT_APPLICABLE = {
    "N01": "Pure functions of their input: no schedule, clock, I/O, fault or second party for the result to depend on, so there is nothing to simulate.",
    "N02": "Pure text encoding of its input: no nondeterminism or fault for the result to depend on.",
    "N03": "Pure key derivation from a mnemonic and index: no nondeterminism or fault for the result to depend on.",
    "N04": "The signer and both coordinators are unimplemented at this commit (their bodies are todo!()), so there is no execution to simulate.",
}
LVL = "Seeded sampling of schedules and faults; a clean batch is evidence, not proof. Assumes the dependencies (rust-bitcoin, secp256k1, bdk) behave as their versions in the lock file do."
CHECKS = {
    "S01": ("values encoded into simulated writers that take short writes, are interrupted, fail or fill up at planned offsets", LVL),
    "S02": ("values decoded from simulated readers with short, interrupted, failing and truncated reads at planned offsets", LVL),
    "S03": ("stored bytes corrupted by planned faults, decoded through a simulated reader and compared with an independent recogniser of every format", LVL),
    "T01": ("deposits built with a wallet synchronised over a simulated Electrum connection with planned faults and a seeded random source; the transaction is judged by an independent verifier and the bridge's parser", LVL),
    "T02": ("withdrawal requests built under the same simulation, then altered by a third party; judged by an independent verifier, signer and the bridge's parser", LVL),
    "T03": ("fulfilments built under the same simulation with every output order the wallet library's seeded random source gives; judged by an independent verifier", LVL),
    "T04": ("the unmodified client executable run against a simulated Electrum server with planned connection, protocol and standard-output faults; output, exit and server record judged by an independent verifier", LVL),
    "T05": ("commit, reveal, reclaim and thief transactions raced on a simulated chain in seeded orders; acceptance by an independent script interpreter", LVL),
    "B01": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; every mint in the token ledger is matched with an independent reading of the Bitcoin chain', LVL),
    "B02": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; every burn in the token ledger is matched with an independently recovered signature on the Bitcoin chain', LVL),
    "B03": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; every payout accepted by the Bitcoin node is matched with the burns executed by then', LVL),
    "B04": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; progress is judged on the ledger a bounded number of blocks after the faults stop', LVL),
    "B05": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; progress is judged on the ledger and the Bitcoin chain a bounded number of blocks after the faults stop', LVL),
    "B06": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; every start, the requests it makes and the final state are judged against the log it found', LVL),
    "B07": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; the recorded blocks are compared with both chains in order and content', LVL),
    "B08": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; blocks with arbitrary and almost-correct content are mined; survival and processing of the sound operations are judged', LVL),
    "B09": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; every service fails and recovers at planned times without crashes; progress and chain following are judged', LVL),
    "B10": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; stable storage is inspected at the instant each request is accepted by a node', LVL),
    "B11": ("the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; the contract's recorded key is inspected at the instant each operation is accepted by a node", LVL),
    "B12": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; each submitted proof is recomputed from the block and run through the real contract in an interpreter', LVL),
    "B13": ('the unmodified bridge process on a simulated disk, network, clock and scheduler against simulated Bitcoin, Electrum and Stacks nodes with planned crashes, power losses, outages and disk faults; every transaction received by the Stacks node is decoded, verified and compared with the ones before it', LVL),
    "C01": ("the deployed contract sources run in an interpreter under seeded histories of calls, with transactions reordered, delayed, lost and repeated and both chains forked at planned points; after every call the ledger is compared with a reference ledger", LVL + " The Clarity interpreter is our own."),
    "C02": ("the deployed contract sources run in an interpreter under seeded histories of mints and burns with right and tampered proofs, reordered, delayed, lost and repeated, over forks of both chains; every claim is recomputed from the simulated Bitcoin chain the call could see", LVL + " The Clarity interpreter is our own."),
}
