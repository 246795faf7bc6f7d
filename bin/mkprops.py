#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well-formed)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "silentpayments/src/"
prop("C01", "A payment to a silent payment code is always found by its owner and spendable",
 "For every transaction whose inputs' keys the sender knows, and every list of version-0 codes (base or labelled, several wallets, the same code or scan key repeated any number of times), the outputs derived by the sender are exactly the ones each recipient's scan of that transaction reports, whatever the order of inputs and outputs and whatever unrelated outputs are mixed in. Each report carries the right outpoint, script, amount and label, and the recipient's spend secret plus the reported tweak is a secret key for that output. A transaction that pays a wallet nothing yields no report for it.",
 ["inputs", "configurations"], "every set of eligible and ineligible inputs, key parities, outpoints, recipient lists, label numbers, output permutations and decoy outputs",
 "The BIP352 vectors are about thirty fixed transactions with at most a handful of outputs; the agreement is a relation between two independently written computations over unbounded inputs (long runs of one scan key, mixed labels, permuted outputs, key parities).",
 [S+"send/mod.rs", S+"send/bip352.rs", S+"receive/mod.rs", S+"receive/scan.rs", S+"hashes.rs", S+"lib.rs"],
 [("create_silentpayment_scriptpubkeys / create_silentpayment_partial_secret", S+"send/mod.rs"), ("scan_txouts / find_spout_for_tweak", S+"receive/mod.rs"), ("Scanner", S+"receive/scan.rs")],
 ["Scanner::scan_tx", "scan_txouts", "create_silentpayment_scriptpubkeys"])
prop("C02", "Scanning never reports an output the wallet does not own",
 "Every output a scan reports lies in the scanned transaction at the reported outpoint with the reported script and amount, is reported once, and its output key is opened by the wallet's spend secret plus the reported tweak, where the tweak includes exactly the tweak of the reported label (or of none) and that label belongs to the wallet. Outputs belonging to other wallets or labels the wallet does not use, decoys, non-taproot outputs and outputs whose key is not a curve point are never reported, and an output is reported only if all lower derivation indexes of that transaction were found too. No transaction, however malformed, makes scanning panic.",
 ["inputs"], "every transaction (well-formed or adversarial, duplicated scripts, gaps in the derivation index, invalid x-only keys), wallet and label set",
 "Unit tests scan transactions built by honest senders; soundness is a statement about all transactions, including crafted ones that the vectors do not contain.",
 [S+"receive/mod.rs", S+"receive/scan.rs"],
 [("find_spout_for_tweak", S+"receive/mod.rs"), ("scan_txouts", S+"receive/mod.rs")], ["scan_txouts", "Scanner::scan_tx"])
prop("C03", "Sender derivation follows BIP352 for every list of recipients",
 "For every smallest outpoint, list of input scripts with keys and list of codes, the sender returns for each code, in the order the code occurs, the x-only keys prescribed by BIP352: keys of taproot inputs are negated to even, keys of scripts that can never be eligible are ignored, and the derivation index counts the occurrences of the scan key so far, across codes sharing it. The result does not depend on the order of the inputs or on the order of codes with different scan keys. Derivation is refused exactly when no eligible key is left, the eligible keys sum to zero or an input has a witness version above 1; partial sums that happen to be zero do not matter.",
 ["inputs"], "all input key multisets (including ones that cancel partly or completely), scripts, outpoints and recipient lists",
 "Vectors fix one order and a few recipients per transaction; partial cancellation is one ignored upstream vector and index counts above 3 are never reached.",
 [S+"send/mod.rs", S+"hashes.rs"], [("create_silentpayment_partial_secret", S+"send/mod.rs"), ("create_silentpayment_scriptpubkeys", S+"send/mod.rs")],
 ["create_silentpayment_partial_secret", "create_silentpayment_scriptpubkeys"])
prop("C04", "Exactly the inputs BIP352 makes eligible contribute their public key",
 "Given a transaction input and the script it spends, the key extracted for shared secret derivation is the one BIP352 prescribes: the output key of a taproot spend (key path or script path, annex or not, unless the script path reveals the NUMS point as internal key), the compressed key of P2WPKH and P2SH-P2WPKH witnesses, and for P2PKH the last 33-byte window of the script signature that hashes to the script's key hash. Every other input contributes nothing, and no script, witness or script signature makes extraction panic. A transaction spending an output of witness version above 1 is not scanned.",
 ["inputs"], "all combinations of previous script shapes, witness stacks (annex, short and long control blocks, NUMS key, wrong-length keys) and script signatures (malleated, key at any offset, several candidate keys)",
 "Tests cover one happy case per type; the decision is a cross product of script, witness and script-signature shapes.",
 [S+"lib.rs", S+"receive/mod.rs"], [("tag_txin", S+"lib.rs"), ("extract_pubkey", S+"receive/mod.rs"), ("compute_tweak_data", S+"receive/mod.rs")],
 ["extract_pubkey", "tag_txin", "compute_tweak_data"])
prop("C05", "Tweak data depends on the set of inputs only and matches the sender's secret",
 "The public tweak computed from a transaction and its previous outputs is the input hash times the sum of the eligible keys, where the input hash commits to the smallest outpoint over all inputs (eligible or not, compared as serialized bytes: txid, then little-endian index) and to the key sum. It is the same for every order of the inputs, equals the public point of the sender's partial secret, and its Diffie-Hellman secret with a scan key equals the sender's with the scan public key. It is an error, never a panic or a value, when there is no eligible input, the keys cancel, or there are no inputs.",
 ["inputs"], "all input lists and their permutations, outpoints differing only in the index (0, 1, 255, 256, 65536, 2^32-1) or only in late txid bytes, cancelling keys",
 "Vectors contain one order per transaction and small indexes, for which byte order and numeric order agree.",
 [S+"lib.rs", S+"receive/mod.rs", S+"hashes.rs", S+"send/mod.rs"], [("LexMin", S+"lib.rs"), ("compute_tweak_data", S+"receive/mod.rs"), ("get_input_hash", S+"hashes.rs"), ("compute_shared_secret", S+"lib.rs")],
 ["compute_tweak_data", "LexMin::bytes", "compute_shared_secret", "Scanner::get_shared_secret"])
prop("C06", "Silent payment codes round-trip and malformed ones are rejected",
 "Encoding a version-0 code gives the BIP352 bech32m string for its network family (main, test/signet, regtest), and parsing it back gives the same version, scan key, spend key and family, in lower or upper case. Parsing accepts exactly bech32m strings with a known prefix whose payload is two valid compressed keys: exactly 66 bytes for version 0, at least 66 for versions 1 to 30 (the rest ignored), never version 31. Any other string, including every one with up to three substituted characters, mixed case, the old bech32 checksum or an empty or short payload, gives an error and never a panic or another code.",
 ["inputs"], "all key pairs, networks, versions, payload lengths, prefixes, cases, checksum variants and corruptions",
 "Tests hold about twenty strings; the decision is over version x length x prefix x checksum x key validity and over every corruption position.",
 [S+"encoding/mod.rs", S+"encoding/error.rs"], [("Display / TryFrom<&str> for SilentPaymentCode", S+"encoding/mod.rs")], ["SilentPaymentCode::try_from", "SilentPaymentCode::to_string"])
prop("C07", "Labels are deterministic, distinct and consistent everywhere",
 "For every scan secret and label number the labelled code keeps scan key, version and network and has spend key B + hash(scan secret, number as 4 big-endian bytes)*G, and the label scanners and both indexers register for that number is that same scalar and point. Different numbers give different codes, adding a label twice changes nothing, and a payment to a labelled code is reported under exactly that number by every scanner that knows it and is not reported by one that does not. Placeholder scripts are a function of the code and differ between codes with different keys.",
 ["inputs", "histories"], "all label numbers (0, powers of two, 2^31, 2^32-1), scan secrets, and sequences of label additions",
 "Tests use labels 0, 1, 2, 3 and 1337; the number encoding and the tables must agree for all of them.",
 [S+"encoding/mod.rs", S+"hashes.rs", "indexer/src/lib.rs", "indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"],
 [("get_label_tweak", S+"hashes.rs"), ("add_label / get_placeholder_p2tr_spk", S+"encoding/mod.rs"), ("SpIndexes::add_label", "indexer/src/lib.rs"), ("SpPub::create_label, SpIndexerV2::get_labeled_address", "indexer/src/v2/mod.rs")],
 ["SilentPaymentCode::get_label", "SpIndexes::add_label", "SpIndexerV2::add_label"])
prop("C08", "PSBT derivation fills each placeholder so that its recipient finds the payment",
 "When silent payment derivation on a finalized PSBT succeeds, every placeholder output of the listed recipients has been replaced by the BIP352 output for that recipient, computed from all eligible inputs of the PSBT (P2TR key or script path, P2WPKH, P2SH-P2WPKH, P2PKH) with the derivation index counting only outputs that exist, so that every recipient's scan of the resulting transaction finds every payment. Amounts, output order, all other outputs and all inputs are unchanged.",
 ["inputs", "configurations"], "all PSBTs with any mix of input types, key sources (derivation paths or direct keys), placeholder positions and multiplicities, unrelated outputs, listed recipients without an output",
 "Tests use one or two inputs, mostly taproot, and compare against precomputed values for a few layouts.",
 [S+"send/psbt/mod.rs"], [("derive_sp", S+"send/psbt/mod.rs"), ("collect_input_data", S+"send/psbt/mod.rs"), ("update_outputs", S+"send/psbt/mod.rs")], ["derive_sp", "Scanner::scan_tx on the extracted transaction"])
prop("C09", "PSBT derivation that cannot be completed fails and leaves the PSBT untouched",
 "Derivation returns an error whenever a result would lose money: the key of some eligible input is missing or does not match the input, an input has no final witness or previous output, no input is eligible, the keys sum to zero, or the number of placeholder outputs of a listed recipient differs from the number of times it is listed (when it has any). It never panics, and after any error the PSBT is byte for byte what it was before the call.",
 ["inputs", "fault_sequences"], "all PSBTs with one or several faults at any input or output, in any order of recipients",
 "Tests inject one fault at a time into a one-recipient PSBT; order-dependent partial updates need several recipients and hash-map orders.",
 [S+"send/psbt/mod.rs", S+"send/error.rs"], [("collect_input_data", S+"send/psbt/mod.rs"), ("get_taproot_secret / get_non_taproot_secret", S+"send/psbt/mod.rs"), ("update_outputs", S+"send/psbt/mod.rs")], ["derive_sp"])
prop("C10", "Signing received silent payment outputs in a PSBT yields valid signatures only",
 "For every PSBT and key provider, signing puts a valid BIP340 key-path signature on exactly those unsigned inputs whose silent payment record (spend key and tweak) matches the spent output and whose spend secret is provided, whatever the position and number of inputs, the parities and the presence of other inputs. Existing signatures, other inputs and all other PSBT fields are unchanged, malformed records and missing previous outputs leave inputs unsigned without a panic, and a signed record-bearing input can in turn be used for silent payment derivation.",
 ["inputs"], "all input counts and positions, mixes of owned and foreign inputs, wrong tweaks, wrong spend keys, several records on one input, label tweaks",
 "There is no test of multi-input signing; a signature is valid only relative to the whole transaction and all previous outputs.",
 [S+"send/psbt/sign.rs", S+"send/psbt/mod.rs"], [("sign_sp, add_sp_data_to_input", S+"send/psbt/sign.rs"), ("get_sp_secret", S+"send/psbt/mod.rs")], ["sign_sp", "derive_sp"])
prop("C11", "Honest DLEQ proofs always verify and follow BIP374",
 "For every non-zero secret, points B and G, 32 bytes of randomness and optional 32-byte message, proof generation succeeds, is deterministic, equals the BIP374 proof for those values, and verification of (secret*G, B, secret*B) with the same G and message accepts it.",
 ["inputs"], "all secrets, bases, generators, randomness and messages (absent, zero, any)",
 "The vectors are a dozen fixed tuples; generator different from the standard one and message presence are barely covered.",
 ["dleq/src/lib.rs"], [("dleq_generate_proof", "dleq/src/lib.rs"), ("dleq_challenge", "dleq/src/lib.rs")], ["dleq_generate_proof", "dleq_verify_proof"])
prop("C12", "A DLEQ proof is accepted only for the statement it proves",
 "Verification accepts (A, B, C, proof, G, message) only if the proof's challenge is the BIP374 challenge hash of exactly A, B, C, G, the two commitments recomputed from the proof, and the message. Changing any of A, B, C, G, the message (including absent versus present) or any bit of the proof, or swapping points, makes it return false or an error, never true and never a panic.",
 ["inputs"], "all tampered combinations of the six arguments, out-of-range scalars and degenerate points",
 "Vectors contain a few tampered proofs; binding of each argument must hold for all values.",
 ["dleq/src/lib.rs"], [("dleq_verify_proof", "dleq/src/lib.rs"), ("dleq_challenge", "dleq/src/lib.rs")], ["dleq_verify_proof"])
prop("C13", "The indexer holds exactly the wallet's outputs for any block/mempool history",
 "After any sequence of label additions, applied blocks and inserted unconfirmed transactions, the set of indexed outputs is exactly the set of outputs that belong to the wallet in the transactions supplied with their tweak (a transaction already found to pay the wallet also counts under labels added later), each with its tweak and label, and lookups by script, label, transaction and outpoint agree with it. The transaction graph contains exactly the transactions that pay the wallet or spend an indexed output (or all of them for the unfiltered entry points), each anchored to every block it was applied in; reprocessing changes nothing, and a block's coinbase is never indexed.",
 ["histories"], "all interleavings of labels, blocks (with receive and spend in the same block), unconfirmed batches in any order, repeats, anchors and evictions",
 "There is no test of the indexer; the property ranges over histories.",
 ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], [("index_tx, apply_block_with_filter, batch_insert_*", "indexer/src/v2/mod.rs"), ("SpIndex::index_spout", "indexer/src/v2/indexes.rs")],
 ["SpIndexerV2::index", "SpIndexerV2::graph"], [("index", "outputs, labels and tweaks known", "indexer/src/v2/indexes.rs"), ("graph", "relevant transactions and anchors", "indexer/src/v2/mod.rs")])
prop("C14", "Indexer state can be rebuilt from the change sets it returned",
 "At any point of any history, merging the initial change set with the change sets returned so far, in one go or in any grouping, with duplicates, and through JSON or binary serialization, and rebuilding an indexer from the result gives the same keys, labels, indexed outputs and graph as the live indexer, and so does rebuilding from the live indexer's own full change set. Rebuilding fails when a key is missing, a change set reports itself empty exactly when it carries nothing, and applying a change set of another wallet changes nothing. A damaged serialized change set is refused or read as another one, never a panic.",
 ["histories", "crash_points"], "all histories, every crash point between change sets, every grouping, repetition and serialization",
 "No test persists or restores; the property ranges over all prefixes of all histories.",
 ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], [("ChangeSet Merge / apply_changeset / initial_changeset / TryFrom", "indexer/src/v2/mod.rs"), ("Label serde", "indexer/src/v2/indexes.rs")],
 ["SpIndexerV2::try_from", "ChangeSet::merge", "SpIndexerV2::initial_changeset"])
prop("C15", "The full-node indexer tracks exactly the wallet's outputs and never panics",
 "After any sequence of label additions and indexed transactions (with their previous outputs), the version-1 index contains exactly the wallet's outputs found in them, with agreeing views by outpoint, script, label and transaction, stores each paying transaction with its previous outputs in the graph and returns exactly that as change, and recognises exactly the transactions that spend an indexed output. Transactions without any usable input are skipped without error or panic, reprocessing changes nothing, and index contents survive conversion to and from their change set, merged in any grouping and serialized.",
 ["histories", "inputs"], "all transaction sequences including ones with no eligible inputs, repeats, spends, and all groupings of change sets",
 "There is no test of this indexer at all.",
 ["indexer/src/lib.rs"], [("SpIndexer::index_tx, spends_owned_spouts", "indexer/src/lib.rs"), ("SpIndexesChangeSet Merge / From", "indexer/src/lib.rs")], ["SpIndexer::index_tx", "SpIndexes", "SpIndexesChangeSet"])
prop("C16", "Light-client script derivation agrees with scanning the full transaction",
 "For every wallet, label set and transaction that pays the wallet, the scripts derived from the transaction's public tweak alone (first derivation index, base and every label) contain a script of that transaction, and none of them occurs in a transaction that does not pay the wallet. For every index and label the derived script equals the one the sender produces, and the set has one script per known label plus the base one, in both the scanner and the indexer.",
 ["inputs", "histories"], "all tweaks, label sets (empty to many), derivation indexes and transactions",
 "The only test derives scripts for fixed keys; agreement with scanning is a relation over all transactions.",
 [S+"receive/scan.rs", S+"receive/mod.rs", "indexer/src/v2/mod.rs"], [("get_spks_from_tweak", S+"receive/scan.rs"), ("get_silentpayment_script_pubkey", S+"receive/mod.rs"), ("derive_spks_for_tweak", "indexer/src/v2/mod.rs")],
 ["Scanner::get_spks_from_tweak", "SpIndexerV2::derive_spks_for_tweak"])
prop("C17", "Wallet balance, unspent scripts and spend candidates follow the best chain",
 "After any sequence of blocks, chain updates (with every block or only some known, links closed later) and reorganizations, the wallet's balance counts exactly the wallet's outputs in canonical transactions that no canonical transaction spends, split into confirmed, immature and pending according to the current best chain; the unspent scripts and the spend candidates are those same outputs. Addresses handed out (base, labelled, change) stay the same for the life of the wallet, label 0 is refused to callers, and payments to any address handed out are recognised from then on, with the wallet's own change key path. Descriptors a wallet cannot be made from are refused with an error, never a panic.",
 ["histories"], "all histories of blocks, reorganizations, double spends, labels and payments",
 "The wallet crate has no tests; the property ranges over histories of chain and mempool.",
 ["wallet/src/lib.rs", "wallet/src/signers.rs"], [("balance / unspent_spks / all_candidates", "wallet/src/lib.rs"), ("apply_block_relevant / update_chain", "wallet/src/lib.rs"), ("populate_sp_keymap / get_spend_sk", "wallet/src/signers.rs")],
 ["SpWallet::balance", "SpWallet::unspent_spks", "SpWallet::all_candidates"])
prop("C18", "Wallet state survives a crash at any point after its staged changes were stored",
 "At any point of any history, a wallet rebuilt from the merge of all staged change sets taken so far, in any grouping, has the same birthday, network, chain, addresses, labels, outputs and balance the live wallet had when the last of them was taken, and continues to behave like it. Taking the staged changes empties the stage and every later change is staged again; a rebuilt wallet has nothing left to store, and rebuilding without network, genesis or keys fails with an error.",
 ["histories", "crash_points"], "all histories and every crash point between stored change sets",
 "No test persists a wallet; the property ranges over all prefixes of all histories.",
 ["wallet/src/lib.rs"], [("ChangeSet Merge, TryFrom<ChangeSet> for SpWallet", "wallet/src/lib.rs"), ("take_staged", "wallet/src/lib.rs")], ["SpWallet::take_staged", "SpWallet::try_from"])
prop("C19", "The tweak subscriber reports every relevant block, then the sync point",
 "For every sequence of block filters and sync points from the node, replacements of a block at the same height included, and every order in which the tweak server answers, the wallet is told exactly once per batch of each block whose filter contains one of its scripts derived from the block's tweaks (base or any label), the script of an output it had before, or that of an output found in an earlier block, in order of height, with the right block and the complete map from derived scripts to tweaks, and of no other block. Blocks below the birthday are ignored; a sync point is passed on after all matches of the blocks before it, in order. No server answer makes it panic, and a failing answer for one block does not affect the others.",
 ["schedules", "inputs", "fault_sequences"], "all filter sets, tweak sets, label sets, answer orders and delays, batch splits and failing or malformed answers",
 "There is no test of this crate; the order of concurrent answers is a schedule.",
 ["oracles/src/tweaks/blindbit.rs", "oracles/src/filters/kyoto.rs"], [("BlindbitSubscriber::run / process_changes", "oracles/src/tweaks/blindbit.rs"), ("DatabaseBuffer", "oracles/src/filters/kyoto.rs"), ("FilterSubscriber::run", "oracles/src/filters/kyoto.rs")],
 ["TweakEvent channel"])
prop("C20", "Spending helpers for HD keys and received outputs derive what BIP352 prescribes",
 "For every list of inputs given as outpoint, script and derivation path, the extended-key sender derives the same outputs as BIP352 with the inputs' actual secrets: the tap-tweaked key for taproot inputs and the plain derived key for the others. For every list of received silent payment outputs (base or labelled), the received-output sender derives the same outputs as BIP352 with secrets spend + tweak. Recipients find every payment, and both refuse empty or cancelling input lists; the extended-key sender also refuses a path whose key is not the one that spends the input.",
 ["inputs"], "all input lists, script types, derivation paths, key parities, labels, outpoint orders and recipient lists",
 "Two integration tests need a node and use taproot only; received-output spending is never tested.",
 [S+"send/bip32.rs", S+"send/bip352.rs"], [("XprivSilentPaymentSender::send_to", S+"send/bip32.rs"), ("SpSender::send_to", S+"send/bip352.rs")], ["XprivSilentPaymentSender::send_to", "SpSender::send_to"])
prop("C21", "The command line wallet finds, counts and spends its coins correctly end to end",
 "For every chain served by the node, scanning (once or resumed, with reorganizations in between) leaves the stored wallet with exactly its unspent outputs, and the balance shown is their sum on the best chain. A transaction it builds spends only those, pays the recipient the requested amount, pays change to its own change code so that recipient and wallet find both, and signing it yields a fully valid transaction for any number of inputs. Signing signs exactly the wallet's own inputs of any transaction (reordered, joint with others, partly signed), changes nothing else in it, and refuses with an error, never a panic, what it cannot sign; keys of another wallet are refused for paying and signing, recipients of another network and impossible amounts for paying. Labelled codes it prints are recognised by later scans.",
 ["histories", "inputs"], "all chains (receive, spend with and without taproot outputs, reorganization, several scans) and spend requests",
 "The binary has no tests; end-to-end behaviour depends on chain histories.",
 ["cli/v1/src/main.rs", "indexer/src/lib.rs"], [("main: Scan, Balance, NewPsbt, SignPsbt, Code", "cli/v1/src/main.rs"), ("SpIndexer", "indexer/src/lib.rs")], ["sp-cli1 stdout", "stored wallet file"])
prop("C22", "An output is only turned into a silent payment the recipient will find",
 "For every partially signed transaction, to-silent-payment of the command line wallet either refuses with an error or returns the same transaction with exactly one difference: the one taproot output of the requested amount pays the recipient, who finds it (base or labelled code) from the inputs actually spent; amounts, all other outputs, inputs and metadata are unchanged and the fee shown is right. It refuses whenever the keys of an input that counts for BIP352 are not known, an input's script is unknown, an input spends an unknown witness version, no input is eligible or no taproot output has the amount; and it does not refuse when one output fits, all inputs are its own and the extended key is given. It never panics, whatever transaction, code or descriptor it is given.",
 ["inputs"], "all lists of inputs (script types, derivations, previous outputs given or not), output lists and codes",
 "The binary has no tests; a payment the recipient cannot find is invisible to the sender.",
 ["cli/v1/src/main.rs", S+"send/bip32.rs"], [("main: ToSilentPayment", "cli/v1/src/main.rs"), ("XprivSilentPaymentSender::send_to", S+"send/bip32.rs")], ["sp-cli1 to-silent-payment"])
prop("C23", "The light-client wallet program follows the chain and pays correctly end to end",
 "For every chain and every mixture of scans by block filters and block by block (reorganizations, blocks arriving or replaced during a scan, refusing nodes and peers, undelivered blocks), the stored wallet holds exactly its outputs on the chain the last finished scan saw: the balance shown has them as spendable, immature or pending, outputs received and spent within one scan are not counted, nothing is lost and no other wallet's output appears. A scan that fails or is cut off leaves the wallet as far as it got, and the next one completes it; a scan from an earlier height changes nothing or finds what codes made later were paid. Transactions it builds spend only its spendable outputs with valid signatures, pay every address, code (also its own and on every test network) and data requested the amount asked, and pay change to its own change code; requests it cannot read, for another network, with impossible amounts or fee rates, or with keys that are not the wallet's are refused with an error, never a panic, others only when the money does not suffice. Codes, labels and derived scripts it prints are those of BIP352, stay the same, and payments to them are found later.",
 ["histories", "inputs", "crash_points", "fault_sequences"], "all chain histories, orders and kinds of scans, failures at any point, label sets and payment requests",
 "The binary has no tests; end-to-end behaviour depends on histories of the chain, the scans and their failures.",
 ["cli/v2/src/main.rs", "wallet/src/lib.rs", "indexer/src/v2/mod.rs", "oracles/src/tweaks/blindbit.rs", "oracles/src/filters/kyoto.rs"], [("main: ScanCbf, ScanRpc, Balance, NewTx, Code, DeriveSpForTx", "cli/v2/src/main.rs"), ("SpWallet::update_chain / apply_block_relevant", "wallet/src/lib.rs"), ("BlindbitSubscriber", "oracles/src/tweaks/blindbit.rs")],
 ["sp-cli2 stdout", "stored wallet file"])
prop("C24", "Wallet keys are fresh, recoverable from their seed, and never confused",
 "Every key set `generate` prints and every wallet `create` makes comes from a new random seed: no two ever share one, and none is predictable. For every network the scan and spend keys are those of BIP352 (m/352h/coin h/0h/1h/0 and .../0h/0, coin 0 on the main network, 1 on the others), the descriptors or the extended key printed suffice to find them again, private and public descriptors are of the same keys, and extended keys carry the kind of network. A wallet's code is made of exactly the keys given to `init` (whichever way they are written: private or public spend descriptor, argument or environment) on the chosen network, and stays the same; labelled codes are of the wallet's own scan key. Wildcards, several paths, descriptors that are not taproot, public scan descriptors, damaged text and keys or codes of another wallet are refused with an error, never a panic, whether for `init`, `code --label` or `scan`, and change no byte of any file.",
 ["inputs", "histories"], "all networks, ways of writing a descriptor and combinations of keys over sequences of commands",
 "The binaries have no tests; a predictable or misplaced key, or a labelled code of another wallet's key, looks right and loses the money.",
 ["cli/v1/src/main.rs", "cli/v2/src/main.rs", "wallet/src/lib.rs"], [("init_or_load: Generate, Init; get_sk_from_sp_descriptor; get_sp_code_from_descriptors", "cli/v1/src/main.rs"), ("init_or_load: Create", "cli/v2/src/main.rs"), ("SpWallet::new", "wallet/src/lib.rs")],
 ["sp-cli1 generate, init, code, scan", "sp-cli2 create, code, birthday"])
prop("C25", "What a wallet command says it stored stays stored, whatever goes wrong",
 "Both command line wallets keep their file through every failure. What a command that succeeded changed, and what a scan said it had committed, is in the file afterwards and shown by later commands; when storing fails (no room, at any byte), the program crashes at any byte of a write, or a scan is ended by force at any block, the file holds a state the wallet had between the last commit it announced and the end, and the next command continues from there and completes it. A file with a torn end is refused or read as its last whole state; a file in which nothing was stored is refused. A failure to store is reported with an error and never as success, and no command panics. Commands that only read, and commands that are refused, leave every byte of the file; an existing wallet file is never replaced. The sums a scan shows on its way are those of the blocks it has passed.",
 ["histories", "crash_points", "fault_sequences"], "all histories of commands, every byte at which a write can fail or be cut, every block at which a scan can end",
 "The binaries have no tests; a lost commit shows only after a failure at a particular point.",
 ["cli/v1/src/main.rs", "cli/v2/src/main.rs", "wallet/src/lib.rs"], [("main: Scan, Code; init_or_load", "cli/v1/src/main.rs"), ("main: ScanRpc, Code; init_or_load", "cli/v2/src/main.rs"), ("SpWallet::take_staged, TryFrom<ChangeSet>", "wallet/src/lib.rs")],
 ["sp-cli1 and sp-cli2 stdout and exit status", "wallet files"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
import jsonschema
for p in P: assert len(p['title'])<=80,p['id']
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p, s)
print(len(P))
