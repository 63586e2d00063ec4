#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
SP = "silentpayments/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Silent payment codes survive being written out and read back",
 "Writing any version-0 silent payment code to text and parsing the text gives back the same version, scan key, spend key and network class (mainnet; testnet and signet share one prefix; regtest). The text is exactly the bech32m encoding BIP352 prescribes (prefix sp, tsp or sprt, version symbol q, scan key then spend key), and the upper-case form parses to the same code.",
 ["inputs"], "all pairs of curve points and all five networks",
 "The tests round-trip a handful of fixed codes; a key-, parity- or network-dependent encoding error shows only on other keys.",
 [SP+"encoding/mod.rs"], [("Display / TryFrom<&str> for SilentPaymentCode", SP+"encoding/mod.rs")], ["to_string()", "SilentPaymentCode::try_from"])
prop("C02", "The code parser accepts exactly the strings BIP352 allows and never panics",
 "For every string, parsing a silent payment code terminates with either an accepted code or an error and never panics. A string is accepted exactly when it is a well-formed bech32m string with one of the three known prefixes, carries version 0 with exactly 66 bytes of payload or version 1 to 30 with at least 66, is canonically padded, and starts with two valid compressed keys; the accepted code reports that version, those keys and that network.",
 ["inputs"], "all strings: mutated codes, all 32 versions, all lengths, all paddings, all prefixes, mixed case, non-ASCII",
 "The vectors in the tests cover about a dozen fixed strings; the fuzz target in the repository only compares accepted strings with their re-encoding and is not run by the tests.",
 [SP+"encoding/mod.rs", SP+"encoding/error.rs", "fuzz/src/sp_code.rs"], [("TryFrom<&str>", SP+"encoding/mod.rs"), ("VersionError", SP+"encoding/error.rs")], ["SilentPaymentCode::try_from", "ParseError"])
prop("C03", "Labelled codes are the base code with the spend key moved by the label",
 "For every scan key and label number the label scalar is the BIP352 label hash of both, and adding a label to a code changes only its spend key, by that scalar times the generator. Different label numbers, or the same number under different scan keys, give different codes; adding a label and then its negation gives back the original code, and a label that would cancel the spend key is refused.",
 ["inputs"], "all scan keys, spend keys and 32-bit label numbers, including 0 and the maximum",
 "The tests use two or three fixed labels.",
 [SP+"encoding/mod.rs", SP+"hashes.rs"], [("get_label, add_label", SP+"encoding/mod.rs"), ("get_label_tweak", SP+"hashes.rs")], ["SilentPaymentCode::get_label", "SilentPaymentCode::add_label"])
prop("C04", "Placeholder scripts stand for one silent payment code each",
 "The placeholder output script of a code is always a standard pay-to-taproot script, depends only on the code's two keys and not on its network, and no two codes made independently of each other, labelled variants of one code included, share a placeholder script. A placeholder script never equals the script the payment finally goes to.",
 ["inputs"], "all codes, labelled codes included",
 "The tests compare one fixed code with one fixed script.",
 [SP+"encoding/mod.rs"], [("get_placeholder_p2tr_spk", SP+"encoding/mod.rs")], ["get_placeholder_p2tr_spk"])
prop("C05", "Inputs are classified and their public keys extracted as BIP352 says",
 "For every transaction input and previous output, the input counts towards the shared secret, with the type and public key reported, exactly when BIP352 says so: taproot inputs unless spent by a script path whose internal key is the unspendable NUMS point (annex or not), P2WPKH and P2SH-P2WPKH inputs with a compressed key, and P2PKH inputs whose script signature contains the compressed key hashing to the output, also when malleated. All other inputs are ignored, and no witness, script signature or previous script makes the extraction panic.",
 ["inputs"], "all previous scripts, script signatures and witnesses of consensus-valid shape, plus arbitrary bytes for the no-panic part",
 "The unit tests use one real or crafted input per type.",
 [SP+"lib.rs", SP+"receive/mod.rs"], [("tag_txin", SP+"lib.rs"), ("extract_pubkey", SP+"receive/mod.rs")], ["tag_txin", "extract_pubkey"])
prop("C06", "The smallest outpoint is found whatever the order of the inputs",
 "Feeding any non-empty sequence of outpoints, in any order and with repetitions, yields the 36-byte serialisation (txid in internal byte order, then the little-endian output index) of the lexicographically smallest one; after every step the value reported is the smallest so far. With no outpoint fed, an error is returned.",
 ["inputs", "histories"], "all sequences of outpoints, near-equal txids and output indexes whose byte order differs from their numeric order included",
 "The tests compare a few pairs of outpoints.",
 [SP+"lib.rs"], [("LexMin", SP+"lib.rs")], ["LexMin::update", "LexMin::bytes"])
prop("C07", "The tweak data of a transaction is the BIP352 value of its inputs",
 "For every transaction with its previous outputs, the tweak data is the sum of the eligible input keys times the BIP352 input hash over the smallest outpoint of all inputs and that sum. It does not depend on the order of the inputs (with their previous outputs) nor on the outputs, and an error (never a panic or a wrong point) is returned when no input is eligible, the keys sum to the point at infinity, or an output of a segwit version later than taproot is spent.",
 ["inputs"], "all input mixes (eligible and not, duplicates, keys that cancel wholly or in part) and all orders of them",
 "The 26 receiving vectors fix the inputs; sums through cancelling keys and order changes are not exercised in general.",
 [SP+"receive/mod.rs", SP+"hashes.rs"], [("compute_tweak_data", SP+"receive/mod.rs"), ("get_input_hash", SP+"hashes.rs")], ["compute_tweak_data", "Scanner::get_shared_secret"])
prop("C08", "Sender and receiver compute the same shared secret",
 "For every set of inputs whose private keys the sender knows, the sender's partial secret combined with the recipient's scan public key equals the receiver's shared secret computed from the finished transaction, its previous outputs and the scan private key, for all eligible input types, for taproot keys of either parity and whatever the order in which the inputs are given. Where the eligible keys sum to zero, or an output of a segwit version later than taproot is spent, the sender gets an error, and no error is raised because a partial sum along the way is zero.",
 ["inputs"], "all lists of (script type, key), all recipients; lists with equal and opposite keys included",
 "The sending vectors cover fixed inputs, and the one with a zero partial sum is ignored.",
 [SP+"send/mod.rs", SP+"receive/mod.rs", SP+"lib.rs"], [("create_silentpayment_partial_secret", SP+"send/mod.rs"), ("compute_shared_secret", SP+"lib.rs")], ["create_silentpayment_partial_secret", "Scanner::get_shared_secret"])
prop("C09", "Every requested payment gets its own BIP352 output key",
 "For every list of recipients, repetitions and several labelled codes of one recipient included, the sender derives for each occurrence one output key; the key of the i-th occurrence of a scan key is the spend key plus the BIP352 output tweak for counter i. No payment is lost, added or given to another code, and the keys within one transaction are distinct.",
 ["inputs"], "all partial secrets and all recipient lists: repeated codes, shared scan keys interleaved with others",
 "The tests try a few fixed lists of two or three codes.",
 [SP+"send/mod.rs", SP+"hashes.rs"], [("create_silentpayment_scriptpubkeys", SP+"send/mod.rs"), ("get_shared_secret", SP+"hashes.rs")], ["create_silentpayment_scriptpubkeys"])
prop("C10", "Scanning finds exactly the outputs BIP352 says are ours",
 "For every transaction, key pair and label set, scanning returns exactly the outputs found by the BIP352 scanning algorithm over the taproot outputs: each with the right outpoint, amount, script, label and a tweak that, added to the spend secret key, gives the output's key. Nothing that was not derived for this receiver is ever reported, unrelated or malformed outputs never hide a payment, and scanning stops the count only at a counter value with no match.",
 ["inputs"], "all transactions: any mix of own outputs (plain, labelled, change), gaps in the counter, foreign outputs, non-taproot and invalid-key outputs, duplicates, any output order",
 "Vectors fix the outputs; interleavings of foreign, invalid and labelled outputs are a combinatorial space.",
 [SP+"receive/mod.rs", SP+"receive/scan.rs"], [("scan_txouts, find_spout_for_tweak", SP+"receive/mod.rs"), ("Scanner", SP+"receive/scan.rs")], ["scan_txouts", "Scanner::scan_tx"])
prop("C11", "A payment made to a code is found by its owner and can be spent",
 "For every transaction built from any mix of inputs paying any list of codes, each recipient scanning the finished transaction finds exactly the outputs paid to it, with the label it was paid under, regardless of output order and of other outputs. The spend secret plus the reported tweak signs for the output key, and a wallet that is not a recipient finds nothing.",
 ["inputs"], "all combinations of inputs, recipients, labels, payment counts and output orders",
 "The end-to-end tests need a real node and cover a few fixed scenarios; the vectors fix one transaction each.",
 [SP+"send/mod.rs", SP+"receive/mod.rs", SP+"encoding/mod.rs"], [("create_silentpayment_*", SP+"send/mod.rs"), ("scan_tx", SP+"receive/scan.rs")], ["Scanner::scan_tx", "SpOut::tweak"])
prop("C12", "Light-client candidate scripts cover what a full scan would find",
 "From a transaction's tweak alone, the candidate scripts computed for counter k are exactly the pay-to-taproot scripts of the k-th output for the plain spend key and for every registered label, and nothing else. Hence a transaction has outputs for the wallet exactly when its outputs meet the candidates for counter 0, in the scanner and in the indexer alike.",
 ["inputs"], "all tweaks, key pairs, label sets and counters",
 "No test compares the light-client path with full scanning on generated transactions.",
 [SP+"receive/mod.rs", SP+"receive/scan.rs", "indexer/src/v2/mod.rs"], [("get_silentpayment_script_pubkey", SP+"receive/mod.rs"), ("get_spks_from_tweak", SP+"receive/scan.rs"), ("derive_spks_for_tweak", "indexer/src/v2/mod.rs")], ["get_spks_from_tweak", "derive_spks_for_tweak", "get_silentpayment_script_pubkey"])
prop("C13", "Spending silent payment outputs to silent payment codes pays the recipients",
 "For every set of owned silent payment outputs, labelled or not, spent to any list of codes, the output keys derived from the spend secret and the outputs' tweaks are those each recipient finds when scanning the resulting taproot-spending transaction. The order of the inputs does not matter, and no inputs gives an error.",
 ["inputs"], "all sets of owned outputs and all recipient lists",
 "One fixed scenario is tested, with a node.",
 [SP+"send/bip352.rs"], [("SpSender::send_to", SP+"send/bip352.rs")], ["SpSender::send_to"])
prop("C14", "Sending from an extended key pays the recipients whatever the input types",
 "For every extended private key, set of derivation paths and input types (taproot key path, P2WPKH, nested P2WPKH, P2PKH), the output keys derived for the recipients are those the recipients find when scanning a transaction that spends those inputs with the derived keys. Inputs of a type not eligible for silent payments contribute nothing but their outpoint; those of segwit versions later than taproot are refused.",
 ["inputs"], "all extended keys, paths, mixes of input types and recipient lists",
 "The tests with a node use taproot inputs only, and one fixed key.",
 [SP+"send/bip32.rs"], [("XprivSilentPaymentSender::send_to", SP+"send/bip32.rs")], ["XprivSilentPaymentSender::send_to"])
prop("C15", "A PSBT derived for silent payments pays exactly the codes it was meant to",
 "Deriving silent payments on a finalised PSBT, for any mix of eligible and ineligible inputs whose keys the key provider has, replaces each placeholder output by a taproot script its recipient finds when scanning the resulting transaction, at the same position and with the same amount. All other outputs, all amounts and all inputs are untouched.",
 ["inputs"], "all PSBTs: input type mixes, key-provider kinds, recipients repeated and labelled, extra outputs, any output order",
 "The tests build single-input PSBTs and compare with fixed scripts; nothing scans the result.",
 [SP+"send/psbt/mod.rs"], [("derive_sp", SP+"send/psbt/mod.rs"), ("collect_input_data, update_outputs", SP+"send/psbt/mod.rs")], ["derive_sp", "Scanner::scan_tx"])
prop("C16", "A PSBT that cannot be derived correctly is refused and left unchanged",
 "When a silent payment derivation cannot be completed correctly - an eligible input's private key is missing or wrong, an input lacks its previous output or its final witness and signature script, no input is eligible or one spends a segwit version later than taproot, or the number of recipients given for a code differs from the number of placeholder outputs it has in the PSBT - an error is returned instead of outputs nobody can find. A recipient whose code has no placeholder output at all is left out and does not disturb the others. On every error the PSBT is exactly what it was before the call, and no input data makes the call panic.",
 ["inputs", "fault_sequences"], "all PSBTs with injected omissions: dropped keys, dropped prevouts, dropped witnesses, extra or missing placeholders",
 "The tests inject a few of these into single-input PSBTs and only look at the error.",
 [SP+"send/psbt/mod.rs"], [("derive_sp", SP+"send/psbt/mod.rs")], ["derive_sp result", "the PSBT after an error"])
prop("C17", "Silent payment inputs of a PSBT are signed with valid taproot signatures",
 "For every PSBT whose inputs carry silent payment spend data, signing gives each such input whose spend key the key provider holds a key-path signature, of the sighash type the input asks for, that verifies against its output key for that input's own sighash, and leaves other inputs, inputs asking for a sighash type that cannot be made, existing signatures and all outputs alone. Recording spend data on an input that does not exist changes nothing, and derivation over such inputs uses the same tweaked keys.",
 ["inputs"], "all PSBTs with one or more silent payment inputs mixed with others, with and without available keys",
 "Only one end-to-end test with a node exercises signing, with one fixed arrangement.",
 [SP+"send/psbt/sign.rs", SP+"send/psbt/mod.rs"], [("add_sp_data_to_input, sign_sp", SP+"send/psbt/sign.rs"), ("get_sp_secret", SP+"send/psbt/mod.rs")], ["tap_key_sig", "derive_sp"])
prop("C18", "An honest discrete-log equality proof always verifies",
 "For every secret, base points, randomness and optional message, generating a proof succeeds, the proof is the one BIP374 prescribes for that input, and it verifies against the matching public points and message. Generation is deterministic, and changing the randomness or the message changes the proof.",
 ["inputs"], "all secrets, points B, generators G, aux randomness, with and without message",
 "The BIP374 vectors fix about ten inputs.",
 ["dleq/src/lib.rs"], [("dleq_generate_proof", "dleq/src/lib.rs")], ["dleq_generate_proof", "dleq_verify_proof"])
prop("C19", "A discrete-log equality proof does not verify for anything else",
 "A proof verifies only for the exact points, generator and message it was made for: any change to a proof bit, to one of the points, to the generator or to the message, swapped points, or points with unequal discrete logarithms make verification answer no or return an error. Verification agrees with the BIP374 algorithm on every input and never panics.",
 ["inputs"], "all honest proofs with all single mutations, and arbitrary proof bytes including out-of-range scalars",
 "The vectors contain a handful of tampered proofs.",
 ["dleq/src/lib.rs"], [("dleq_verify_proof", "dleq/src/lib.rs")], ["dleq_verify_proof"])
prop("C20", "The basic indexer's lookups always describe the owned outputs seen so far",
 "After any sequence of transactions is indexed, repetitions included, the index by outpoint holds exactly the outputs a BIP352 scan of each transaction finds, and the indexes by script, by label and by transaction agree with it. The transaction graph holds the paying transactions and their previous outputs and nothing of unrelated ones, spends of owned outputs are recognised, and transactions without usable inputs are skipped without failing.",
 ["inputs", "histories"], "all sequences of transactions, own and foreign, with any inputs",
 "The indexer crate has no tests at all.",
 ["indexer/src/lib.rs"], [("SpIndexer::index_tx", "indexer/src/lib.rs"), ("SpIndexes", "indexer/src/lib.rs")], ["SpIndexer::index_tx", "SpIndexes fields", "spends_owned_spouts"],
 [dict(name="SpIndexes", meaning="outputs, scripts, labels, shared secrets", where="indexer/src/lib.rs")])
prop("C21", "The basic index survives being saved, merged and loaded",
 "Converting an index to its persistent form and back, through the storage formats used, gives an equal index that finds and labels the same outputs. Merging persistent forms is idempotent, associative and keeps every entry of both sides with the later one winning; one is reported empty exactly when it carries nothing.",
 ["histories"], "all reachable indexes and all ways of cutting their history into saved parts",
 "The indexer crate has no tests at all.",
 ["indexer/src/lib.rs"], [("SpIndexesChangeSet: Merge", "indexer/src/lib.rs"), ("From<SpIndexes>, From<SpIndexesChangeSet>", "indexer/src/lib.rs")], ["SpIndexes", "SpIndexesChangeSet"])
prop("C22", "The indexer tracks owned outputs over any history of blocks and mempool batches",
 "After any history of blocks and batches of unconfirmed or anchored transactions with their tweaks, the index holds exactly the outputs a BIP352 scan with the labels known at that point finds, with agreeing lookups by script, label, transaction and tweak. The graph holds the transactions that pay or spend owned outputs, with the right anchors, and not the others when only relevant ones are asked for; whether transactions come in blocks or batches does not change the owned outputs.",
 ["histories"], "all histories of label additions, blocks, batches, repeated and out-of-order deliveries, tweaks missing for foreign transactions",
 "The indexer crate has no tests at all.",
 ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], [("SpIndexerV2::index_tx, apply_block_*, batch_insert_*", "indexer/src/v2/mod.rs"), ("SpIndex", "indexer/src/v2/indexes.rs")], ["index()", "graph()"])
prop("C23", "An indexer restored from its saved changes is the indexer that was saved",
 "Saving each change set as it is produced, in any grouping, through the storage formats used, merging them and restoring gives an indexer with the same keys, labels, owned outputs, lookups and transaction graph as the live one. The same holds for the initial change set of the live indexer, and a restored indexer continues exactly like the live one.",
 ["histories", "crash_points"], "all histories, all groupings of their change sets, restoring after any prefix",
 "The indexer crate has no tests at all.",
 ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], [("ChangeSet, TryFrom<ChangeSet>, apply_changeset, initial_changeset", "indexer/src/v2/mod.rs"), ("Label serde", "indexer/src/v2/indexes.rs")], ["SpIndexerV2::try_from", "initial_changeset"])
prop("C24", "Change sets merge without losing anything and are empty only when they are",
 "Merging change sets of the indexer keeps every entry of both, is associative and idempotent, and has the empty change set as neutral element. A change set reports itself empty exactly when it carries no keys, labels, tweaks or graph data, so that nothing staged is dropped, and a change set written in the text or binary storage format reads back equal.",
 ["inputs", "histories"], "all change sets built from partial keys, labels, tweaks and graph changes",
 "The indexer crate has no tests at all.",
 ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], [("Merge for ChangeSet", "indexer/src/v2/mod.rs"), ("Serialize/Deserialize for Label", "indexer/src/v2/indexes.rs")], ["ChangeSet::merge", "ChangeSet::is_empty"])
prop("C25", "Labels registered with the indexer give working addresses",
 "For every sequence of label additions and address requests, in any order and repeated, the labelled address for a number is always the base code with the BIP352 label of that number, an outside payment to it is then found under that number, and registering it again changes nothing. Looking up a number that was never registered yields nothing.",
 ["inputs", "histories"], "all key pairs and all sequences of label additions and address requests",
 "The indexer crate has no tests at all.",
 ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs", "indexer/src/lib.rs"], [("add_label, get_labeled_address, create_label", "indexer/src/v2/mod.rs"), ("index_label, get_label", "indexer/src/v2/indexes.rs"), ("SpIndexes::add_label", "indexer/src/lib.rs")], ["get_labeled_address", "SpIndex::get_label"])
prop("C26", "The tweak subscriber reports every block that concerns the wallet",
 "For every range of blocks announced to the tweak subscriber, every block paying the wallet or spending one of the unspent scripts it was given is reported, before the end of that synchronisation is announced, with the paid candidate scripts mapped to the tweaks they come from. Blocks whose filter matches neither are not reported; slow, reordered or large answers of the tweak server do not change the reports, and failed ones do not hide spends.",
 ["inputs", "schedules", "fault_sequences"], "all block ranges, tweak lists, unspent script sets and response delays",
 "The oracles crate has no tests at all.",
 ["oracles/src/tweaks/blindbit.rs"], [("BlindbitSubscriber::run, process_changes", "oracles/src/tweaks/blindbit.rs")], ["TweakEvent channel"])
prop("C27", "Filters received from the node are stored and announced exactly once",
 "For every sequence of block filters and sync notifications, each filter at or above the wallet's birthday is stored under its height and announced with its block hash in the next batch, none below the birthday is, and a batch is announced when the queue is full and at every sync, always before the tip. Contents read back from the store are those received.",
 ["inputs", "histories"], "all sequences of filters (any order of heights) and sync events, any birthday",
 "The oracles crate has no tests at all.",
 ["oracles/src/filters/kyoto.rs"], [("FilterSubscriber::run, DatabaseBuffer", "oracles/src/filters/kyoto.rs")], ["FilterEvent channel", "filter database"])
prop("C28", "The tweak server client asks for what it was told and reports what it got",
 "For every host URL, with or without path and trailing slash, height and dust limit, the client requests exactly the resource of the tweak-server protocol below that URL, and returns the height, tweaks or server information of the answer unchanged and in order. Malformed, truncated, empty or error answers give an error and never a panic or invented data.",
 ["inputs", "fault_sequences"], "all base URLs, heights, dust limits and answers, malformed ones included",
 "The oracles crate has no tests at all.",
 ["oracles/src/tweaks/blindbit.rs"], [("BlindbitClient", "oracles/src/tweaks/blindbit.rs")], ["BlindbitClient::tweaks", "BlindbitClient::block_height", "BlindbitClient::info"])
prop("C29", "The wallet's balance and coins are those of the best chain",
 "After any history of blocks, chain updates and reorganisations, the wallet's confirmed balance is the sum of its owned outputs confirmed in the best chain and spent neither in it nor by a pending transaction. Transactions of blocks no longer in the best chain count as pending unless they conflict with confirmed ones. The unspent scripts, spendable candidates and canonical transactions describe the same coins; foreign and spent outputs never count.",
 ["histories"], "all histories of blocks with payments, spends, foreign transactions and reorganisations",
 "The wallet crate has no tests at all, and cannot be built by the test set-up.",
 ["wallet/src/lib.rs", "indexer/src/v2/mod.rs"], [("balance, unspent_spks, all_candidates, canonical_txs, update_chain, apply_block_relevant", "wallet/src/lib.rs")], ["SpWallet::balance", "unspent_spks"])
prop("C30", "A wallet restored from its staged changes is the wallet that was saved",
 "Taking the staged changes at any points of any history, merging them through the storage formats used and restoring gives a wallet with the same birthday, network, chain, addresses, labels, coins and balance. Taking the staged changes leaves nothing staged, nothing that changed the wallet goes unstaged, and data without a network or keys is refused.",
 ["histories", "crash_points"], "all histories, all points at which staged changes are taken and saved",
 "The wallet crate has no tests at all, and cannot be built by the test set-up.",
 ["wallet/src/lib.rs", "indexer/src/v2/mod.rs"], [("ChangeSet, take_staged, TryFrom<ChangeSet>", "wallet/src/lib.rs")], ["SpWallet::try_from", "take_staged"])
prop("C31", "Wallet addresses and spending keys come from one descriptor and match",
 "For every extended key and network, the wallet's address, labelled and change addresses are those of the BIP352 derivation paths of that key, the spend key derived later from the same descriptor belongs to that address, and the signing keys listed for the wallet's outputs are exactly those of the outputs' scripts. The label reserved for change is refused as a user label and always present; non-taproot or public-only descriptors are refused.",
 ["inputs", "configurations"], "all extended keys, networks, labels and received outputs",
 "The wallet crate has no tests at all, and cannot be built by the test set-up.",
 ["wallet/src/lib.rs", "wallet/src/signers.rs"], [("SpWallet::new, get_address, get_labelled_address, get_change_address", "wallet/src/lib.rs"), ("populate_sp_keymap, get_spend_sk", "wallet/src/signers.rs")], ["SpWallet addresses", "populate_sp_keymap"])
prop("C32", "Scanning a chain with the command-line wallet yields the right balance",
 "After scanning any chain served by a node, in one or several runs, the balance the command-line wallet prints is the sum of its outputs paid and not spent in that chain, for payments to the plain and to all labelled codes handed out before; of what is not confirmed any more, only change counts as trusted. Blocks with transactions of any kind do not make the scan fail. When the node fails to answer a request, the scan fails or the balance is right, and later scans are right. A scan with the keys of another wallet is refused and leaves the wallet as it was.",
 ["inputs", "histories"], "all chains of payments, spends and foreign transactions, and all ways of scanning them in steps",
 "The command-line wallet has no tests.",
 ["cli/v1/src/main.rs", "indexer/src/lib.rs"], [("Commands::Scan, Commands::Balance", "cli/v1/src/main.rs")], ["sp-cli1 scan", "sp-cli1 balance"])
prop("C33", "The command-line wallet hands out the codes of its descriptors",
 "For every pair of taproot descriptors and network, the code the command-line wallet prints is the BIP352 code of their keys and parses back to them, and the labelled code for a number is that code with the number's label, also after other labels were added or scans were run in between. A labelled code asked for without the private scan descriptor of the wallet, descriptors that are not taproot or a wallet that was not initialised give an error and leave the database as it was.",
 ["inputs", "configurations", "histories"], "all descriptors, networks, labels and orders of commands",
 "The command-line wallet has no tests.",
 ["cli/v1/src/main.rs"], [("init_or_load, Commands::Code", "cli/v1/src/main.rs")], ["sp-cli1 init", "sp-cli1 code", "sp-cli1 generate"])
prop("C34", "The command-line wallet builds and signs valid, correct payments",
 "For every set of coins and requested payment the command-line wallet either reports that it cannot fund it or builds a PSBT that spends only its own unspent coins, pays the requested amount to an output the recipient finds, returns the rest minus the reported fee to its own change, and is signed so that every input's signature verifies. The transaction can be in the next block, and no funds go anywhere else. Signatures are of the sighash type an input asks for. Payments to codes of another network, or with the spend key of another wallet, are refused.",
 ["inputs", "histories"], "all coin sets, amounts, recipients (codes and addresses) and coin selection algorithms",
 "The command-line wallet has no tests.",
 ["cli/v1/src/main.rs", SP+"send/bip352.rs"], [("Commands::NewPsbt, Commands::SignPsbt", "cli/v1/src/main.rs")], ["sp-cli1 new-psbt", "sp-cli1 sign-psbt"])
prop("C35", "A silent payment put into another wallet's PSBT reaches its recipient",
 "For every PSBT whose inputs come from keys of one extended key, replacing an output of a given amount with a payment to a code either fails or changes exactly one taproot output of that amount, to one the recipient finds with the same amount; inputs, other outputs and all other data of the PSBT stay as they were. It succeeds when all inputs are described in the PSBT, belong to the key and at least one counts for silent payments; it never makes an output nobody finds, whatever inputs of others the PSBT has.",
 ["inputs", "configurations"], "all PSBTs, keys, key origins, codes, labels and amounts",
 "The command-line wallet has no tests.",
 ["cli/v1/src/main.rs", SP+"send/bip32.rs"], [("Commands::ToSilentPayment", "cli/v1/src/main.rs")], ["sp-cli1 to-silent-payment"])
prop("C36", "The second command-line wallet finds what was paid since its birthday",
 "After scanning any chain served by a node, in one or several runs and across reorganisations, the balance the second command-line wallet prints is the sum of its outputs paid since its birthday and not spent in that chain, for payments to its plain, change and labelled codes handed out before. When the node fails to answer a request, the scan fails or the balance is right, and later scans are right. The codes and birthday it prints are those of the descriptor and data it was made with, and the script it derives for a transaction, output number and label is that of BIP352, or it reports an error; making another wallet in its place is refused.",
 ["inputs", "histories", "fault_sequences"], "all birthdays, chains of payments, spends, foreign transactions and reorganisations, failing answers and ways of scanning in steps",
 "The command-line wallet has no tests, and cannot be built by the test set-up.",
 ["cli/v2/src/main.rs", "wallet/src/lib.rs", "indexer/src/v2/mod.rs"], [("Commands::ScanRpc, Commands::Code, Commands::DeriveSpForTx, get_partial_secret", "cli/v2/src/main.rs")], ["sp-cli2 scan-rpc", "sp-cli2 balance", "sp-cli2 code", "sp-cli2 derive-sp-for-tx"])
prop("C37", "The second command-line wallet builds valid, correct transactions",
 "For every set of coins and requested payments the second command-line wallet either reports an error or prints a transaction that spends only its own unspent coins with signatures that verify, pays every code and address the requested amount in an output the recipient finds, carries the data asked for, has a fee of the rate asked for, can be in the next block and returns the rest to its own change code. No funds go anywhere else. It builds one whenever its coins suffice, refuses recipients of another network and keys of another wallet, and its balance changes only when the transaction is found in a scanned chain.",
 ["inputs", "histories"], "all networks, coin sets, amounts, rates and combinations of codes, addresses and data",
 "The command-line wallet has no tests, and cannot be built by the test set-up.",
 ["cli/v2/src/main.rs", SP+"send/psbt/mod.rs", SP+"send/psbt/sign.rs"], [("Commands::NewTx", "cli/v2/src/main.rs")], ["sp-cli2 new-tx"])

prop("C38", "Light-client scans of the second command-line wallet find the right balance",
 "After light-client scans, in one run or in several as the chain grows, from the wallet's birthday, from the last block seen or from a chosen block, alone or mixed with scans by RPC, the balance is the sum of the outputs paid to the wallet's codes since then and not spent, in transactions with a taproot output of 1000 sat or more. Only tweaks of those blocks are asked for. When no peer can be reached or the peer goes away, the scan ends with an error or the balance is right, and scans that follow are right. Recorded exceptions: blocks replaced after they were seen, and a tweak server that does not answer for a block.",
 ["inputs", "histories", "faults"], "all birthdays, chains with payments, spends and labels, steps of scanning, chosen starts, times and orders of answers, and points where a connection is lost",
 "The command-line wallet has no tests, and cannot be built by the test set-up.",
 ["cli/v2/src/main.rs", "oracles/src/filters/kyoto.rs", "oracles/src/tweaks/blindbit.rs", "wallet/src/lib.rs"],
 [("Commands::ScanCbf", "cli/v2/src/main.rs"), ("BlindbitSubscriber::process_changes", "oracles/src/tweaks/blindbit.rs")], ["sp-cli2 scan-cbf"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
