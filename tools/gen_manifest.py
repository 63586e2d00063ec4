#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
REF = "property-based testing against an independent reference model of "
TRUST = " Trusts libsecp256k1's group operations, rust-bitcoin's data types and the reference model in harness/refmodel; explores generated cases only, so absence of a violation is evidence, not proof."
C = {
 "C01": ("property-based round trip and differential against a bech32m reference", "Generated keys, networks and cases; text compared byte for byte with an independent bech32m encoder."),
 "C02": ("grammar-based and mutation fuzzing of the parser against a reference parser", "Mutated and constructed strings (each way of being wrong is a generator class), verdict and contents compared with a reference parser; panics are violations."),
 "C03": ("property-based testing against a BIP352 label reference", "Generated keys and label numbers; inverse and cancelling labels included."),
 "C04": ("property-based testing with metamorphic relations over codes", "Generated codes, related codes and payments."),
 "C05": ("structured fuzzing of inputs against a reference classifier", "Inputs of every type, damaged inputs and arbitrary bytes; type and key compared with a reference written from BIP352, panics are violations."),
 "C06": ("property-based testing of outpoint sequences against an ordering reference", "Generated sequences with adversarial near ties, checked after each step."),
 "C07": (REF + "BIP352 tweak data", "Generated input mixes, cancelling keys, permutations."),
 "C08": ("property-based differential of sender against receiver and reference", "Generated input lists with keys known, both sides computed and compared."),
 "C09": (REF + "BIP352 output derivation", "Generated recipient lists with repetitions and interleavings."),
 "C10": (REF + "BIP352 scanning", "Generated transactions with gaps, foreign, malformed and duplicate outputs."),
 "C11": ("property-based end-to-end payments: build, scan, spend", "Generated payments scanned by every recipient and by strangers; the tweak is checked to open the output."),
 "C13": ("property-based end-to-end payments out of silent payment coins", "Generated coin sets and recipients, the resulting transaction is scanned."),
 "C14": ("property-based end-to-end payments out of extended keys", "Generated extended keys, paths, input types; the resulting transaction is scanned."),
 "C15": ("property-based PSBT derivation scanned by the recipients", "Generated finalised PSBTs of mixed inputs; result scanned by a reference receiver, everything else compared for equality."),
 "C16": ("fault injection into generated PSBTs, refusal and atomicity oracle", "One generated fault per PSBT plus pinned combinations; error expected, PSBT unchanged, panics are violations."),
 "C17": ("property-based signing with signature verification per input", "Generated PSBTs with silent payment inputs; each signature verified against its own sighash."),
 "C18": (REF + "BIP374 proofs", "Generated secrets, bases, randomness, messages; proof compared byte for byte with the reference."),
 "C19": ("mutation fuzzing of proofs against a reference verifier", "Generated changes of every part of the statement and proof, verdict compared with the reference verifier; panics are violations."),
 "C12": ("property-based differential of candidate scripts against full scanning", "Generated keys, labels, tweaks and transactions; candidates compared with the reference and with what a full scan finds."),
 "C20": ("stateful property-based testing of the basic indexer against a reference model", "Generated transaction sequences with repetitions; every public lookup compared with a model kept by a BIP352 reference scan after each step."),
 "C21": ("property-based round trips and algebraic laws over persisted indexes", "Generated histories cut into saved parts, stored through JSON and bincode; merge laws checked on generated parts."),
 "C22": ("stateful model-based testing of the indexer over blocks and batches", "Generated histories; index, lookups and graph compared with a reference model after each step, blocks and batches compared with each other."),
 "C23": ("stateful property-based testing of saving and restoring with random groupings", "Generated histories, change sets saved through JSON and bincode in random groups, restored at any prefix and continued; compared with the live indexer. Timestamps of first sight are not compared (bdk_chain 0.23.2 does not restore them)."),
 "C24": ("property-based testing of merge laws and storage round trips", "Generated change sets with every subset of the parts; laws checked by equality."),
 "C25": ("stateful property-based testing of label registration", "Generated sequences of label calls; each address compared with a reference code and paid."),
 "C26": ("property-based testing of the subscriber against a loopback tweak server with injected delays and failures", "Generated blocks with real block filters, tweak lists served late, in pieces or not at all, filters announced in one or several batches, the subscriber keeping pace or lagging; reported blocks compared with a reference of what the filters match. Built with a copy of bip157 0.2.0 that has a public constructor for filters."),
 "C27": ("stateful model-based testing of the filter subscriber", "Generated event sequences with repeated and replaced filters and full queues; announced batches and stored filters compared with a model after each group of events. Built with the copy of bip157 of C26."),
 "C28": ("fuzzing of the client against a loopback server with injected faults", "Generated base URLs, requests and answers, right and wrong in many ways; requests and results compared with what was served."),
 "C29": ("stateful model-based testing over block trees and reorganisations", "Generated block trees, applied and made the best chain in any order; balance and coins compared with a model of the best chain after each step. The wallet crate is built from /repo/wallet/src with a stand-in for its unavailable transaction builder dependency."),
 "C30": ("stateful property-based testing of staging, saving and restoring", "The histories of C29 with staged changes taken at any points; the restored wallet is compared with the live one and continued. Built with a stand-in like C29."),
 "C32": ("stateful model-based testing of the command-line wallet against a mock node", "Generated chains with payments, spends, foreign transactions and reorganisations served by a JSON-RPC stand-in for bitcoind; the printed balance compared with a reference scan of the chain."),
 "C33": ("stateful property-based testing of the command-line wallet", "Generated descriptors in all forms and command sequences; printed codes compared with reference encodings, refused commands with an unchanged database."),
 "C34": ("property-based testing of payments by the command-line wallet, built, signed, mined and scanned", "Generated coins from a mock node and payments; PSBTs checked for coins, outputs, fee, change and signatures."),
 "C35": ("property-based testing of output replacement in generated PSBTs", "Generated PSBTs of own and foreign inputs of all kinds; the replaced output compared with the reference derivation, the rest for equality."),
 "C36": ("stateful model-based testing of the second command-line wallet against a mock node with injected failures", "Generated birthdays, chains, reorganisations, labels and failing answers served by the JSON-RPC stand-in of C32; the printed balance compared with a reference scan, derived scripts with the reference derivation. Built with stand-ins for its unavailable dependencies bdk_tx and tracing-subscriber."),
 "C37": ("property-based testing of transactions built by the second command-line wallet, mined and scanned", "Generated coins from a mock node, recipients and fee rates; transactions checked for coins, recipients, data, fee, change and signatures. Coins are selected by the stand-in for bdk_tx."),
 "C38": ("stateful property-based testing of light-client scans against a mock network peer and tweak server, with injected faults", "Generated chains, scan steps, chosen starts, delays and lost connections; the real node code (bip157) over BIP324 to a peer of the harness serving headers, filters and blocks; balances compared with a model."),
 "C31": ("property-based testing against BIP352 key derivation", "Generated extended keys, networks, labels and payments; addresses and keys compared with the reference. Built with a stand-in like C29."),
}
PENDING = "check under construction"
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"))]
m = dict(version=1, setup_cmd="./run.sh --build-all",
    checks=[dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
                 evidence_file=f"evidence/{i}.json", technique=C[i][0], level="exploration", level_note=C[i][1] + TRUST)
            for i in ids if i in C],
    not_applicable=[dict(property=i, reason=PENDING) for i in ids if i not in C],
    notes="All checks build from /repo's working tree into /verif/target and shrink failures to a replay file: ./run.sh <id> --replay <file>.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
