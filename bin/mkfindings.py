#!/usr/bin/env python3
"""Writes known-findings.json; the commits are looked up by subject in /repo."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
FIXED = [
 ("C15", "v1 indexer panics on transactions without eligible inputs"),
 ("C03", "partial secret derivation fails when the keys of some inputs cancel out"),
 ("C08", "psbt derivation ignores the script_sig of wrapped segwit inputs"),
 ("C09", "psbt derivation silently skips eligible inputs with unknown keys"),
 ("C08", "psbt derivation counts recipients without placeholder output"),
 ("C09", "failed psbt derivation leaves some outputs updated"),
 ("C09", "psbt derivation accepts secrets which do not match the input public key"),
 ("C20", "xpriv sender applies the taproot tweak to the keys of other inputs"),
 ("C04", "input tagging panics on truncated control blocks"),
 ("C10", "malformed silent payment data in psbt inputs causes panics"),
 ("C04", "transactions spending unknown witness versions are not silent payments"),
 ("C14", "indexer changeset with keys only is reported as empty"),
 ("C14", "labels cannot be deserialized from formats without native bytes"),
 ("C18", "merging wallet changesets loses the birthday"),
 ("C14", "outputs for labels added after indexing a transaction are found only on restore"),
 ("C21", "scan ignores spends of owned outputs without taproot outputs"),
 ("C21", "only the first input of a psbt gets a valid signature"),
 ("C06", "parsing a code without payload panics"),
 ("C06", "version 0 codes with non-zero padding are accepted"),
 ("C17", "wallet misses unspent outputs whose script another indexed output has"),
 ("C19", "filter of a reorganized block is kept instead of its replacement"),
 ("C19", "spends in blocks without tweaks are never reported"),
 ("C21", "anchor a payment to the wallet again when it is mined in another block"),
 ("C20", "xpriv sender accepts inputs whose script its key does not control"),
 ("C03", "senders derive outputs when an input has an unknown witness version"),
 ("C22", "to-silent-payment ignores inputs it has no key for"),
 ("C22", "to-silent-payment changes other outputs than the one it replaces"),
 ("C23", "scan-rpc skips blocks after a reorganization"),
 ("C23", "scan-cbf never ends when the node stops"),
 ("C23", "scan-cbf skips blocks it could not download"),
 ("C23", "new-tx refuses every silent payment code on signet"),
 ("C23", "scan-rpc loses payments when the node does not answer"),
 ("C23", "derive-sp-for-tx ignores labels the wallet does not have"),
 ("C23", "new-tx cannot pay addresses and silent payment codes together"),
 ("C23", "scan-rpc panics when the tip of a light scan was replaced"),
 ("C19", "scan-cbf misses payments spent during the scan"),
 ("C23", "new-tx fails to pay the change code when there is no change"),
 ("C25", "sp-cli2 create panics when the wallet cannot be stored"),
 ("C25", "sp-cli1 panics on a wallet file in which nothing was stored"),
 ("C25", "a loaded wallet stages its whole state again"),
 ("C24", "sp-cli1 panics on scan descriptors without an extended private key"),
 ("C24", "sp-cli1 derives codes, payments and scans with keys of other wallets"),
 ("C21", "sign-psbt panics when a previous output is missing"),
 ("C17", "SpWallet::new panics on descriptors it cannot use"),
 ("C23", "new-tx panics on recipients and keys it cannot use"),
 ("C22", "to-silent-payment panics on descriptors without a single extended key"),
 ("C23", "sp-cli2 panics on transactions and networks it does not know"),
 ("C21", "half of the rpc credentials causes panics"),
 ("C21", "new-psbt pays silent payment codes of other networks"),
 ("C23", "amounts and fee rates beyond all money cause overflows"),
]
KNOWN = [
 {"property": "C19", "status": "known",
  "text": "BlindbitSubscriber::process_changes treats a failed request for the tweaks of a block as a block without tweaks: a payment "
          "in it is never reported, yet the sync point is (repair needs a way to report the failure, which the event channel and "
          "the callers do not have)",
  "match": "^a payment in a block whose tweaks could not be fetched is reported before the sync point$"},
 {"property": "C14", "status": "known",
  "text": "get_labeled_address(num) of the light-client indexer registers a label it did not know without returning a change set, "
          "so the label is missing from the change sets returned so far (repair needs a change of the signature)",
  "match": "^a label registered by handing out a labelled address is in the returned change sets$"},
 {"property": "C23", "status": "known",
  "text": "scan-cbf starts at the tip of the stored wallet even when that block has been replaced: it ignores the filters of the new "
          "blocks at or below its height and keeps the replaced blocks in the wallet's chain (repair needs the rollback that "
          "bip157 reports, which the channel between the filter side and the wallet does not carry)",
  "match": "^a light scan after blocks were replaced starts below them$"},
]
out = [{"property": p, "status": "fixed", "text": f"fixed: property={p} {log['fix: ' + t]} {t}"} for p, t in FIXED] + KNOWN
json.dump(out, open(os.path.join(ROOT, "known-findings.json"), "w"), indent=1)
open(os.path.join(ROOT, "known-findings.json"), "a").write("\n")
