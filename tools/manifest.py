#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "model-based property testing: generated block chains, index compared with a reference replay",
    "C02": "metamorphic property testing: same blocks under different threads, batches and file layouts",
    "C03": "property testing over generated block trees and directories against a longest-chain oracle",
    "C04": "stateful model-based testing of polling histories at every confirmation level",
    "C05": "stateful model-based testing of reorganisation histories",
    "C06": "stateful model-based testing of mempool histories",
    "C07": "stateful model-based testing of histories with saves and restarts",
    "C08": "fault injection enumerated over every file operation of a save, on generated histories",
    "C09": "generated concurrent query schedules, history checked against the set of legal snapshots",
    "C10": "generated schedules with held node replies and held disk writes, liveness and model oracle",
    "C11": "property testing and structured generation against an independent Bitcoin serialiser",
    "C12": "property testing and mutation of scripts and texts against an independent Base58Check",
    "C13": "grammar-based HTTP fuzzing against an independent model of the interface",
    "C14": "property testing of endpoint agreement and exact amounts against a reference ledger",
    "C15": "metamorphic testing: same node history under generated transports and JSON renderings",
    "C16": "fault injection into generated node conversations",
    "C17": "property testing and mutation fuzzing of codecs against independent reference codecs",
    "C18": "generated environments against a model of the configuration rules",
    "C19": "property testing of pools with forced and free finishing orders",
    "C20": "model-based testing of operation sequences with constructed hash collisions",
    "C21": "property testing with injected clock steps in generated histories",
    "C22": "stateful model-based testing of restarts against a pruned node without block files",
    "C23": "property testing of the node traffic of generated histories against an exact call budget",
    "C24": "property testing with directory snapshots around generated histories",
    "C25": "property testing of generated interleavings of clients against the set of legal answers",
    "C26": "property testing of repeated generated activities with resource measurements",
    "C27": "property testing and fuzzing of saved indexes (cuts, other contents, other chains)",
    "C28": "stateful model-based testing of restarts under generated configurations",
    "C29": "differential testing of the saved index against an independent encoder and decoder, on generated histories",
    "C30": "fuzzing of block files with structural damages, against the reference replay",
    "C31": "fault injection: generated obstacles at the start and at every file operation of a later save",
}
NOTE = {
    "default": "Generated cases only, bounded in size as DESIGN.md states; trusts the reference model in common/, the fake node and, for file and clock faults, the LD_PRELOAD shim. The program runs as built from /repo with table pre-allocation switched off by the hook.",
    "C08": "Every file operation the program makes below its store directory during a save is enumerated as a kill, error and short-write point for each generated history (sampled when there are too many); effects of power loss on unsynced data are not modelled. Trusts the LD_PRELOAD shim and the reference model.",
}
import sys
sys.path.insert(0, os.path.join(root, "tools"))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
checks = [{
    "property": c,
    "quick_cmd": f"bash check.sh {c}",
    "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {c}",
    "technique": t,
    "level": "fault_enumeration" if c == "C08" else "exploration",
    "level_note": NOTE.get(c, NOTE["default"]),
} for c, t in T.items()]
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (check.sh sets it when it builds /repo)", "source_commits": hook},
     "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
