#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

MODEL = "model-based property testing (proptest)"
BASE = ("Fixed work from the seed; failures shrunk to a replay file. Finds violations the generators reach, "
        "never shows their absence. ")

CHECKS = {
    "G01": (MODEL + ": histories against an ordered-map model", ""),
    "G02": (MODEL + ": graph walks against an adjacency model and a read-counting source", "Single-threaded handles only (they are not Sync)."),
    "S01": (MODEL + ": transaction histories against a last-write-wins model", ""),
    "S02": (MODEL + ": interleaved nested transactions against a stack of overlays, compared at every open level after every step", ""),
    "S03": ("fault injection: every panic point of generated programs enumerated, against an unwinding model", "Panics inside id() or Ord of user types during the commit are out of scope, as are bodies that leak their context."),
    "S04": ("generated multi-threaded histories with hand-shaken overlaps, decided by a search for a serial order that explains them", "Interleavings are driven at the points where bodies and commits call back into the harness; elsewhere the operating system schedules."),
    "S05": (MODEL + ": generated hook programs against an interpreter model", ""),
    "S06": (MODEL + ": generated trigger sets against an expected invocation log", ""),
    "S07": (MODEL + ": resource histories against a typed table", "Groups naming one type twice and poisoned resources are out of scope."),
    "S08": (MODEL + ": generated hook programs against an interpreter model", ""),
    "S09": ("differential and model-based property testing: plugins against the flattened registrations", ""),
    "D01": (MODEL + ": access histories and staged races against a cache model", "Races are staged inside the repository's own callback, where the real ones happen."),
    "D02": ("property testing over generated directory trees against an independently computed listing", "Ignore files use literal and *.ext patterns only."),
    "D03": ("property testing over generated directory trees and file histories against the files themselves", "Files change between calls, never during one."),
    "C01": ("property testing of the built program over generated directory trees and command lines", "Runs the program built from the working tree in a scratch directory."),
    "C02": (MODEL + ": command histories on a schema with generated hooks against a model of the operations", ""),
    "I01": (MODEL + ": interval queries against brute force", "The plugin is built by a manifest of the harness, its own not being usable outside a workspace that lists it."),
    "I02": (MODEL + ": insert and delete histories against brute force over a multiset", "As I01. Stack use grows with the depth of the tree, which is not balanced; trees stay below a thousand intervals."),
    "I03": ("property testing of all comparison operators against the order of the component lists", "Dates are made by a guarded hook, there being no other way to make one."),
}

manifest = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {
        "guard": "cargo feature verif-hooks of plugins/interval",
        "enable": "harness/interval/Cargo.toml builds /repo/plugins/interval/src with --features verif-hooks; the code is under #[cfg(feature = \"verif-hooks\")], which no manifest of the repository enables or declares",
        "source_commits": ["67369ac"],
    },
    "checks": [
        {
            "property": id,
            "quick_cmd": f"./check.sh {id}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {id}",
            "technique": technique,
            "level": "fault_enumeration" if id == "S03" else "exploration",
            "level_note": (BASE + note).strip(),
        }
        for id, (technique, note) in CHECKS.items()
    ],
    "not_applicable": [
        {
            "property": "I04",
            "reason": "plugins/interval/src/plugin.rs does not compile against the core it is written for (property::Extractor is gone), its plugin type has private fields and no constructor, and nothing exports it: there is no behaviour to run, so nothing to generate inputs for.",
        }
    ],
    "notes": "check.sh builds from /repo's working tree by content hash; replay a failure with ./check.sh replay FILE.",
}
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
with open(path, "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
