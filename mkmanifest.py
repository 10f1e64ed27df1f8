#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, sys
NOTE = {
 "parse": "TLC model-checks the parser machine against the declarative grammar on a small dictionary for every field sequence up to a bound, every one of them is replayed into Message::from_str, and logs of random texts and dictionaries parsed by the code are validated by TLC against the machine. Bounded and sampled, not a proof; trusts the driver, TLC and the generator.",
 "build": "TLC enumerates operation histories of the message API for replay and validates logs of random histories run by the code, every observation included. Bounded and sampled; trusts the driver and TLC.",
 "settings": "TLC enumerates small configurations and identities for replay into the code and validates logs of random ones in random layouts. Bounded and sampled; assumes sessions of one configuration have distinct identities.",
 "schedule": "TLC runs the window machine over a fortnight for every schedule of a small universe, compares it with the definition, every instant is replayed into the code under a pinned clock; random schedules in 18 zones are validated by TLC with zone rules written in TLA+ (2013-2021).",
 "dict": "TLC runs the loader machine on every message shape of a small universe and every single change of one dictionary, compares it with machine-free definitions, each is replayed into the code; random dictionaries and the shipped FIX43.xml are validated in full by TLC.",
 "clock": "TLC turns a calendar day by day and compares it with the date formula, one instant of every day of 80 years and around some centuries is replayed into the code under a pinned clock; random histories of stampings are validated by TLC.",
 "pipe": "TLC checks that a byte-by-byte reader cuts all small streams as specified and enumerates sequences of fields with what the application must be handed; all are written to the real SocketAcceptor over loopback sockets, and random streams over random configurations with several dictionaries are validated by TLC piece by piece. Interleavings of the real code are sampled.",
 "service": "TLC checks that the implementation-shaped specification (tasks, queues, ports) refines the abstract service on small instances; client scripts enumerated from the specification and randomised concurrent episodes run against the real SocketAcceptor over loopback sockets and the logs are validated by TLC as behaviours of the service. Interleavings of the real code are sampled, those of the model exhaustive within bounds.",
}
TECH = {
 "parse": "TLA+ specification checked with TLC; enumerated behaviours replayed into the code, logs of the code validated against it",
 "service": "TLA+ specifications with refinement checked by TLC; scripts from the specification replayed, logs of real episodes validated by TLC",
}
GROUPS = [("parse", ["C01", "C02", "C03", "C04", "C05"]), ("build", ["C06", "C07", "C08", "C09"]), ("settings", ["C10", "C11", "C12"]),
          ("schedule", ["C13"]), ("dict", ["C14", "C15", "C16"]), ("service", ["C17", "C18", "C19", "C20", "C21"]), ("clock", ["C22"]), ("pipe", ["C23"])]
EXTRA = {
 "C19": " Known finding: more than 32 outstanding messages on a port make a lagging writer give up (listed in known-findings.txt).",
 "C20": " Known finding: messages are broadcast to all connections of a port, so sessions sharing a port see each other's messages (listed).",
 "C21": " That a client who left causes no work is observed as CPU time of the process.",
}
skip = set(sys.argv[1:])
checks, na = [], []
for g, ps in GROUPS:
    for p in ps:
        if p in skip:
            na.append({"property": p, "reason": "the check is being built"})
            continue
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(g, TECH["parse"]),
                       "level": "model_checking", "level_note": NOTE[g] + EXTRA.get(p, "")})
m = {"version": 1,
     "setup_cmd": "python3 -c 'import sys; sys.dont_write_bytecode = True; from lib import core; core.build()'",
     "hooks": {"guard": "cfg(fix_verif)",
               "enable": "cargo rustc --offline --bin fix-rs -- --cfg fix_verif with FIX_VERIF_DRIVER=/verif/harness/driver.rs (lib/core.py build())",
               "source_commits": ["4fe2610"]},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. properties.jsonl is written by mkprops.py, this file by mkmanifest.py."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
