#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand after changing what is claimed)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
CLAIMED = set(ids)
T = {
 "C01": "property-based round trip and differential test against a reference codec",
 "C02": "structure-aware fuzzing of the decoders against a reference decoder",
 "C03": "property-based test over every output buffer length, against a reference encoder",
 "C04": "property-based test against a reference predicate",
 "C05": "property-based test of framing against RFC 4253 arithmetic",
 "C06": "differential test against an independent cipher implementation over packet sequences",
 "C07": "stateful tampering of packet sequences with a rejection oracle; small packets bit by bit",
 "C08": "differential and metamorphic test against the RFC pre-image",
 "C09": "differential test against an independent key derivation",
 "C10": "simulated server against a generated reference client; differential keys and exchange hash",
 "C11": "fault injection into handshakes judged by a reference acceptor",
 "C12": "metamorphic test over sets of connections and random generator seeds",
 "C13": "deterministic simulation with hostile clients and injected failures next to good clients",
 "C14": "model-based histories of authentication with generated decisions",
 "C15": "model-based histories of authentication compared with the application's call log",
 "C16": "tampering with simulated connections, differential against the intact prefix",
 "C17": "stateful simulation of sessions against a model of the input streams",
 "C18": "stateful simulation of sessions against a model of the output streams",
 "C19": "stateful simulation of sessions against a model of the channel's end",
 "C20": "stateful simulation of sessions against a model of channels and replies",
 "C21": "stateful simulation of sessions against a model of both windows",
 "C22": "metamorphic simulation: fragmented and perturbed run against whole-packet run",
 "C23": "generated preambles judged by a reference line parser",
 "C24": "generated transfers to the real program against a model of the resulting files",
 "C25": "generated hostile names to the real program in a scratch directory, file tree diff",
 "C26": "generated transfers from the real program to a reference receiver",
 "C27": "fault injection into transfers judged by a reference protocol model",
 "C28": "generated sessions with the real daemon over loopback against directly run commands",
 "C30": "simulation of endlessly busy clients and programs; bounded waiting counted in server steps",
 "C31": "simulation of generated endings; drops of the application's objects and allocator balance against the history",
 "C32": "metamorphic simulation: allocator peak for few and for many repetitions of generated traffic",
 "C29": "generated hostile requests to the real daemon followed by a normal client",
}
SIM = "Searches generated cases; no proof. Trusts the harness' own reference client, codec, cipher and executor, and the crypto crates shared by both sides."
PROC = "Searches generated cases; no proof. Trusts the harness' reference protocol model and the operating system."
CORE = "Searches generated cases (some dimensions enumerated); no proof. Trusts the harness' reference implementation written from the RFCs and the hash and curve crates."
def note(i):
    n = int(i[1:])
    return CORE if n < 10 else SIM if n < 24 or n >= 30 else PROC
NA = {}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": i,
   "quick_cmd": f"bash check.sh {i}",
   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
   "evidence_file": f"evidence/{i}.json",
   "technique": T[i],
   "level": "exploration",
   "level_note": note(i),
 } for i in ids if i in CLAIMED and i not in NA],
 "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
 "notes": "No hooks in /repo: everything is driven through the public API, the programs and an in-memory transport. Replays: bash check.sh ID --replay FILE.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
