#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: round trip and a bignum varint model; 1- and 2-byte forms enumerated", ""),
 "C02": ("property-based testing: differential against a big-endian model, every cut and stream error", ""),
 "C03": ("property-based testing: serialise, then parse with an independent RFC 9000 s19 parser", ""),
 "C04": ("property-based testing: generated wire payloads decoded and compared with the model frames", "Decoded frames are observed by serialising them again."),
 "C05": ("property-based testing and mutation: differential against an independent RFC 9000 parser", ""),
 "C06": ("generated and mutated datagrams on generated connections, panics caught, reads counted", "Non-termination is seen as an unbounded number of stream reads, or as a case that does not end within 100 s when run alone twice."),
 "C07": ("generated length claims under a counting allocator: peak and total bytes bounded linearly in the input", "The bound is generous (a constant plus a multiple of the input), so only unbounded growth is reported."),
 "C08": ("property-based testing: differential against independent HKDF and RFC 9001 key derivation on ring", ""),
 "C09": ("property-based testing: differential against ring AES-128-GCM, round trip, exhaustive single-bit tampering per case", ""),
 "C10": ("property-based testing: packets built by the library opened by an independent receiver", ""),
 "C11": ("property-based testing: packets of an independent sender decoded by the library", ""),
 "C12": ("property-based testing: metamorphic (every bit flip, cut, wrong key or position must be refused)", ""),
 "C13": ("stateful property-based testing: histories against a per-space counter invariant and per-space replay", ""),
 "C14": ("property-based testing: RFC 9000 A.3 reference, plus send-truncate-reconstruct over all receivers in the window", ""),
 "C15": ("property-based testing: differential against an independent header parser, round trip", ""),
 "C16": ("stateful property-based testing of add/remove sequences against a bit model; first byte x mask enumerated", ""),
 "C17": ("property-based testing: datagram of packets against the packets decoded alone", ""),
 "C18": ("property-based testing: generated version negotiation packets against their contents; id lengths enumerated", ""),
 "C19": ("property-based testing: differential encoder and an independent transport-parameter parser", ""),
 "C20": ("stateful property-based testing: histories against a map of queues", ""),
 "C21": ("stateful property-based testing over loopback UDP against a model of the wait, with injected id collisions", "Loopback delivers in order; the check bounds each wait by sending a final Initial, not by a clock."),
 "C22": ("enumeration of every error kind with generated messages against the RFC 9000 s20.1 table", ""),
 "C23": ("property-based testing of the tool as a process: generated files, output parsed back", ""),
 "C24": ("stateful property-based testing: sockets with several connections, oracle from the sending model", ""),
 "C26": ("stateful property-based testing over the loopback interface: histories of binding and dropping against a model of who holds which address, probed from outside; accept in a thread", "A failure is believed when it occurs three times in a row."),
 "C27": ("stateful property-based testing: two library endpoints over a simulated unreliable network, against the history of what was sent", "Receive and acknowledgement state is set by the harness, as no code path of the library updates it yet."),
 "C25": ("property-based testing: batches drawn by generated numbers of threads, processes and accepts against statistical invariants (distinctness, bit, byte and pair counts)", "Predictability is judged by counts only: a generator that passes them is not noticed. The bounds are 9 standard deviations, so a sound generator does not fail."),
}
assume = "Generated-input search: it shows no absence of failures. Trusts the reference model in harness/src/model and ring; private state is reached through hooks guarded by cfg quic_sea_verif."
checks = [{
    "property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
    "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration",
    "level_note": (assume + " " + n).strip()} for k, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "bash build.sh",
 "hooks": {"guard": "cfg(quic_sea_verif)", "enable": "harness/.cargo/config.toml sets rustflags = [\"--cfg\", \"quic_sea_verif\"] (build.sh adds --cfg quic_sea_verif_no_routing when the hook of the socket does not compile)",
  "source_commits": ["d593345", "7379f19", "ead0e4b", "6970c82"]},
 "checks": checks, "not_applicable": [],
 "notes": "See DESIGN.md. KNOWN_FINDINGS.txt lists the defects found, all repaired in fix: commits."}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
