#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "stateless model checking of the implementation: "
T = {
 "C01": S + "all schedules x all cuts of the input x socket answers, byte-stream reference",
 "C02": S + "all cuts of frame streams and all schedules within bounds, two framing protocols against a reference parser",
 "C03": S + "all schedules x all write outcomes (full, short, would-block), byte-stream reference; race-detector pass over enumerated schedules",
 "C04": S + "all interleavings of 2-3 senders with loop, peer and close; race-detector pass over enumerated schedules",
 "C05": S + "lifecycle monitor on every schedule, fault placement and end cause within bounds",
 "C06": S + "per-loop serialisation monitor on every schedule within bounds",
 "C07": S + "all interleavings of Close with Send, input, peer end and time-out; race-detector pass",
 "C08": S + "descriptor-ownership monitor in the kernel model on every schedule, with reuse of numbers",
 "C09": S + "resource ledger (descriptors, registrations, timers, pooled buffers) at the end of every execution",
 "C10": S + "all interleavings of queuing goroutines with the loop's sleep/wake protocol; race-detector pass",
 "C11": S + "all event histories up to a depth on the real poller against a readiness reference; all interleavings of Wake and Close",
 "C12": S + "all interleavings of Stop with start-up, accepts, traffic and timers; race-detector pass",
 "C13": S + "all activity patterns on a time grid in virtual time, all interleavings of timer, loop and client",
 "C14": "exhaustive enumeration of configurations, pick sequences and accept/close histories against a counter model",
 "C15": S + "all count vectors, all connect/end histories up to a depth, all schedules within bounds; race-detector pass",
 "C16": S + "gauges compared with the real backlog at every quiescent point and by a concurrent sampler; race-detector pass",
 "C17": S + "linearizability of every interleaving of 2-4 threads; all sequential histories; race-detector pass",
 "C18": S + "all interleavings of connect bursts, early ends and accept faults with the accept loop",
 "C19": "exhaustive enumeration of frame streams x cuts x ring-buffer positions against a reference decoder, plus schedule exploration on the served protocol",
 "C20": "exhaustive enumeration of single and double deviations from a valid upgrade request, callbacks, cuts and ring positions against a reference handshake, plus schedule exploration",
 "C21": S + "all control/data frame sequences, all cuts, short writes and schedules against a reference client",
 "C22": "exhaustive enumeration of headers, lengths, masks, offsets and alignments against an independent RFC 6455 codec",
 "C23": "exhaustive enumeration of all close codes x reason classes against RFC 6455 tables",
 "C24": "exhaustive enumeration of message sequences, cuts and corrupted lengths against a reference codec, plus schedule exploration",
 "C25": "exhaustive enumeration of hostile byte strings, mutations, cuts and disconnections on the served protocols with a second connection as witness, plus schedule exploration",
 "C26": S + "every fault position of the construction, resource ledger and second attempt",
 "C27": "exhaustive enumeration of option subsets and orders against a record model",
 "C28": "exhaustive enumeration of level, logger and prefix histories against a filter model",
 "C29": S + "all delays, stop times and interleavings in virtual time",
 "C30": "happens-before race detection on every enumerated schedule of all pairs of public operations",
 "C31": S + "every placement of injected system-call faults within the deviation bound, all general oracles",
 "C32": S + "all interleavings of ShutdownWrite and half-close with output, input, Close and peer",
}
NOTE = {
 "sched": "Every execution of the listed scenarios within the preemption and deviation bounds recorded in the evidence is explored on the code of /repo's working tree (sources rewritten onto a controlled scheduler and a kernel model; bounds iterated upwards in the thorough tier). Trusts: the scheduler, the kernel model (checked against the real kernel on every operation trace up to a depth in each run), the models of the timing wheel and buffer pools. Not covered: behaviour beyond the bounds, weak memory (races are looked for separately).",
 "enum": "Every input of the enumerated finite space is run through the code of /repo's working tree and compared with an independent reference; the sizes are in the evidence. Trusts the reference model (written from the RFC or the documentation) and, where a server is driven, the scheduler and kernel model. Nothing is said about inputs outside the enumerated space.",
 "race": "Every schedule within the preemption bound of every pair of public operations against a running server is executed under Go's race detector; the controlled scheduler's hand-offs are hidden from it, so it sees only the program's own synchronisation. Trusts the race detector and the happens-before edges announced by the shims of sync, atomic, channels and descriptors.",
}
ENUM = {"C14", "C19", "C20", "C22", "C23", "C24", "C25", "C27", "C28"}
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for i in ids:
    k = "race" if i == "C30" else "enum" if i in ENUM else "sched"
    checks.append({"property": i, "quick_cmd": "bash bin/check.sh %s quick" % i, "thorough_cmd": "bash bin/check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "model_checking", "level_note": NOTE[k]})
m = {"version": 1, "setup_cmd": "bash bin/check.sh setup",
     "hooks": {"guard": "verif", "enable": "no hooks in /repo: the checks rewrite a scratch copy of its sources (mc/cmd/rewrite) and build that", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Replay a recorded violation with: bash bin/check.sh replay replays/<file>."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
