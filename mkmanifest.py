#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when checks change)."""
import json
na = {
 "C22": "The page generators are pure functions of (code, location or error): no concurrency, clock, I/O, randomness or second party is involved, so there is no schedule or fault for a simulator to decide. (What the Builder does with generated pages is part of C16 and C17.)",
 "C23": "The header helpers are pure string formatting into a map owned by one goroutine: no concurrency, clock, I/O or second party, hence no schedule or fault to inject. (Headers as data that is copied, built and sent are covered by C12, C16 and C17.)",
}
body = ("simulated Reader (short, empty, stalled, failing, truncated, data-with-EOF reads; failing Stat, Seek, Close) and seeded scheduling of up to 5 goroutines; every run is checked against an executable model of a Body, call by call",
        "Seeded search; nothing is exhaustive. Trusts the Body model in sim/core/bodyspec.go, the simulated Reader and the source rewriting that puts sync and go statements behind the simulator.")
http = ("simulated client connection (disconnects, partial writes, failed pushes, panics, stalls, header mutation) and simulated body sources under seeded schedules; a reference model of Builder, Response and connection decides",
        "Seeded search. Trusts the connection model in sim/core/rw.go (modelled on net/http) and the reference model in sim/core/http.go.")
wr = ("sequences of Writer calls over a simulated client connection with injected failures, several connections under seeded schedules; the connection's own record is the reference",
      "Seeded search. Trusts the connection model in sim/core/rw.go.")
ad = ("concurrent requests through Adaptor with simulated handlers, clients, body sources and clock (panics, failed sends, clock jumps); metric growth and OnPanic calls compared with what the clients saw",
      "Seeded search. Trusts the connection and handler models in sim/core; the Prometheus client runs as it is and is not preempted inside.")
other = {
 "C24": ("copies of one long stream read, copied, closed and served under seeded schedules over a simulated Reader and clients; every read of the source is compared with what has been asked for or taken, and reachable memory with the distance between the copies", "Seeded search. Trusts Go's garbage collector as the measure of what is kept; the bounds are loose (1 MiB read ahead; three times the distance plus 2 MiB kept), so only what grows with the stream is found. Built without the race detector, for speed."),
 "C26": ("lives of bodies, responses, requests and payloads repeated 10 to 20 times under seeded schedules, sources, clients, handlers and marshalers that fail, stall or panic; after 100 simulated hours goroutines are counted and weak pointers tell what the garbage collector finds reachable", "Seeded search. Trusts Go's garbage collector; up to eight leftovers of a kind, or fewer than half of what was made, are taken for workers and caches."),
 "C25": ("stalls of seconds to hours injected into Readers, writers, clients, handlers, hooks and marshalers while other tasks work on other bodies, responses, requests and encodings; simulated time passes only when nobody can run, so that every call that took longer than the stalls it has to do with was held up by somebody else's", "Seeded search. Trusts the simulator's clock; a delay of less than one simulated second is not judged, nor are bodies layered over other bodies."),
 "C20": ("concurrent encodings whose marshalers yield, fail, panic and nest, over a simulated buffer pool under seeded schedules; bytes compared with an independent decoding and with themselves later", "Seeded search. Trusts encoding/json and protobuf decoders as reference."),
 "C21": ("concurrent calls through all wrappers under seeded schedules; a linearisation against the list of expectations must exist", "Seeded search over schedules; for each history the search for a linearisation is complete. Trusts Expectation's constructors and formatting."),
}
checks = []
for i in list(range(1, 22)) + [24, 25, 26, 27]:
    p = "C%02d" % i
    t, n = other.get(p) or (body if i <= 11 else wr if i in (14, 15, 27) else ad if i in (18, 19) else http)
    checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                   "technique": "deterministic simulation with fault injection: " + t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./check.sh build .build/setup && rm -rf .build/setup",
     "hooks": {"guard": "none: nothing is added to /repo; the build replaces its files by instrumented copies through 'go build -overlay'", "enable": "./check.sh instruments the current working tree of /repo into an overlay and builds the simulator from it", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
