#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "virtual-time (synctest) server runs on an in-memory transport"
T = {
 "C01": ("differential run-time oracle: generated messages, independent reference frame encoder/parser", "All body lengths 0..1023, all escape positions class-wise, random headers; trusts the reference encoder written from the standard."),
 "C02": ("differential run-time oracle: generated field values, independent wire-layout table for all 65 types and 12 extras", "Random and boundary field values for each type; trusts the layout table."),
 "C03": ("fault injection on frames, oracle on decoder results", "Every single-byte change of sampled frames plus truncations, splices and structured header faults; judged by the reference parser."),
 "C04": ("hostile-input runs of every decoder and of a live server, crash and hang monitors", "Mutated and hostile bodies, frames and connection streams; Go's bounds checks are the sanitizer, a watchdog detects hangs."),
 "C05": ("stream replay under generated segmentations, event-log comparison", "Generated streams with damaged frames, many segmentations incl. byte by byte; compares delivered messages before and after later reads."),
 "C06": ("size-boundary workloads, frame-level oracle on what is emitted", "Each variable field of each type is grown across its limits; emitted frames are decoded by the reference parser and compared."),
 "C07": ("offline trace checking of handler invocations (exactly-once, order, no overlap), " + VT, "Random concurrent sessions with injected yields at hook points."),
 "C08": ("offline trace checking of replies against what was sent, " + VT, "Random sequences of interpretable and uninterpretable messages and fragments."),
 "C09": ("fault injection (panicking callbacks), process and session survival monitors, " + VT, "All callback kinds, several panic values incl. runtime errors."),
 "C10": ("online model of pending requests against callbacks, sequential and concurrent histories, " + VT, "Wrap-around of serial numbers, instant answers injected at the moment of sending."),
 "C11": ("offline matching of API returns with the recorded wire (exactly-once, order, uniqueness), " + VT, "Concurrent senders with injected yields; the terminal side records every byte."),
 "C12": ("lifecycle monitor: close causes injected at hook points, close-handler and registry accounting, " + VT, "All causes alone and combined, at every hook point of the transport."),
 "C13": ("run/stop history monitor, " + VT + " plus real TCP", "Stops at random and chosen moments, cycles, concurrent stops, failing listens."),
 "C14": ("timed trace monitor of session closing against a reference idle model, virtual time", "Random activity patterns over several sessions; tolerance of 1 s before and 2 s after."),
 "C15": ("timed reference model of armed keys against callbacks, virtual time, sequential and concurrent", "Random histories of Update/Remove/SetExpiration."),
 "C16": ("model of uploads against acknowledgements and deliveries, " + VT, "Interleaved uploads, any order and repetition, several connections per terminal, temp dir inside scratch."),
 "C17": ("reference model of the fragment store against the real one in a scratch directory, also as unprivileged user", "Random histories over colliding identities."),
 "C18": ("differential run-time oracle with an independent RSA-OAEP implementation path, tamper injection, live server", "Keys of several sizes, all body lengths around block borders, altered ciphertexts."),
 "C19": ("Go race detector (ThreadSanitizer) on random concurrent workloads of the public API", "Only interleavings that occur are judged, happens-before analysis generalises each; race reports with library frames count."),
 "C20": ("offline accounting of broadcast copies per session, " + VT, "Random populations with closed, closing, stalled and full sessions."),
 "C21": ("stall injection, blocking detected exactly by virtual time and quiescence", "Terminals that stop reading with any window, at any moment."),
 "C22": ("differential run-time oracle with application-defined types, live server", "Random mixes of known, unknown and registered extras; replaced built-in types."),
 "C23": ("model-based run-time checking of typed accessors and flag setters", "Exhaustive over bit positions, random values and lengths, aliasing probed by later writes."),
 "C24": ("resource accounting: goroutines, fds, heap, files, allocation per frame", "Churn of thousands of sessions and uploads; growth after warm-up is judged, twice before it counts."),
 "C25": ("re-entrancy workload: random library calls inside every kind of callback, effect and return judged, deadlock watchdog, " + VT, "Random nesting of operations on own and other sessions; a deadlock shows as no progress for 120 s."),
 "C26": ("fault injection (callbacks that do not return), timed trace monitor of all other sessions, " + VT + " plus a real-time part for close handlers", "Random mixtures of held callbacks and traffic."),
 "C27": ("offline comparison of two event logs: what each side of a conversation sent through the library and what the other side delivered, " + VT, "Random conversations over all message types, plain and encrypted; no reference codec, so errors made alike by both sides are left to C01 and C02."),
 "C29": ("model of several servers in one process against everything their handlers, terminals and callers observe, " + VT, "Random histories of two to six servers with different options; stops, re-runs and storms of broadcasts and messages."),
 "C28": ("model-based run-time checking of every Reader and Writer operation, several at the same time", "Random sequences of items, widths and cuts; random six-byte dates."),
}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none: no hooks in /repo; the harness links /verif/third_party/link (the transport dependency with observation points)",
           "enable": "harness/go.mod replaces github.com/funny/link by /verif/third_party/link", "source_commits": []},
 "checks": [{"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "python3 check.py %s --thorough" % k,
             "technique": "runtime monitoring: " + v[0], "level": "exploration", "level_note": v[1]} for k, v in sorted(T.items())],
 "not_applicable": [],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
