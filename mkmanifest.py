#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
INPUTS = "bounded exhaustive enumeration of inputs executed on the real code against an independent reference model"
SCHED = "stateless model checking of the real code: all interleavings within a preemption bound on a controlled asyncio loop"
HIST = "exhaustive enumeration of operation/answer histories executed on the real code against an explicit state model"
T = {
 "C01": (INPUTS + " (all segmentations of the byte stream), plus " + SCHED, "every cut set of short streams, all 0-3 cuts of long ones, reads interleaved with arrivals; trusts the in-order delivery of TCP"),
 "C02": (INPUTS + " (all strings and segmentations), plus " + SCHED, "every string over the alphabet up to the depth, each malformation after good frames at every cut; the bytes after the malformed ones are not judged"),
 "C03": (INPUTS, "all strings over the frame alphabet up to the depth, all WHO codes, long shapes; the reference grammar is written from the documentation"),
 "C04": (INPUTS + " (all pairs of messages, all mutations of exchanged containers)", "messages over the tag domain; private attributes are not tampered with"),
 "C05": (INPUTS + " (all pumped strings) under a processor-time monitor", "every prefix/pump/suffix combination at 2000 characters; an exponential or cubic matcher exceeds the limit by far"),
 "C06": (INPUTS, "all tags up to the depth, all WHO codes and WHERE addresses"),
 "C07": (INPUTS + " (all digit sequences as nonce, bit patterns as password)", "the reference is an independent implementation of the ten 32-bit operations"),
 "C08": (INPUTS, "the digests are compared with hashlib on the documented concatenation"),
 "C09": (HIST + " (all gateway scripts of the handshake tree)", "every script of answers, silences and disconnections; a real-socket replay validates the virtual transport"),
 "C10": (HIST + " (all operation sequences up to a depth)", "three session types; starting a client already started is not claimed"),
 "C11": (HIST + " (all answer scripts up to a length)", "every kind of request; the gateway answers only what it is asked"),
 "C12": (SCHED, "2-4 concurrent commands; preemption bound 1-3; cancelled exchanges belong to C27"),
 "C13": (SCHED + ", with pauses and connection losses injected at every point", "1-3 writers, preemption bound 2-3, time bounded while events are pending"),
 "C14": (HIST + " (event histories x callback behaviours), plus " + SCHED, "all pairs of events, all short histories; the starting order of the callbacks of one event is not claimed"),
 "C15": (SCHED + ", with the end of the connection injected at every point", "preemption bound 2-3; a real-socket replay validates the virtual transport"),
 "C16": (HIST + " (all item request histories up to a depth)", "address alphabet of valid, invalid and class-less addresses over two clients"),
 "C17": (INPUTS, "every command with every value in and around its range; one known finding (turn_on_30_min)"),
 "C18": (INPUTS, "every status and dimension value in range as answer and as event"),
 "C19": (INPUTS, "every command, camera and dial, every state as answer and as event"),
 "C20": (INPUTS + " with a gateway model that stores and gives back", "every second of the day, every date of a century, all whole-hour zones"),
 "C21": (INPUTS, "every octet value, model code, version and date as answer and as event"),
 "C22": (INPUTS + ", the commands with omitted dates under every interleaving of midnight with the clock readings", "every address up to 5-6 characters, every command parameter; clock functions replaced in a process of its own"),
 "C23": (INPUTS, "every measure dimension over parameters and values, as answer and as event"),
 "C24": (INPUTS + " (all 8192 masks, all subsets of individual answers)", "complete for the mask; the individual answers complete in the subset, three value patterns each"),
 "C25": (SCHED + " and of virtual time", "1-2 readers, up to 3 messages, timers before/at/after arrivals, cancellations; preemption bound 1-2"),
 "C26": (HIST + " (all sequences of sessions), plus " + SCHED, "sequences of 2-4 sessions x ways to leave and to end them; restart races with preemption bound 3-4; replayed over real sockets"),
 "C27": (SCHED + ", with the interruption injected at every point", "12 kinds of command, 1-4 concurrent; preemption bound 1-3; results while answers to an interrupted command are still to come are not judged"),
 "C28": (SCHED + " over two connections, with faults injected at every point", "event client with command client, two clients of any session types; preemption bound 1-3"),
 "C29": (HIST + " (all cycles of activities, each repeated hundreds of times) with a monitor of tasks, timers, connections and memory", "cycles of 1-3 of 45 activities; a growth below 5 bytes per repetition, or one that stops, is not judged"),
 "C30": (SCHED + ", with the end of the connection injected at every point", "12 kinds of command, 1-4 in progress; preemption bound 1-4; which of TimeoutError and InvalidSession is raised is not claimed"),
}
checks = [{"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough", "evidence_file": f"evidence/{k}.json", "technique": t, "level": "model_checking", "level_note": n} for k, (t, n) in T.items()]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
 "notes": "No hooks: the checks drive the unmodified package from /repo's working tree through a controlled asyncio event loop (mc/vloop.py). /repo carries only fix: commits, listed in known_findings.jsonl."},
 open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
