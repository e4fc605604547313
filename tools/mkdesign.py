#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text below, one section per property (bounds from jobs.py), the planted bugs."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
import jobs

HEAD = '''# Deciding EIPScanner's properties by solver-based checking of the real code

Written by `tools/mkdesign.py` (bounds come from `tools/jobs.py`, planted bugs from `seeded/*/meta.json`).

Family: symbolic execution of the code compiled from `/repo/src` (clang 18, LLVM IR), with an SMT
solver deciding every branch and every assertion for *all* values within stated bounds. No sampling
and no enumeration of concrete runs decides anything. All 32 properties are claimed with this
technique; none is listed as not applicable.

## 1. How a verdict comes about

`./check Cnn` (driver: `tools/check.py`)

1. compiles every file of `/repo/src`, the property's harness and the environment to LLVM bitcode,
   and the same files natively with AddressSanitizer. Nothing about the code is committed here: the
   object cache under `build/` is keyed by the content of every file a unit includes.
2. runs each job of the property (an entry function of a harness with concrete shape arguments such
   as lengths, from `tools/jobs.py`) in the symbolic executor `engine/symex.cpp`. Contents, ids,
   times, error numbers, orders of events, cuts of a stream are symbolic variables; the property is
   a set of `CHECK`s in the harness, each of them a query "can this be false?" to the solver.
3. replays every counterexample natively against `/repo/src`. Only what the native run confirms
   (failed check, sanitizer report, signal, uncaught exception, endless loop) becomes
   `VIOLATION property=<id> replay=<path>` and exit 1. `./check --replay FILE` runs it again.
4. re-runs solver models of completed paths natively and compares the observations of both
   (translation validation of the executor and its models, on every run).
5. writes `evidence/<id>.json`: functions encoded, jobs, paths, queries, solver time, bounds.

Exit 2 (neither held nor violated): solver `unknown`, time out, path or step limit, an instruction
or library function outside the model, a counterexample the native run does not confirm, an
observation mismatch, or a witness (`sym_reach`) that no path reached, i.e. a vacuous harness.

### The executor

* Byte-precise memory: every allocation is an object with bounds and life time; an access that can
  lie outside, a use after free, a double free, an invalid `delete` is a violation. Objects may have
  symbolic size; a symbolic offset reads through an if-then-else over the object.
* C++ as compiled: exceptions (`invoke`, landing pads, type matching through real type info),
  virtual calls, `std::vector`, `map`, `string`, `function`, `shared_ptr` … run from their own IR.
  Modelled are only the functions that live in libstdc++.so or libc: allocation, `mem*`/`str*`,
  red-black tree rebalancing, exception allocation, string streams and `to_string`, clock, random
  device, sockets.
* Text of string streams is followed (`State::text`): what is inserted as strings, characters and
  integers in decimal or hexadecimal form is known to the checks of C31; the text of a stream after
  an unmodelled insertion (doubles, symbolic numbers) is an unknown piece.
* Branches: constant folding, then interval reasoning over the path condition, then Z3. Interval
  decisions are checked against Z3 one time in 64.
* Floating point (C24): operations are read as exact real arithmetic with a bounded relative error;
  such queries and second opinions run in separate `z3`/`z3-new` processes (the in-process time-out
  of z3 4.8.12 can deadlock).
* A job with `alt` gets a wide first attempt; if that stays inconclusive within its time, the same
  shape is decided again in pieces with narrower symbolic fields (`sym_restricted`, the narrowing
  is stated in the bounds: announced lengths are then small, up to 3 beyond what is present, or one
  of 0x80, 0x100, 0xffff).

### The environment

`harness/env.*` replaces the system calls (`socket`, `connect`, `select`, `recv` …), the clock and
the random device, for the executor and, through renamed symbols, for the native replay. Each
harness decides what a call may return: any error number, any piece of a stream, any readiness, any
time. Every descriptor has a state, so that use after close and double close are seen.

### What is not modelled

Threads (the library has none); allocation failure below 4 MiB; `what()` texts; text after stream
manipulators other than `hex`/`dec`; `modf`, `time()` in symbolic form; `inet_ntoa` gives an injective
eight-letter text instead of dotted decimals ("0.0.0.0" for the wildcard).

## 2. Genuine defects

33 defects of the pinned tree were found by these checks (or while writing them) and repaired by
one `fix:` commit each: see `known-findings`. There is no unrepaired known finding. Things that
look like defects but are outside what the properties claim: builder setters only add bits; lengths
above 65535 bytes (or 255 for short strings) are truncated on packing; 8-bit paths cut ids above 255;
the o2t id counter has 16 bits; an interrupted `select` in the TCP constructor counts as a time-out;
the constructor of an offline parameter leaves its number 0; engineering values are truncated rather
than rounded; a failing `SO_RCVTIMEO` is ignored; a peer granting one T2O id twice; a second
`beginUpload` on one object (a TODO in the code).

## 3. False alarms met and what was done

* Truncated addresses items (C16), reserved timeout multipliers, setters called twice (C15): the
  statements were too strong; they now say what the library promises.
* C10 for sessions granted handle 0: the library treats 0 as "not registered"; stated as outside.
* C21: the existing test answers with an arbitrary encapsulation header, so that headers of replies
  are not judged.
* C24: rounding noise of real arithmetic gave spurious counterexamples; a counterexample now counts
  only when the native replay shows a relative error above 1e-7.
* C22: uploads ending early by announced size, and the order of the transfer types, are judged only
  as far as the statement goes.
* Checks on time and on solver load: a check that could not finish in time reports exit 2, which
  happened for C02/C17/C19 on rewritten code; hence interval reasoning and the narrower attempts.

Edits that keep the behaviour: three rewritten trees (A: helpers extracted, loops rewritten, algorithms
replaced by loops, in 25 places; B: other containers, early returns, reordered statements, in 30
places; C: templates, lambdas, `optional`, `tuple`, structured bindings, byte loops, `switch` for maps,
in 17 files) were run through all 32 checks: all exit 0. Tree C first gave "no answer" in C02, C05,
C09 and C21: reading 65535 bytes in a loop ran into the step bound of a path. The bound is now 16
million instructions, and what looks endless is looked at again with ten times as many before the
native replay has to confirm it.

## 4. The properties

Oracles: the reference encoders in `harness/ref.h` (`refLen`, `refCommon`, `refMR`, `encapsImage`,
`pathImage` …) are written from the protocol's layout, not from the code. Unit tests reach single
samples of these; the checks decide all contents at once for each listed shape. Costs are wall-clock
times of the quick tier on 8 cores.

'''

P = {
"C01": ("`h_C01` every sequence of kinds, `h_C01_mix` writing and reading alternately, `h_C01_long` long arrays", "bytes computed by shifts from the symbolic value; value read = value written; `pos`/`empty` after each step"),
"C02": ("`h_C02` arbitrary bytes into each of 18 decoders, `h_C02_param`, `h_C02_io`, `h_C02_changed` damaged complete messages", "the executor's memory checks, `assert`, step limit (endless loop), and that only `std::exception` escapes"),
"C03": ("`h_C03` with 17 kinds of message", "every proper prefix of a complete message must throw; the complete one, and one with trailing bytes, must not"),
"C04": ("`h_C04_pack`, `_expand`, `_eq`, `_factory`", "`encapsImage`; accepted exactly when the length field agrees; equality = equality of all fields"),
"C05": ("`h_C05_pack`, `_expand`, `_items`, `_large`, `_many`", "`refCommon`; independent parse of the image"),
"C06": ("`h_C06_pack`, `_eq`, `_expand`", "`pathImage`; independent segment parser"),
"C07": ("`h_C07`", "`refMR`"),
"C08": ("`h_C08`", "fields cut out of the image by position"),
"C09": ("`h_C09`, `h_C09_several` over a recording session", "the packet handed to the session byte by byte; the reply cut out of the image by an independent parser"),
"C10": ("`h_C10`, `_two`, `_history`, `_large` on a stream socket whose every `recv`/`send` is symbolic", "the bytes of the stream by position; number of bytes consumed"),
"C11": ("`h_C11`, `h_C11_two`", "requests on the wire, count of unregister requests, no exception from the destructor"),
"C12": ("`h_C12_tcp`, `_udp`, `_many`", "state of every descriptor (`FdInfo`): opened, blocking, closed once, not used later"),
"C13": ("`h_C13_send`, `_recv`, `_many`, `_errcode`", "what the stand-in for `sendto`/`recvfrom` saw and gave"),
"C14": ("`h_C14`", "layout table of the requests"),
"C15": ("`h_C15_build`, `_get`, `_response`", "bit positions of both layouts; layout of the reply"),
"C16": ("`h_C16`, `h_C16_many` with a router that answers symbolically", "request image from the parameters; record of the connection against the grant"),
"C17": ("`h_C17` (histories as symbolic choices), `h_C17_reenter` (listeners that close), `h_C17_hosts` (two devices, opens and closes that fail)", "a model that keeps the set of open connections"),
"C18": ("`h_C18` arbitrary datagram then a regular one, `h_C18_row`", "independent parser of the datagram; deliveries recorded by the listeners"),
"C19": ("`h_C19`, `h_C19_two`, `h_C19_wrap`", "model of the accumulated time; image of each datagram; times are symbolic"),
"C20": ("`h_C20`, `h_C20_two`", "128-bit comparison of elapsed time with interval * (4 << multiplier)"),
"C21": ("`h_C21`, `_again`, `_request`, `_error`", "independent parser of the datagrams in arrival order"),
"C22": ("`h_C22_state`, `_begin`, `h_C22`, `h_C22_two`", "the chunks the scripted device sent; number of calls of the handler; request numbers"),
"C23": ("`h_C23`, `_any`, `_two`", "layout of the attribute reply; scripted device recording every request"),
"C24": ("`h_C24_formula`, `_get`, `_set`", "the documented formula in real arithmetic, decided by nonlinear real solving"),
"C25": ("`h_C25`, `_set`, `_many`", "layout of the identity reply"),
"C26": ("`h_C26_keep`, `_pair`, `_triple`, `_map`", "the order and equality axioms; count of keys in a real `std::map`"),
"C27": ("`h_C27`, `_twice`, `_command` with a scripted drive", "list of requests and reports computed from the script"),
"C28": ("`h_C28_record`, `_many`, `_codes`", "layout of the record; table of codes found by forking over the library's own table and looking at both outcomes"),
"C29": ("`h_C29_exchange`, `_several`, `_path`, `_expand`", "that of C09 with 8-bit paths; the standard path class as second opinion"),
"C30": ("`h_C30` with a symbolic `select`", "calls per round, descriptors in the set, highest descriptor, time left"),
"C31": ("`h_C31`", "own account of threshold, appender, and text"),
"C32": ("`h_C32`, `_trunc`", "length and content by position"),
}
TIME = dict(C01=4, C02=50, C03=7, C04=4, C05=3, C06=4, C07=2, C08=2, C09=14, C10=14, C11=5, C12=3, C13=6, C14=3, C15=5, C16=9, C17=13, C18=42, C19=52, C20=14, C21=10, C22=10, C23=7, C24=21, C25=5, C26=11, C27=48, C28=4, C29=6, C30=4, C31=24, C32=1)
MISSED = {}


def main():
    props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
    o = [HEAD]
    seeds = {}
    for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m = json.load(open(d))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
    for p in props:
        i = p["id"]
        s = jobs.SPECS[i]
        q, t = len(s["jobs"]("quick")), len(s["jobs"]("thorough"))
        e, oracle = P[i]
        o.append(f"### {i} {p['title']}\n\n* Entries ({', '.join(s['units'])}): {e}.\n* Oracle: {oracle}.\n* Bounds: {s['bounds']}.\n")
        if s.get("outside"):
            o.append(f"* Outside: {s['outside']}.\n")
        for a in s.get("assumptions", []):
            o.append(f"* Assumption: {a}.\n")
        o.append(f"* Witnesses that must be reached: {', '.join(s['reach'])}.\n" if s["reach"] else "")
        o.append(f"* Cost: {q} jobs quick (about {TIME[i]} s), {t} thorough.\n")
        o.append(f"* Planted bugs: {', '.join(x for x, _ in seeds.get(i, [])) or 'none'}.\n\n")
    o.append("## 5. Planted bugs and which checks catch them\n\nEach was confirmed in a scratch copy (builds, 79 tests pass, its demonstration fails only with it) and run\nagainst the check of its property. Caught by that check unless said otherwise.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
    for i in sorted(seeds):
        for n, m in seeds[i]:
            o.append(f"| {n} | {i} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(n, i)} |\n")
    o.append("\nMissed at first, which led to extensions: C04-size-width (images above 64 KiB), C05-many-packed (hundreds of\nitems), C09-repeated-item (equal items), C17-originator (granted originator differing from the caller's),\nC22-second-first (free transfer types), C19-sequence-width (the long run), C31 text (stream texts are followed)."
             + " " + EXTRA + "\n")
    open(ROOT + "/DESIGN.md", "w").write("".join(o))


EXTRA = "C09-same-packet (thread-local variables were not supported)."
if __name__ == "__main__":
    main()
