"""Which harness entries decide which property, within which bounds."""
ASSUMPTIONS = [
    "compiler front end, LLVM 18 and Z3 are trusted; clang -O0 IR of /repo/src plus sroa/early-cse/simplifycfg is what is encoded",
    "libstdc++ templates are encoded as instantiated; the few library functions living in libstdc++.so/libc are modelled (allocation, memory blocks, ordered-tree insertion, exceptions, clock, random device, sockets)",
    "text of error messages is not modelled; text of log messages is (strings, characters, integers)",
    "allocation of up to 4 MiB never fails",
    "single thread",
]


def J(entry, *args, **kw):
    return dict(entry=entry, args=list(args), **kw)


SPECS = {}


def spec(pid, units, jobs, bounds, reach=(), **kw):
    SPECS[pid] = dict(units=units, jobs=jobs, bounds=bounds, reach=list(reach), **kw)


spec("C01", ["h_buffer.cpp"],
     lambda t: [J("h_C01", 2 if t == "quick" else 3, k) for k in range(14)] + [J("h_C01_mix", a, b) for a in range(14) for b in ((4, 7, 10, 11, 12, 13) if t == "quick" else range(14))]
     + [J("h_C01_long", k, n, p, x) for k in (0, 1) for n in ((4, 260, 700) if t == "quick" else (4, 5, 16, 255, 256, 257, 512, 700, 1000)) for p in (0, 600) for x in (4, 13)] + [J("h_C01_long", 0, 33000, 0, 4, steps=40000000), J("h_C01_long", 1, 3, 33000, 4, steps=40000000)],
     "arrays of 4..700 (thorough to 1000) elements, and of 33000 bytes, after 0, 600 or 33000 bytes; writing and reading alternating; every sequence of 2 (thorough: 3) values of the 14 kinds with arbitrary contents (byte arrays to 3, word arrays to 2 elements), with and without 3 bytes already present",
     ["sequence"])
spec("C32", ["h_buffer.cpp"],
     lambda t: [J("h_C32", k, n) for k in (1, 2) for n in ([0, 1, 2, 5, 9] if t == "quick" else list(range(0, 20)) + [255])] + [J("h_C32", 1, 255), J("h_C32", 2, 300), J("h_C32", 2, 2000)]
     + [J("h_C32_trunc", k, n, int(t == "quick")) for k in (1, 2) for n in range(0, 6 if t == "quick" else 12)],
     "strings of 0..9 and 255/300/2000 arbitrary bytes; arbitrary buffers of 0..5 (thorough 0..11) bytes as truncated input with announced lengths 0..24, 255, 0x1000, 0xffff (thorough: every length)",
     ["string", "no length", "too long", "fits"])

spec("C04", ["h_codec.cpp"],
     lambda t: [J("h_C04_expand", n) for n in (list(range(0, 30)) + [280, 528, 1500] if t == "quick" else list(range(0, 64)) + [279, 280, 281, 528, 529, 1024, 1500, 2000])] + [J("h_C04_expand", 24 + n, steps=100000000) for n in (33000, 65535, 65536, 65540)] + [J("h_C04_pack", n, steps=100000000) for n in [0, 1, 5, 255, 256, 300, 600, 1500, 33000, 65535]]
     + [J("h_C04_eq", n, m) for n in range(3) for m in range(3)] + [J("h_C04_factory", n, steps=20000000) for n in (0, 3, 260, 600, 1500)],
     "arbitrary images of 0..29, 280, 528 and 1500 bytes (thorough 0..63 and to 2000), of 33024 and 65559 bytes, and of more than a length field can announce, with an earlier image accepted or refused by the same object; payloads of 0..1500 arbitrary bytes and of 33000 and 65535 bytes; pairs of packets with 0..2 payload bytes and every header content",
     ["refused", "accepted", "packed", "equal", "different", "factory"])
spec("C05", ["h_codec.cpp"],
     lambda t: [J("h_C05_pack", 0)] + [J("h_C05_pack", 1, a) for a in (0, 1, 4, 260)] + [J("h_C05_pack", 2, a, b) for a in (0, 2) for b in (0, 3)] + [J("h_C05_pack", 3, a, b, c) for a in (0, 1) for b in (0, 2) for c in (0, 3)]
     + [J("h_C05_pack", 5, 1, 2, 0, 3, 1)] + [J("h_C05_expand", n) for n in range(0, 20 if t == "quick" else 30)] + [J("h_C05_items", n, steps=40000000) for n in (0, 1, 4, 600)]
     + [J("h_C05_pack", 1, n, steps=40000000) for n in (505, 600, 1500)] + [J("h_C05_pack", 2, 1480, 3, steps=40000000), J("h_C05_pack", 9, *([1] * 9)), J("h_C05_pack", 1, 33000, steps=100000000)]
     + [J("h_C05_large", a, b, m, steps=100000000) for (a, b) in ((600, 2), (2, 600), (1500, 1500), (300, 0), (33000, 3)) for m in (0, 1, 2, -2 & (1 << 64) - 1)]
     + [J("h_C05_many", k, m, steps=100000000) for k in (255, 256, 257, 300) for m in (0, 1)] + ([] if t == "quick" else [J("h_C05_many", k, m, steps=10**9) for k in (1000, 5000) for m in (0, 1)]),
     "0..5, 9, 255..257 and 300 (thorough 1000 and 5000) items with every type id and content, payloads 0..4, 260, 505..1500 bytes, and of 33000 bytes; expanding twice, also after a refused list; arbitrary images of 0..19 (thorough 0..29) bytes, every announced count; announced lengths up to 3 more than present, and 0x80, 0x100, 0xffff",
     ["packed", "refused", "accepted", "several items", "items"])
spec("C06", ["h_codec.cpp"],
     lambda t: [J("h_C06_pack", n, e) for n in range(4) for e in (0, 1)] + [J("h_C06_eq", n, m) for n in range(4) for m in range(4)] + [J("h_C06_expand", n) for n in range(0, 13 if t == "quick" else 19)],
     "every class/instance/attribute id (8-bit form: ids to 255); arbitrary images of 0..12 (thorough 0..18) bytes",
     ["packed", "compared", "refused", "expanded"])
spec("C07", ["h_codec.cpp"],
     lambda t: [J("h_C07", n, e, l) for n in range(4) for e in (0, 1) for l in (0, 1, 7, 300, 600)] + [J("h_C07", 3, e, l, steps=40000000) for e in (0, 1) for l in (1500, 33000)],
     "every service code and path (8-bit form: ids to 255), data of 0, 1, 7, 300, 600, 1500 arbitrary bytes and of 33000 bytes; a second request in between",
     ["request"])
spec("C08", ["h_codec.cpp"],
     lambda t: [J("h_C08", n, 0) for n in (list(range(0, 20)) if t == "quick" else list(range(0, 40)))] + [J("h_C08", n, 0) for n in (4 + 256, 4 + 510, 4 + 511, 4 + 600, 4 + 1500)] + [J("h_C08", 33000, 0, steps=40000000)] + [J("h_C08", n, m) for n in (3, 6, 9, 14) for m in (4, 5, 7, 8, 12)],
     "arbitrary responses of 0..19 (thorough 0..39) bytes, responses of 260..1504 and 33000 bytes with up to 255 additional status words, pairs of consecutive parses of 3..14 bytes",
     ["refused", "plain", "additional status", "parsed again"])


def exch(entry, variants, t):
    out = []
    for v in variants:
        for n in (1, 2, 3):
            out += [J(entry, v, 3, n, 0, 0, 21, 0), J(entry, v, 4, n, 5, 0, 20, 0), J(entry, v, 5, n, 4, 2, 22, 0)]
        for r in range(0, 28 if t == "quick" else 36):
            out.append(J(entry, v, 3, 2, 0, 0, r, 0))
        for mode in (1, 2):
            out += [J(entry, v, o, 3, 3, 1, 0, mode) for o in (3, 4, 5)]
        out += [J(entry, v, 5, 3, l, x, 20, 0) for l in (0, 1, 300, 600) for x in range(0, 4)]
        many = entry.split("_")[0] + "_" + entry.split("_")[1] + "_several"
        one = (3, 3, 0, 0, 0, 3, 0)
        def several(*reqs, same=0):
            return J(many, v, len(reqs), *[x for r in reqs for x in r], same, steps=40000000)
        for k in range(0, 5):
            for same in (0, 2):
                out += [several((5, 3, 2, 1, k, 2, 1), one, same=same), several((5, 2, 4, 2, 0, 5, 2), (4, 3, 1, 0, k, 0, 0), same=same), several((4, 1, 3, 0, k, 4, 0), (5, 3, 0, 2, 0, 2, 1), same=same)]
        out += [several(one, one, one, same=s) for s in (0, 2, 4, 6)]
        out += [several((7, 3, 2, 2, 0, 3, 2), (7, 2, 0, 3, 0, 1, 3))]
        out += [several((5, 3, 2, 1, 0, 600, 0), one), several((5, 3, 2, 2, 0, 3, 9), one), several((4, 3, 600, 0, 0, 1500, 0)), several((4, 3, 1500, 0, 4, 600, 1)), several((5, 3, 1500, 1, 0, 33000, 0))]
    return out


spec("C09", ["h_msg.cpp"], lambda t: exch("h_C09", (0, 1), t),
     "every service, path (8-bit router: ids to 255) and session handle; data of 0..5, 300, 600 and 1500 bytes; 0..3 additional items of 0..6 and 600..1509 bytes, of different and of equal sizes; two or three requests through one router over the same or different sessions, after an answer, an error, a short reply; complete replies with data to 1500 and 33000 bytes and to 9 additional items; arbitrary reply payloads of 0..27 (thorough 0..35) bytes, announced item lengths up to 3 more than present and 0x80, 0x100, 0xffff; session failing with runtime_error or system_error",
     ["session error", "bad reply", "answer", "answer with additional items", "several requests"])
spec("C29", ["h_msg.cpp"], lambda t: exch("h_C29_exchange", (2,), t) + [J("h_C29_path", n, l) for n in range(4) for l in (0, 3)] + [J("h_C29_expand", n) for n in range(0, 11 if t == "quick" else 15)],
     "as C09 with ids to 255; paths with every 8-bit id; arbitrary path images of 0..10 (thorough 0..14) bytes compared with the standard path",
     ["session error", "bad reply", "answer", "answer with additional items", "several requests", "path", "path refused", "path expanded"])


def c10(t):
    q = t == "quick"
    out = []
    for n in range(0, 31 if q else 40):
        for end in (0, 1, 2):
            out.append(J("h_C10", n, end, 0, 1, 0, 0))
    for n in (5, 24, 26, 29):
        out.append(J("h_C10", n, 0, 2 if q else 3, 0, 0, 0, cost=5))
        out.append(J("h_C10", n, 1, 1, 2, 0, 0, cost=3))
        out += [J("h_C10", n, e, 0, 0, 0, 1) for e in (0, 1, 2)]
        out += [J("h_C10", n, 0, 0, 0, m, 0) for m in (1, 2, 3)]
    out += [J("h_C10_two", a, b, 2) for a in (0, 3) for b in (0, 2)]
    big = dict(steps=40000000)
    out += [J("h_C10_large", b, p, r, s, l, **big) for (b, p, r, s, l) in ((0, 600, 100000, 0, 0), (600, 0, 100000, 0, 5), (1500, 1500, 1460, 0, 3), (600, 600, 1, 0, 2), (1500, 600, 511, 100, 0), (10, 1500, 24, 7, 30), (20000, 33000, 1460, 0, 4), (20000, 10, 100000, 16384, 0), (3, 65535, 8192, 0, 1))]
    out += [J("h_C10_history", 2, a, k, b, 0, 1) for a in (0, 4) for k in (0, 1, 2) for b in (0, 3)] + [J("h_C10_history", 3, 1, k, 2, m, 0, 0, 0) for k in (0, 1, 2) for m in (0, 1, 2)]
    return out


spec("C10", ["h_sock.cpp"], c10,
     "arbitrary reply streams of 0..30 (thorough 0..39) bytes ended by close, reset or receive timeout; every way to cut them with up to 2 (thorough 3) short reads and up to 2 interrupted reads, and byte by byte; requests and replies to 65535 bytes in pieces of fixed sizes; two or three exchanges in a row, after a good, failed or foreign reply; reply length fields up to 3 more than present and 0x80, 0x100, 0xffff; sends that complete, fail, are cut at any byte or interrupted; every non-zero session handle",
     ["send fails", "send is cut short", "bad reply", "reply", "later bytes", "two exchanges", "large", "history"],
     outside="sessions granted handle 0 (treated by the library as not registered)")
spec("C11", ["h_sock.cpp"],
     lambda t: [J("h_C11", n, 0, m, e, d) for n in (0, 1, 3, 4, 23, 24, 25, 28, 30) for m in (0, 1) for e in (0, 104) for d in (0, 1)] + [J("h_C11", 28, m, 0, 0, 0) for m in (1, 2, 3)] + [J("h_C11_two", o, f, b) for o in (0, 1) for f in (0, 1) for b in (0, 1, 2)],
     "two sessions side by side, destroyed in both orders, and a third one later; arbitrary registration replies of 0..30 bytes ended by close or reset, one short read; registration and unregistration sends succeeding or failing; every granted handle",
     ["registration fails", "registered", "two sessions"])
spec("C12", ["h_sock.cpp"],
     lambda t: [J("h_C12_tcp", f, m) for f in range(-1, 8) for m in (0, 1, 2)] + [J("h_C12_udp", k, f) for k in (0, 1, 2) for f in range(-1, 5)] + [J("h_C12_many", a, b, c, o) for (a, b, c) in ((0, 1, 2), (1, 1, 1), (2, 2, 0), (0, 0, 0)) for o in (range(6) if t == "thorough" else (0, 3, 5))],
     "each system call of construction failing with any error number; connect succeeding at once, in progress (wait succeeding, timing out, failing, interrupted up to twice; any pending socket error) or refused with any error number; every port; any connect timeout to 100 s; descriptors from 0, 5 or 1000 on; three sockets at a time",
     ["call fails", "connect timeout", "refused", "connected", "made"])
spec("C13", ["h_sock.cpp"],
     lambda t: [J("h_C13_send", n, m, k) for n in (0, 1, 5, 600, 1600) for m in ((0, 1) if n == 0 else (0, 1, 2)) for k in (0, 1)]
     + [J("h_C13_recv", n, w, f, s) for n in (0, 1, 4, 7, 300, 600, 1600) for w in (0, 4, 504, 1500, 4096) for f in (0, 1) for s in (0, 1)] + [J("h_C13_errcode")]
     + [J("h_C13_many", a, b, c, w, k, steps=40000000) for (a, b, c) in ((5, 2, 3), (0, 4, 0), (600, 3, 700), (9000, 1, 33000)) for w in (4, 504, 65535) for k in (0, 1)] + [J("h_C13_recv", 33000, 65535, 0, s, steps=40000000) for s in (0, 1)] + [J("h_C13_send", 33000, 0, 0, steps=40000000)],
     "datagrams of 0..1600 arbitrary bytes and of 9000 and 33000 bytes, requested sizes 0, 4, 504, 1500, 4096, 65535, three sends and receives in a row with a failure at any of them, every address and port, every error number",
     ["send fails", "sent", "receive fails", "received", "error number"])
spec("C26", ["h_sock.cpp"],
     lambda t: [J("h_C26_keep", k) for k in range(6)] + [J("h_C26_pair", a, b) for a in range(6) for b in range(a, 6)]
     + [J(e, a, b, c) for e in ("h_C26_triple", "h_C26_map") for (a, b, c) in ([(0, 0, 0), (1, 0, 1), (3, 3, 3), (3, 4, 2), (3, 0, 3), (1, 1, 1)] if t == "quick" else [(a, b, c) for a in range(5) for b in range(5) for c in range(5)])],
     "end points from every address structure and from numeric or arbitrary host texts of 0..3 characters, every port; pairs and triples of them",
     ["kept", "pair", "triple", "map"],
     assumptions=["inet_ntoa/inet_aton are replaced by an injective text form (eight letters, 0.0.0.0 for the wildcard) plus dotted decimal parsing"])
spec("C30", ["h_sock.cpp"],
     lambda t: [J("h_C30", 0, 1, 0, 0)] + [J("h_C30", 1, r, x, 0) for r in (1, 2, 3, 4) for x in (0, 1)] + [J("h_C30", 2, r, x, 0) for r in (1, 2) for x in (0, 1)] + [J("h_C30", 3, r, 0, 0) for r in ((1,) if t == "quick" else (1, 2))]
     + [J("h_C30", 3, 1, 1, 0), J("h_C30", 5, 1, 0, 0, cost=3), J("h_C30", 7, 1, 1, 0, cost=9), J("h_C30", 1, 1, 0, 1), J("h_C30", 2, 1, 0, 1), J("h_C30", 2, 1, 1, 1)] + ([] if t == "quick" else [J("h_C30", 2, 3, 0, 0), J("h_C30", 3, 2, 1, 1)]),
     "0..3, 5 and 7 sockets with descriptors 0..1023, up to 4 rounds, also after an earlier wait, of any readiness, waits failing with any error, timeouts 0, 1, 250, 999, 1000, 1001, 2500 and 60000 ms, each wait taking nothing, half, all but 1 us, exactly, 1 us more or 3 s more than what is left",
     ["no sockets", "wait fails", "nothing ready", "time is up"])
spec("C31", ["h_sock.cpp"],
     lambda t: [J("h_C31", 1, 1), J("h_C31", 2, 1)] + ([] if t == "quick" else [J("h_C31", 3, 0, steps=10**9)]),
     "every sequence of 2 (thorough 3) messages of text and numbers, empty or not, of every level under every threshold, threshold or appender changed before or while a message is built",
     ["printed", "suppressed"])

spec("C14", ["h_conn.cpp"],
     lambda t: [J("h_C14", k, w) for k in range(3) for w in (list(range(0, 21)) + [63, 64, 126, 127, 128, 129, 254, 255] if t == "quick" else range(0, 256))],
     "every value of every parameter, connection paths of 0..20, 63, 64, 126..129, 254 and 255 words (thorough: 0..255) of arbitrary bytes",
     ["open", "large open", "close"], outside="paths of an odd number of bytes, paths longer than 255 words")
spec("C15", ["h_conn.cpp"],
     lambda t: [J("h_C15_build", l) for l in (0, 1)] + [J("h_C15_get", l) for l in (0, 1)] + [J("h_C15_response", n, 0) for n in (list(range(0, 40)) + [26 + 254, 26 + 510, 26 + 509] if t == "quick" else list(range(0, 80)) + [26 + 254, 26 + 510, 26 + 509, 26 + 600])] + [J("h_C15_response", n, m + 1) for n in (25, 26, 30, 33) for m in (20, 26, 27, 30)],
     "every combination of fields set in every order, each once; every 16- and 32-bit value decoded; arbitrary replies of 0..39, 280, 535, 536 (thorough 0..79) bytes, also after another one",
     ["built", "decoded", "refused", "plain", "with application reply"], outside="setting a field twice (the builder only adds bits)")
spec("C16", ["h_conn.cpp"],
     lambda t: [J("h_C16", l, m, c, w) for l in (0, 1) for m in range(4) for c in range(3) for w in ((2,) if t == "quick" else (0, 1, 5, 255))] + [J("h_C16_many", n, l, e, m, steps=40000000) for (n, e) in ((6, 0), (40, 3), (40, 1), (300, 4)) for (l, m) in ((0, 1), (1, 1), (2, 1), (0, 2), (2, 2))],
     "every parameter value, transport class 0, 1, 3 with any trigger and direction bits, both real-time formats, sizes that leave room for the added bytes; arbitrary grants; address items with any address and port; every error status; two connections in a row, and 6, 40 and 300 of them, normal, large or both, opened by one or two managers, with refusals and closes in between; paths of 2 (thorough 0, 1, 5, 255) words",
     ["refused", "early", "opened", "many"], outside="transport class 2; sizes within 6 of the largest; o2t interval longer than the t2o interval; ids and serial numbers after more than 65535 opens")

spec("C17", ["h_conn.cpp"],
     lambda t: [J("h_C17", n, k) for n in ((4,) if t == "quick" else (5, 6)) for k in (0, 1)]
     + [J("h_C17_reenter", x, a, b, c, k) for x in range(3) for c in (2, 3) for a in range(c) for b in range(c) for k in (0, 1)]
     + [J("h_C17_hosts", y, h, n) for y in range(6) for h in (0, 2) for n in ((1,) if t == "quick" else (1, 2, 3))] + [J("h_C17_hosts", y, 1, 1) for y in (0, 1, 2)],
     "every history of 4 (thorough 6) steps of opening (short or long timeout), refused opening, closing any connection (answered with any status), and handling after 1 ms or 10 s, with arbitrary 32-bit ids that differ among the connections open at a time; listeners closing any of 2..3 connections while they are handled; connections to one or two devices, where 1 (thorough 1..3) attempts to open the second fail because the session, a socket or its binding does, data then arriving on any receiving socket, closed in either order after the close request could not be sent",
     ["open", "open refused", "close", "close refused by the peer", "close again", "closed next to an open one", "listener closes", "open fails", "close fails", "two devices"],
     outside="a peer granting the same T2O id to two connections that are open together")
def c18(t):
    q = t == "quick"
    sizes = [(0, 1), (2, 1), (9, 1), (14, 2), (18, 0), (18, 2), (20, 2), (22, 2), (24, 2), (25, 3)] if q else [(n, z) for n in range(0, 33) for z in (0, 1, 2, 3)]
    out = [J("h_C18", c, h, f, n, z, cost=n) for c in range(3) for h in (0, 1) for f in (0, 1) for n, z in sizes if not q or n < 24 or (c + h + f) % 2 == n % 2]
    none = 10000
    for c in range(3):
        for h in (0, 1):
            x = (2 if c else 0) + (4 if h else 0)
            for s in (0, 1):
                out += [J("h_C18_row", c, h, f, z, x + z, x + z, x + (z if f else 1), s) for f in (0, 1) for z in (0, 3)]
                out += [J("h_C18_row", c, h, 1, 2, x + 2, x + 1, x + 2, s), J("h_C18_row", c, h, 1, 2, x + 3, x + 2, none, s), J("h_C18_row", c, h, 0, 0, max(x - 1, 0), x, x + 2, s)]
                out += [J("h_C18_row", c, h, f, 505, x + 505, x + 505, none, s) for f in (0, 1)]
            out += [J("h_C18_row", c, h, 0, 0, x + 1400, x + 8, x + 600, 0)]
    return out


spec("C18", ["h_conn.cpp"], c18,
     "arbitrary datagrams of 0..25 (thorough 0..32) bytes followed by a regular one for another connection; transport class 0, 1, 3; with and without header; fixed and variable sizes 0..3; every pair of distinct 32-bit ids; item lengths up to 3 more than present, and 0x80, 0x100, 0xffff; two or three well-formed datagrams in a row, for one or two connections, of 0..3, 505, 600 and 1400 bytes with every sequence number, count and header, handled together or apart",
     ["delivered", "not for it", "delivered to the other one", "malformed", "in a row"])
spec("C19", ["h_conn.cpp"],
     lambda t: [J("h_C19", c, h, f, z, n) for c in range(3) for h in (0, 1) for f in (0, 1) for z in (3, 2, 0) for n in ((3,) if t == "quick" else (4,))] + [J("h_C19_wrap", 65600, steps=2000000000, cost=99)]
     + [J("h_C19_two", a, b, x, y, 2 if t == "quick" else 3) for (a, b) in ((0, 0), (1, 1), (4, 4), (1, 3), (5, 2)) for (x, y) in ((3, 2), (0, 1))] + [J("h_C19_two", 1, 4, x, y, 2) for (x, y) in ((505, 600), (300, 1400))],
     "3 (thorough 4) handling steps, each after any time to 2^32 us; every packet interval, start time and connection id; transport class 0, 1, 3; data of 0, 2, 3 bytes on a connection of size 3, changed between steps or by the send listener; sends failing; two connections with their own intervals side by side over 2 (thorough 3) steps, with data to 1400 bytes, one closed on the way; one run of 65600 steps with arbitrary data",
     ["not due", "sent", "next one", "wrong size", "side by side"], outside="clock readings that are not whole microseconds; wrap-around of the 32-bit sequence number")
spec("C20", ["h_conn.cpp"],
     lambda t: [J("h_C20", m, n) for m in range(8) for n in ((3,) if t == "quick" else (4,))] + [J("h_C20_two", a, b, 2 if t == "quick" else 3) for (a, b) in ((0, 0), (0, 7), (3, 2))],
     "every multiplier 0..7, every packet interval and start time, 3 (thorough 4) handling steps each after any time to 2^32 us or 128 times that, with accepted data, refused data or none in each; two connections with their own timeouts over 2 (thorough 3) steps",
     ["timed out", "kept alive", "still open", "stays closed", "two timeouts"], outside="reserved multipliers above 7; clock readings that are not whole microseconds")

spec("C25", ["h_obj.cpp"],
     lambda t: [J("h_C25", n, 0) for n in (list(range(0, 32)) + [15 + 127, 15 + 128, 15 + 255] if t == "quick" else list(range(0, 60)) + [140, 141, 142, 143, 144, 269, 270, 271])] + [J("h_C25", n, 1) for n in (0, 14, 20)] + [J("h_C25_set", n, k) for n in (0, 5, 255) for k in range(0, 16)] + [J("h_C25_many", a, b, c) for (a, b, c) in ((15, 18, 16), (20, 15, 10), (19, 5, 22), (22, 22, 22))],
     "every instance; arbitrary replies of 0..31 bytes (thorough 0..59), names to 255 bytes; every error status; the setters in 16 orders with every value; three identities in a row",
     ["error status", "truncated", "read", "set", "several"], outside="product names of more than 255 bytes given to the setter")
spec("C28", ["h_obj.cpp"],
     lambda t: [J("h_C28_record", n, 0) for n in range(0, 34 if t == "quick" else 64)] + [J("h_C28_record", n, 1) for n in (0, 30)] + [J("h_C28_many", a, b, c) for (a, b, c) in ((30, 30, 30), (30, 29, 33), (40, 30, 31), (0, 30, 30))] + [J("h_C28_codes", conc=2000)],
     "arbitrary records of 0..33 (thorough 0..63) bytes, every instance and error status, three in a row; every 32-bit fault code",
     ["error status", "truncated", "read", "known code", "unknown code", "several"])


def c23(t):
    q = t == "quick"
    out = []
    sizes = (0, 1, 2, 4, 8) if q else (0, 1, 2, 3, 4, 5, 8, 16, 255)
    for ds in sizes:
        for full in (0, 1):
            for link in ((0, 6) if q else (0, 1, 6, 255)):
                for (a, b, c) in ((0, 0, 0), (5, 3, 4), (255, 1, 200)):
                    if full or not a:
                        out.append(J("h_C23", ds, link, full, 0, 0, a, b, c, 0, 0))
            for e in range(1, 8):
                out.append(J("h_C23", ds, 2, full, 0, 0, 1, 2, 1, e, 0))
            out.append(J("h_C23", ds, 2, full, 3, 0, 1, 2, 1, 0, 1))
            out.append(J("h_C23", ds, 2, full, 0, 1, 1, 2, 1, 0, 0))
            out.append(J("h_C23", ds, 2, full, 0, 0, 1, 2, 1, 0, 2))
    out.append(J("h_C23", 2, 1, 1, 0, 0, 0, 1, 0, 0, 3, cost=3))
    for full in (0, 1):
        out += [J("h_C23_any", n, 1, full, 0, 0, cost=n) for n in range(0, (7 if full else 9) if q else (9 if full else 14))]
    out += [J("h_C23_any", n, 0, 1, 0, 0) for n in (0, 6)]
    out += [J("h_C23_two", a, b, f) for (a, b) in ((1, 4), (2, 2), (8, 1), (4, 8)) for f in range(4)]
    return out


spec("C23", ["h_obj.cpp"], c23,
     "every instance; data sizes 0, 1, 2, 4, 8 (thorough also 3, 5, 16, 255), link paths of 0, 2, 6 (thorough to 255) bytes, texts of 0..255 bytes, with every content, every descriptor, type and scaling attribute; every truncation of the reply; scaling replies of 0..3 bytes; every error status at every request; wholly arbitrary replies of 0..6 bytes in full and 0..8 otherwise (thorough 0..8, 0..13); two updates; two parameters side by side",
     ["error status", "truncated", "read", "read in full", "read with scaling", "updated", "update error", "update truncated", "side by side"],
     outside="reading a value as a type wider than the parameter")
spec("C24", ["h_obj.cpp"],
     lambda t: [J("h_C24_formula", p, p % 2) for p in (list(range(0, 11)) + [16, 20, 22] if t == "quick" else range(0, 23))] + [J("h_C24_get", k, p) for k in range(8) for p in ((0, 3) if t == "quick" else range(0, 10))] + [J("h_C24_get", k, p) for k, p in ((3, 12), (7, 17))]
     + [J("h_C24_set", k, s, w, 1) for k in range(8) for s in range(7) for w in ((1, 5, 6) if t == "quick" else range(9))] + [J("h_C24_set", k, 0, w, 0) for k in range(8) for w in (1, 5, 6)],
     "every multiplier, divisor and base from 1 to 65535, every offset, precisions 0..10, 16, 20, 22 (thorough 0..22), every value of every integer type; limits set to every eighth between values whose actual value fits the type, under 7 scalings; floating-point operations are read as real arithmetic",
     ["formula", "read in engineering units", "set in engineering units"],
     assumptions=["floating-point operations are read as exact real arithmetic (a bounded relative error of 1e-6 is allowed); a counterexample counts only when the native replay shows an error above 1e-7"],
     outside="multiplier, divisor or base of 0; values outside the range of the type; floating-point parameters")


def c27(t):
    out = [J("h_C27", k, c, d, 1, 0, 0) for k in range(0, 11) for c in (0, 1) for d in (0, 1)]
    out += [J("h_C27", 3, 1, 1, 2, 0, 0), J("h_C27", 0, 1, 1, 2, 0, 0)]
    for k in ((0, 1, 3, 10) if t == "quick" else range(0, 11)):
        for d in (0, 1):
            total = k * (4 if d else 1) + (1 if k < 10 else 0)
            for n in range(0, total + 1):
                if n < total or k:
                    out.append(J("h_C27", k, 1, d, 1, 1, n))
                if n < total:
                    out.append(J("h_C27", k, 1, d, 1, 2, n))
    out += [J("h_C27", k, c, d, 1, 3, n) for k in (1, 4, 10) for n in range(1, k + 1) for c in (0, 1) for d in (0, 1)]
    out += [J("h_C27", 2, c, d, 1, 4, 0, conc=2000, cost=5) for c in (0, 1) for d in (0, 1)]
    out += [J("h_C27", 2, 1, d, 1, 5, n) for d in (0, 1) for n in (1, 2)]
    out += [J("h_C27_command", c) for c in range(0, 4)]
    out += [J("h_C27_twice", a, b, c, d, f) for (a, b) in ((0, 3), (3, 0), (10, 2), (2, 10), (10, 10), (1, 1)) for c in (0, 1) for d in (0, 1) for f in (0, 1)]
    return out


spec("C27", ["h_obj.cpp"], c27,
     "0..10 faults, clearing and details on and off, every voltage, current and frequency, every code of the first entry; every request failing with every status, every reply truncated, an unknown code at every entry; two drives after each other with one manager",
     ["cleared", "not cleared", "error", "clear refused", "refused", "accepted", "twice"])


def c21(t):
    q = t == "quick"
    K = 100000
    out = [J("h_C21", 0), J("h_C21_request")]
    ok = 9 * K
    for n in (0, 1, 23):
        out.append(J("h_C21", 2, n, ok))
    for n in range(0, 12 if q else 16):
        out.append(J("h_C21", 2, 1 * K + n, ok, cost=n))
    for n in range(0, 37 if q else 45):
        out.append(J("h_C21", 2, 2 * K + n, ok))
    out += [J("h_C21", 1, 2 * K + n, cost=2) for n in (60, 288)]
    out += [J("h_C21", 2, 3 * K + a * 1000 + b, ok) for a, b in ((33, 0), (0, 33), (34, 35), (32, 33), (33, 32), (5, 36))]
    out += [J("h_C21", 2, 4 * K + a * 1000 + 33, ok) for a in (1, 2)]
    out += [J("h_C21", 2, 5 * K + a * 1000 + 34, ok) for a in (1, 4)]
    out += [J("h_C21", 3, ok, 2 * K + 34, 2 * K + 33), J("h_C21", 4, 2 * K + 33, 0, 2 * K + 33, ok)]
    A = 2 * K + 36
    out += [J("h_C21_again", *x) for x in ((ok, A, 77, A, 77, ok, 77), (77, A, ok, 77, 77), (A, 77, 10, 77, 2 * K + 33, 77), (23, A, 77, 2 * K + 33, 77, ok, 77))]
    out += [J("h_C21", 12, *([ok] * 4), 2 * K + 33, ok, 23, *([ok] * 4), 2 * K + 34), J("h_C21", 30, *([ok] * 30)), J("h_C21", 7, 0, 1, 23, K, 4 * K + 1033, 2 * K + 20, A)] + [J("h_C21", 1, x) for x in (6 * K + 5000 + 34, 6 * K + 9000 + 40, 6 * K + 3 * 1000 + 33)]
    out += [J("h_C21_error", k, w) for k in ((0, 2) if q else (0, 1, 2, 3)) for w in range(5)]
    return out


spec("C21", ["h_disc.cpp"], c21,
     "discovering three times with one manager; one to four datagrams in every order listed, and 7, 12 and 30 of them: 0, 1, 23 arbitrary bytes; a header with 0..11 (thorough 0..15) arbitrary bytes; one item of any type with 0..36 (thorough 0..44), 60 or 288 arbitrary bytes; two items, and 3, 5 and 9 items of fixed and arbitrary types; too few items; bytes after the items; a fixed well-formed answer before or after; every address, port and timeout; every errno; failing socket, option and send calls",
     ["no devices", "devices", "request", "socket error", "timeout", "again"],
     outside="headers with another command, status or length are not judged (the existing test uses such a header for valid answers)")


def c22(t):
    q = t == "quick"
    out = [J("h_C22_state", n) for n in (0, 1, 2)] + [J("h_C22_begin", n) for n in range(0, 6)]
    shapes = [(1, 4, 0), (1, 4, 3), (2, 1, 1), (2, 3, 0), (3, 2, 1), (4, 1, 0), (3, 0, 2), (2, 255, 1)]
    if not q:
        shapes += [(1, 255, 255), (5, 3, 3), (6, 2, 2), (7, 1, 1), (3, 255, 255)]
    for (k, ts, last) in shapes:
        out.append(J("h_C22", k, ts, last, 0, 0, 0))
        out.append(J("h_C22", k, ts, last, 5, 0, 0))
        for at in range(k):
            n = 2 + (ts if at + 1 < k else last + 2)
            for p in (0, n):
                out.append(J("h_C22", k, ts, last, 1, at, p))
            out.append(J("h_C22", k, ts, last, 2, at, 0))
            out.append(J("h_C22", k, ts, last, 4, at, 0))
            cuts = [c for c in range(0, n) if c < 5 or c > n - 3]
            out += [J("h_C22", k, ts, last, 3, at, c) for c in cuts]
    out += [J("h_C22", 3, 2, 2, 6, 0, p) for p in (1, 5)]
    out += [J("h_C22_two", a, b, ts, e) for (a, b) in ((1, 1), (1, 3), (3, 1), (3, 3), (4, 2)) for ts in (0, 2, 3) for e in (0, 1)]
    out += [J("h_C22", k, ts, last, 0, 0, 0) for (k, ts, last) in ((1, 4, 600), (2, 255, 255), (3, 254, 255), (2, 16, 300), (5, 255, 0), (17, 16, 15))]
    out += [J("h_C22", n, 1, 1, 0, 0, 0, cost=4, steps=40000000) for n in ((256, 257, 300) if q else (255, 256, 257, 258, 512, 513, 600))]
    return out


spec("C22", ["h_disc.cpp"], c22,
     "every instance, state and status; every file size; two uploads side by side; uploads of 1..5 and 17 (thorough 1..7) chunks of 0..3 and 255 bytes with every content, and of 256, 257, 300 (thorough to 600) chunks; each fault (error status, wrong number, unknown type, truncation at each length, other announced size) at each chunk",
     ["state error", "state truncated", "state unknown", "no file", "file", "initiation fails", "initiation truncated", "initiated", "uploaded", "wrong size", "error status", "wrong number", "unknown type", "truncated", "side by side"],
     outside="the CRC is not checked; the order of the transfer types in uploads of more than 5 chunks; a second beginUpload on the same object while one is running")


def c02(t):
    q = t == "quick"
    out = []
    R = lambda a, b, c=None: range(a, b if q else (c or b + 8))
    out += [J("h_C02", 0, n, 0, alt=40) for n in R(0, 32, 60)] + [J("h_C02", 1, n, 0) for n in (0, 1, 2, 3, 4, 23, 24, 40)]
    out += [J("h_C02", 2, n, 0, cost=n, alt=40) for n in R(0, 20, 28)]
    out += [J("h_C02", 3, n, 0, cost=n, alt=40) for n in R(0, 16, 25)] + [J("h_C02", 11, n, 0) for n in R(0, 15, 21)]
    out += [J("h_C02", 4, n, 0) for n in list(R(0, 24, 40)) + [4 + 255, 4 + 510, 4 + 511]]
    out += [J("h_C02", 5, n, 0) for n in list(R(0, 40, 60)) + [300, 536]]
    out += [J("h_C02", 6, n, 0, cost=n, alt=40) for n in R(0, 42, 46)] + [J("h_C02", 6, n, 1, cost=n, alt=40) for n in (62, 63, 64, 70, 504, 600)]
    out += [J("h_C02", 7, n, 0) for n in R(0, 26, 40)]
    out += [J("h_C02", 8, n, m) for m in (1, 2) for n in R(0, 14, 20)]
    out += [J("h_C02", 9, n, 0) for n in R(0, 34, 40)]
    out += [J("h_C02", 10, n, m) for n in R(0, 4, 6) for m in (0, 1)]
    out += [J("h_C02", k, n, 0, cost=n, alt=40) for k in (12, 13) for n in R(0, 28, 34)]
    out += [J("h_C02", 14, n, 0, alt=40) for n in (0, 1, 23, 24, 27, 28, 29, 40, 51, 52, 53, 56, 60)]
    out += [J("h_C02", 15, n, 0, alt=40) for n in R(0, 10, 16)] + [J("h_C02", 16, n, m) for n in (0, 1, 7, 16, 17, 30, 60) for m in (0, 1, 3)]
    out += [J("h_C02", 17, n, m) for n in (0, 10, 25, 26, 27, 30) for m in (0, 1, 2, 7, 8, 15, 16, 17)]
    for full in (0, 1):
        for ds in (0, 1, 4, 8, 255, 256):
            out += [J("h_C02_param", full, ds, n, m, cost=n if full else 1) for n in ([0, 1, 2, 4, 6, 9, 12, 15] if q else range(0, 22)) for m in (0, 2)]
        out += [J("h_C02_param", full, ds, n, m, cost=9) for ds in ((1,) if q else (1, 4)) for n in ((22 + 4 * ds,) if q else (22 + 4 * ds, 26 + 4 * ds)) for m in ((0, 2) if q else (0, 1, 2, 5))]
    out += [J("h_C02_io", c, h, f, a, b, alt=40) for c in range(3) for h in (0, 1) for f in (0, 1) for (a, b) in (((1, 0), (11, 0), (17, 0), (22, 0), (24, 0), (26, 0), (15, 13)) if q else [(n, 0) for n in range(1, 34)] + [(15, 13), (18, 11)])]
    for k, shapes in {0: [(4, 0, 0), (600, 0, 0), (1500, 0, 0)], 1: [(4, 2, 3), (255, 2, 0), (600, 2, 2), (30, 3, 1)], 2: [(3, 0, 0), (3, 1, 0)], 15: [(3, 0, 0)], 3: [(2, 300, 0), (255, 4, 0), (128, 600, 0)], 4: [(2, 0, 0), (127, 0, 0), (255, 0, 0)],
                      5: [(5, 0, 0), (127, 0, 0), (255, 0, 0)], 6: [(4, 6, 1)], 7: [] if q else [(4, 6, 1), (2, 2, 7), (8, 6, 40)], 8: [(0, 0, 0)], 9: [(0, 1, 0), (3, 5, 0)], 11: [(4, 0, 0), (255, 0, 0)], 12: [(4, 1, 0), (255, 1, 0), (255, 0, 0), (60, 0, 0)],
                      13: [(5, 2, 3), (600, 0, 2), (200, 100, 5)], 14: [(5, 2, 3), (600, 0, 2)], 16: [(0, 0, 0)]}.items():
        out += [J("h_C02_changed", k, *x, alt=40, conc=3000, steps=40000000) for x in shapes]
    return out


spec("C02", ["h_net.cpp"], c02,
     "complete messages (to 1500 bytes) of every kind with two neighbouring bytes changed to any pair of 0..5, 8, 16, 0x40, 0x7f, 0x80, 0xfe, 0xff at any of the first 44 and last 4 positions; wholly arbitrary bytes for every decoder: encapsulation packets 0..31, common packets 0..19, paths 0..15, responses 0..23 and 259..515, open replies 0..39, 300, 536 with an address item of 0..17 bytes, discovery datagrams 0..41, 504, 600, identities 0..25, file states and transfers 0..13, fault records 0..33, fault parameters 0..3, router replies 0..27, TCP streams of 0..60, strings 0..9, implicit data 0..25 bytes, parameters 0..15 and around a complete one (link path and text lengths up to 3 more than present, 0x80, 0x100, 0xffff); more in the thorough tier",
     ["decoded", "refused", "parameter", "parameter refused", "data", "no data", "changed"])


def c03(t):
    q = t == "quick"
    out = [J("h_C03", 0, a, 0, 0) for a in (0, 1, 4, 30)]
    out += [J("h_C03", 1, a, b, c) for a in (0, 1, 4) for b in (0, 1, 2, 3) for c in (0, 1, 3)]
    out += [J("h_C03", 2, a, b, 0) for a in (1, 2, 3) for b in (0, 1)] + [J("h_C03", 15, a, 0, 0) for a in (1, 2, 3)]
    out += [J("h_C03", 3, a, b, 0, conc=1000) for a in (0, 1, 2, 5, 128, 255) for b in (0, 1, 4)]
    out += [J("h_C03", 4, a, 0, 0, conc=1000) for a in (0, 1, 2, 7, 127, 128, 255)]
    out += [J("h_C03", 5, a, 0, 0, conc=1000) for a in (0, 1, 5, 32, 127, 128, 255)]
    for k in (6, 7):
        out += [J("h_C03", k, a, b, c) for a in (0, 1, 2, 4, 8) for b in (0, 6) for c in (0, 1, 6, 7)]
        if not q:
            out += [J("h_C03", k, a, b, c, conc=3000) for a in (3, 16, 100) for b in (1, 255) for c in (100, 501)]
    out += [J("h_C03", 8, 0, 0, 0)] + [J("h_C03", 9, a, b, 0) for a in range(4) for b in range(10)]
    out += [J("h_C03", 10, 0, 0, 0)] + [J("h_C03", 11, a, 0, 0) for a in (0, 1, 255)] + [J("h_C03", 12, a, b, 0, conc=1000) for a in (0, 1, 4, 60, 255) for b in (0, 1)]
    out += [J("h_C03", k, a, b, c, conc=1000) for k in (13, 14) for a in (0, 5) for b in (0, 2) for c in (0, 1, 3)]
    out += [J("h_C03", 16, 0, 0, 0)]
    return out


spec("C03", ["h_net.cpp"], c03,
     "complete messages of the listed shapes (payloads 0..30, 0..4 items of 0..6 bytes, paths of 1..3 segments, 0..255 additional status and application reply words, names to 255, parameter sizes 0..8 with texts to 5 bytes, chunks to 255 bytes) with every content, cut at every length and with 1 or 2 bytes more",
     ["complete", "truncated"],
     outside="paths cut between two segments (a shorter path); for file transfers one error report to the user's handler counts as reporting")
