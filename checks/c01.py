"""C01: the server survives whatever it is sent and goes on answering."""
import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp, msgs, hostile, gen
from nc import Check, rng, THOROUGH

ck = Check("C01", "the real server under ASan, UBSan and libstdc++ assertions fed (a) histories of wrong, unknown, incomplete, deeply nested, oversized and byte-mutated messages and hostile documents with a probe request behind each of them, "
           "which has to be answered in its place, (b) the same with junk that is no header between the frames, (c) arbitrary byte streams cut, spliced and mutated at the level of the header, which must not crash it, "
           "hang it or make it write anything that is not framed JSON; non-trivial: distinct (part, kind of message or mutation, control, outcome)")
r = rng("c01")
NA, NB, NC_ = (220, 120, 500) if not THOROUGH else (1200, 600, 3000)
ENDS = re.compile(rb"exit|shutdown|\\u00", re.I)


def mutate(r, b, n=None):
    b = bytearray(b)
    for _ in range(n or r.choice([1, 1, 2, 5, 20])):
        i = r.randint(0, len(b))
        k = r.randrange(6)
        if k == 0 and i < len(b):
            b[i] ^= 1 << r.randrange(8)
        elif k == 1:
            del b[i:i + r.choice([1, 1, 3, 40])]
        elif k == 2:
            b[i:i] = bytes([r.randrange(256)])
        elif k == 3:
            j = r.randint(0, len(b))
            b[i:i] = b[j:j + r.choice([1, 5, 60])]
        elif k == 4:
            b[i:i + r.choice([0, 1, 4])] = r.choice([b"{", b"}", b"[", b"]", b"\"", b":", b",", b"\\", b"null", b"-1", b"1e999", b"99999999999999999999", b"{}", b"[]", b"\"\"", b"true", b"\x00", b"\xff", b"\\ud800", b"\r\n\r\n"])
        else:
            del b[r.randint(0, len(b)):]
    return bytes(b) or b" "


def document(r, kind, pt, st, inch, words):
    k = r.randrange(8)
    if k < 4:
        t = "\n".join(hostile.program(r, pt, r.choice([1, 5, 30]), kind, st, inch, r.choice([0.2, 0.6, 1])))
    elif k == 4:
        t = r.choice(["#1=" + "[" * 4000 + "1" + "]" * 4000, "#1=" + "1+" * 3000 + "1", "#1=" + "-" * 3000 + "1", "#1=" + "SIN[" * 2000 + "1" + "]" * 2000, "(" * 20000, "IF [" * 2000, "X" * 50000, "X1 " * 9000, "X" + "1" * 30000, "#" * 20000, "G1" * 20000,
                      "#1=#" * 4000 + "1", " " * 100000, "\t" * 50000 + "?", "(" + "a" * 100000 + ")", "N1 " * 3000, "G" + "0" * 20000 + "1", "X." + "0" * 20000, "X1 ?" + "\t" * 30000, "IF [#1" + " AND #1" * 2000 + "]"])
    elif k == 5:
        t = "\n" * r.choice([1, 5000]) + "X1\n" * r.choice([1, 300])
    elif k == 6:
        t = "".join(chr(r.choice([r.randint(0, 127), r.randint(0, 0x2fff), r.randint(0x10000, 0x10ffff), 10, 13])) for _ in range(r.choice([1, 20, 300])))
    else:
        t = "\n".join(msgs.text(r) for _ in range(3))
    return t


def probe(r, k):
    return r.choice([lsp.req(k, "initialize", {}), lsp.completion(k, "file:///a.nc"), lsp.hover(k, "file:///p.nc", 0, 0), lsp.lenses(k, "file:///p.nc")])


JUNK = [b"GET / HTTP/1.1\r\n", b"\r\n", b"\n\n\n", b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", b"content length 5\r\n", b"\x00\x01\xff\xfe\r\n", b"{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":\"initialize\"}\r\n",
        b"Content-Length: 0\r\n\r\n", b"Content-Length: -5\r\n\r\n", b"Content-Length: abc\r\n\r\n", b"Content-Length:\r\n\r\n", b"Content-Length: 99999999999999999999999999\r\n\r\n", b"Content-Length: 1.5\r\n\r\n", b"x" * 100000 + b"\n",
        b"Content-Length\r\n", b": 5\r\n", b"Content-Length: 0x10\r\n\r\n", b"Content-Length: \r\n", b"-----\n"]

with lsp.Scratch("c01") as sc:
    jobs = []
    for k in range(NA + NB):
        kind, pt, st, inch = sim.machine(r)
        a = lsp.args(None if k % 4 == 0 else sc.file(lsp.settings_json(pt, **st)), calc=r.random() < 0.7, log=os.path.join(sc.d, "l%d" % k) if r.random() < 0.1 else None)
        stream, log = b"", []
        for j in range(r.choice([3, 10, 25])):
            q = r.random()
            if k >= NA:
                b, tag = r.choice(JUNK), "junk"
                stream += b
                log.append(("junk", b[:30]))
                if r.random() < 0.5:
                    m, w, tag = msgs.message(r)
                    stream += lsp.frame(m)
            elif q < 0.3:
                t = document(r, kind, pt, st, inch, None)
                u = r.choice(["file:///p.nc", "file:///a.nc"])
                stream += lsp.frame(json.dumps(r.choice([lsp.opened, lsp.changed])(u, t), ensure_ascii=False).encode("utf-8", "replace"))
                ls = t.split("\n")
                for _ in range(r.randint(0, 6)):
                    l = r.randrange(len(ls))
                    c = r.choice([0, 1, 2, r.randint(0, 1 + len(ls[l])), -1, -2 ** 31, 2 ** 31 - 1])
                    # on a line of the document, just behind it and far away
                    l = r.choice([l, l, l, len(ls) - 1, len(ls), len(ls) + 1, -1, -2, -len(ls), -2 ** 31, 2 ** 31 - 1, r.randint(-2 ** 31, 2 ** 31 - 1)])
                    stream += lsp.frame(lsp.hover("h", u, l, c))
                stream += lsp.frame(lsp.lenses("h", u)) + lsp.frame(lsp.resolve_lens("h", r.randrange(len(ls))))
                log.append(("document", t[:30]))
            else:
                m, w, tag = msgs.message(r, p_bad=0.6)
                if q < 0.7:
                    m = mutate(r, m)
                    tag = "mutated " + tag
                    if ENDS.search(m):
                        continue
                stream += lsp.frame(m)
                log.append((tag, m[:60]))
            if r.random() < 0.2:
                # a message whose text is not UTF-8, raw bytes inside of the strings
                t = bytes(r.choice([r.randint(0x80, 255), r.randint(32, 33), r.randint(65, 90)]) for _ in range(r.choice([1, 30])))
                stream += lsp.frame(b'{"jsonrpc":"2.0","method":"textDocument/didOpen","params":{"textDocument":{"uri":"file:///p.nc","text":"X1 ' + t + b'"}}}')
                stream += lsp.frame(lsp.hover("h", "file:///p.nc", 0, r.randint(0, 10)))
            stream += lsp.frame(probe(r, "probe %d" % j))
            log.append(("probe", "probe %d" % j))
        jobs.append((a, stream, log, pt, "messages" if k < NA else "junk between frames"))
    good = [j[1] for j in jobs]
    for k in range(NC_):
        s = r.choice(good)
        i = r.randint(0, len(s))
        s = s[i:i + r.choice([50, 500, 5000])] if r.random() < 0.5 else s[:r.choice([50, 500, 5000])]
        q = r.randrange(6)
        if q == 0:
            s = mutate(r, s, r.choice([1, 5, 50]))
        elif q == 1:
            s = re.sub(rb"Content-Length: (\d+)", lambda m: b"Content-Length: %d" % max(0, int(m.group(1)) + r.choice([-1, 1, 0, 0, 5, -5, 1000])), s)
        elif q == 2:
            s = b"".join(r.choice(JUNK + [s[:100], b"Content-Length: 5\r\n", b"Content-Length: 7\r\n\r\n"]) for _ in range(r.randint(1, 20)))
        elif q == 3:
            s = bytes(r.randrange(256) for _ in range(r.choice([1, 50, 3000])))
        elif q == 4:
            s = b"Content-Length: %d\r\n\r\n" % r.choice([2 ** 31, 2 ** 32, 2 ** 40, 2 ** 63, 2 ** 64 - 1, 70000]) + s
        a = lsp.args(None, calc=True, log=os.path.join(sc.d, "L%d" % k) if r.random() < 0.1 else None)
        jobs.append((a, s, [], "fanuc_mill", "stream %d" % q))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(s[1], s[0], timeout=240), jobs))
for (a, stream, log, pt, part), o in zip(jobs, runs):
    ck.count("streams")
    ck.count("bytes", len(stream))
    rep = lambda: lsp.replay(stream, a)
    bad = o.bad()
    out = []
    if not bad:
        try:
            out = lsp.frames(o.out)
        except lsp.FrameError as x:
            bad = "the written stream: %s" % x
    if not bad:
        ps = [m["id"] for m in out if isinstance(m.get("id"), str) and m["id"].startswith("probe ")]
        want = [x for t, x in log if t == "probe"]
        ck.count("probes", len(want))
        ck.count("written", len(out))
        prev = "start"
        for t, x in log:
            if t == "probe":
                continue
            ck.saw((part, t, pt), dict(part=part, kind=t, message=str(x)))
        if not log:
            ck.saw((part, len(out) > 0, len(out) > 5), dict(part=part, answers=len(out), start=stream[:60].decode("latin-1")))
        if ps != want and log:
            i = next((i for i in range(max(len(ps), len(want))) if ps[i:i + 1] != want[i:i + 1]), 0)
            b = [x for x in log[:log.index(("probe", want[i])) if i < len(want) else len(log)] if x[0] != "probe"][-1:]
            bad = "the probe %r behind %r got %s" % (want[i:i + 1], b, "no answer" if i >= len(ps) else "another answer (%r)" % ps[i])
    if bad:
        ck.violation("%s, %s: %s" % (pt, part, bad), rep)
ck.finish(min_distinct=100)
