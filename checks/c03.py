"""C03: what the server writes is a function of the messages, not of how they arrive."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp, msgs
from nc import Check, rng, THOROUGH

ck = Check("C03", "histories of messages (right and wrong ones, documents with multi-byte characters and with bodies around the sizes of the read buffer) written to the real server again and again: in one piece, byte by byte, in random pieces "
           "with pauses inside of headers, line ends, bodies and characters, with other permitted header fields, orders, line ends and spaces, with and without a log, and with other JSON encodings of the same values; "
           "the bytes written (the values, for other encodings) have to be those of the first run, framed with the exact number of bytes, in UTF-8; non-trivial: distinct (variant, header form, kind of message)")
r = rng("c03")
NSES = 60 if not THOROUGH else 300


def header(r, n):
    l = b"Content-Length:" + r.choice([b" ", b"", b"  ", b"\t", b" " * r.randint(40, 300)]) + b"%d" % n + r.choice([b"", b"", b" ", b" " * r.randint(40, 300)])
    t = r.choice([b"Content-Type: application/vscode-jsonrpc; charset=utf-8", b"Content-Type: application/vscode-jsonrpc;charset=utf8", b"X-Other: 12", b"Content-Type:"])
    k = r.randrange(4)
    ls = [[l], [l, t], [t, l], [t, l, b"X-More: a: b"]][k]
    e = r.choice([b"\r\n", b"\r\n", b"\n"])
    return e.join(ls) + e + e, (k, e == b"\n", l[15:16])


def shuffled(r, v):
    if isinstance(v, dict):
        it = [(x, shuffled(r, y)) for x, y in v.items()]
        r.shuffle(it)
        return dict(it)
    if isinstance(v, list):
        return [shuffled(r, x) for x in v]
    return v


def esc(r, t):
    """A JSON string of the text with escapes at random places."""
    o = ""
    for c in t:
        if ord(c) < 32 or c in "\"\\" or r.random() < 0.1 and ord(c) < 0x10000:
            o += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\"": "\\\"", "\\": "\\\\"}.get(c) if c in "\n\t\r\"\\" and r.random() < 0.5 else "\\u%04x" % ord(c) if r.random() < 0.5 else "\\u%04X" % ord(c)
        elif c == "/" and r.random() < 0.3:
            o += "\\/"
        elif ord(c) >= 0x10000 and r.random() < 0.5:
            n = ord(c) - 0x10000
            o += "\\u%04x\\u%04x" % (0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff))
        else:
            o += c
    return '"' + o + '"'


def recode(r, v):
    ws = lambda: r.choice(["", "", "", " ", "\n", "\r\n\t"])
    if isinstance(v, dict):
        return "{" + ",".join(ws() + esc(r, k) + ws() + ":" + ws() + recode(r, x) + ws() for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ",".join(ws() + recode(r, x) + ws() for x in v) + "]"
    return esc(r, v) if isinstance(v, str) else json.dumps(v)


with lsp.Scratch("c03") as sc:
    jobs, base = [], []
    for k in range(NSES):
        kind, pt, st, inch = sim.machine(r)
        a = lsp.args(None if k % 4 == 0 else sc.file(lsp.settings_json(pt, **st)), calc=r.random() < 0.7)
        bodies, padded, huge = [], False, None
        if k % 8 == 5:
            huge = r.choice([1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 25, 10 ** 6, 10 ** 7]) + r.choice([-1, 0, 1, 1000])
        for j in range(r.choice([3, 8, 15])):
            q = r.random()
            if q < 0.4:
                u = r.choice(["file:///a.nc", "ż", "file:///żółw.nc", "untitled:\U0001f600"])
                t = lsp.document(r, pt, kind, st, inch, r.choice([2, 10, 20]), 0.3, 0.5)
                m = r.choice([lsp.opened, lsp.changed])(u, t)
                if huge or r.random() < 0.3:
                    n = huge or r.choice([65536, 65536, 131072, 4096, 8192]) + r.choice([-1, 0, 1])
                    td = m["params"]["textDocument"]
                    td["languageId"] = ""
                    d = n - len(json.dumps(m, ensure_ascii=False).encode("utf-8"))
                    if d > 0:
                        td["languageId"] = "y" * (d % 2) + "ż" * (d // 2)
                        assert len(json.dumps(m, ensure_ascii=False).encode("utf-8")) == n
                        ck.count("bodies_of_buffer_size")
                        padded = True
                        if huge:
                            ck.count("bodies_of_megabytes")
                            huge = None
                bodies.append((json.dumps(m, ensure_ascii=False).encode("utf-8"), m, "document"))
                ls = t.split("\n")
                for _ in range(3):
                    l = r.randrange(len(ls))
                    m = lsp.hover(j, u, l, r.randint(0, len(ls[l])))
                    bodies.append((json.dumps(m, ensure_ascii=False).encode(), m, "hover"))
                if r.random() < 0.7:
                    m = lsp.lenses(j, u)
                    bodies.append((json.dumps(m, ensure_ascii=False).encode(), m, "lenses"))
                if r.random() < 0.2:
                    m = lsp.closed(u)
                    bodies.append((json.dumps(m, ensure_ascii=False).encode(), m, "close"))
            else:
                b, w, tag = msgs.message(r)
                m = json.loads(b) if tag.startswith("good") or tag.startswith("unknown") else None
                bodies.append((b, m, tag))
        base.append((pt, a, bodies))
        plain = b"".join(lsp.frame(b) for b, m, t in bodies)
        jobs.append((k, "first", None, a, plain, None, "bytes"))
        jobs.append((k, "again", None, a, plain, None, "bytes"))
        jobs.append((k, "logged", None, a + ["-l", os.path.join(sc.d, "l%d" % k)], plain, None, "bytes"))
        if padded:
            # what the client says about the kind of text does not matter, nor does the length of the message
            sh = []
            for b, m, t in bodies:
                if t == "document":
                    m = json.loads(b)
                    m["params"]["textDocument"].pop("languageId", None)
                    b = json.dumps(m, ensure_ascii=False).encode("utf-8")
                sh.append(lsp.frame(b))
            jobs.append((k, "without the padding", None, a, b"".join(sh), None, "bytes"))
        small = plain if len(plain) < 20000 else b"".join(lsp.frame(b) for b, m, t in bodies if len(b) < 3000)
        if small is plain:
            jobs.append((k, "byte by byte", None, a, plain, [(1, 0)] * len(plain), "bytes"))
        # cuts at the interesting places
        at = set()
        i = 0
        for b, m, t in bodies:
            h = len(lsp.frame(b)) - len(b)
            for x in (1, h - 3, h - 2, h - 1, h, h + 1, h + len(b) - 1, h + len(b), 15, 17, h - 4):
                if r.random() < 0.25:
                    at.add(i + x)
            c = next((j for j, x in enumerate(b) if x >= 0xc0), None)
            if c is not None and r.random() < 0.5:
                at.add(i + h + c + 1)
            i += h + len(b)
        at = sorted(x for x in at if 0 < x < len(plain))
        cuts = [(y - x, r.choice([0, 0.002, 0.004])) for x, y in zip([0] + at, at + [len(plain)])]
        jobs.append((k, "cut at borders", None, a, plain, cuts, "bytes"))
        cuts, i = [], 0
        while i < len(plain):
            n = r.choice([1, 7, 100, 4096, 70000] if len(plain) < 1 << 19 else [1000, 4096, 70000, 1 << 20])
            cuts.append((n, 0.002 if r.random() < 0.1 else 0))
            i += n
        jobs.append((k, "random pieces", None, a, plain, cuts, "bytes"))
        hs = [header(r, len(b)) for b, m, t in bodies]
        jobs.append((k, "other headers", [x[1] for x in hs], a, b"".join(h[0] + b for h, (b, m, t) in zip(hs, bodies)), None, "bytes"))
        jobs.append((k, "other encoding", None, a, b"".join(lsp.frame(b if m is None or len(b) > 1 << 19 else recode(r, shuffled(r, m)).encode("utf-8")) for b, m, t in bodies), None, "values"))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda j: lsp.run(j[4], j[3], chunks=j[5]), jobs))
first = {}
for (k, var, hs, a, stream, cuts, cmp), o in zip(jobs, runs):
    pt, _, bodies = base[k]
    rep = lambda: "# %s, pieces: %s\n" % (var, None if cuts is None else [c[0] for c in cuts[:400]]) + lsp.replay(stream, a)
    bad = o.bad()
    ck.count("runs")
    ck.count(var)
    ck.count("pieces", len(cuts or [1]))
    if not bad and (var == "first" or o.out != first[k]):
        try:
            o.out.decode("utf-8")
            out = lsp.frames(o.out)
        except UnicodeDecodeError as x:
            bad = "what was written is not UTF-8: %s, %r" % (x, o.out[max(0, x.start - 60):x.start + 20])
        except lsp.FrameError as x:
            bad = "the written stream: %s" % x
    if var == "first":
        first[k] = o.out if not bad else None
    if first[k] is None and not bad:
        continue
    if not bad and o.out != first[k]:
        if cmp == "bytes":
            i = next((i for i in range(max(len(o.out), len(first[k]))) if o.out[i:i + 1] != first[k][i:i + 1]), 0)
            bad = "byte %d of %d (%d in one piece): %r, in one piece %r" % (i, len(o.out), len(first[k]), o.out[max(0, i - 40):i + 200], first[k][max(0, i - 40):i + 200])
        else:
            w = lsp.frames(first[k])
            i = next((i for i in range(max(len(out), len(w))) if out[i:i + 1] != w[i:i + 1]), None)
            if i is not None:
                bad = "message %d: %s, before %s" % (i, str(out[i:i + 1])[:500], str(w[i:i + 1])[:500])
    for j, (b, m, t) in enumerate(bodies):
        ck.saw((var, hs[j] if hs else None, t, len(b) > 60000), dict(variant=var, header=str(hs[j]) if hs else None, message=t, size=len(b)))
    if bad:
        ck.violation("%s, %s: %s" % (pt, var, bad), rep)
ck.finish(min_distinct=100)
