"""C04: the server ends when it is told to, and only then."""
import json, os, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp, msgs
from nc import Check, rng, THOROUGH

ck = Check("C04", "sessions of the real server: the input ended at every byte of a stream (headers, bodies, documents), shutdown and exit at every place of random histories with more messages behind them and the input kept open, "
           "idle times, messages that only look like the end; observed: the exit status, what was still answered, whether the process is alive and answers a probe; non-trivial: distinct (way of ending, place or message before, log, settings)")
r = rng("c04")
NCUT, NEND, NLIVE = (3, 80, 40) if not THOROUGH else (12, 400, 200)


def want_of(ms):
    return [w for b, w, t in ms if w[0] != "none"]


def compare(want, out):
    for i, w in enumerate(want):
        if i >= len(out):
            return "only %d messages, expected %d" % (len(out), len(want))
        x = msgs.judge(w, out[i])
        if x:
            return "message %d: %s" % (i, x)
    if len(out) > len(want):
        return "written after the end: %r" % (out[len(want)],)
    return None


def cut_job(j):
    a, stream, n = j
    return lsp.run(stream[:n], a, timeout=60)


def end_job(j):
    """The input is kept open: the server has to end by itself."""
    a, before, how, after, pause = j
    s = lsp.Session(a)
    s.send(b"".join(lsp.frame(m[0]) for m in before) + (b"" if pause else how + after))
    if pause:
        time.sleep(pause)
        s.send(how)
        time.sleep(pause)
        s.send(after)
    t = time.time()
    got = []
    while True:
        k, m = s.get(30)
        if k != "msg":
            break
        got.append(m)
    try:
        s.p.wait(15)
    except Exception:
        pass
    rc = s.p.poll()
    w = time.time() - t
    o = s.close(5)
    return rc, k, m, got, w, o, s.sent


def live_job(j):
    a, ms, idle = j
    s = lsp.Session(a)
    res = None
    for n, (b, w, tag) in enumerate(ms):
        s.send(b if tag == "raw" else lsp.frame(b))
        s.send(lsp.req("alive %d" % n, "initialize", {}))
        if n in idle:
            time.sleep(idle[n])
        want = ([w] if w[0] != "none" else []) + [("res", "alive %d" % n)]
        for x in want:
            k, m = s.get(60)
            if k != "msg":
                res = "behind %r (%s) the server %s, exit status %s" % (b[:200], tag, {"end": "ended", "none": "did not answer for 60 s", "bad": "wrote %r" % m}[k], s.p.poll())
                break
            e = msgs.judge(x, m)
            if e:
                res = "behind %r (%s): %s" % (b[:200], tag, e[:400])
                break
        if not res and s.p.poll() is not None:
            res = "behind %r (%s) the server ended with status %s" % (b[:200], tag, s.p.poll())
        if res:
            break
    o = s.close(30)
    return res or o.bad(), s.sent


ALMOST = [({"jsonrpc": "2.0", "method": "shutdown"}, ("none",)), ({"jsonrpc": "2.0", "method": "shutdown", "params": {}}, ("none",)), ({"jsonrpc": "2.0", "method": "Exit"}, ("none",)), ({"jsonrpc": "2.0", "method": "exit "}, ("none",)),
          ({"jsonrpc": "2.0", "method": "Shutdown", "id": 1}, ("err", 1, (-32601,))), ({"jsonrpc": "2.0", "method": "$/exit"}, ("none",)), ({"jsonrpc": "2.0", "method": "", "params": {"method": "exit"}}, ("none",)),
          ({"jsonrpc": "2.0", "id": "exit", "method": "initialize"}, ("res", "exit")), ({"jsonrpc": "2.0", "id": "shutdown", "result": "exit"}, ("none",)), ({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": "exit"}}, ("none",)),
          (["exit"], ("err", None, (-32600,))), ("exit", ("err", None, (-32600,))), ({"jsonrpc": "2.0", "id": 5, "error": {"code": 1, "message": "exit"}}, ("none",)), ({"jsonrpc": "2.0", "method": "exit\u0000"}, ("none",)),
          (lsp.opened("exit", "exit\nshutdown\nM30\nM2\n%"), ("pub", "exit")), (lsp.closed("exit"), ("none",)), (lsp.opened("file:///e", ""), ("pub", "file:///e")), ({"jsonrpc": "2.0", "method": "exi"}, ("none",)), ({"jsonrpc": "2.0", "method": "exitx"}, ("none",))]

with lsp.Scratch("c04") as sc:
    def args(k):
        kind, pt, st, inch = sim.machine(r)
        lg = r.random() < 0.25
        return lsp.args(None if k % 3 == 0 else sc.file(lsp.settings_json(pt, **st)), calc=r.random() < 0.5, log=os.path.join(sc.d, "l%d" % k) if lg else None), (k % 3 == 0, lg)
    cuts = []
    for k in range(NCUT):
        a, c = args(k)
        ms = [(msgs.enc(r, lsp.req(1, "initialize", {})), ("res", 1), "i"), (msgs.enc(r, lsp.opened("u", "G1 X1\n?")), ("pub", "u"), "o"), (msgs.enc(r, lsp.hover("h", "u", 0, 0)), ("res", "h"), "h")] + [msgs.message(r) for _ in range(2)]
        ms = [m for m in ms if len(m[0]) < 600]
        ends, n = [], 0
        for m in ms:
            n += len(lsp.frame(m[0]))
            ends.append(n)
        stream = b"".join(lsp.frame(m[0]) for m in ms)
        cuts += [(a, stream, n, [m for m, e in zip(ms, ends) if e <= n], c, [x for x in zip([0] + ends, ends, [len(m[0]) for m in ms]) if x[0] <= n < x[1]]) for n in range(len(stream) + 1)]
    # large bodies that are cut
    for k in range(20):
        a, c = args(k)
        m = lsp.frame(lsp.opened("u", "X1\n" * r.choice([30000, 100000])))
        n = r.choice([len(m) - 1, r.randint(100, len(m) - 1), 65536, 65535, 65537, 65536 + 30, 131072])
        n = min(n, len(m) - 1)
        cuts.append((a, m, n, [], c, [(0, len(m), len(m) - 30)]))
    endj = []
    for k in range(NEND):
        a, c = args(k)
        before = [msgs.message(r) for _ in range(r.choice([0, 0, 1, 5, 20]))]
        after = [msgs.message(r) for _ in range(r.choice([0, 1, 5]))]
        how = r.choice(["shutdown", "exit", "exit"])
        i = msgs.jid(r)
        d = dict(jsonrpc="2.0", method=how)
        if how == "shutdown":
            d["id"] = i
        if r.random() < 0.4:
            d["params"] = r.choice([{}, None, [], {"a": 1}])
        endj.append((a, before, lsp.frame(msgs.enc(r, d)), b"".join(lsp.frame(m[0]) for m in after), r.choice([0, 0, 0.05]), how, i, c))
    live = []
    for k in range(NLIVE):
        a, c = args(k)
        ms = [(json.dumps(b).encode(), w, "almost the end") for b, w in r.sample(ALMOST, 8)] + [msgs.message(r) for _ in range(20)]
        ms += [(b"\r\n\r\n\r\n", ("none",), "raw"), (b"exit\r\n", ("none",), "raw"), (b"Content-Length: 0\r\n\r\n", ("none",), "raw"), (b"\x1a\x04\x00\r\n", ("none",), "raw")]
        r.shuffle(ms)
        ms = [("\n".join(["X1"] * 3).encode(), ("err", None, (-32700,)), "no json")] + ms
        live.append((a, ms, {r.randrange(len(ms)): r.choice([0.3, 1, 2, 4 if k % 8 == 0 else 0.1])}, c))
    with ThreadPoolExecutor(8) as ex:
        rc = list(ex.map(cut_job, [x[:3] for x in cuts]))
        re_ = list(ex.map(end_job, [x[:5] for x in endj]))
        rl = list(ex.map(live_job, [x[:3] for x in live]))
for (a, stream, n, done, c, where), o in zip(cuts, rc):
    ck.count("ends_of_input")
    bad = o.bad()
    if not bad:
        try:
            bad = compare(want_of(done), lsp.frames(o.out))
        except lsp.FrameError as x:
            bad = "the written stream: %s" % x
    w = "at a border"
    if where:
        s, e, l = where[0]
        w = "header %d" % min(18, n - s) if n < e - l else "body %d" % (10 * (n - e + l) // l)
    ck.saw(("end of input", w, c), dict(cut=n, place=w, answered=len(want_of(done))))
    if bad:
        ck.violation("the input ended at byte %d (%s): %s" % (n, w, bad), lambda: lsp.replay(stream[:n], a))
for (a, before, how_b, after, pause, how, i, c), (rc_, k, m, got, w, o, sent) in zip(endj, re_):
    ck.count(how)
    rep = lambda: lsp.replay(sent, a)
    bad = None
    if k == "bad":
        bad = "not framed: %r" % m
    elif k == "none" or rc_ is None:
        bad = "the server did not end"
    elif rc_ != 0:
        bad = "exit status %s: %s" % (rc_, o.err[-800:])
    else:
        bad = compare(want_of(before) + ([("res", i)] if how == "shutdown" else []), got)
        if not bad and how == "shutdown" and got[-1].get("result", 0) is not None:
            bad = "shutdown was answered with %r" % (got[-1],)
    ck.saw((how, len(before), after != b"", pause > 0, before[-1][2] if before else "start", c), dict(end=how, before=len(before), seconds=round(w, 2), status=rc_))
    if bad:
        ck.violation("%s behind %d messages: %s" % (how, len(before), bad), rep)
for (a, ms, idle, c), (bad, sent) in zip(live, rl):
    ck.count("live_sessions")
    ck.count("probes", len(ms))
    for b, w, t in ms:
        ck.saw(("live", t if t != "almost the end" else b.decode()), dict(message=b[:100].decode("latin-1"), expected="goes on"))
    if bad:
        ck.violation("a session that was not ended: %s" % bad, lambda: lsp.replay(sent, a))
ck.finish(min_distinct=100)
