"""C02: exactly one response per request, in order, none for notifications."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp, msgs
from nc import Check, rng, THOROUGH

ck = Check("C02", "random histories of messages (all methods, all kinds of ids, broken, unknown, incomplete and misplaced messages, several documents) written to the real server (ASan, UBSan), "
           "the written stream compared online, message by message, with a model of the protocol that says for every message whether it is answered, with which id, with a result or which error, or published; "
           "non-trivial: distinct (kind of message, kind of message before, expected outcome, kind of id)")
r = rng("c02")
NSES = 400 if not THOROUGH else 2500
with lsp.Scratch("c02") as sc:
    ses = []
    for k in range(NSES):
        kind, pt, st, inch = sim.machine(r)
        a = lsp.args(None if k % 3 == 0 else sc.file(lsp.settings_json(pt, **st)), calc=r.random() < 0.5, log=os.path.join(sc.d, "l%d" % k) if r.random() < 0.1 else None)
        ms = []
        if k % 4:
            ms.append((msgs.enc(r, lsp.req(0, "initialize", {})), ("res", 0), "good initialize"))
        n = r.choice([1, 5, 20, 60, 150])
        pb = r.choice([0, 0.2, 0.5, 1])
        # a part of the histories uses one id for everything, or requests only
        while len(ms) < n:
            ms.append(msgs.message(r, p_bad=pb))
        if r.random() < 0.3:
            x = r.choice(ms)
            ms += [x] * r.randint(1, 20)
        end = r.random()
        if end < 0.1:
            ms.append((msgs.enc(r, lsp.req("end", "shutdown")), ("res", "end"), "shutdown"))
        elif end < 0.3:
            ms.append((msgs.enc(r, lsp.note("exit")), ("none",), "exit"))
        ses.append((a, ms))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda s: lsp.run(b"".join(lsp.frame(m[0]) for m in s[1]), s[0]), ses))
for (a, ms), o in zip(ses, runs):
    bad = o.bad()
    ck.count("histories")
    ck.count("messages", len(ms))
    if not bad:
        try:
            out = lsp.frames(o.out)
        except lsp.FrameError as x:
            bad = "the written stream: %s" % x
    i = 0
    prev = "start"
    for b, w, tag in ms if not bad else []:
        ck.saw((tag, prev.split()[0], w[0], type(w[1]).__name__ if w[0] in ("res", "err") else ""), dict(message=b[:120].decode("latin-1"), expected=str(w)[:100], before=prev))
        prev = tag
        ck.count("expected_" + w[0])
        if w[0] == "none":
            continue
        if i >= len(out):
            bad = "nothing was written for %r (%s)" % (b[:200], tag)
            break
        x = msgs.judge(w, out[i])
        if x:
            bad = "for %r (%s): %s" % (b[:200], tag, x[:600])
            break
        i += 1
    if not bad and i < len(out):
        bad = "one message too many: %r" % (out[i],)
    if bad:
        ck.violation(bad, lambda: lsp.replay(b"".join(lsp.frame(m[0]) for m in ms), a))
ck.finish(min_distinct=100)
