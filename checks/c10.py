"""C10: any settings or description file is survived and reported, and used once repaired."""
import copy, json, os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, lsp
from nc import Check, rng, THOROUGH

ck = Check("C10", "interactive sessions of the real server with a configuration of its own in which the settings, the grammar, the code groups and the user's macro descriptions are, alone or together, missing, "
           "empty, truncated, not JSON, nested deep, a directory, without a key, of a wrong type, of extreme values or mutated bytes; every request has to be answered, unusable files have to be "
           "reported; the files are repaired one by one in the middle of the session, after which diagnostics, hover and lenses have to be those of a server started on good files; "
           "non-trivial: distinct (file, kind of damage, reported, others damaged)")
r = rng("c10")
NSES = 350 if not THOROUGH else 2500
FILES = ["settings", "grammar.json", "gcode_groups.json", "mcode_groups.json", "macros"]
TELLS = {"settings": "Couldn't read .ncsetting file", "grammar.json": "Couldn't read word grammar settings", "gcode_groups.json": "Couldn't read gcode groups settings",
         "mcode_groups.json": "Couldn't read mcode groups settings", "macros": "Problem in user macro descriptions file"}
ORDER = FILES[:4]


def leaves(j, path=()):
    if isinstance(j, dict):
        for k, v in j.items():
            yield from leaves(v, path + (k,))
    elif isinstance(j, list):
        for k, v in enumerate(j):
            yield from leaves(v, path + (k,))
    else:
        yield path, j


def put(j, path, v):
    for k in path[:-1]:
        j = j[k]
    j[path[-1]] = v


def damage(kind, good):
    """(bytes, None for a missing file or 'dir' for a directory; name of the damage; whether it is certainly unusable)"""
    j = json.loads(good.decode("utf-8-sig"))
    how = r.choice(["missing", "empty", "truncated", "truncated", "garbage", "deep", "dir", "key", "key", "type", "type", "type", "extreme", "extreme", "bytes", "bytes", "otherjson", "long"])
    enc = lambda: json.dumps(j, ensure_ascii=r.random() < 0.5).encode("utf-8")
    if how == "missing":
        return None, how, True
    if how == "dir":
        return "dir", how, True
    if how == "empty":
        return r.choice([b"", b" ", b"\n\n", b"\xef\xbb\xbf"]), how, True
    if how == "truncated":
        g = good.rstrip()
        return g[:r.randrange(1, len(g))], how, True
    if how == "garbage":
        return r.choice([b"\x00" * 100, bytes(r.randrange(256) for _ in range(300)), b"<xml/>", b"G0 X1\n", b"{,}", b"{\"a\": }", b"\xff\xfe{\x00}\x00"]), how, True
    if how == "deep":
        n = r.choice([1000, 20000, 200000])
        return r.choice([b"[" * n, b'{"a":' * n, b"[" * n + b"]" * n, b'{"descriptions":' + b'{"a":' * n + b'""' + b"}" * (n + 1)]), how, None
    if how == "otherjson":
        return r.choice([b"[]", b"{}", b"null", b"1", b"\"x\"", b"true", b'{"descriptions": null}', b'{"groups": 1}']), how, None
    if how == "key":
        need = dict(settings=None, macros=["descriptions"]).get(kind, ["groups"] if "groups" in kind else ["metric", "imperial", "operations"])
        if kind == "settings":
            p = r.choice([p for p, v in leaves(j) if p[0] not in ("version",) and p[-1] not in "XYZIJK" or p[0] == "zero_point"] + [("kinematics",), ("cnc_default_values",), ("zero_point",), ("machine_points_data",)])
        else:
            p = (r.choice(need),)
        d = j
        for k in p[:-1]:
            d = d[k]
        del d[p[-1]]
        return enc(), how, True
    if how == "type":
        ls = [(p, v) for p, v in leaves(j) if p[0] != "version"]
        if kind == "macros":
            p, v = r.choice(ls)
            put(j, p, r.choice([1, [], {}, None, ["a", "b"], {"x": {"y": "z"}}]))
            return enc(), how, None
        num = [(p, v) for p, v in ls if kind == "settings" and (not isinstance(v, str) or p[0] in ("machine_tool", "machine_tool_type", "driver") or (p[0] == "cnc_default_values")) or
               kind == "grammar.json" and p[-1] in ("range_from", "range_to", "decimal_from", "decimal_to", "unique", "type") or "groups" in kind]
        p, v = r.choice(num)
        put(j, p, r.choice(["abc", "", [], {}, "1x", [1, 2], {"a": 1}, "12 34"]))
        return enc(), how, True
    if how == "extreme":
        for _ in range(r.choice([1, 1, 3, 10])):
            ls = [(p, v) for p, v in leaves(j) if not isinstance(v, str) or kind != "settings"]
            p, v = r.choice(ls)
            put(j, p, r.choice([-1, 0, 1e308, -1e308, 1e-308, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 63, "nan", "inf", "-0", 99999, 1e9, "Range: #9-#1", "Range: #99999999999999999999-#1"]))
        return enc(), how, None
    if how == "long":
        t = r.choice(["Range: #" + "1" * 200000 + "-#2", "a" * 200000, "\\u0041" * 1000, "(" * 5000])
        if kind == "macros":
            j["descriptions"][str(r.randint(1, 99))] = {t[:50]: t}
        elif kind == "grammar.json" and r.random() < 0.5:
            t = r.choice("AZ#") * r.choice([200000, 1000000])
            if r.random() < 0.5:
                j["operations"].append(t)
            else:
                u = j[r.choice(["metric", "imperial"])]
                u[t] = u[r.choice(list(u))]
        else:
            p, v = r.choice([x for x in leaves(j)])
            put(j, p, t)
        return enc(), how, None
    b = bytearray(good)
    for _ in range(r.choice([1, 3, 20])):
        b[r.randrange(len(b))] = r.choice([r.randrange(256), ord(r.choice('{}[]",:0123456789-.e'))])
    return bytes(b), how, None


def write(path, c):
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.unlink(path)
    if c == "dir":
        os.mkdir(path)
    elif c is not None:
        with open(path, "wb") as f:
            f.write(c)


def questions(uri, text, n):
    ls = text.split("\n")
    out = [lsp.lenses(n, uri), lsp.completion(n + 1, uri), lsp.resolve_lens(n + 2, 1), lsp.resolve_item(n + 3, dict(label="G1")), lsp.resolve_item(n + 4, dict(label="#1"))]
    for i in range(6):
        l = i * 7 % len(ls)
        cs = [lsp.u16(ls[l][:m.start()]) for rx in lsp.TOKEN for m in rx.finditer(ls[l])] or [0]
        out.append(lsp.hover(n + 5 + i, uri, l, cs[i % len(cs)]))
    return out


def prepare(k):
    kind, pt, st, inch = sim.machine(r)
    good = {"settings": json.dumps(lsp.settings_json(pt, **st)).encode(), "macros": json.dumps(dict(descriptions={"1": {"mine": "text"}, "100": {"other": "Range: #100-#120"}})).encode()}
    for f in FILES[1:4]:
        good[f] = open(os.path.join(nc.REPO, "conf", pt, f), "rb").read()
    n = r.choice([1, 1, 1, 2, 3, 5])
    bad = {f: damage(f, good[f]) for f in r.sample(FILES, n)}
    texts = [lsp.document(r, pt, kind, st, inch, r.choice([3, 12]), 0.2) for _ in range(2)]
    texts = ["#1=1\nG#1\n(#100 #1)\n" + t for t in texts]
    order = list(bad)
    r.shuffle(order)
    return k, pt, good, bad, texts, order, r.random() < 0.7


def session(job):
    k, pt, good, bad, texts, order, calc = job
    notes, n = [], 0
    with lsp.Scratch("c10") as sc:
        conf = os.path.join(sc.d, "conf", pt)
        shutil.copytree(os.path.join(nc.REPO, "conf", pt), conf)
        path = lambda f: os.path.join(sc.d, "user-" + f) if f in ("settings", "macros") else os.path.join(conf, f)
        a = lsp.args(path("settings"), path("macros"), calc=calc, argv0=os.path.join(sc.d, "nclangsrv"))
        for f, c in good.items():
            write(path(f), c)

        def answers(se, msgs):
            """The published list and the answers, in order; None when one is missing."""
            want = [m["id"] for m in msgs if "id" in m]
            got, pub = {}, []
            for m in msgs:
                se.send(m)
            npub = len([m for m in msgs if "id" not in m])
            while len(got) < len(want) or len(pub) < npub:
                t, m = se.get()
                if t != "msg":
                    return None, None, "no answer (%s %r) to the requests %s" % (t, m, [x for x in want if x not in got][:5])
                if "id" in m:
                    if m["id"] in got or m["id"] not in want or ("result" in m) == ("error" in m):
                        return None, None, "unexpected message %r" % m
                    got[m["id"]] = {x: y for x, y in m.items() if x != "id"}
                    if isinstance(m.get("result"), list) and m["result"] and "label" in m["result"][0]:
                        got[m["id"]] = sorted(x["label"] for x in m["result"])
                else:
                    pub.append(m["params"])
            return got, pub, None

        # a server on good files
        se = lsp.Session(a, cwd=sc.d)
        ref = {}
        for i, t in enumerate(texts):
            ref[i] = answers(se, [lsp.opened("file:///%d" % i, t)] + questions("file:///%d" % i, t, 100 * i))
            if ref[i][2]:
                break
        o = se.close()
        err = ref[i][2] or o.bad()
        if err:
            return "with the files of the repository: %s" % err, se.sent, a, notes, {}
        for f, (c, how, sure) in bad.items():
            write(path(f), c)
        dump = {f: (how, repr(c[:300]) if isinstance(c, bytes) else c) for f, (c, how, sure) in bad.items()}
        se = lsp.Session(a, cwd=sc.d)
        se.send(lsp.req(99999, "initialize", {}))
        se.get()
        left = dict(bad)
        err = None
        cached = set()
        for step in range(len(order) + 1):
            # while damaged: everything is answered, what is unusable is reported
            i = step % 2
            got, pub, err = answers(se, [(lsp.opened if step < 2 else lsp.changed)("file:///%d" % i, texts[i])] + questions("file:///%d" % i, texts[i], 1000 * step + 100 * i))
            if err:
                break
            ms = [d["message"] for d in pub[0]["diagnostics"]]
            told = [f for f in FILES if any(TELLS[f] in m for m in ms)]
            first = next((f for f in ORDER if f in left and left[f][2] and f not in cached), None)
            maybe = [f for f in ORDER if f in left and f not in cached]
            if pub[0]["uri"] != "file:///%d" % i:
                err = "diagnostics of %r" % pub[0]["uri"]
                break
            tf = next((f for f in told if f in ORDER), None)
            if tf is not None and tf not in maybe:
                err = "%s is reported, it is not damaged" % tf
            elif first is not None and tf is None:
                err = "%s (%s) is not reported: %s" % (first, left[first][1], ms[:5])
            elif first is not None and ORDER.index(tf) > ORDER.index(first):
                err = "%s is reported instead of %s (%s)" % (tf, first, left[first][1])
            elif "macros" in told and "macros" not in left:
                err = "the macro descriptions are reported, they are not damaged"
            elif "macros" in left and left["macros"][2] and "macros" not in told and tf != "settings" and "macros" not in cached:
                err = "the damaged macro descriptions (%s) are not reported: %s" % (left["macros"][1], ms[:5])
            if err:
                break
            # what was read without a report is kept
            for f in ORDER:
                if f == tf:
                    break
                cached.add(f)
            if tf != "settings" and "macros" not in told:
                cached.add("macros")
            for f, (c, how, sure) in bad.items():
                notes.append((f, how, f in told, min(3, len(left)), f in left))
            if step < len(order):
                f = order[step]
                write(path(f), good[f])
                left.pop(f)
            elif not kept(notes, bad):
                # all repaired, nothing of the damaged files was read without a report
                base = ref[i][0], ref[i][1]
                g2 = {x - 1000 * step: y for x, y in got.items()}
                if pub != base[1] or g2 != base[0]:
                    d = next((x for x in g2 if g2[x] != base[0].get(x)), None)
                    err = "after the repair: %s, a server started on good files: %s" % (json.dumps(pub)[:400], json.dumps(base[1])[:400]) if pub != base[1] else \
                        "after the repair: answer %s is %s, of a server started on good files %s" % (d, json.dumps(g2[d])[:400], json.dumps(base[0].get(d))[:400])
                else:
                    notes.append(("repaired",) + tuple(sorted(bad)))
        o = se.close()
        bad_end = o.bad()
        return (bad_end if bad_end and (not err or "no answer" in err) else err or bad_end), se.sent, a, notes, dump


def kept(notes, bad):
    """Damaged files that were at some time used while damaged."""
    return {f for f in bad if any(x[0] == f and x[4] and not x[2] for x in notes if len(x) == 5)}


jobs = [prepare(k) for k in range(NSES)]
with ThreadPoolExecutor(8) as ex:
    for job, (err, sent, a, notes, dump) in zip(jobs, ex.map(session, jobs)):
        ck.count("sessions")
        for x in notes:
            ck.saw(x, dict(control=job[1], seen=x))
            if x[0] == "repaired":
                ck.count("repaired_and_equal")
            elif x[2]:
                ck.count("reported")
        if err:
            ck.violation("%s, damaged %s: %s" % (job[1], dump, err), lambda: json.dumps({f: [x[1], x[0].decode("latin-1") if isinstance(x[0], bytes) else x[0]] for f, x in job[3].items()}) + "\n" + lsp.replay(sent, a))
ck.finish(min_distinct=60)
