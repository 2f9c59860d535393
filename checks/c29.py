"""C29: parsers in different threads."""
import atexit, os, sys, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, hostile, build
import pathchk as pc
from nc import Check, rng, THOROUGH

ck = Check("C29", "processes of a ThreadSanitizer build in which 4 to 8 threads create, use (all operations: parsing with everything on, macros, transformations, "
           "splitting, Heidenhain) and delete their own parsers at the same time; a race report is a violation, and every thread's answers have to be "
           "those of the same calls alone in one thread; non-trivial: distinct (operation, control, verdict, number of threads)")
r = rng("c29")
N = 60 if not THOROUGH else 700
exe = os.path.join(build.build("tsan", ["pdrv"]), "pdrv")
os.makedirs(os.path.join(nc.VERIF, "build"), exist_ok=True)
tmp = tempfile.mkdtemp(prefix="c29-", dir=os.path.join(nc.VERIF, "build"))
pre = os.path.join(tmp, "pre")
open(pre, "w").write(nc.script(pc.preamble()))


def session():
    """The calls of one thread."""
    out = []
    for q in range(r.randint(1, 2)):
        if r.random() < 0.12:
            out.append(["newh", "a", r.randint(0, 1), 1, 1, 1, 1, 1])
            out += [["v", "a", i, r.choice(["L X+10 Y-5 R0 FMAX M3", "10 L Z+100", "CALL LBL 1", "L X", "?", "TOOL CALL 5 Z S1000"])] for i in range(20)]
            out.append(["del", "a"])
            continue
        kind, pt, st, inch = sim.machine(r)
        out += [nc.new("a", pt, lang=r.randint(0, 1), vcg=r.randint(0, 1), ncs=r.randint(0, 1), zpa=r.randint(0, 1)), nc.settings("a", **st), ["rm", "a"], ["rp", "a"]]
        ts = hostile.program(r, pt, r.randint(20, 50), kind, st, inch, junk=0.1)
        out += [hostile.any_op(r, "a", i, t) for i, t in enumerate(ts)]
        if r.random() < 0.5:
            out.append(hostile.split_op(r, "a", ts[:15]))
        out += [["gp", "a"], ["mv", "a"]]
        if r.random() < 0.7:
            out.append(["del", "a"])
    return out


def run(k, ss):
    fs = []
    for i, s in enumerate(ss):
        fs.append(os.path.join(tmp, "%d-%d" % (k, i)))
        open(fs[-1], "w").write(nc.script(s))
    env = dict(nc.ENV)
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    rc, out, err, to = nc.exec_script(exe, "", 120, env, ["-t", pre] + fs)
    for f in fs:
        os.remove(f)
    return rc, [p.split(b"\n") for p in out.split(b"---\n")][:-1], err, to


jobs = []
for k in range(N):
    n = r.randint(4, 8)
    ss = [session() for _ in range(n)]
    if r.random() < 0.4:
        ss = [ss[0]] * n            # the same thing everywhere: first uses collide
    jobs.append(ss)
try:
    with ThreadPoolExecutor(3) as ex:
        many = list(ex.map(lambda x: run(x[0], x[1]), enumerate(jobs)))
    alone = {}
    uniq = list({json.dumps(s): s for ss in jobs for s in ss}.items())
    with ThreadPoolExecutor(8) as ex:
        for (key, s), o in zip(uniq, ex.map(lambda x: run(100000 + x[0], [x[1][1]]), enumerate(uniq))):
            alone[key] = o
except BaseException:
    shutil.rmtree(tmp)
    raise
atexit.register(shutil.rmtree, tmp, True)
for ss, (rc, outs, err, to) in zip(jobs, many):
    rep = lambda: "".join("--- thread %d\n%s" % (i, nc.script(s)) for i, s in enumerate(ss))
    ck.count("processes")
    ck.count("threads", len(ss))
    race = "WARNING: ThreadSanitizer" in err
    if to and not race and all(not alone[json.dumps(s)][3] for s in ss) and run(200000, ss)[3]:
        ck.violation("%d threads do not end, each of them does alone" % len(ss), rep)
        continue
    if not race and (to or "FATAL: ThreadSanitizer" in err):
        ck.inconclusive += 1
        continue
    if race or rc != 0:
        ck.violation("%d threads, status %s: %s" % (len(ss), rc, nc.find_report(err)), rep)
        continue
    for i, (s, o) in enumerate(zip(ss, outs)):
        arc, aout, aerr, ato = alone[json.dumps(s)]
        if ato or arc != 0:
            if not ato:
                ck.violation("one thread, status %s: %s" % (arc, nc.find_report(aerr)), nc.script(s))
            continue
        for c, x, y in zip(s, o, aout[0]):
            ck.saw((c[0], c[2] if c[0] == "new" else None, b'"r":true' in x, len(ss)), dict(threads=len(ss), call=c[:4], answer=x[:150].decode("latin-1")))
        if o != aout[0]:
            q = next((j for j in range(min(len(o), len(aout[0]))) if o[j] != aout[0][j]), -1)
            ck.violation("thread %d of %d: %r gives %r, alone %r" % (i, len(ss), s[q], o[q][:300], aout[0][q][:300]), rep)
            break
ck.finish(min_distinct=60)
