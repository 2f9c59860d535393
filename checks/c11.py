"""C11: hostile call sequences on the C interface."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import nc, sim, hostile, build
import pathchk as pc
from nc import Check, rng, THOROUGH, PTYPES

ck = Check("C11", "random sequences of all operations of the C interface on several parsers of all controls (and Heidenhain) at a time, created with and without settings, switches "
           "and settings changed and reset in the middle, machine settings with extreme and contradictory numbers, blocks from simulated programs, grammar based junk and "
           "mutated bytes; ASan, UBSan (with float-cast-overflow), glibc container assertions and LSan watch, escaped exceptions are events, every call has to give a verdict; "
           "non-trivial: distinct (operation, control, verdict, shape of the block)")
r = rng("c11")
NCASE = 1200 if not THOROUGH else 6000
exe = os.path.join(build.build("asan", ["pdrv"]), "pdrv")
VERDICT = {"p", "v", "pg", "cl", "rn", "rnm", "ra", "rc", "rob", "sf", "sfs"}
HH = ["L X+10 Y-5 R0 FMAX M3", "10 L Z+100", "CALL LBL 1", "L X", "?", "TOOL CALL 5 Z S1000", "BEGIN PGM a MM", "CYCL DEF 1.0", "Q5=3", ";c~", "\x00", "", '"a']


def num():
    return r.choice([0., 1., -1., 1e-9, 1e9, -1e9, 1e300, -1e300, r.uniform(-1000, 1000), r.uniform(-1, 1)])


def wild():
    """Settings with numbers nobody would use, enumerators that exist."""
    mtt = r.randint(0, 2)
    i = lambda *a: r.choice(a)
    n = lambda: r.choice([0, 1, -1, 30, 2000, 2**31 - 1, -2**31])
    # unsigned fields
    u = lambda: r.choice([0, 1, 30, 2000, 2**31 - 1])
    letters = [a for a in "XYZABCIJKUVWR" if r.random() < 0.6]
    ax = {a: (num(), num()) for a in letters}
    kin = dict(max_working_feed=u(), max_fast_feed=u(), maximum_spindle_speed=u(), numer_of_items_in_the_warehouse=u(), tool_exchange_time=u(), pallet_exchange_time=u(),
               tool_measurement_time=u(), diameter_programming_2x=i(0, 1), auto_measure_after_tool_selection=i(0, 1), pallet_exchange_code=i("", "M", "G", "MM"),
               pallet_exchange_code_value=i("", "60", "x"), tool_measurement_code=i("", "M", "T"), tool_measurement_code_value=i("", "44", "-"))
    cnc = dict(default_motion=i(0, 1, 2, 3), default_work_plane=i(17, 18, 19), default_driver_units=i(0, 1), default_programming=i(90, 91), default_feed_mode=i(94, 95),
               default_rotation_direction=i(3, 4), drill_cycle_z_value=i(0, 1), drill_cycle_return_value=i(98, 99), default_rotation=i(0, 1))
    for k in list(nc.CNC_ORDER)[9:]:
        cnc[k] = i(0, 1)
    return dict(mt=r.randint(0, 16), mtt=mtt, mbp={a: num() for a in letters}, tep={a: num() for a in letters if r.random() < 0.7}, kin=kin, axes=ax, cnc=cnc,
                zp=(num(), num(), num()))


def shape(t):
    return "".join(sorted(set(c if not c.isdigit() else "9" for c in t.upper())))[:24]


def session():
    out, m = [], []
    live = {}

    def add(c, info=None):
        out.append(c)
        m.append(info)
    texts = {}
    for step in range(r.randint(3, 6)):
        pid = r.choice("abc")
        if pid in live and r.random() < 0.5:
            add(["del", pid])
            del live[pid]
        if pid not in live:
            if r.random() < 0.1:
                add(["newh", pid, r.randint(0, 1)] + [r.randint(0, 1) for _ in range(5)])
                live[pid] = ("heidenhain", None, None, False)
            else:
                kind, pt, st, inch = sim.machine(r)
                wo = r.random() < 0.08
                b = lambda: int(r.random() < 0.75)
                add(nc.new(pid, pt, lang=r.randint(0, 1), ev=b(), vcg=b(), calc=b(), ncs=b(), zpa=b(), without=int(wo)))
                live[pid] = (pt, kind, st, inch)
                if not wo or r.random() < 0.5:
                    add(nc.settings(pid, **(wild() if r.random() < 0.35 else st)))
                if r.random() < 0.8:
                    add(["rm", pid])
                    add(["rp", pid])
        pt, kind, st, inch = live[pid]
        if pt == "heidenhain":
            ts = [r.choice(HH) for _ in range(10)]
        else:
            ts = hostile.program(r, pt, r.randint(5, 40), kind, st, inch, junk=r.choice([0.1, 0.3, 0.8]))
        for ln, t in enumerate(ts):
            q = r.choice(sorted(live)) if r.random() < 0.2 else pid
            line = ln if r.random() < 0.9 else r.choice([0, 2**31 - 1, ln + 1000, 1])
            c = hostile.any_op(r, q, line, t) if r.random() < 0.7 else hostile.parse_op(r, q, line, t)
            add(c, (live[q][0], shape(t)))
            if r.random() < 0.03:
                add(r.choice([["ps", q] + [r.randint(0, 1) for _ in range(5)], ["rm", q], ["rp", q], nc.settings(q, **wild()) if live[q][0] != "heidenhain" else ["rm", q]]))
        if r.random() < 0.4:
            add(hostile.split_op(r, pid, ts[:r.randint(0, 25)]), (pt, "split"))
    for pid in sorted(live):
        add(["gp", pid])
        add(["mv", pid])
        add(["del", pid])
    return out, m


pre = pc.preamble()
ses = [session() for _ in range(NCASE)]
env = dict(nc.ENV)
env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1"
env["LSAN_OPTIONS"] = "exitcode=23"
leaks = True
rc, out, err, to = nc.exec_script(exe, "echo\ta\n", 60, env)
if rc != 0:
    leaks = False           # LSan cannot work here (ptrace is not allowed): everything else still can
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
ck.extra["leak_check"] = leaks
res = nc.run_cases(pre, [s for s, m in ses], batch=5, exe=exe, env=env)
for (cmds, m), o in zip(ses, res):
    if o["crash"]:
        if "LeakSanitizer has encountered a fatal error" in o["crash"]["log"]:
            ck.inconclusive += 1
        else:
            ck.crash(cmds, o["crash"], pre=pre)
            continue
    ck.count("sessions")
    for c, x, e in zip(cmds, m, o["ev"]):
        if "exc" in e:
            ck.violation("%r: an exception escaped: %s" % (c, e["exc"]), lambda cmds=cmds: nc.script(pre) + nc.script(cmds))
            break
        if c[0] in VERDICT and not isinstance(e.get("r", e.get("pr")), bool):
            ck.violation("%r: no verdict: %s" % (c, e), lambda cmds=cmds: nc.script(pre) + nc.script(cmds))
            break
        ck.count("calls")
        if x:
            ck.saw((c[0], x[0], e.get("r"), x[1]), dict(control=x[0], call=c[:4], answer=str(e)[:150]))
ck.finish(min_distinct=500)
