"""Helpers of a demonstration: drives the built library through its C interface and the built server through pipes.
Run with the repository as the current directory, after the build. Everything written goes to a temporary directory."""
import atexit, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
OUT = os.path.join(REPO, "vscode-client", "out")
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)
PT = ["fanuc_lathe_system_a", "fanuc_lathe_system_b", "fanuc_lathe_system_c", "fanuc_mill", "fanuc_millturn_system_a", "fanuc_millturn_system_b",
      "generic_lathe", "generic_mill", "haas_lathe", "haas_mill", "makino_mill"]
WT = ["misc", "angle", "calc", "code", "feed", "length", "macro", "numbering", "assignable"]
KIN = dict(max_working_feed=20000, max_fast_feed=20000, maximum_spindle_speed=10000, numer_of_items_in_the_warehouse=30, tool_exchange_time=6, pallet_exchange_time=1, tool_measurement_time=3,
           diameter_programming_2x=0, auto_measure_after_tool_selection=0, pallet_exchange_code="", pallet_exchange_code_value="", tool_measurement_code="", tool_measurement_code_value="")
CNC = dict(default_motion=0, default_work_plane=17, default_driver_units=0, default_programming=90, default_feed_mode=94, default_rotation_direction=3, drill_cycle_z_value=0, drill_cycle_return_value=98,
           default_rotation=0, rapid_traverse_cancel_cycle=0, linear_interpolation_cancel_cycle=0, circular_interpolation_cw_cancel_cycle=0, circular_interpolation_ccw_cancel_cycle=0,
           cycle_cancel_starts_rapid_traverse=0, operator_turns_on_rotation=0, tool_number_executes_exchange=0, auto_rapid_traverse_after_tool_exchange=0)


def enc(v):
    b = str(int(v) if isinstance(v, bool) else v).encode("latin-1")
    return "".join(chr(c) if 32 <= c < 127 and c != 37 else "%%%02X" % c for c in b)


def pre(pt):
    base = os.path.join(REPO, "conf", pt)
    g = json.load(open(os.path.join(base, "grammar.json"), encoding="utf-8-sig"))
    out = []
    for u, t in (("metric", "M"), ("imperial", "I")):
        for w in g[u].values():
            out.append(["gr", pt, t, w["word"], int(w["range_from"]), int(w["range_to"]), int(w["decimal_from"]), int(w["decimal_to"]), 1 if w["unique"] in (True, "true", "1", 1) else 0, WT.index(w["type"])])
    out += [["op", pt, o] for o in g["operations"]]
    for c, f in (("gg", "gcode_groups.json"), ("mg", "mcode_groups.json")):
        for n, v in json.load(open(os.path.join(base, f), encoding="utf-8-sig"))["groups"].items():
            out += [[c, pt, n, int(x["code"]), int(x["rest"])] for x in v]
    return out


def new(pid="a", pt="fanuc_mill", lang=0, ev=1, vcg=1, calc=1, ncs=1, zpa=1, without=0):
    return ["new", pid, pt, PT.index(pt), lang, ev, vcg, calc, ncs, zpa, without]


def settings(pid="a", mt=0, mtt=0, mbp=None, tep=None, kin=None, axes=None, cnc=None, zp=(0, 0, 0)):
    k, c = dict(KIN, **(kin or {})), dict(CNC, **(cnc or {}))
    f = lambda d: ",".join("%s=%s" % x for x in d.items())
    return ["nc", pid, mt, mtt, f(mbp or dict(X=0.0, Y=0.0, Z=500.0, I=0.0, J=0.0, K=0.0)), f(tep or dict(X=0.0, Y=0.0, Z=500.0))] + [k[x] for x in KIN] + \
        [",".join("%s=%s:%s" % (a, v[0], v[1]) for a, v in (axes or dict(X=(-500., 500.), Y=(-500., 500.), Z=(0., 1000.))).items()), ",".join(str(int(c[x])) for x in CNC), ",".join(str(float(x)) for x in zp)]


_exe = []


def exe(flags=()):
    if not _exe:
        e = os.path.join(TMP, "pdrv")
        subprocess.check_call(["g++", "-std=c++20", "-O0", "-DNDEBUG", "-w", "-pthread", "-I", os.path.join(REPO, "parser"), "-I", os.path.join(REPO, "parser", "fanuc")] + list(flags) +
                              [os.path.join(HERE, "pdrv.cpp"), "-o", e, "-L", OUT, "-lparser", "-Wl,-rpath," + OUT])
        _exe.append(e)
    return _exe[0]


def run(cmds, pt=("fanuc_mill",), timeout=100, env=None):
    """The events of a list of commands, one dict per command."""
    if isinstance(pt, str):
        pt = (pt,)
    pr = [x for p in pt for x in pre(p)]
    t = "".join("\t".join(enc(f) for f in c) + "\n" for c in pr + cmds)
    p = subprocess.run([exe()], input=t.encode("latin-1"), stdout=subprocess.PIPE, timeout=timeout, env=env)
    ev = [json.loads(l) for l in p.stdout.decode("latin-1").splitlines()]
    need(p.returncode == 0 and len(ev) == len(cmds), "the driver ended with status %s behind %d of %d commands" % (p.returncode, len(ev), len(cmds)))
    return ev


def need(cond, text):
    if not cond:
        print("FAILED: " + str(text))
        sys.exit(1)


def near(a, b, text="", eps=1e-6):
    need(abs(a - b) <= eps * max(1, abs(b)), "%s: %r, expected %r" % (text, a, b))


# ---------------------------------------------------------------- the server
def frame(body, header=None):
    if not isinstance(body, bytes):
        body = json.dumps(body, ensure_ascii=False).encode("utf-8")
    return (header or b"Content-Length: %d\r\n\r\n" % len(body)) + body


def req(i, m, p=None):
    return dict(jsonrpc="2.0", id=i, method=m, **({} if p is None else dict(params=p)))


def note(m, p=None):
    return dict(jsonrpc="2.0", method=m, **({} if p is None else dict(params=p)))


def opened(u, t):
    return note("textDocument/didOpen", dict(textDocument=dict(uri=u, languageId="nc", version=1, text=t)))


def changed(u, t):
    return note("textDocument/didChange", dict(textDocument=dict(uri=u, version=2), contentChanges=[dict(text=t)]))


def closed(u):
    return note("textDocument/didClose", dict(textDocument=dict(uri=u)))


def hover(i, u, l, c):
    return req(i, "textDocument/hover", dict(textDocument=dict(uri=u), position=dict(line=l, character=c)))


def lenses(i, u):
    return req(i, "textDocument/codeLens", dict(textDocument=dict(uri=u)))


def completion(i, u="u"):
    return req(i, "textDocument/completion", dict(textDocument=dict(uri=u), position=dict(line=0, character=0)))


def server(stream, args=("--calculate-path", "1"), timeout=60, chunks=None, root=None):
    """(exit status, messages) of the built server given a whole stream."""
    import time
    e = os.path.join(OUT, "nclangsrv")
    if not isinstance(stream, bytes):
        stream = b"".join(m if isinstance(m, bytes) else frame(m) for m in stream)
    p = subprocess.Popen([os.path.join(root or OUT, "nclangsrv")] + list(args), executable=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0, cwd=TMP)
    try:
        if chunks:
            i = 0
            for n in chunks:
                p.stdin.write(stream[i:i + n])
                time.sleep(0.02)
                i += n
            stream = stream[i:]
        out, _ = p.communicate(stream, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        need(False, "the server did not end")
    res, i = [], 0
    while i < len(out):
        e = out.find(b"\r\n\r\n", i)
        need(e >= 0 and out[i:i + 16] == b"Content-Length: ", "no header at byte %d: %r" % (i, out[i:i + 60]))
        n = int(out[i + 16:e])
        try:
            res.append(json.loads(out[e + 4:e + 4 + n].decode("utf-8")))
        except ValueError as x:
            need(False, "no message at byte %d: %s" % (i, x))
        i = e + 4 + n
    return p.returncode, res


def write(name, text):
    f = os.path.join(TMP, name)
    open(f, "wb").write(text if isinstance(text, bytes) else (text if isinstance(text, str) else json.dumps(text)).encode("utf-8"))
    return f


def setting_file(**kw):
    """An .ncsetting file; keyword arguments replace or update its parts."""
    axes = dict(X=(-500., 500.), Y=(-500., 500.), Z=(0., 1000.))
    k = dict(KIN, diameter_programming_2x=False, auto_measure_after_tool_selection=False, cartesian_system_axis={a: dict(range_min=v[0], range_max=v[1]) for a, v in axes.items()})
    d = dict(default_motion="rapid_traverse", default_work_plane="XY", default_driver_units="millimeter", default_programming="absolute", default_feed_mode="feed_per_minute", default_rotation_direction="right",
             drill_cycle_z_value="absolute", drill_cycle_return_value="beginning", default_rotation=0, rapid_traverse_cancel_cycle=False, linear_interpolation_cancel_cycle=False,
             circular_interpolation_cw_cancel_cycle=False, circular_interpolation_ccw_cancel_cycle=False, cycle_cancel_starts_rapid_traverse=False, operator_turns_on_rotation=False,
             tool_number_executes_exchange=False, auto_rapid_traverse_after_tool_exchange=False)
    j = dict(version="1.0", machine_tool="mill_3axis", machine_tool_type="mill", driver="fanuc_mill", machine_points_data=dict(tool_exchange_point=dict(X=0.0, Y=0.0, Z=500.0),
             machine_base_point=dict(X=0.0, Y=0.0, Z=500.0, I=0.0, J=0.0, K=0.0)), kinematics=k, cnc_default_values=d, zero_point=dict(X=0.0, Y=0.0, Z=0.0))
    for x, y in kw.items():
        if isinstance(y, dict):
            j[x].update(y)
        else:
            j[x] = y
    return write("s%d.ncsetting" % len(os.listdir(TMP)), j)
