"""Drives the real language server (asan build): scripted streams, interactive sessions, settings files, frame parsing."""
import json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time
import nc, build

MT = ["mill_3axis", "mill_4axis", "mill_4axis_horizontal", "mill_4axis_horizontal_pinola", "mill_4axis_head_gantry", "mill_5axis_head_head_gantry", "mill_5axis_head_table_gantry",
      "mill_5axis_table_table", "mill_5axis_table_tilt", "mill_5axis_head_table", "mill_5axis_horizontal_table_table", "mill_5axis_horizontal_table_table_pinola", "lathe_zx", "lathe_zxc",
      "lathe_zxcy", "lathe_zxcy_steady", "mill-turn_XYZBC"]
MTT = ["mill", "lathe", "millturn"]
ENV = dict(nc.ENV)
ENV["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0"


def exe():
    return os.path.join(build.build("asan", ["nclangsrv"]), "nclangsrv")


def settings_json(ptype, mt=0, mtt=0, mbp=None, tep=None, kin=None, axes=None, cnc=None, zp=(0., 0., 0.)):
    """The .ncsetting file with the same meaning as nc.settings(...)."""
    k = dict(nc.DEF_KIN)
    k.update(kin or {})
    for a in ("maximum_spindle_speed", "numer_of_items_in_the_warehouse", "tool_exchange_time", "pallet_exchange_time", "tool_measurement_time"):
        k[a] = int(k[a])
    for a in ("diameter_programming_2x", "auto_measure_after_tool_selection"):
        k[a] = bool(k[a])
    k["cartesian_system_axis"] = {a: dict(range_min=v[0], range_max=v[1]) for a, v in (nc.DEF_AXES if axes is None else axes).items()}
    c = dict(nc.DEF_CNC)
    c.update(cnc or {})
    d = dict(default_motion={0: "rapid_traverse", 1: "linear_interpolation"}[c["default_motion"]], default_work_plane={17: "XY", 18: "XZ", 19: "YZ"}[c["default_work_plane"]],
             default_driver_units=["millimeter", "inch"][c["default_driver_units"]], default_programming={90: "absolute", 91: "incremental"}[c["default_programming"]],
             default_feed_mode={94: "feed_per_minute", 95: "feed_per_revolution"}[c["default_feed_mode"]], default_rotation_direction={3: "right", 4: "left"}[c["default_rotation_direction"]],
             drill_cycle_z_value=["absolute", "incremental"][c["drill_cycle_z_value"]], drill_cycle_return_value={98: "beginning", 99: "point_r"}[c["drill_cycle_return_value"]],
             default_rotation=c["default_rotation"])
    for a in nc.CNC_ORDER[9:]:
        d[a] = bool(c[a])
    return dict(version="1.0", machine_tool=MT[mt], machine_tool_type=MTT[mtt], driver=ptype,
                machine_points_data=dict(tool_exchange_point=nc.DEF_TEP if tep is None else tep, machine_base_point=nc.DEF_MBP if mbp is None else mbp),
                kinematics=k, cnc_default_values=d, zero_point=dict(X=zp[0], Y=zp[1], Z=zp[2]))


# ------------------------------------------------------------------ messages
def frame(body, header=None):
    if not isinstance(body, bytes):
        body = json.dumps(body, ensure_ascii=False).encode("utf-8")
    return (header or b"Content-Length: %d\r\n\r\n" % len(body)) + body


def req(i, method, params=None):
    d = dict(jsonrpc="2.0", id=i, method=method)
    if params is not None:
        d["params"] = params
    return d


def note(method, params=None):
    d = dict(jsonrpc="2.0", method=method)
    if params is not None:
        d["params"] = params
    return d


def opened(uri, text, v=1):
    return note("textDocument/didOpen", dict(textDocument=dict(uri=uri, languageId="nc", version=v, text=text)))


def changed(uri, text, v=2):
    return note("textDocument/didChange", dict(textDocument=dict(uri=uri, version=v), contentChanges=[dict(text=text)]))


def closed(uri):
    return note("textDocument/didClose", dict(textDocument=dict(uri=uri)))


def hover(i, uri, line, ch):
    return req(i, "textDocument/hover", dict(textDocument=dict(uri=uri), position=dict(line=line, character=ch)))


def lenses(i, uri):
    return req(i, "textDocument/codeLens", dict(textDocument=dict(uri=uri)))


def resolve_lens(i, line):
    return req(i, "codeLens/resolve", dict(range=dict(start=dict(line=line, character=0), end=dict(line=line, character=0))))


def completion(i, uri, line=0, ch=0):
    return req(i, "textDocument/completion", dict(textDocument=dict(uri=uri), position=dict(line=line, character=ch)))


def resolve_item(i, item):
    return req(i, "completionItem/resolve", item)


class FrameError(Exception):
    pass


def _json(b, raw=False):
    if raw:
        return json.loads(b.decode("latin-1"))
    try:
        t = b.decode("utf-8")
    except UnicodeDecodeError:
        t = b.decode("latin-1")
    return json.loads(t)


def frames(out, raw=False):
    """The bodies of a written stream; raises FrameError where it is not a sequence of framed messages.
    raw: strings hold one character per byte."""
    res, i = [], 0
    while i < len(out):
        e = out.find(b"\r\n\r\n", i)
        if e < 0:
            raise FrameError("no end of a header at byte %d: %r" % (i, out[i:i + 120]))
        n = None
        for l in out[i:e].split(b"\r\n"):
            k, s, v = l.partition(b":")
            if k == b"Content-Length" and v.strip().isdigit():
                n = int(v.strip())
            elif k not in (b"Content-Type",) or not s:
                raise FrameError("header field %r at byte %d" % (l[:120], i))
        if n is None or e + 4 + n > len(out):
            raise FrameError("length %s at byte %d of %d: %r" % (n, i, len(out), out[i:i + 120]))
        b = out[e + 4:e + 4 + n]
        try:
            res.append(_json(b, raw))
        except ValueError as x:
            raise FrameError("the body at byte %d is not JSON (%s): %r" % (i, x, b[:200]))
        i = e + 4 + n
    return res


# ------------------------------------------------------------------ runs
class Run:
    """Result of a scripted run."""
    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    def bad(self):
        """None, or what is wrong with the end of the process."""
        if self.timeout:
            return "the server did not end"
        if self.rc != 0 or "ERROR: AddressSanitizer" in self.err or "runtime error:" in self.err or "MONITOR:" in self.err:
            return "the server ended with status %s: %s" % (self.rc, nc.find_report(self.err))
        return None


def args(settings=None, macros=None, calc=True, log=None, argv0=None, extra=()):
    a = [argv0 or exe(), "--calculate-path", "1" if calc else "0"]
    if settings is not None:
        a += ["-n", settings]
    if macros is not None:
        a += ["-m", macros]
    if log is not None:
        a += ["-l", log]
    return a + list(extra)


def run(stream, a, cwd=None, timeout=120, chunks=None):
    """Feeds a whole stream (in the given chunks, each flushed, with small pauses) and collects everything."""
    t = time.time()
    e = exe()
    p = subprocess.Popen(a, executable=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd, bufsize=0)
    if chunks is None:
        try:
            out, err = p.communicate(stream, timeout=nc.patience(timeout))
            to = False
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            to = True
            nc.HANGS[0] += 1
        return Run(p.returncode, out, err.decode("latin-1"), to, time.time() - t)
    buf = {"o": b"", "e": b""}

    def rd(f, k):
        while True:
            b = f.read(65536)
            if not b:
                break
            buf[k] += b
    ts = [threading.Thread(target=rd, args=(p.stdout, "o")), threading.Thread(target=rd, args=(p.stderr, "e"))]
    for x in ts:
        x.start()
    i = 0
    try:
        for n, pause in chunks:
            if i >= len(stream):
                break
            p.stdin.write(stream[i:i + n])
            i += n
            if pause:
                time.sleep(pause)
        if i < len(stream):
            p.stdin.write(stream[i:])
        p.stdin.close()
    except BrokenPipeError:
        pass
    try:
        p.wait(nc.patience(timeout))
        to = False
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        to = True
        nc.HANGS[0] += 1
    for x in ts:
        x.join()
    return Run(p.returncode, buf["o"], buf["e"].decode("latin-1"), to, time.time() - t)


class Session:
    """An interactive session: what is written is recorded, messages are read as they come."""
    def __init__(self, a, cwd=None):
        self.p = subprocess.Popen(a, executable=exe(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd, bufsize=0)
        self.q = queue.Queue()
        self.sent = b""
        self.err = b""
        self.got = []
        threading.Thread(target=self._read, daemon=True).start()
        self.te = threading.Thread(target=self._readerr, daemon=True)
        self.te.start()

    def _readerr(self):
        while True:
            b = self.p.stderr.read(65536)
            if not b:
                return
            self.err += b

    def _read(self):
        f = self.p.stdout
        buf = b""
        while True:
            while True:
                e = buf.find(b"\r\n\r\n")
                if e < 0:
                    break
                n = None
                for l in buf[:e].split(b"\r\n"):
                    if l.lower().startswith(b"content-length:"):
                        try:
                            n = int(l.split(b":")[1])
                        except ValueError:
                            pass
                if n is None:
                    self.q.put(("bad", buf[:200]))
                    return
                if len(buf) < e + 4 + n:
                    break
                b, buf = buf[e + 4:e + 4 + n], buf[e + 4 + n:]
                try:
                    self.q.put(("msg", _json(b)))
                except ValueError:
                    self.q.put(("bad", b[:200]))
            b = f.read(65536)
            if not b:
                if buf:
                    self.q.put(("bad", buf[:200]))
                self.q.put(("end", None))
                return
            buf += b

    def send(self, m):
        b = m if isinstance(m, bytes) else frame(m)
        self.sent += b
        try:
            self.p.stdin.write(b)
        except (BrokenPipeError, ValueError):
            pass

    def get(self, timeout=60):
        """The next message: ('msg', value) | ('bad', bytes) | ('end', None) | ('none', None) after the timeout."""
        try:
            x = self.q.get(timeout=nc.patience(timeout))
        except queue.Empty:
            nc.HANGS[0] += 1
            return "none", None
        self.got.append(x)
        return x

    def close(self, timeout=60):
        """Ends the input; returns a Run."""
        try:
            self.p.stdin.close()
        except (BrokenPipeError, OSError):
            pass
        try:
            self.p.wait(nc.patience(timeout))
            to = False
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            to = True
            nc.HANGS[0] += 1
        self.te.join(10)
        return Run(self.p.returncode, b"", self.err.decode("latin-1"), to, 0)


class Scratch:
    """A directory of its own for settings and description files, removed at the end."""
    def __init__(self, tag):
        os.makedirs(os.path.join(nc.VERIF, "build"), exist_ok=True)
        self.d = tempfile.mkdtemp(prefix=tag + "-", dir=os.path.join(nc.VERIF, "build"))
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def file(self, content, name=None):
        self.n += 1
        p = os.path.join(self.d, name or "f%d.json" % self.n)
        b = content if isinstance(content, bytes) else (content if isinstance(content, str) else json.dumps(content)).encode("utf-8")
        with open(p, "wb") as f:
            f.write(b)
        return p


def lines_of(text):
    """[(line index, stripped text)] of the non-empty lines the way the server numbers them."""
    return [(i, l) for i, l in enumerate(x.rstrip(" \t\n\v\f\r") for x in text.split("\n")) if l]


def replay(stream, a, files=()):
    """A readable and replayable record: arguments, files, the stream in escaped form."""
    out = "# arguments: %s\n" % " ".join(a[1:])
    for p in files:
        try:
            out += "# file %s: %s\n" % (p, open(p, "rb").read().decode("utf-8", "replace").replace("\n", " "))
        except OSError:
            pass
    return out + "\n".join(x.decode("latin-1").encode("unicode_escape").decode() for x in stream.split(b"Content-Length")) + "\n"


# ------------------------------------------------------------------ documents
def byt(t):
    """Text as one character per byte, the form in which the driver takes and gives text."""
    return t.encode("utf-8").decode("latin-1")


def analyse(pre, docs, what="v"):
    """docs: [(ptype, settings or None, text)]. Returns per document (script, [(line index, stripped line, event)], last events, crash)."""
    cases, idx = [], []
    for pt, st, text in docs:
        ls = lines_of(byt(text))
        c = [nc.new("a", pt or "fanuc_mill"), nc.settings("a", **(st or {})), ["rm", "a"]]
        c += [[what, "a", i + 1, l] for i, l in ls] + [["mv", "a"], ["del", "a"]]
        cases.append(c)
        idx.append(ls)
    out = []
    for c, ls, o in zip(cases, idx, nc.run_cases(pre, cases)):
        if o["crash"]:
            out.append((c, None, None, o["crash"]))
        else:
            out.append((c, [(i, l, e) for (i, l), e in zip(ls, o["ev"][3:])], o["ev"][3 + len(ls):], None))
    return out


_WS = " \t\n\v\f\r"


def diagnostics(events):
    """The expected diagnostics [(line, column, message)] of analysed lines."""
    out = []
    for i, l, e in events:
        if e.get("r"):
            continue
        m = e.get("m")
        if not m:
            out.append((i, 0, "'" + l + "'"))
            continue
        col = 0
        x = re.match(r"1:(\d+):", m)
        if x:
            col = max(0, int(x.group(1)) - 1)
            m = m[x.end():]
        elif m.startswith("1:"):
            m = m[2:]
        out.append((i, col, m.strip(_WS)))
    return out


UNI = ["ą", "ż", "ü", "中", "€", "😀", "é", "\u00a0"]


def document(r, pt, kind, st, inch, n, junk=0.25, uni=0.1):
    """A document text: simulated and hostile blocks with blank lines, trailing blanks, CRLF and foreign characters."""
    import hostile
    ts = [t.replace("\n", " ").replace("\x00", " ") for t in hostile.program(r, pt, n, kind, st, inch, junk)]
    ts = [t if all(31 < ord(c) < 127 or c in "\t\r" for c in t) else "".join(c if 31 < ord(c) < 127 else r.choice(UNI) for c in t) for t in ts]
    out = []
    for t in ts:
        t = t.replace("\r", " ")
        if r.random() < uni:
            t += " (" + r.choice(UNI) + r.choice(UNI) + ")" + r.choice(["", " ?", " X", " Y1"])
        if r.random() < 0.15:
            t += r.choice([" ", "  ", "\t", " \t "]) if r.random() < 0.8 else r.choice([" ", "\t", " \t"]) * r.randint(3, 40)
        if r.random() < 0.03 and t and t[0] not in "/%:":
            t = "(" + "long " * r.randint(12, 250) + ")" + t            # columns of many digits
        out.append(t)
        while r.random() < 0.1:
            out.append(r.choice(["", "", " ", "\t"]))
    if r.random() < 0.15:
        # more brackets, quotes and backslashes than the messages themselves could be nested
        cs = r.choice(["[", "{", "[{", "[\"", "[{\"\\", "[[[[[\\\""])
        out.insert(r.randint(0, len(out)), "(" + "".join(r.choice(cs) for _ in range(r.choice([513, 600, 1100]))) + r.choice([")", ")", ""]))
    nl = r.choice(["\n", "\n", "\r\n"])
    return nl.join(out) + r.choice(["", nl])


# ------------------------------------------------------------------ descriptions
def _pairs(path):
    """[(code, [(title, text)])] of a description file, in the order of the file."""
    j = json.load(open(path, encoding="utf-8-sig"), object_pairs_hook=lambda p: p)
    return [(c, t) for c, t in dict(j)["descriptions"]]


_desc = {}


def descriptions(ptype, kind):
    """{code: (title, text)} of the description file of a control; kind: gcode, mcode, macros."""
    k = (ptype, kind)
    if k not in _desc:
        p = os.path.join(nc.REPO, "conf", ptype, "desc", kind + "_desc_en.json")
        d = {}
        if os.path.exists(p):
            for c, t in _pairs(p):
                for title, text in t[:1]:
                    d.setdefault(c, (title, text))
        _desc[k] = d
    return _desc[k]


def labels(ptype, user=()):
    """What completion has to offer."""
    out = set()
    for kind, l in (("gcode", "G"), ("mcode", "M")):
        for c in descriptions(ptype, kind):
            out.add(l + c)
            if len(c) == 1 or len(c) == 3 and c[1] == ".":
                out.add(l + "0" + c)
    return out | {"#" + c for c in descriptions(ptype, "macros")} | {"#" + c for c in user}


def ranges(d):
    """[(from, to, code)] of the macro ranges that descriptions give."""
    out = []
    for c, (title, text) in d.items():
        m = re.search(r"Range: #(\d+)-#(\d+) - #(\d+)-#(\d+)", text) or re.search(r"Range: #(\d+)-#(\d+)", text)
        if m:
            g = [int(x) for x in m.groups()]
            out += [(g[i], g[i + 1], c) for i in range(0, len(g), 2)]
    return out


def macro_desc(d, n):
    """The descriptions variable n may be shown with: its own, or one of the ranges it lies in."""
    if str(n) in d:
        return [d[str(n)]]
    return [d[c] for a, b, c in ranges(d) if a <= n <= b]


def markdown(head, desc):
    return "**%s: %s** \n\n---\n\n%s" % (head, desc[0], desc[1].replace("\n", "\n\n"))


def code_desc(d, code):
    """Description of a code: leading zeros do not matter."""
    n = lambda c: re.sub(r"^0+(?=\d)", "", c)
    for c, x in d.items():
        if n(c) == n(code):
            return x
    return None


def trunc(v):
    t = "%.6f" % v
    t = t.rstrip("0")
    return t[:-1] if t.endswith(".") else t


def zeros(t):
    """The sign of a zero does not matter."""
    return ("0", "-0") if t in ("0", "-0") else (t,)


def u16(t):
    return len(t.encode("utf-16-le")) // 2


TOKEN = [re.compile(r"[GgMm]\d{1,9}\.?\d?", re.A), re.compile(r"[GgMm]#\d{1,9}", re.A), re.compile(r"#\d{1,9}", re.A)]


def token(line, ch):
    """(kind, text, from, to) of the token at a position, or None."""
    for k, rx in enumerate(TOKEN):
        for m in rx.finditer(line):
            a = u16(line[:m.start()])
            b = a + len(m.group())
            if a <= ch < b:
                return k, m.group(), a, b
    return None


def hover_expected(lines, macros, line, ch, ptype, user=None):
    """Set of acceptable contents (with range), or None for nothing. macros: {id: {line: value}} (lines from 1)."""
    if line < 0 or line >= len(lines):
        return None
    t = token(lines[line], ch)
    if t is None:
        return None
    k, s, a, b = t
    if k == 0:
        d = code_desc(descriptions(ptype, "gcode" if s[0] in "Gg" else "mcode"), s[1:])
        return {s if d is None else markdown(s, d)}, a, b
    n = int(s[s.index("#") + 1:])
    v = macros.get(n)
    ls = [x for x in v or () if x <= line + 1]
    v = v[max(ls)] if ls else None
    if k == 1:
        if v is None:
            return None
        w = set()
        for c in zeros(trunc(v)):
            d = code_desc(descriptions(ptype, "gcode" if s[0] in "Gg" else "mcode"), c)
            h = "%s (%s%s)" % (s, s[0].upper(), c)
            w.add(h if d is None else markdown(h, d))
        return w, a, b
    hs = [s] if v is None else ["%s = %s" % (s, c) for c in zeros(trunc(v))]
    dd = dict(descriptions(ptype, "macros"))
    dd.update(user or {})
    ds = macro_desc(dd, n)
    if ds:
        return {markdown(h, x) for x in ds for h in hs}, a, b
    return set(hs) if v is not None else {s + " = undefined"}, a, b
