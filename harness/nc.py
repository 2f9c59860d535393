"""Shared machinery of the checks: profiles from /repo/conf, the pdrv runner, verdicts, evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

if os.environ.get("PYTHONHASHSEED") != "0" and os.path.basename(os.path.dirname(os.path.abspath(sys.argv[0]))) == "checks":
    os.environ["PYTHONHASHSEED"] = "0"          # the same order of sets, and so the same workload, in every run of a seed
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build

VERIF = _build.VERIF
REPO = _build.REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"

PTYPES = ["fanuc_lathe_system_a", "fanuc_lathe_system_b", "fanuc_lathe_system_c", "fanuc_mill",
          "fanuc_millturn_system_a", "fanuc_millturn_system_b", "generic_lathe", "generic_mill",
          "haas_lathe", "haas_mill", "makino_mill"]
WT = ["misc", "angle", "calc", "code", "feed", "length", "macro", "numbering", "assignable"]

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66"
ENV["LC_ALL"] = "C"


def rng(tag=""):
    return random.Random("%s/%d" % (tag, SEED))


# ---------------------------------------------------------------- profiles
class Profile:
    def __init__(self, ptype, conf=None):
        self.ptype = ptype
        base = os.path.join(conf or os.path.join(REPO, "conf"), ptype)
        g = json.load(open(os.path.join(base, "grammar.json"), encoding="utf-8-sig"))
        self.ops = list(g["operations"])
        self.words = {"metric": {}, "imperial": {}}
        for u in ("metric", "imperial"):
            for w in g[u].values():
                self.words[u][w["word"]] = dict(rf=int(w["range_from"]), rt=int(w["range_to"]),
                                                df=int(w["decimal_from"]), dt=int(w["decimal_to"]),
                                                unique=w["unique"] in (True, "true", "1", 1), type=w["type"])
        self.groups = {}
        for k, f in (("G", "gcode_groups.json"), ("M", "mcode_groups.json")):
            j = json.load(open(os.path.join(base, f), encoding="utf-8-sig"))["groups"]
            self.groups[k] = {n: [(int(c["code"]), int(c["rest"])) for c in v] for n, v in j.items()}

    def code_groups(self, letter):
        m = {}
        for n, v in self.groups[letter].items():
            for c in v:
                m.setdefault(c, set()).add(n)
        return m

    def preamble(self, name=None):
        name = name or self.ptype
        out = []
        for u, t in (("metric", "M"), ("imperial", "I")):
            for w, d in self.words[u].items():
                out.append(["gr", name, t, w, d["rf"], d["rt"], d["df"], d["dt"], 1 if d["unique"] else 0,
                            WT.index(d["type"])])
        for o in self.ops:
            out.append(["op", name, o])
        for l, c in (("G", "gg"), ("M", "mg")):
            for n, v in self.groups[l].items():
                for code, rest in v:
                    out.append([c, name, n, code, rest])
        return out


_profiles = {}


def profile(ptype):
    if ptype not in _profiles:
        _profiles[ptype] = Profile(ptype)
    return _profiles[ptype]


def new(pid, ptype, lang=0, ev=1, vcg=1, calc=1, ncs=1, zpa=1, without=0, name=None):
    return ["new", pid, name or ptype, PTYPES.index(ptype), lang, ev, vcg, calc, ncs, zpa, without]


DEF_KIN = dict(max_working_feed=20000, max_fast_feed=20000, maximum_spindle_speed=10000,
               numer_of_items_in_the_warehouse=30, tool_exchange_time=6, pallet_exchange_time=1,
               tool_measurement_time=3, diameter_programming_2x=0, auto_measure_after_tool_selection=0,
               pallet_exchange_code="", pallet_exchange_code_value="", tool_measurement_code="",
               tool_measurement_code_value="")
KIN_ORDER = list(DEF_KIN)
DEF_CNC = dict(default_motion=0, default_work_plane=17, default_driver_units=0, default_programming=90,
               default_feed_mode=94, default_rotation_direction=3, drill_cycle_z_value=0,
               drill_cycle_return_value=98, default_rotation=0, rapid_traverse_cancel_cycle=0,
               linear_interpolation_cancel_cycle=0, circular_interpolation_cw_cancel_cycle=0,
               circular_interpolation_ccw_cancel_cycle=0, cycle_cancel_starts_rapid_traverse=0,
               operator_turns_on_rotation=0, tool_number_executes_exchange=0,
               auto_rapid_traverse_after_tool_exchange=0)
CNC_ORDER = list(DEF_CNC)
DEF_AXES = {"X": (-500., 500.), "Y": (-500., 500.), "Z": (0., 1000.)}
DEF_MBP = {"X": 0.0, "Y": 0.0, "Z": 500.0, "I": 0.0, "J": 0.0, "K": 0.0}
DEF_TEP = {"X": 0.0, "Y": 0.0, "Z": 500.0}


def num(v):
    if isinstance(v, float):
        return repr(v)
    return str(v)


def settings(pid, mt=0, mtt=0, mbp=None, tep=None, kin=None, axes=None, cnc=None, zp=(0, 0, 0)):
    k = dict(DEF_KIN)
    k.update(kin or {})
    c = dict(DEF_CNC)
    c.update(cnc or {})
    f = lambda d: ",".join("%s=%s" % (a, num(v)) for a, v in d.items())
    return ["nc", pid, mt, mtt, f(DEF_MBP if mbp is None else mbp), f(DEF_TEP if tep is None else tep)] + \
        [k[x] for x in KIN_ORDER] + \
        [",".join("%s=%s:%s" % (a, num(v[0]), num(v[1])) for a, v in (DEF_AXES if axes is None else axes).items()),
         ",".join(str(int(c[x])) for x in CNC_ORDER), ",".join(num(float(x)) for x in zp)]


# ---------------------------------------------------------------- pdrv
_SAFE = set(range(0x20, 0x7f)) - {0x25}


def enc(v):
    if isinstance(v, bool):
        v = int(v)
    b = v if isinstance(v, bytes) else str(v).encode("latin-1")
    return "".join(chr(c) if c in _SAFE else "%%%02X" % c for c in b)


def script(cmds):
    return "".join("\t".join(enc(f) for f in c) + "\n" for c in cmds)


_PRE = ("gr", "op", "gg", "mg")


def find_report(err):
    """The interesting part of a sanitizer / monitor report on stderr."""
    m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|runtime error:|MONITOR:|terminate called|"
                  r"Assertion .* failed|LeakSanitizer)", err)
    if not m:
        return err[-1500:]
    s = max(0, err.rfind("\n", 0, m.start()))
    return err[s:s + 2500].strip()


HANGS = [0]


def patience(timeout):
    """Once several runs have hung for their whole time, the verdict is out: the rest need not be waited for as long."""
    return timeout if HANGS[0] < 6 else min(timeout, 10) if HANGS[0] < 40 else min(timeout, 2)


def exec_script(exe, text, timeout, env=None, args=()):
    p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env or ENV)
    try:
        out, err = p.communicate(text.encode("latin-1"), timeout=patience(timeout))
        to = False
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        to = True
        HANGS[0] += 1
    return p.returncode, out, err.decode("latin-1"), to


def run_batch(exe, pre, cases, timeout=240, env=None):
    """cases: list of command lists. Returns one dict per case: ev (events), crash (None or dict)."""
    res = []
    i = 0
    while i < len(cases):
        part = cases[i:]
        text = script(pre) + "".join(script(c) for c in part)
        rc, out, err, to = exec_script(exe, text, timeout, env)
        lines = out.split(b"\n")
        if lines and lines[-1] == b"":
            lines.pop()
        else:
            lines = lines[:-1]      # a torn last line
        ev = [json.loads(l) for l in lines]
        pos = 0
        done = 0
        for c in part:
            n = sum(1 for x in c if x[0] not in _PRE)
            if pos + n <= len(ev):
                res.append(dict(ev=ev[pos:pos + n], crash=None))
                pos += n
                done += 1
            else:
                break
        if done == len(part):
            if rc != 0 or to:
                # every command was answered: blame the end of the process (destructors)
                res[-1]["crash"] = dict(kind="exit", rc=rc, log=find_report(err))
            break
        c = part[done]
        got = ev[pos:]
        if to:
            # inconclusive until repeated alone
            rc2, out2, err2, to2 = exec_script(exe, script(pre) + script(c), 120, env)
            if to2:
                res.append(dict(ev=got, crash=dict(kind="hang", rc=None, log="no answer within 120 s (repeated)")))
            elif rc2 != 0:
                res.append(dict(ev=got, crash=dict(kind="crash", rc=rc2, log=find_report(err2))))
            else:
                res.append(dict(ev=[json.loads(l) for l in out2.split(b"\n") if l], crash=None))
        else:
            res.append(dict(ev=got, crash=dict(kind="crash", rc=rc, log=find_report(err))))
        i += done + 1
    return res


def run_cases(pre, cases, batch=None, exe=None, env=None, timeout=240):
    """Runs the cases in parallel processes; results in the order of the cases."""
    if exe is None:
        exe = os.path.join(_build.build("asan", ["pdrv"]), "pdrv")
    if not cases:
        return []
    if batch is None:
        batch = max(1, min(400, (len(cases) + 31) // 32))
    chunks = [cases[i:i + batch] for i in range(0, len(cases), batch)]
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(lambda c: run_batch(exe, pre, c, timeout, env), chunks))
    return [r for o in out for r in o]


# ---------------------------------------------------------------- verdicts
def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'."""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return known


class Check:
    def __init__(self, pid, rule, level="exploration"):
        self.pid = pid
        self.t0 = time.time()
        self.rule = rule
        self.level = level
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.viol = []
        self.known = load_known().get(pid, {})
        self.known_hit = set()
        self.assumptions = []
        self.inconclusive = 0

    # --- counting what was observed
    def saw(self, key=None, sample=None, n=1):
        self.evaluations += n
        if key is not None:
            h = hashlib.md5(repr(key).encode("utf-8", "replace")).digest()[:8]
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and len(self.samples) < 6 and (len(self.distinct) in (1, 2, 5, 20, 80, 300)):
                    self.samples.append(sample)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, what, replay, key=None):
        """replay: bytes/str written to a file. key: matched against the committed known findings."""
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
            return
        self.viol.append(what)
        if len(self.viol) > 5:
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        if callable(replay):
            replay = replay()
        if isinstance(replay, (list, dict)):
            replay = json.dumps(replay, indent=1)
        if isinstance(replay, str):
            replay = replay.encode("utf-8", "replace")
        f = os.path.join(d, "%s-%s.txt" % (self.pid, hashlib.md5(replay + what.encode()).hexdigest()[:10]))
        with open(f, "wb") as h:
            h.write(("# %s seed=%d tier=%s\n# %s\n" % (self.pid, SEED, TIER, what.replace("\n", "\n# ")))
                    .encode("utf-8", "replace"))
            h.write(replay)
        print("%s: %s" % (self.pid, what[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.pid, f))
        sys.stdout.flush()

    def crash(self, cmds, crash, key=None, pre=()):
        self.violation("the monitored run ended in a %s: %s" % (crash["kind"], crash["log"]),
                       script(list(pre)) + script(cmds), key)

    def finish(self, min_distinct=1):
        wall = time.time() - self.t0
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples[:6])
        for k, v in self.extra.items():
            cov[k] = v
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        if self.known_hit:
            cov["known_findings_seen"] = sorted(self.known_hit)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.viol:
            print("%s: %d violation(s)" % (self.pid, len(self.viol)))
            sys.exit(1)
        if len(self.distinct) < min_distinct:
            print("%s: observed only %d distinct cases: no verdict" % (self.pid, len(self.distinct)))
            sys.exit(3)
        print("%s: held on %d evaluations, %d distinct non-trivial, %.1f s %s" %
              (self.pid, self.evaluations, len(self.distinct), wall, self.extra))
        sys.exit(0)
