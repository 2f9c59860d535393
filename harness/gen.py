"""Generators of NC text. Every word carries what the word table says about it, written from the tables alone."""
import random

CALC = ("=", "+", "-", "*", "/", "#", "%", "O", ":")


class Word:
    __slots__ = ("addr", "text", "ok", "val", "kind", "why")

    def __init__(self, addr, text, ok, val=None, kind="num", why=""):
        self.addr, self.text, self.ok, self.val, self.kind, self.why = addr, text, ok, val, kind, why


def plain_addresses(words):
    return [a for a, d in words.items() if d["type"] not in ("calc", "macro", "assignable") and a not in CALC]


def int_part(r, d):
    """An integer inside the range, with its limits drawn often."""
    rf, rt = d["rf"], d["rt"]
    c = r.random()
    if c < 0.2:
        return rt
    if c < 0.4:
        return rf
    if c < 0.5:
        return max(rf, min(rt, 0))
    if c < 0.75:
        return r.randint(max(rf, -99), min(rt, 99)) if max(rf, -99) <= min(rt, 99) else r.randint(rf, rt)
    return r.randint(rf, rt)


def fmt_int(r, v, lead=True):
    s = str(abs(v))
    if lead and r.random() < 0.15:
        s = "0" * r.randint(1, 3) + s
    return s


def good_value(r, d):
    """Text of a value the table allows."""
    v = int_part(r, d)
    sign = "-" if v < 0 else ("+" if r.random() < 0.1 else "")
    s = sign + fmt_int(r, v)
    if d["dt"] > 0 and d["rf"] < 0 < d["rt"] and r.random() < 0.08:
        return r.choice(["", "-", "+"]) + "." + str(r.randint(max(1, d["df"]), d["dt"]))
    if d["dt"] > 0:
        c = r.random()
        if c < 0.35:
            pass
        elif c < 0.45:
            s += "."
        else:
            f = r.choice([d["dt"], d["df"], r.randint(d["df"], d["dt"]), r.randint(d["df"], min(d["dt"], d["df"] + 9))])
            fs = str(f)
            width = len(str(d["dt"]))
            if len(fs) < width and r.random() < 0.4:
                fs = "0" * r.randint(1, width - len(fs)) + fs
            s += "." + fs
    return s


def bad_value(r, d):
    """Text of a value the table forbids, and why."""
    ways = ["missing", "above", "below", "huge"]
    ways += ["dec_above"] if d["dt"] > 0 else ["dec"]
    if d["df"] > 0:
        ways.append("dec_below")
    w = r.choice(ways)
    if w == "missing":
        return r.choice(["", "", "-", "+"] + (["."] if d["rf"] <= 0 else [""])), w
    if w == "above":
        v = d["rt"] + r.choice([1, 1, 1, 2, 10, r.randint(1, 100000)])
    elif w == "below":
        v = d["rf"] - r.choice([1, 1, 1, 2, 10, r.randint(1, 100000)])
    elif w == "huge":
        v = r.choice([2 ** 31, 2 ** 31 + d["rt"], 2 ** 32 + max(d["rf"], 1), 10 ** 12, 2 ** 64 + 1]) * r.choice([1, -1])
    elif w == "dec":
        v = int_part(r, d)
        return ("-" if v < 0 else "") + fmt_int(r, v) + "." + r.choice(["", "0", "5", "00"]), w
    else:
        v = int_part(r, d)
        f = str(d["dt"] + r.choice([1, 1, 1, 2, 9, 1000]) if w == "dec_above" else d["df"] - 1)
        if w == "dec_above" and r.random() < 0.3:
            f = r.choice(["0" * r.randint(1, 12) + f, "0" * r.randint(0, 3) + str(10 * d["dt"] + r.randint(0, 9)), str(2 ** 32 + d["dt"]), f + "0" * r.randint(1, 4)])
        return ("-" if v < 0 else "") + fmt_int(r, v) + "." + f, w
    return ("-" if v < 0 else "") + fmt_int(r, v), w


def word(r, words, addr, good=True):
    d = words[addr]
    gap = " " * r.randint(1, 2) if r.random() < 0.08 else ""
    if d["type"] == "assignable":
        eq = "="
        gap = ""
    else:
        eq = ""
    if good:
        v = good_value(r, d)
        return Word(addr, addr + eq + gap + v, True, v)
    v, why = bad_value(r, d)
    return Word(addr, addr + eq + gap + v, False, v, why=why)


def comment(r):
    cs = "ABCDEFGXYZ abcxyz0123456789.,;:-+*/=#[]<>!?'\"&%_@"
    if r.random() < 0.15:
        cs = r.choice(["((a ", "$^~{}|\\`", "( (X1"])
    return Word("(", "(" + "".join(r.choice(cs) for _ in range(r.randint(0, 14))) + ")", True, kind="comment")


def join(r, ws):
    """Words with blanks between them; sometimes none where the border is unmistakable."""
    out = ""
    for i, w in enumerate(ws):
        if i:
            p = ws[i - 1]
            tight = p.kind in ("num", "comment") and p.text[-1:].isdigit() | (p.kind == "comment") and \
                w.kind in ("num", "comment") and (w.addr[0].isalpha() or w.addr in ("(",)) and r.random() < 0.25
            out += "" if tight else r.choice([" ", " ", " ", "  ", "\t"])
        out += w.text
    if r.random() < 0.05:
        out += " "
    if r.random() < 0.05:
        out = " " + out
    return out


def block(r, words, bad=False, maxw=6, dup=False, exclude=(), comments=True, optional=True, once=False):
    """A block of plain words. Returns (text, list of words, verdict, why). once: a wrong block repeats a once-only word."""
    addrs = [a for a in words if a not in CALC and words[a]["type"] not in ("calc", "macro") and a not in exclude]
    n = r.randint(1, maxw)
    ws = []
    used = set()
    if optional and r.random() < 0.08:
        k = r.choice(["", "1", "5", "9"])
        ws.append(Word("/", "/" + k, True, k, kind="opt"))
    if "N" in words and r.random() < 0.3 and "N" not in exclude:
        ws.append(word(r, words, ":" if ":" in words and words[":"]["type"] == "numbering" and ":" not in exclude and r.random() < 0.12 else "N"))
        used.add("N")
    for _ in range(n):
        a = r.choice(addrs)
        if words[a]["unique"] and a in used:
            continue
        used.add(a)
        ws.append(word(r, words, a))
    if not [w for w in ws if w.kind == "num"]:
        a = r.choice([x for x in addrs if x not in used])
        ws.append(word(r, words, a))
        used.add(a)
    if comments and r.random() < 0.15:
        ws.insert(r.randint(0 if ws[0].kind != "opt" else 1, len(ws)), comment(r))
    why = ""
    if bad:
        c = r.random() if not once else 0.8
        nums = [i for i, w in enumerate(ws) if w.kind == "num"]
        if c < 0.72:
            i = r.choice(nums)
            ws[i] = word(r, words, ws[i].addr, good=False)
            why = ws[i].why
        elif c < 0.86 and any(words[ws[i].addr]["unique"] for i in nums):
            i = r.choice([i for i in nums if words[ws[i].addr]["unique"]])
            ws.insert(r.randint(i + 1, len(ws)), word(r, words, ws[i].addr))
            why = "duplicate"
        elif c < 0.88 and optional and ws[0].kind != "opt":
            # marks of optional blocks are / and /1 to /9
            k = r.choice(["0", "00", "10", "11", "99", "-1", "-0", "1.", "1.5"])
            ws.insert(0, Word("/", "/" + k, False, k, kind="opt", why="optional"))
            why = "optional"
        elif c < 0.93:
            unk = [x for x in "ABCDEFGHIJKLMNPQRSTUVWXYZ" if x not in words] + ["x", "y", "g", "m", "$", "?", "&", "!", "Ź".encode("utf-8").decode("latin-1")]
            a = r.choice(unk)
            # an address that is unknown: nothing in the table begins with it
            if any(w.startswith(a) for w in words):
                a = r.choice(["$", "?", "&", "x"])
            ws.insert(r.randint(0 if ws[0].kind != "opt" else 1, len(ws)), Word(a, a + str(r.randint(1, 99)), False, kind="bad", why="unknown"))
            why = "unknown"
        else:
            i = r.choice(nums)
            ws.insert(i + 1, Word("", str(r.randint(0, 99)), False, kind="bad", why="loose"))
            why = "loose number"
    # a missing value must not swallow the next word
    return join(r, ws), ws, not bad, why


# ---------------------------------------------------------------- macro expressions
import math

FUNCS = ["SIN", "COS", "TAN", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP", "BIN", "BCD"]
MORE_FUNCS = ["ASIN", "ACOS", "EXP"]
INT_MAX = 2 ** 31


class NoValue(Exception):
    pass


class Unspecified(Exception):
    """Nobody says what the control does with this (BIN of something that is no BCD number)."""


def to_int(v):
    if not (-INT_MAX - 1 < v < INT_MAX):
        raise NoValue("integer range")
    return int(v)


def fin(v):
    if isinstance(v, complex) or not math.isfinite(v):
        raise NoValue("not finite")
    return v


_jr = random.Random(7)


def jit(p):
    return p * _jr.choice((-1, 0, 1, 1, -1)) if p else 0.0


def ev(e, env, p=0.0):
    """Value of an expression tree. p: relative disturbance of inexact results (tells fragile values apart)."""
    k = e[0]
    if k == "num":
        return float(e[1])
    if k == "var":
        if e[1] not in env:
            raise NoValue("unassigned #%d" % e[1])
        return env[e[1]]
    if k == "br":
        return ev(e[1], env, p)
    if k == "neg":
        return -ev(e[1], env, p)
    if k == "pos":
        return ev(e[1], env, p)
    if k == "fn":
        x = ev(e[2], env, p)
        n = e[1]
        try:
            if n == "SIN":
                return math.sin(math.radians(x) * (1 + jit(p / 100))) * (1 + jit(p))
            if n == "COS":
                return math.cos(math.radians(x) * (1 + jit(p / 100))) * (1 + jit(p))
            if n == "TAN":
                return fin(math.tan(math.radians(x) * (1 + jit(p / 100))) * (1 + jit(p)))
            if n == "ATAN":
                return math.degrees(math.atan(x)) * (1 + jit(p))
            if n == "ASIN":
                return fin(math.degrees(math.asin(x)) * (1 + jit(p)))
            if n == "ACOS":
                return fin(math.degrees(math.acos(x)) * (1 + jit(p)))
            if n == "EXP":
                try:
                    return math.exp(x) * (1 + jit(p))
                except OverflowError:
                    raise Unspecified(n)
            if n == "SQRT":
                return math.sqrt(x) * (1 + jit(p))
        except (ValueError, OverflowError):
            raise NoValue(n)
        if n == "ABS":
            return abs(x)
        if n == "ROUND":
            a = math.floor(abs(x))
            return math.copysign(a + (1 if abs(x) - a >= 0.5 else 0), x)        # not floor(x + 0.5): 0.49999999999999994
        if n == "FIX":
            return float(math.trunc(x))
        if n == "FUP":
            return float(math.ceil(x) if x > 0 else math.floor(x))
        if n == "BIN":
            if not (-1 < x < 2 ** 64):
                raise NoValue("BIN")
            v, o, m = int(x), 0, 1
            while v:
                if v & 15 > 9:
                    raise Unspecified("BIN")
                o += (v & 15) * m
                m *= 10
                v >>= 4
            if o >= 2 ** 32:
                raise Unspecified("BIN")
            return float(o)
        if n == "BCD":
            if not (-1 < x < 2 ** 32):
                raise NoValue("BCD")
            return float(int(str(int(x)), 16))
    if k == "op":
        a = ev(e[2], env, p)
        b = ev(e[3], env, p)
        o = e[1]
        if o == "+":
            return fin(a + b)
        if o == "-":
            return fin(a - b)
        if o == "*":
            return fin(a * b)
        if o == "/":
            if b == 0:
                raise NoValue("division by zero")
            return fin(a / b * (1 + jit(p)))
        x, y = to_int(a), to_int(b)
        if o == "AND":
            return float(x & y)
        if o == "OR":
            return float(x | y)
        if o == "XOR":
            return float(x ^ y)
        if o == "MOD":
            if y == 0:
                raise NoValue("MOD 0")
            return float(abs(x) % abs(y) * (1 if x >= 0 else -1))
    raise ValueError(e)


def num_lit(r):
    c = r.random()
    if c < 0.4:
        s = str(r.choice([0, 1, 2, 3, 5, 8, 10, 16, 30, 45, 60, 90, 180, 255, r.randint(0, 999)]))
    elif c < 0.8:
        s = "%d.%d" % (r.randint(0, 99), r.randint(0, 999))
    elif c < 0.9:
        s = "0." + r.choice(["5", "25", "125", "001", "0625"])
    else:
        s = str(r.randint(0, 9999))
    return ("num", s)


PREC = {"+": 1, "-": 1, "OR": 1, "XOR": 1, "*": 2, "/": 2, "AND": 2, "MOD": 2}


def expr(r, depth, vars_, funcs=FUNCS, ops=("+", "-", "*", "/", "AND", "OR", "XOR"), unassigned=()):
    c = r.random()
    if depth <= 0 or c < 0.16:
        if unassigned and r.random() < 0.5:
            return ("var", r.choice(list(unassigned)))
        if vars_ and r.random() < 0.4:
            return ("var", r.choice(list(vars_)))
        return num_lit(r)
    if c < 0.62:
        o = r.choice(["+", "-", "*", "/", "+", "-", "*"] + [x for x in ops if len(x) > 1])
        a = expr(r, depth - 1, vars_, funcs, ops, unassigned)
        b = expr(r, depth - 1, vars_, funcs, ops, unassigned)
        # brackets where the tree is not the one the operators alone would give; sometimes superfluous ones
        if a[0] == "op" and (PREC[a[1]] < PREC[o]) or r.random() < 0.08:
            a = ("br", a)
        if b[0] == "op" and (PREC[b[1]] <= PREC[o]) or r.random() < 0.08:
            b = ("br", b)
        if a[0] == "neg":
            a = ("br", a) if r.random() < 0.6 else a
        if b[0] == "neg" or b[0] == "pos":
            b = ("br", b)
        return ("op", o, a, b)
    if c < 0.86:
        return ("fn", r.choice(funcs), expr(r, depth - 1, vars_, funcs, ops, unassigned))
    if c < 0.93:
        return ("br", expr(r, depth - 1, vars_, funcs, ops, unassigned))
    x = expr(r, depth - 1, vars_, funcs, ops, unassigned)
    if x[0] in ("op", "neg", "pos"):
        x = ("br", x)
    return ("neg", x)


def text(e, sp=""):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "var":
        return "#%d" % e[1]
    if k == "br":
        return "[" + text(e[1], sp) + "]"
    if k == "neg":
        return "-" + text(e[1], sp)
    if k == "pos":
        return "+" + text(e[1], sp)
    if k == "fn":
        return e[1] + "[" + text(e[2], sp) + "]"
    s = sp if len(e[1]) == 1 else " "
    return text(e[2], sp) + s + e[1] + s + text(e[3], sp)


def depth(e):
    return 1 + max([depth(x) for x in e[1:] if isinstance(x, tuple)] or [0])


def judge(e, env):
    """(value or None, sure, why): sure is False when rounding errors inside could change the outcome noticeably."""
    try:
        v, why = ev(e, env), ""
    except Unspecified:
        return None, False, "unspecified"
    except NoValue as x:
        v, why = None, str(x)
    for _ in range(8):
        try:
            w = ev(e, env, 1e-12)
        except Unspecified:
            return v, False, why
        except NoValue:
            w = None
        if (w is None) != (v is None) or v is not None and abs(w - v) > 1e-8 * max(1.0, abs(v)):
            return v, False, why
    return v, True, why


# ---------------------------------------------------------------- blocks for the transforming operations
def wordlist(ws, words):
    """What the interface must return for the words of the generator."""
    out = []
    for w in ws:
        if w.kind == "comment":
            out.append(["(", w.text[1:]])
        elif w.kind in ("opt", "raw"):
            out.extend([[w.addr, w.val]] if w.kind == "opt" else [list(x) for x in w.val])
        else:
            out.append([w.addr, ("=" if words[w.addr]["type"] == "assignable" else "") + w.val])
    return out


def raw_word(r, words, only=None):
    """A word whose value is a macro or a bracket, or a macro assignment (kind raw: val is the list of words)."""
    a = r.choice(only or [x for x in plain_addresses(words) if x not in ("N", "G", "M")])
    eq = "=" if words[a]["type"] == "assignable" else ""
    v = r.choice(["#%d", "-#%d", "[#%d]", "-[#%d]"]) % r.randint(1, 300)
    return Word(a, a + eq + v, True, [[a, eq + v]], kind="raw")


def rich_block(r, words, maxw=6, raw=0.15, fixed=(), exclude=(), special=0.12, optional=True, comments=True):
    """An accepted block (checked without evaluation): (text, words, list of [address, value])."""
    if r.random() < special:
        c = r.random()
        if c < 0.3:
            n, v = r.randint(1, 499), good_value(r, dict(rf=-999, rt=999, df=0, dt=999))
            return "#%d=%s" % (n, v), [], [["#", str(n)], ["=", v]]
        if c < 0.5:
            return "%", [], [["%", ""]]
        if c < 0.7:
            n = "%d" % r.randint(1, 9999)
            if r.random() < 0.3:
                n = r.choice("abctyTB_") + "".join(r.choice("abcXYZ_019") for _ in range(r.randint(0, 12)))
            # a bare name after the number is not a word
            return "O" + n + (r.choice([" ", "  "]) + r.choice(["NAME", "Name", "part", "x"]) if r.random() < 0.2 else ""), [], [["O", n]]
        if c < 0.85:
            k = comment(r)
            return k.text, [k], [["(", k.text[1:]]]
        n, m = r.randint(1, 99), r.randint(1, 99)
        return "IF[#%d EQ %d]GOTO%d" % (n, m, n), [], [["IF", "[#%d" % n], ["EQ", "%d]" % m], ["GOTO", str(n)]]
    t, ws, v, why = block(r, words, maxw=maxw, exclude=exclude, optional=optional, comments=comments)
    used = {w.addr for w in ws}
    lo = 1 if ws and ws[0].kind == "opt" else 0
    for f in fixed:
        if not (words.get(f[0], {}).get("unique") and f[0] in used):
            ws.insert(r.randint(lo + (1 if len(ws) > lo and ws[lo].addr == "N" else 0), len(ws)), Word(f[0], f, True, f[1:]))
            used.add(f[0])
    if r.random() < raw:
        w = raw_word(r, words)
        if not (words[w.addr]["unique"] and w.addr in used):
            ws.append(w)
    return join(r, ws), ws, wordlist(ws, words)
