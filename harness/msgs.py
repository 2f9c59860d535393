"""Random messages for the language server together with what has to come back.

A message is (body: bytes, want, tag); want:
  ("none",)              nothing is written
  ("res", id)            one response with this id and a result
  ("err", id, codes)     one response with this id and an error with one of the codes
  ("any", id)            one response with this id
  ("pub", uri)           one publication of diagnostics for this document (one character per UTF-8 character)
  ("free",)              anything framed (only for survival)
"""
import json, random
import lsp

ODD_TEXT = ["", " ", "a", "ż中😀", "\"", "\\", "\u0000", "\u007f", "a\nb\r\n", "null", "0", "../../x", "%s%n%d", "A" * 3000, "\u2028", "\ufeff", "{}", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16")]
URIS = ["file:///a.nc", "file:///b.nc", "file:///c%20d.nc", "untitled:1", "file:///ż.nc", "", "n\u0000ul"]
REQ = ["initialize", "textDocument/completion", "completionItem/resolve", "textDocument/hover", "textDocument/codeLens", "codeLens/resolve"]
NOTE = ["initialized", "workspace/didChangeConfiguration", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "$/cancelRequest"]
UNKNOWN = ["textDocument/definition", "textDocument/hover ", "TextDocument/hover", "hover", "", "$/setTrace", "x" * 500, "textDocument/hove", "textDocument/hoverx", "workspace/symbol", "ż", "initialize\u0000", "Shutdown", "shutdown ", "Exit"]


def jid(r):
    q = r.random()
    if q < 0.5:
        return r.randint(0, 1000)
    if q < 0.7:
        return r.choice(["", "a", "1", "ż😀", "x" * 300, "\"q\"", "\u0000", "null", "a\\b", "%d"]) + r.choice(["", str(r.randint(0, 99))])
    return r.choice([-1, -5, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1, 1.5, -0.25, 1e300, 10 ** 15])


def scalar(r):
    return r.choice([None, True, False, 0, -1, 1.5, 2 ** 31, 2 ** 40, 1e99, "", "x", [], {}, [1], {"a": 1}, [[]], {"": None}, ODD_TEXT[r.randrange(len(ODD_TEXT))]])


def tree(r, n):
    """Any JSON value of a limited size."""
    if n <= 0 or r.random() < 0.4:
        return scalar(r)
    if r.random() < 0.5:
        return [tree(r, n - 1) for _ in range(r.randint(0, 3))]
    return {r.choice(["uri", "text", "line", "position", "a", "", "ż"]): tree(r, n - 1) for _ in range(r.randint(0, 3))}


def text(r):
    q = r.random()
    if q < 0.15:
        return r.choice(ODD_TEXT)
    ls = [r.choice(["G1 X10 F100", "G0 X1 Y2 Z3", "T1 M6", "M30", "#1=2", "#2=#1+1", "X#1", "G2 X1 Y1 R5", "G81 Z-5 R2 F10", "N10", "(ż)", "?", "G", "X..", "#1=[1/0]", "IF [1 EQ 1] X1", "", "  ", "O1", "%", "G#1", "G21", "S100 M3",
                    "\t X1", "X1 (a:b:c)", "x" * r.choice([1, 50, 1500])]) for _ in range(r.choice([1, 3, 10, 40]))]
    return r.choice(["\n", "\n", "\r\n"]).join(ls) + r.choice(["", "\n"])


def params(r, m, uris):
    """Well-formed parameters."""
    u = r.choice(uris)
    extra = lambda d: dict(d, **({r.choice(["context", "workDoneToken", "a"]): tree(r, 2)} if r.random() < 0.15 else {}))
    td = lambda d: extra(dict(textDocument=extra(d)))
    if m == "textDocument/didOpen":
        return td(dict(uri=u, languageId="nc", version=r.choice([0, 1, -1, 99]), text=text(r))), u
    if m == "textDocument/didChange":
        d = td(dict(uri=u, version=r.choice([2, 3])))
        d["contentChanges"] = [dict(text=text(r)) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        return d, u
    if m in ("textDocument/didClose", "textDocument/codeLens"):
        return td(dict(uri=u)), u
    if m == "textDocument/hover" or m == "textDocument/completion":
        d = td(dict(uri=u))
        d["position"] = dict(line=r.choice([0, 0, 1, 2, 5, 9, 40, 41, 10 ** 6, 2 ** 31 - 1, -1, -2, -70000, -2 ** 31]), character=r.choice([0, 1, 2, 5, 10, 2 ** 31 - 1, -1, -2 ** 31]))
        return d, u
    if m == "codeLens/resolve":
        p = dict(line=r.choice([0, 1, 2, 5, 2 ** 31 - 1, -1, -2 ** 31]), character=0)
        d = dict(range=dict(start=p, end=dict(p)))
        if r.random() < 0.6:
            d["data"] = r.choice(uris + ["nowhere"])
        return extra(d), u
    if m == "completionItem/resolve":
        d = dict(label=r.choice(["G1", "G01", "M3", "M30", "#1", "#4109", "G", "M", "#", "", "x", "G999", "g1", "#x", "#99999999999", "Gż", "#-1"]))
        for k in ("kind", "data", "insertTextFormat"):
            if r.random() < 0.5:
                d[k] = tree(r, 2)
        return extra(d), u
    if m == "$/cancelRequest":
        return dict(id=jid(r)), u
    return r.choice([{}, dict(processId=1, rootUri=None, capabilities={}), dict(settings={})]), u


# where parameters are needed, and of which type
NEED = {"textDocument/hover": [("textDocument",), ("textDocument", "uri"), ("position",), ("position", "line"), ("position", "character")],
        "textDocument/codeLens": [("textDocument",), ("textDocument", "uri")],
        "codeLens/resolve": [("range",), ("range", "start"), ("range", "start", "line")],
        "completionItem/resolve": [("label",)],
        "textDocument/didOpen": [("textDocument",), ("textDocument", "uri"), ("textDocument", "text")],
        "textDocument/didChange": [("textDocument",), ("textDocument", "uri"), ("contentChanges",), ("contentChanges", 0), ("contentChanges", 0, "text")],
        "textDocument/didClose": [("textDocument",), ("textDocument", "uri")]}


def spoil(r, m, p):
    """Parameters that lack something the method needs, or have it of a wrong type."""
    p = json.loads(json.dumps(p))
    if r.random() < 0.1:
        return r.choice([None, 1, "x", [], True, {}])
    path = r.choice(NEED[m])
    if "contentChanges" in p:
        p["contentChanges"] = p["contentChanges"][:1]
    x = p
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    if r.random() < 0.5 and k != 0:
        del x[k]
    elif k in ("line", "character"):
        x[k] = r.choice([None, "1", 1.5, 2 ** 31, 2 ** 63, 1e99, [], {}, True, [1], -2 ** 31 - 1])
    elif k in ("uri", "text", "label"):
        x[k] = r.choice([None, 1, 1.5, True, [], {}, ["x"], {"uri": "x"}])
    elif k == "contentChanges":
        x[k] = r.choice([None, 1, "x", [], {}, {"text": "x"}, True])
    else:
        x[k] = r.choice([None, 1, "x", [], {}, True, [{}]])
    return p


def enc(r, d):
    """One of the encodings of a JSON value."""
    q = r.random()
    t = json.dumps(d, ensure_ascii=q < 0.5)
    if q < 0.1:
        t = json.dumps(d, indent=r.choice([0, 1, 3]))
    elif q < 0.2:
        t = r.choice([" ", "\n", "\t", "\r\n"]) + json.dumps(d, separators=(" , ", " :\n")) + r.choice(["", " ", "\r\n\r\n"])
    return t.encode("utf-8")


BROKEN = [b"{", b"}", b"[", b"", b" ", b"nul", b"{\"a\":}", b"{\"a\" 1}", b"{'a':1}", b"\"", b"\"\\u12\"", b"\"\\ud800\"", b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"shutdown\"", b"1 2", b"{}{}", b"{\"a\":1,}", b"[1,]", b"NaN", b"-", b"01",
          b"1e", b"\xff\xfe", b"\x00", b"//x", b"{\"a\":\x01}", b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"initialize\"}x", b"\"a\nb\"", b"\"\\x41\"", b"tru", b"{\"method\":\"exit\"", b"1e400"]
NOTREQ = [[], [1], 1, "x", None, True, 1.5, [{"jsonrpc": "2.0", "id": 1, "method": "initialize"}], -1, "exit", ["shutdown"]]


def message(r, uris=URIS, p_bad=0.35, stop=False):
    """(body, want, tag)."""
    q = r.random()
    if q < 1 - p_bad:
        m = r.choice(REQ + NOTE + ["textDocument/didOpen", "textDocument/didChange", "textDocument/hover", "textDocument/codeLens"])
        p, u = params(r, m, uris)
        d = dict(jsonrpc="2.0", method=m, params=p)
        if m in REQ:
            d["id"] = jid(r)
            w = ("res", d["id"])
        else:
            w = ("pub", u) if m in ("textDocument/didOpen", "textDocument/didChange") else ("none",)
        it = list(d.items())
        r.shuffle(it)
        return enc(r, dict(it)), w, "good " + m
    k = r.randrange(9)
    if k == 0:
        b = r.choice(BROKEN)
        if r.random() < 0.3:
            b = enc(r, dict(jsonrpc="2.0", id=1, method="initialize", params={}))
            b = b.rstrip()[:-1] if r.random() < 0.5 else b + r.choice([b"x", b"{}", b"]"])
        elif r.random() < 0.1:
            b = r.choice([b"[", b"{\"a\":", b"[{\"a\":"]) * r.choice([600, 5000, 200000])
        if not b:
            b = b" "
        return b, ("err", None, (-32700,)), "unparsable"
    if k == 1:
        if r.random() < 0.5:
            return enc(r, r.choice(NOTREQ)), ("err", None, (-32600,)), "not a request"
        i = jid(r)
        d = dict(jsonrpc="2.0", id=i, method=r.choice([1, None, [], {}, True, 1.5, ["initialize"]]))
        return enc(r, d), ("err", i, (-32600,)), "method is no string"
    if k == 2:
        i = jid(r)
        return enc(r, dict(jsonrpc="2.0", id=i, method=r.choice(UNKNOWN), params=tree(r, 3))), ("err", i, (-32601,)), "unknown request"
    if k == 3:
        return enc(r, dict(jsonrpc="2.0", method=r.choice(UNKNOWN), params=tree(r, 3))), ("none",), "unknown notification"
    if k == 4:
        m = r.choice(["textDocument/hover", "textDocument/codeLens", "codeLens/resolve", "completionItem/resolve"])
        p, u = params(r, m, uris)
        i = jid(r)
        if r.random() < 0.12 and m != "completionItem/resolve":
            return enc(r, dict(jsonrpc="2.0", id=i, method=m)), ("err", i, (-32602,)), "no parameters " + m
        return enc(r, dict(jsonrpc="2.0", id=i, method=m, params=spoil(r, m, p))), ("err", i, (-32602,)), "wrong parameters " + m
    if k == 5:
        m = r.choice(["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"])
        p, u = params(r, m, uris)
        d = dict(jsonrpc="2.0", method=m, params=spoil(r, m, p))
        if r.random() < 0.1:
            del d["params"]
        return enc(r, d), ("none",), "wrong parameters " + m
    if k == 6:
        m = r.choice(REQ)
        p, u = params(r, m, uris)
        return enc(r, dict(jsonrpc="2.0", method=m, params=p)), ("none",), "no id " + m
    if k == 7:
        i = jid(r)
        d = dict(jsonrpc="2.0", id=i)
        d[r.choice(["result", "result", "error"])] = tree(r, 2)
        return enc(r, d), ("none",), "a response"
    m = r.choice(NOTE)
    p, u = params(r, m, uris)
    i = jid(r)
    return enc(r, dict(jsonrpc="2.0", id=i, method=m, params=p)), ("err", i, (-32601,)), "notification with id " + m


def same_id(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (isinstance(a, float) or isinstance(b, float)) and float(a) == float(b)
    return type(a) == type(b) and a == b


def judge(want, m):
    """None, or what is wrong with a written message."""
    if not isinstance(m, dict) or m.get("jsonrpc") != "2.0":
        return "no message of JSON-RPC 2.0: %r" % (m,)
    if want[0] == "pub":
        if m.get("method") != "textDocument/publishDiagnostics" or "id" in m:
            return "no publication of diagnostics: %r" % (m,)
        p = m.get("params")
        if not isinstance(p, dict) or p.get("uri") != want[1] or not isinstance(p.get("diagnostics"), list):
            return "not a publication for %r: %r" % (want[1], m)
        return None
    if "method" in m or "id" not in m:
        return "no response: %r" % (m,)
    if not same_id(m["id"], want[1]):
        return "response with id %r, expected %r: %r" % (m["id"], want[1], m)
    if ("result" in m) == ("error" in m):
        return "both or none of result and error: %r" % (m,)
    if want[0] == "res" and "error" in m:
        return "an error instead of a result: %r" % (m,)
    if want[0] == "err":
        if "result" in m:
            return "a result instead of an error: %r" % (m,)
        e = m["error"]
        if not isinstance(e, dict) or e.get("code") not in want[2] or not isinstance(e.get("message"), str):
            return "error %r, expected code %s" % (e, want[2])
    return None
