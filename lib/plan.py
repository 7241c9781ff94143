"""What is done for each property."""
import json

import hints
from verif import Crash, porec

PROPERTIES = ["C%02d" % i for i in range(1, 27)]

ASSUMPTIONS = [
    "TLC evaluates the specification correctly; the harness (harness/src) hands the bytes to the public API unchanged and records what it returns",
    "conformance is established on the behaviours replayed and recorded here (bounded families and seeded random documents), not proved for all inputs",
]

FREE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C14", "C15", "C16", "C17", "C19", "C23"}
CAT = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C17", "C18", "C19", "C20"}

EXPR = {"C12", "C13"}

# families of other properties whose documents each property is watched on, too
CROSS = {"C01": ["C20"], "C02": ["C22"], "C03": ["C16"], "C04": ["C22"], "C05": ["C19"], "C06": ["C04"], "C07": ["C16"], "C08": ["C22"], "C09": ["C22"], "C10": ["C22"],
         "C11": ["C10"], "C14": ["C18"], "C15": ["C14"], "C16": ["C22"], "C17": ["C16"], "C18": ["C05", "C04"], "C19": ["C14"], "C20": ["C02"], "C23": ["C16", "C22"], "C24": ["C06", "C03"]}

USE = {"C25", "C26"}

# what recorded runs are checked against
TRACE_MODULE = {"C22": "WeakTrace", "C25": "UseTrace", "C26": "UseTrace"}


def model(name, module, **kw):
    d = {"kind": "model", "name": name, "module": module}
    d.update(kw)
    return d


def traces(prop, tier, seed, n, batches, **kw):
    return [dict({"kind": "trace", "name": "trace%d" % b, "seed": seed * 1000003 + int(prop[1:]) * 1009 + b * 7919, "n": n}, **kw)
            for b in range(batches)]


def deep_formula(cx, st):
    """The listed finding of C22, shown against the real code in a process of its own."""
    cx.harness()
    src, out = cx.scratch.path("deep.docs"), cx.scratch.path("deep.rec")
    n = 200000
    d = {"op": "big", "head": "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=", "unit": "-(", "mid": "n", "close": ")",
         "tail": ";\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n", "times": n, "probes": [[1]]}
    with open(src, "w") as f:
        f.write(json.dumps(d) + "\n")
    died = None
    try:
        porec(["record"], src, out, timeout=120)
    except Crash as e:
        died = str(e)
    if died is None:
        ev = json.loads(open(out).read())["evs"][0]
        if ev["ev"] != "summary" or not ev["cheap"]:
            cx.violation("trace", "a formula nested %d times: %s" % (n, ev["ev"]), d)
    elif "deep-formula" in cx.known_list and died.startswith("process ended with -"):
        cx.known.append("deep-formula")
    else:
        cx.violation("trace", "a formula nested %d times: %s" % (n, died), d)
    cx.stage(name=st["name"], times=n, died=died)


def dictionary(prop, tier, seed):
    """Random documents with what is new in the sources; none on the sources the specification was written for."""
    strings, numbers = hints.new()
    if not strings and not numbers:
        return []
    base = {"kind": "trace", "seed": seed * 1000003 + int(prop[1:]) * 1009 + 77, "hints": (strings, numbers)}
    s = [dict(base, name="dict", n={"C21": 150}.get(prop, 400 if prop in USE else 1000))]
    if prop in USE:
        s[0]["max"] = 8000
    if numbers and prop != "C21" and prop not in USE:
        s.append(dict(base, name="dictsize", n=0, sized=True, bytes=10**6 if tier == "quick" else 4 * 10**6))
    return s


def stages(prop, tier, seed):
    return main_stages(prop, tier, seed) + dictionary(prop, tier, seed)


def main_stages(prop, tier, seed):
    quick = tier == "quick"
    s = []
    if prop == "C22":
        s = [model("term", "MCTerm", env={"MAXLINES": "4" if quick else "6"}),
             model("repeated", "MCBig", env={"TIMES": "5000" if quick else "100000", "DEEP": "3000" if quick else "10000"}),
             {"run": deep_formula, "name": "deep"}]
        s += [model("cat-" + f, "MCCat", env={"FAMILY": f, "SIZE": "1"}) for f in (("C05", "C10", "C09", "C22") if quick else sorted(CAT | {"C22"}))]
        s += [model("expr", "MCExpr", env={"SIZE": "1" if quick else "2", "FAMILY": "C13"})]
        s += traces(prop, tier, seed, 2000, 1 if quick else 20)
        s += [dict(x, name="big%d" % i, seed=x["seed"] + 500, maker="big_for", max=10**6, bytes=5 * 10**5)
              for i, x in enumerate(traces(prop, tier, seed, 15, 1 if quick else 20))]
        return s
    if prop in USE:
        s.append(model("use", "MCUse", env={"ACTS": {"C25": "5", "C26": "4"}[prop] if quick else {"C25": "6", "C26": "5"}[prop]}))
        return s + traces(prop, tier, seed, 800, 1 if quick else 20)
    if prop in CAT:
        s.append(model("cat", "MCCat", env={"SIZE": "1" if quick else "2"}, deliver=prop == "C18"))
    if prop == "C18":
        s.append(model("delivery", "MCDelivery", env={"SIZE": "1" if quick else "2"}))
    if prop == "C21":
        s.append(model("multi", "MCMulti", env={"SIZE": "1" if quick else "2"}))
        return s + traces(prop, tier, seed, 150, 1 if quick else 20)
    if prop == "C23":
        s.append(model("err", "MCErr", env={"SIZE": "1" if quick else "2"}))
    if prop == "C24":
        s.append(model("msg", "MCMsg", env={"SIZE": "1" if quick else "2"}))
    if prop in CROSS:
        s += [model("cat-" + f, "MCCat", env={"FAMILY": f, "SIZE": "1"}) for f in (CROSS[prop] if quick else sorted((CAT | {"C22"}) - {prop}))]
    if prop in EXPR:
        s.append(model("expr", "MCExpr", env={"SIZE": "1" if quick else "2"}))
    if prop == "C13" and not quick:
        s.append(model("word64", "MC_Word64", replay=False))
    if prop in FREE:
        s.append(model("free", "MCFree", env={"MAXLINES": "4" if quick else "5"}))
    s += traces(prop, tier, seed, 1000 if prop in EXPR else 2000, 1 if quick else 20)
    s += [dict(x, name="big%d" % i, seed=x["seed"] + 500, maker="big_for", max=10**6, bytes=3 * 10**5)
          for i, x in enumerate(traces(prop, tier, seed, 10 if quick else 12, 1 if quick else 12))]
    return s


def replay(cx, v):
    raise NotImplementedError

READY = FREE | CAT | EXPR | {"C21", "C22", "C23", "C24"} | USE
TECHNIQUE = "TLA+ specification model-checked with TLC; behaviours replayed into the code; recorded runs validated against it"
NOT_APPLICABLE = [{"property": p, "reason": "not built yet"} for p in PROPERTIES if p not in READY]


def note(p):
    return ("TLC enumerates the bounded model exhaustively and checks the property on every history; every complete behaviour is replayed into the real "
            "reader and the observations the property is about are compared; seeded random documents are recorded from the real reader and TLC decides "
            "whether the specification explains them. Bounded: documents outside the families and the random sample are not covered.")
