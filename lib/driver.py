"""Runs the stages of a check, reports, writes the evidence."""
import json
import os
import queue
import sys
import threading
import time

import gen
import plan
from verif import BUILD, VERIF, Crash, Scratch, TlcRun, ToolError, build, culprit, json_lines, porec

REPLAYS = os.path.join(BUILD, "replay")
KNOWN = os.path.join(VERIF, "known_findings.txt")
MAX_BYTES = 15000           # of a random document: TLC reads it character by character


def text_of(v):
    if isinstance(v, str):
        return v
    try:
        return "".join(chr(c) for c in v)
    except (TypeError, ValueError):
        return str(v)


def bytes_text(segs):
    b = b"".join(s.encode() if isinstance(s, str) else bytes(s) for s in segs)
    return b.decode("utf-8", "backslashreplace")


def readable(v, alphabet=None):
    """A case, for people."""
    o = {}
    if "d" in v and alphabet:
        o["document"] = "".join(text_of(alphabet[i - 1]) + "\n" for i in v["d"])
    elif "segs" in v:
        o["document"] = bytes_text(v["segs"])
    for k in ("decl", "op", "schedule", "fault", "sizes", "kind", "line", "msg", "got", "exp_token"):
        if k in v and v[k] not in ([], None):
            o[k] = text_of(v[k]) if k in ("decl", "msg", "got", "line") else v[k]
    if "exp" in v:
        o["expected"] = [e.get("ev") for e in v["exp"]]
    if "evs" in v:
        o["observed"] = [e.get("ev") for e in v["evs"]]
    for k, x in o.items():
        if isinstance(x, str) and len(x) > 600:
            o[k] = x[:600] + "..."
    return o


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = Scratch(prop)
        self.built = threading.Event()
        self.build_error = None
        self.lock = threading.Lock()
        self.violations = []
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.stages = []
        self.known = []
        self.running = []
        self.stop = threading.Event()

    def quick(self):
        return self.tier == "quick"

    def build(self):
        try:
            build()
        except Exception as e:           # reported by whoever needs the harness
            self.build_error = e
        self.built.set()

    def harness(self):
        self.built.wait()
        if self.build_error:
            raise self.build_error

    def violation(self, kind, what, case):
        with self.lock:
            self.violations.append((kind, what, case))
            return len(self.violations)

    def stage(self, **kw):
        with self.lock:
            self.stages.append(kw)

    def tlc(self, name, module, env, **kw):
        if self.stop.is_set():
            raise Stopped()
        t = TlcRun(self.scratch, name, module, env, **kw)
        with self.lock:
            self.running.append(t)
        t.wait()
        with self.lock:
            self.states += t.distinct
            self.transitions += t.generated
        return t

    def sample(self, case, alphabet=None):
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append(readable(case, alphabet))


class Stopped(Exception):
    pass


# ---------------------------------------------------------------- stages
def model_stage(cx, st):
    """TLC explores a bounded model and checks it; what it exports is replayed."""
    t0 = time.time()
    env = {"PROP": cx.prop, "FAMILY": cx.prop, "EXPORT": "1" if st.get("replay", True) else "0"}
    env.update(st.get("env", {}))
    t = cx.tlc(st["name"], st["module"], env, cfg=st.get("cfg"), workers=st.get("workers", 4), heap=st.get("heap", "5g"),
               timeout=st.get("timeout", 850 if cx.quick() else 7200))
    replayed = 0
    if st.get("replay", True):
        cx.harness()
        replayed = do_replay(cx, st, t.out)
        if st.get("deliver"):
            do_replay(cx, dict(st, name=st["name"] + "-deliver", args=["--deliver"]), t.out)
        alphabet = None
        for i, v in enumerate(json_lines(t.out)):
            if "alphabet" in v:
                alphabet = v["alphabet"]
            elif i in (1, 997):
                cx.sample(v, alphabet)
            elif i > 997:
                break
        if replayed < st.get("least", 1):
            raise ToolError("%s exported only %d behaviours" % (st["name"], replayed))
    os.unlink(t.out)
    cx.stage(name=st["name"], module=st["module"], states=t.distinct, transitions=t.generated, replayed=replayed, wall_s=round(time.time() - t0, 1))


def do_replay(cx, st, path):
    out = cx.scratch.path(st["name"] + ".replay")
    args = ["replay"] + st.get("args", [])
    if cx.prop == "C22" and "--any" not in args:
        args.append("--any")              # only that it ends
    try:
        porec(args, path, out, timeout=800 if cx.quick() else 5000)
    except Crash as e:
        lines = [l for l in open(path, errors="replace") if l.startswith('"{')]
        head = [l for l in lines if l.startswith('"{\\"alphabet')]
        cases = [l for l in lines if not l.startswith('"{\\"alphabet')]
        if e.index is not None and e.index < len(cases):
            bad = cases[e.index]
        else:
            bad = culprit(cx.scratch, cases, args, head)
        case = json.loads(json.loads(bad))
        case["alphabet"] = json.loads(json.loads(head[0]))["alphabet"] if head else None
        cx.violation("replay", "the reader dies or hangs: %s" % e, {"args": args[1:], "case": case})
        return len(cases)
    n = 0
    for l in open(out, errors="replace"):
        v = json.loads(l)
        if "replayed" in v:
            n = v["replayed"]
            cx.validated += n - v["mismatches"]
        else:
            k = v["at"] - 1
            exp = v["exp"][k] if k < len(v["exp"]) else None
            got = v["evs"][k] if k < len(v["evs"]) else None
            cx.violation("replay", "return %d differs in %s: expected %s, got %s" % (k + 1, ",".join(v["why"]), brief(exp, v["why"]), brief(got, v["why"])),
                         {"args": args[1:], "case": v})
    return n


def brief(e, why):
    if e is None:
        return "nothing"
    o = {"ev": e.get("ev")}
    for k in why:
        if k in e:
            o[k] = e[k]
    return json.dumps(o)[:300]


def size_of(d):
    return sum(len(s) for s in d.get("segs", [])) + sum(size_of(x) for x in d.get("docs", []))


def split_multi(rec):
    """A record of several readers as one record per reader (and opening)."""
    out = []
    for l in open(rec):
        d = json.loads(l)
        if d.get("op") != "multi":
            out.append(d)
            continue
        cur, evs = {}, list(d["evs"])
        dead = set()
        for i in d["schedule"]:
            k = abs(i)
            if i < 0:
                if k in cur:
                    out.append(cur.pop(k))
                dead.discard(k)
                continue
            if k in dead:
                continue
            if k not in cur:
                cur[k] = {x: v for x, v in d["docs"][k - 1].items() if x != "op"}
                cur[k].update(evs=[], of=d["id"], who=k)
            e = evs.pop(0)
            cur[k]["evs"].append(e)
            if e["ev"] == "panic" or (len(cur[k]["evs"]) == 1 and e["ev"] != "opened"):
                dead.add(k)
        out += cur.values()
    for n, d in enumerate(out):
        d["id"] = n + 1
    with open(rec, "w") as f:
        for d in out:
            f.write(json.dumps(d) + "\n")
    return out


def trace_stage(cx, st):
    """Random documents are read by the real code; TLC decides whether the specification explains the run."""
    t0 = time.time()
    name = st["name"]
    m = gen.Makers(st["seed"], st.get("hints"))
    maker, of = getattr(m, st.get("maker", "make")), st.get("gen", cx.prop)
    make = lambda: maker(of)
    docs, total = [], 0
    try:
        docs = m.sizes_for(st["hints"][1], st["bytes"]) if st.get("sized") else []
        total = sum(size_of(d) for d in docs)
        while len(docs) < st["n"] and total < st.get("bytes", 10**6):
            d = make()
            if size_of(d) <= st.get("max", MAX_BYTES):
                docs.append(d)
                total += size_of(d)
    except Exception as e:
        if not st.get("hints"):
            raise
        cx.stage(name=name, skipped="the words of the sources are of no use here: %r" % e)
        if not docs:
            return
    src, rec = cx.scratch.path(name + ".docs"), cx.scratch.path(name + ".rec")
    if cx.prop == "C22":
        for d in docs:
            d["exhaust"] = True
    lines = [json.dumps(d) + "\n" for d in docs]
    with open(src, "w") as f:
        f.writelines(lines)
    cx.harness()
    try:
        porec(["record"], src, rec, timeout=600)
    except Crash as e:
        bad = lines[e.index] if e.index is not None else culprit(cx.scratch, lines, ["record"], [])
        cx.violation("trace", "the reader dies or hangs: %s" % e, json.loads(bad))
        return
    whole = None
    if docs and docs[0].get("op") == "multi":
        whole = {d["id"]: d for d in map(json.loads, open(rec))}
        expected = len(split_multi(rec))
    else:
        expected = len(docs)
    verdicts = validate(cx, name, rec, st.get("workers", 3), st.get("env", {}))
    by_id = None
    acc = 0
    for v in verdicts:
        if v["verdict"] == "ACCEPT":
            acc += 1
        else:
            if by_id is None:
                by_id = {d["id"]: d for d in map(json.loads, open(rec))}
            d = by_id[v["doc"]]
            k = v["k"] - 1
            got = d["evs"][k] if k < len(d["evs"]) else None
            why = v["why"] if isinstance(v["why"], list) else [v["why"]]
            if whole:
                d = whole[d["of"]]
            cx.violation("trace", "return %d is not explained (%s): expected %s, got %s"
                         % (k + 1, ",".join(why), json.dumps(v.get("exp"))[:300], brief(got, why)), d)
    if len(verdicts) != expected:
        raise ToolError("%s: %d documents, %d verdicts" % (name, expected, len(verdicts)))
    with cx.lock:
        cx.validated += acc
    for d in docs[:2]:
        cx.sample(d)
    cx.stage(name=name, module=plan.TRACE_MODULE.get(cx.prop, "Trace"), recorded=len(docs), bytes=total, accepted=acc, wall_s=round(time.time() - t0, 1))
    os.unlink(src)
    os.unlink(rec)


def validate(cx, name, rec, workers, env):
    e = {"PROP": cx.prop, "TRACE_FILE": rec}
    e.update(env)
    t = cx.tlc(name, plan.TRACE_MODULE.get(cx.prop, "Trace"), e, workers=workers, timeout=850 if cx.quick() else 7200)
    r = [v for v in json_lines(t.out) if "verdict" in v]
    os.unlink(t.out)
    return r


KINDS = {"model": model_stage, "trace": trace_stage}


# ---------------------------------------------------------------- the check
def known_findings(prop):
    """Lines "known: property=ID id=NAME what"; "fixed: ..." lines suppress nothing."""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                name, _, what = rest.partition(" ")
                r[name.split("=", 1)[1]] = what
    return r


def check(prop, tier, seed, t0):
    if prop not in plan.PROPERTIES:
        raise ToolError("unknown property " + prop)
    cx = Context(prop, tier, seed)
    cx.known_list = known_findings(prop)
    stages = plan.stages(prop, tier, seed)
    threading.Thread(target=cx.build, daemon=True).start()
    todo = queue.Queue()
    for s in stages:
        todo.put(s)
    errors = []

    def work():
        while not cx.stop.is_set():
            try:
                s = todo.get_nowait()
            except queue.Empty:
                return
            try:
                fn = s["run"] if "run" in s else KINDS[s["kind"]]
                fn(cx, s)
            except Stopped:
                return
            except Exception as e:
                errors.append(e)
                cx.stop.set()
            if cx.violations:
                cx.stop.set()

    ts = [threading.Thread(target=work, daemon=True) for _ in range(3)]
    for t in ts:
        t.start()
    try:
        while any(t.is_alive() for t in ts):
            for t in ts:
                t.join(0.2)
            if cx.stop.is_set():
                # a violation has been seen: the rest is not needed
                with cx.lock:
                    for r in cx.running:
                        r.kill()
        cx.built.wait()
        bad = len(cx.violations)
        if not bad:
            if errors:
                raise errors[0] if isinstance(errors[0], ToolError) else ToolError(repr(errors[0]))
            if cx.build_error:
                raise cx.build_error
        evidence(cx, t0, bad)
        for name in cx.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, name, cx.known_list[name]))
        if bad:
            report(cx)
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d validated=%d wall=%.1fs"
              % (prop, tier, cx.states, cx.transitions, cx.validated, time.time() - t0))
        return 0
    finally:
        with cx.lock:
            for r in cx.running:
                r.kill()
        cx.scratch.clean()


def report(cx):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s.json" % cx.prop)
    kind, what, case = cx.violations[0]
    with open(path, "w") as f:
        json.dump({"property": cx.prop, "kind": kind, "what": what, "case": case}, f)
    c = case.get("case", case)
    print("violation: " + what)
    print("case: " + json.dumps(readable(c, c.get("alphabet")), ensure_ascii=True)[:1500])
    print("(%d violations seen; rerun this one with: python3 check.py %s --replay %s)" % (len(cx.violations), cx.prop, path))
    print("VIOLATION property=%s replay=%s" % (cx.prop, path))


def evidence(cx, t0, bad):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": cx.states, "transitions": cx.transitions, "traces_validated_against_impl": cx.validated, "samples": cx.samples, "stages": cx.stages}
    o = {"property": cx.prop, "tier": cx.tier, "seed": cx.seed, "level": "model_checking", "coverage": cov,
         "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": bad}
    tmp = os.path.join(d, cx.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(o, f, indent=1)
    os.rename(tmp, os.path.join(d, cx.prop + ".json"))


def replay(prop, path):
    """Runs one recorded violation again."""
    v = json.load(open(path))
    build()
    cx = Context(prop, "quick", 1)
    cx.built.set()
    try:
        if v["kind"] == "replay":
            case = v["case"]["case"]
            src = cx.scratch.path("one.out")
            with open(src, "w") as f:
                if case.get("alphabet"):
                    f.write(json.dumps(json.dumps({"alphabet": case["alphabet"]}, separators=(",", ":"))) + "\n")
                f.write(json.dumps(json.dumps(case)) + "\n")
            do_replay(cx, {"name": "one", "args": v["case"]["args"]}, src)
        elif v["kind"] == "trace":
            src, rec = cx.scratch.path("one.docs"), cx.scratch.path("one.rec")
            d = dict(v["case"])
            d.pop("evs", None)
            with open(src, "w") as f:
                f.write(json.dumps(d) + "\n")
            try:
                porec(["record"], src, rec)
                one = json.loads(open(rec).read())
                if one.get("op") == "multi":
                    split_multi(rec)
                for r in validate(cx, "one", rec, 1, {}):
                    if r["verdict"] != "ACCEPT":
                        cx.violation("trace", json.dumps(r)[:600], one)
            except Crash as e:
                cx.violation("trace", str(e), d)
        else:
            plan.replay(cx, v)
        if cx.violations:
            print("violation: " + cx.violations[0][1])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("the recorded case passes now")
        return 0
    finally:
        cx.scratch.clean()
