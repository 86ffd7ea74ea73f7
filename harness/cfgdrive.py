"""Drivers for configuration trees (C17, C18)."""
import ast
import copy
import io
import logging
import os
import random
import shutil
import tempfile

import gs  # noqa: F401
import yaml
from gradslam.config import CfgNode as CN
from gradslam.config import cfgnode as cm

logging.disable(logging.CRITICAL)


# ------------------------------------------------------------ observation
def plain(v):
    """As yaml gives it back."""
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


def leaf(v):
    t = type(v).__name__
    if v is None or t not in ("int", "float", "str", "bool", "list", "tuple"):
        return dict(t="bad:" + t, v=repr(v), c="", y="")
    c = repr(tuple(v)) if t == "list" else repr(list(v)) if t == "tuple" else repr(v)
    return dict(t=t, v=repr(v), c=c, y=repr(plain(v)))


def tree(x):
    if isinstance(x, CN):
        ks = list(x.keys())
        return dict(t="node", fz=bool(x.is_frozen()), nw=bool(x.is_new_allowed()), k=[str(k) for k in ks], s=[tree(dict.__getitem__(x, k)) for k in ks])
    if isinstance(x, dict):
        ks = list(x.keys())
        return dict(t="node", fz=False, nw=False, k=[str(k) for k in ks], s=[tree(x[k]) for k in ks])
    return leaf(x)


def ids(x, acc=None):
    """Mutable objects reachable from x."""
    acc = {} if acc is None else acc
    if isinstance(x, dict):
        acc[id(x)] = x
        for v in dict.values(x):
            ids(v, acc)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            acc[id(x)] = x
        for v in x:
            ids(v, acc)
    return acc


def sub(x, p):
    for k in p:
        x = dict.__getitem__(x, k)
    return x


def through_yaml(raw, exp):
    """A YAML file has no tuples, except in strings that are decoded."""
    if isinstance(exp, dict):
        return dict((k, through_yaml(raw[k], exp[k])) for k in exp)
    return exp if isinstance(raw, str) else lists(exp)


class Session(object):
    def __init__(self, case):
        self.c, self.steps, self.ids = case, [], {}
        self.cfg, self.src, self.dep, self.ren = [], [], [], []
        self.dir = tempfile.mkdtemp(prefix="cfg_")
        self.n = 0

    def dig(self, o):
        r = repr(tree(o)) if isinstance(o, dict) else repr(o)
        return self.ids.setdefault(r, len(self.ids))

    def step(self, op, what, i, fun, may=(), **given):
        s = dict(op=op, prop=self.c["prop"], what=what, refused=False, err="", **given)
        objs = [("another configuration", c, j == i) for j, c in enumerate(self.cfg)] + [
            (n, o, any(o is m for m in may)) for n, o in self.src]
        before = [self.dig(o) for _, o, _ in objs]
        if i is not None:
            s["pre"] = tree(self.cfg[i])
        out = None
        try:
            out = fun()
        except Exception as e:
            s["refused"], s["err"] = True, "%s %s" % (type(e).__name__, e)
        s["objs"] = [dict(name=n, before=b, after=self.dig(o), may=m) for (n, o, m), b in zip(objs, before)]
        if i is not None:
            s["post"] = tree(self.cfg[i])
        self.steps.append(s)
        return s, out

    def shares(self, a, b):
        x, y = ids(a), ids(b)
        return any(k in y for k in x)

    # ------------------------------------------------------------ operations
    def new(self, raw, bad=False, flags=()):
        """raw: nested dict; flags: paths of nodes that allow new keys."""
        d = copy.deepcopy(raw)
        i = len(self.cfg)
        s, o = self.step("new", "construction", None, lambda: CN(d), bad=bad, a=tree(d), got=tree({}), shared=False)
        if o is None:
            return
        s["got"], s["shared"] = tree(o), self.shares(o, d)
        for p in flags:
            sub(o, p).__dict__[CN.NEW_ALLOWED] = True
        self.src.append(("the source dictionary", d))
        self.cfg.append(o)
        self.dep.append(set())
        self.ren.append({})
        return i

    def registry(self, i, p):
        if p:
            return [], []
        return sorted(self.dep[i]), sorted(self.ren[i])

    def merge(self, i, p, raw, exp, how):
        """raw: nested dict as given; exp: nested dict of decoded values."""
        target = sub(self.cfg[i], p)
        dep, ren = self.registry(i, p)
        if how in ("yaml", "py", "text"):
            raw, exp = copy.deepcopy(raw), copy.deepcopy(exp)
        if how == "other":
            a = CN(copy.deepcopy(raw))
            if self.c["fz_src"]:
                a.freeze()
            self.src.append(("the merged configuration", a))
            f = lambda: target.merge_from_other_cfg(a)
        else:
            self.n += 1
            name = os.path.join(self.dir, "c%d%s" % (self.n, {"yaml": ".yaml", "py": ".py", "text": ""}[how]))
            if how == "py":
                text = "inf = float('inf')\ncfg = %r\n" % (raw,)
            else:
                raw, exp = lists(raw), through_yaml(raw, exp)
                text = yaml.safe_dump(raw)
            with open(name, "w") as fh:
                fh.write(text)
            a = None
            f = lambda: target.merge_from_file(name)
        s, _ = self.step("merge", "merge_from_" + ("other_cfg" if how == "other" else "file"), i, f, p=p, a=tree(exp), dep=dep, ren=ren, shared=False)
        if a is not None:
            s["shared"] = self.shares(self.cfg[i], a)
        self.renamed(s, [".".join(q) for q in paths(raw)], i, p)

    def has(self, i, p):
        x = self.cfg[i]
        for k in p:
            if not (isinstance(x, dict) and k in x):
                return False
            x = dict.__getitem__(x, k)
        return isinstance(x, CN)

    def renamed(self, s, names, i, p):
        """When a renamed key is the only thing to refuse."""
        if not p and s["err"].startswith("KeyError"):
            hit = [n for n in names if n in self.ren[i] and self.has(i, n.split(".")[:-1])]
            if len(names) == 1 and hit and not sub(self.cfg[i], p).is_frozen():
                self.steps.append(dict(op="rename", prop=self.c["prop"], what=s["what"], refused=s["refused"], objs=[],
                                       named=self.ren[i][hit[0]] in s["err"]))

    def override(self, i, p, raw, exp, odd=False):
        """raw, exp: lists of (path, value)."""
        target = sub(self.cfg[i], p)
        dep, ren = self.registry(i, p)
        args = []
        for q, v in raw:
            args += [".".join(q), copy.deepcopy(v)]
        if odd:
            args.append("A")
        self.src.append(("the override list", args))
        s, _ = self.step("list", "merge_from_list", i, lambda: target.merge_from_list(args), p=p, odd=odd, dep=dep, ren=ren,
                         os=[dict(p=list(q), full=".".join(q), v=tree(v)) for q, v in exp], shared=False)
        s["shared"] = self.shares(self.cfg[i], args)
        if not odd:
            self.renamed(s, [".".join(q) for q, _ in raw], i, p)

    def set(self, i, p, key, v):
        n = sub(self.cfg[i], p)
        v = copy.deepcopy(v)
        internal = key in n.__dict__
        if isinstance(v, list):
            v = list(v)
        e = tree(v) if isinstance(v, CN) else leaf(v)
        self.step("set", "attribute assignment", i, lambda: setattr(n, key, v), p=p, key=key, internal=internal, v=e)

    def freeze(self, i, p, f):
        n = sub(self.cfg[i], p)
        self.step("freeze" if f else "defrost", "freeze" if f else "defrost", i, n.freeze if f else n.defrost, p=p)

    def clone(self, i, p):
        n = sub(self.cfg[i], p)
        s, o = self.step("clone", "clone", i, n.clone, p=p, got=tree({}), keys=False, shared=False)
        if not isinstance(o, CN):
            return
        s["got"], s["shared"] = tree(o), self.shares(o, self.cfg[i])
        d, r = self.registry(i, p)
        s["keys"] = all(bool(o.key_is_deprecated(k)) == (k in d) and bool(o.key_is_renamed(k)) == (k in r) for k in ("D", "N.D", "R", "N.R", "Q", "A"))
        self.cfg.append(o)
        self.dep.append(set(d))
        self.ren.append(dict(self.ren[i]) if not p else {})

    def dump(self, i, p, how):
        n = sub(self.cfg[i], p)

        def f():
            text = n.dump()
            if how == "string":
                return CN.load_cfg(text)
            if how == "function":
                return cm.load_cfg(text)
            self.n += 1
            name = os.path.join(self.dir, "d%d.yaml" % self.n)
            with io.open(name, "w", encoding="utf8") as fh:
                fh.write(text)
            with io.open(name, encoding="utf8") as fh:
                return CN.load_cfg(fh)
        s, o = self.step("dump", "dump", i, f, p=p, got=tree({}))
        if isinstance(o, CN):
            s["got"] = tree(o)

    def poke(self, i, p):
        """The user changes a list in place."""
        v = sub(self.cfg[i], p)
        self.step("poke", "changing a list of one configuration", i, lambda: v.append(99))

    def poke_source(self, k):
        """The user changes what was merged."""
        n, o = self.src[k]

        def f():
            for x in list(ids(o).values()):
                if isinstance(x, list):
                    x.append(98)
        self.step("poke", "changing what was merged", None, f, may=[o])

    def register(self, i, dep, ren):
        def f():
            for k in dep:
                self.cfg[i].register_deprecated_key(k)
            for k, v in ren.items():
                self.cfg[i].register_renamed_key(k, v, *(["do so"] if len(k) % 2 else []))
        self.step("register", "registration", i, f)
        self.dep[i] |= set(dep)
        self.ren[i].update(ren)

    def get(self, i, p):
        n = self.cfg[i]
        ok = True
        for k in p:
            ok = ok and getattr(n, k) is dict.__getitem__(n, k)
            n = getattr(n, k)
        try:
            n.NO_SUCH_KEY
            ok = False
        except AttributeError:
            pass
        except Exception:
            ok = False
        self.steps.append(dict(op="get", prop=self.c["prop"], what="get", objs=[], ok=ok))

    def mutate(self, i, p, how):
        n = sub(self.cfg[i], p)
        fs = {"item assignment": lambda: n.__setitem__("A", 77), "update": lambda: n.update({"A": 77}), "pop": lambda: n.pop("A"),
              "popitem": lambda: n.popitem(), "item deletion": lambda: n.__delitem__("A"), "clear": lambda: n.clear(),
              "setdefault": lambda: n.setdefault("NEWKEY", 77), "in-place union": lambda: n.__ior__({"A": 77})}
        self.step("mutate", how, i, fs[how], p=p)


MUTATORS = ["item assignment", "update", "pop", "popitem", "item deletion", "clear", "setdefault", "in-place union"]


def lists(x):
    """yaml has no tuples."""
    if isinstance(x, dict):
        return dict((k, lists(v)) for k, v in x.items())
    return plain(x)


def paths(d, pre=()):
    res = []
    for k, v in d.items():
        if isinstance(v, dict):
            res += paths(v, pre + (k,))
        else:
            res.append(pre + (k,))
    return res


def run_case(case):
    S = Session(case)
    try:
        for op in case["ops"]:
            getattr(S, op[0])(*[copy.deepcopy(a) for a in op[1:]])
            if not S.cfg and op[0] == "new":
                break
        return {"steps": S.steps}
    finally:
        shutil.rmtree(S.dir)


# ------------------------------------------------- sessions from the model
def value(x):
    t, v = x["t"], x["v"]
    return {"int": lambda: int(v), "str": lambda: v, "list": lambda: [int(v)], "tuple": lambda: (int(v),), "none": lambda: None}[t]()


def nested(x):
    return dict((k, nested(v)) for k, v in zip(x["k"], x["s"])) if x["t"] == "node" else value(x)


def encode(rng, v):
    """Some written form of v that decodes to it."""
    if isinstance(v, dict):
        return v
    if "inf" in repr(v):
        return v
    if isinstance(v, str):
        return rng.choice((v, v, repr(v))) if v in PLAIN else repr(v)
    return rng.choice((v, v, repr(v)))


def encode_tree(rng, d):
    return dict((k, encode_tree(rng, v) if isinstance(v, dict) else encode(rng, v)) for k, v in d.items())


def mech_case(rng, prop, hist, level):
    base = {"A": 1, "N": {"C": [1]}} if level == 1 else {"A": 1, "N": {"B": "x", "M": {"C": [1]}}}
    ops = [["new", base, False, [["N"]]], ["register", 0, ["D", "N.D"], {"R": "NEW.R"}]]
    for h in hist:
        i = h["i"] - 1
        if h["op"] == "merge":
            d = nested(h["a"])
            ops.append(["merge", i, [], d, d, "other" if h["how"] == "other" else rng.choice(("yaml", "py", "text"))])
        elif h["op"] == "list":
            e = [[o["p"], value(o["v"])] for o in h["os"]]
            ops.append(["override", i, [], [[p, encode(rng, v)] for p, v in e], e])
        elif h["op"] == "set":
            ops.append(["set", i, h["p"], h["key"], value(h["v"])])
        elif h["op"] in ("freeze", "defrost"):
            ops.append(["freeze", i, h["p"], h["op"] == "freeze"])
        else:
            ops.append(["clone", i, []])
    # sharing shows afterwards
    c = ["N", "C"] if level == 1 else ["N", "M", "C"]
    ops += [["poke", 0, c], ["dump", 0, [], rng.choice(("string", "function", "file"))]]
    return dict(prop=prop, ops=ops, fz_src=rng.random() < .2)


# ------------------------------------------------------------ random sessions
PLAIN = ["foo", "a_b", "hello world", "a/b.txt", "x-y", "data set 1", "a:b"]
NASTY = ["yes", "null", "1", "1.0", "~", "", " lead", "trail ", "two\nlines", "\u00e9", "#x", "a: b", "- a", "'", '"', "0o7", "1_000", "2001-01-01",
         "=", "<<", "1e3", "1e-3", "true", "[1]", "{a: 1}", "%", "@x", "\t", "0x1F", "1:30", "!!int 3", "&a", "*a", "|", ">", "a#b", "a #b", "None"]
KEYS = ["A", "B", "C", "N", "M", "X", "LONG_KEY", "k1"]


def rnd_leaf(rng, depth=0, nasty=False):
    r = rng.randrange(7)
    if r == 0:
        return rng.randint(-5, 100)
    if r == 1:
        return rng.choice((0.5, -1.25, 1e-5, 1e20, 3.0, 0.1, float("inf"), 123456.789))
    if r == 2:
        return rng.random() < .5
    if r in (3, 4):
        return rng.choice(NASTY) if nasty and rng.random() < .7 else rng.choice(PLAIN)
    n = rng.randint(0, 3)
    xs = [rnd_leaf(rng, depth + 1, nasty) if depth < 1 else rng.randint(0, 9) for _ in range(n)]
    return xs if r == 5 else tuple(xs)


def rnd_tree(rng, depth=0, nasty=False):
    d = {}
    for k in rng.sample(KEYS, rng.randint(1 if depth == 0 else 0, 4)):
        d[k] = rnd_tree(rng, depth + 1, nasty) if depth < 3 and rng.random() < .4 else rnd_leaf(rng, 0, nasty)
    return d


def nodes(d, pre=()):
    res = [list(pre)]
    for k, v in d.items():
        if isinstance(v, dict):
            res += nodes(v, pre + (k,))
    return res


def same_type(rng, v):
    if isinstance(v, (list, tuple)):
        x = [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
        if rng.random() < .3:
            x.append([rng.randint(0, 9)])
        return rng.choice((list, tuple))(x)
    for _ in range(50):
        w = rnd_leaf(rng)
        if type(w) is type(v):
            return w
    return v


def rnd_patch(rng, d, wrong, new):
    """Part of the keys of d, some with other types, some new."""
    res = {}
    for k, v in d.items():
        if rng.random() < .55:
            continue
        if rng.random() < wrong:
            res[k] = rnd_leaf(rng) if rng.random() < .6 else {"Z": 1}
        elif isinstance(v, dict):
            res[k] = rnd_patch(rng, v, wrong, new)
        else:
            res[k] = same_type(rng, v)
    if rng.random() < new:
        k = rng.choice(KEYS + ["NEW1", "NEW2"])
        res[k] = rnd_leaf(rng) if rng.random() < .6 else {"Z": rnd_leaf(rng)}
    ks = list(res)
    rng.shuffle(ks)
    return dict((k, res[k]) for k in ks)


def written(rng, d, base):
    """Values written as text where the key exists as a leaf of the base."""
    return dict((k, written(rng, v, base[k] if isinstance(base.get(k), dict) else {}) if isinstance(v, dict) else
                 encode(rng, v) if k in base and not isinstance(base[k], dict) else v) for k, v in d.items())


def lists_of(d, pre=()):
    res = []
    for k, v in d.items():
        if isinstance(v, dict):
            res += lists_of(v, pre + (k,))
        elif isinstance(v, list):
            res.append(list(pre) + [k])
    return res


def session(rng, prop):
    base = rnd_tree(rng)
    ns = nodes(base)
    flags = [p for p in ns if rng.random() < .25]
    ops = [["new", base, False, flags]]
    deep = [".".join(p) for p in ns if p]
    dep = [k for k in ("D", "A.D", "N.D") if rng.random() < .5] + [p + ".D" for p in deep if rng.random() < .4]
    ren = dict((k, "NEW." + k) for k in ["R", "N.R"] + [p + ".R" for p in deep] if rng.random() < .6)
    dep = sorted(set(dep))
    # only names that cannot be added anyway
    ok = lambda f: f.split(".")[:-1] not in flags
    dep, ren = [k for k in dep if ok(k)], dict((k, v) for k, v in ren.items() if ok(k))
    ops.append(["register", 0, dep, ren])
    n = 1
    frozen = prop == "C18"
    for _ in range(rng.randint(3, 8)):
        i = rng.randrange(n)
        r = rng.random()
        p = [] if rng.random() < .8 else rng.choice(ns)
        part = base
        for k in p:
            part = part[k]
        if r < .3:
            d = rnd_patch(rng, part, rng.choice((0, 0, .1)), rng.choice((0, .15, .3)))
            q = rng.random()
            if q < .12 and dep:
                d = nest(rng.choice(dep), d)
            elif q < .24 and ren:
                d = nest(rng.choice(sorted(ren)), d if rng.random() < .5 else {})
            ops.append(["merge", i, p, written(rng, d, part), d, rng.choice(("other", "other", "yaml", "py", "text"))])
        elif r < .55:
            ps = paths(part)
            e = []
            for _ in range(rng.randint(1, 4)):
                q = rng.random()
                if q < .75 and ps:
                    x = list(rng.choice(ps))
                    v = part
                    for k in x:
                        v = v[k]
                    e.append([x, same_type(rng, v) if rng.random() < .9 else rnd_leaf(rng)])
                elif q < .82 and dep:
                    e.append([rng.choice(dep).split("."), 5])
                elif q < .9 and ren:
                    e.append([rng.choice(sorted(ren)).split("."), 5])
                elif q < .95:
                    e.append([[rng.choice(KEYS), rng.choice(KEYS)], 5])
                else:
                    e.append([["NEW1"], 3])
            ops.append(["override", i, p, [[x, encode(rng, v)] for x, v in e], e, rng.random() < .06])
        elif r < .7:
            key = rng.choice(KEYS + ["NEW3", "__immutable__", "__deprecated_keys__"])
            ops.append(["freeze", i, p, rng.random() < .6] if rng.random() < (.7 if frozen else .4) else ["get", i, p])
        elif r < .78:
            ops.append(["clone", i, [] if rng.random() < .8 else p])
            if ops[-1][2] == []:
                n += 1
            else:
                ops.pop()
        elif r < .9:
            ls = lists_of(base)
            ops.append(["poke", i, rng.choice(ls)] if ls and prop == "C17" and False else ["poke_source", 0])
        else:
            ops.append(["dump", i, p, rng.choice(("string", "function", "file"))])
    return dict(prop=prop, ops=ops, fz_src=rng.random() < .2)


def nest(full, d):
    ks = full.split(".")
    res = copy.deepcopy(d)
    cur = res
    for k in ks[:-1]:
        if not isinstance(cur.get(k), dict):
            cur[k] = {}
        cur = cur[k]
    cur[ks[-1]] = 5
    return res


def frozen_session(rng):
    """Assignment, freezing, cloning, dumping (C18)."""
    base = rnd_tree(rng, nasty=True)
    ns = nodes(base)
    ops = [["new", base, False, [p for p in ns if rng.random() < .25]], ["register", 0, ["D"], {"R": "S"}]]
    n = 1
    for _ in range(rng.randint(4, 10)):
        i, p = rng.randrange(n), rng.choice(ns)
        r = rng.random()
        if r < .4:
            key = rng.choice(["NEW1", "NEW2", "__immutable__", "__new_allowed__", "__renamed_keys__"]) if rng.random() < .4 else None
            part = base
            for k in p:
                part = part[k]
            leaves = [k for k, v in part.items() if not isinstance(v, dict)]
            if key is None:
                key = rng.choice(leaves or ["NEW1"])
            v = rng.choice((rnd_leaf(rng, 0, True), rnd_leaf(rng, 0, True), rnd_leaf(rng), NODE, None, BADDICT))
            ops.append(["setv", i, p, key, v])
        elif r < .65:
            ops.append(["freeze", i, p, rng.random() < .6])
        elif r < .75:
            ops.append(["clone", i, []])
            n += 1
        elif r < .9:
            ops.append(["dump", i, p, rng.choice(("string", "function", "file"))])
        else:
            ops.append(["get", i, p])
    return dict(prop="C18", ops=ops, fz_src=False)


NODE, BADDICT = "#node", "#dict"


def setv(self, i, p, key, v):
    """set with values that are not plain data."""
    if v == NODE:
        v = CN({"Z": 1, "Y": {"X": [1]}})
    elif v == BADDICT:
        v = {"Z": 1}
    self.set(i, p, key, v)


Session.setv = setv


def bad_trees():
    bads = [{"A": None}, {"A": {"B": None}}, {"A": {1, 2}}, {"A": 1j}, {"A": b"x"}, {"A": object}]
    return [dict(prop="C18", ops=[["new", b, True]], fz_src=False) for b in bads]


def mutate_cases():
    return [dict(prop="C18", ops=[["new", {"A": 1, "N": {"A": 2}}, False, []], ["freeze", 0, [], True], ["mutate", 0, p, m]], fz_src=False)
            for m in MUTATORS for p in ([], ["N"])]


def corrupt(trace, rng):
    """Disturb one observed value."""
    ss = [s for s in trace["steps"] if s["op"] in (("merge", "list") if s["prop"] == "C17" else ("set", "freeze", "defrost"))]
    rng.shuffle(ss)
    for s in ss:
        s["post"]["k"].append("CORRUPT")
        s["post"]["s"].append(leaf(1))
        return trace
    return None
