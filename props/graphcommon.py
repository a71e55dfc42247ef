"""GraphMDL: data graphs with symbolic labels, and the oracles shared by C22 and C23"""
import collections
import math
import time

import networkx as nx
from networkx.algorithms import isomorphism as iso

from symx.symstr import SymStr, sym_str, str_value
from .common import *

P = "skmine.graph.graphmdl."


def labs(x):
    """labels of a vertex: none, one, or a tuple of labels"""
    if x is None:
        return []
    return [x] if isinstance(x, (str, SymStr)) else list(x)


def has(xs, y):
    for x in xs:
        if x == y:
            return True
    return False


def same_set(a, b):
    return all(has(b, x) for x in a) and all(has(a, x) for x in b)


IDS = {None: lambda i: i, "str": lambda i: "n%d" % i, "zero": lambda i: i - 1, "tuple": lambda i: (i, "x"), "neg": lambda i: -3 * i}


def build(spec, lab):
    """spec: {"nodes": [label, ..], "edges": [[u, v, label], ..]}, labels being None, a name or a list of names;
    ids: how vertices are called, keys: how parallel edges are called"""
    g = nx.MultiDiGraph() if spec.get("multi") else nx.DiGraph()

    def one(x):
        return tuple(lab[i] for i in x) if isinstance(x, (list, tuple)) else lab[x]
    name = IDS[spec.get("ids")]
    for i, x in enumerate(spec["nodes"], 1):
        if x is None:
            g.add_node(name(i))
        else:
            g.add_node(name(i), label=one(x))
    for k, (u, v, x) in enumerate(spec["edges"]):
        if spec.get("keys"):
            g.add_edge(name(u), name(v), key=k + 5 if spec["keys"] == "int" else "e%d" % k, label=one(x))
        else:
            g.add_edge(name(u), name(v), label=one(x))
    return g


def singleton(ct, label, vertex):
    p = nx.DiGraph()
    if vertex:
        p.add_node(1, label=label)
    else:
        p.add_nodes_from([1, 2])
        p.add_edge(1, 2, label=label)
    return p


def occurrences(ct):
    """embedding vertices of the rewritten graph: (row number or None, label, {pattern port: data vertex}, pattern)"""
    R = ct.rewritten_graph()
    for n, d in R.nodes(data=True):
        if "is_Pattern" not in d:
            continue
        ports = {}
        for _, q, e in R.out_edges(n, data=True):
            ports[int(e["label"][1:])] = R.nodes[q]["label"]
        if "is_singleton" in d:
            yield None, d["label"], ports, singleton(ct, d["label"], len(ports) == 1)
        else:
            i = int(d["label"][1:])
            yield i, d["label"], ports, ct.rows()[i].pattern()


def decode(ct):
    """the graph told by the rewritten graph and the patterns"""
    g, vl = nx.MultiDiGraph(), {}

    def node(k):
        if k not in vl:
            g.add_node(k)
            vl[k] = []
        return k
    for k, (_, _, ports, pat) in enumerate(occurrences(ct)):
        mp = {v: node(("port", str(ports[v])) if v in ports else ("own", k, v)) for v in pat.nodes}
        for v in pat.nodes:
            for x in labs(pat.nodes[v].get("label")):
                if not has(vl[mp[v]], x):
                    vl[mp[v]].append(x)
        for u, v, d in pat.edges(data=True):
            g.add_edge(mp[u], mp[v], label=d["label"])
    for v, x in vl.items():
        g.nodes[v]["label"] = x
        g.nodes[v]["id"] = v[1] if v[0] == "port" else None
    return g


def told(D, ct):
    """does the rewritten graph tell exactly D?"""
    g, d = decode(ct), nx.MultiDiGraph()
    for v in D.nodes:
        if labs(D.nodes[v].get("label")) or D.degree(v):  # an isolated vertex without label tells nothing
            d.add_node(v, label=labs(D.nodes[v].get("label")), id=str(v))
    for u, v, e in D.edges(data=True):
        d.add_edge(u, v, label=e["label"])
    if len(d) != len(g) or d.number_of_edges() != g.number_of_edges():
        return False
    nm = lambda a, b: (b["id"] is None or a["id"] == b["id"]) and same_set(a["label"], b["label"])
    def em(a, b):  # parallel edges of the data have different labels
        a, b = ([e["label"] for e in x.values()] for x in (a, b))
        return len(a) == len(b) and same_set(a, b)
    return iso.MultiDiGraphMatcher(d, g, node_match=nm, edge_match=em).is_isomorphic()


def get(d, k):
    for x, v in d.items():
        if x == k:
            return v
    return None


def count(pairs):
    """[(label, n)] over labels compared with =="""
    out = []
    for x in pairs:
        for o in out:
            if o[0] == x:
                o[1] += 1
                break
        else:
            out.append([x, 1])
    return out


def tables(ct):
    """(number of ports, usages of singletons), as far as the code table keeps them"""
    return [(a, t) for a, t in ((1, getattr(ct, "_vertex_singleton_usage", None)), (2, getattr(ct, "_edge_singleton_usage", None)))
            if isinstance(t, dict)]


def table_of(m):
    """the code table of a fitted miner"""
    ct = getattr(m, "_code_table", None)
    return ct if ct is not None else next(x for x in vars(m).values() if type(x).__name__ == "CodeTable")


def usages(ct):
    """problems between the usages the code table reports and the rewritten graph"""
    occ = list(occurrences(ct))
    bad = []
    for i, r in enumerate(ct.rows()):
        mine = [o for o in occ if o[0] == i]
        if r.pattern_usage() != len(mine):
            bad.append(["usage", "row %d: usage %s, %d times in the rewritten graph" % (i, r.pattern_usage(), len(mine))])
        pu = collections.Counter(p for o in mine for p in o[2])
        if dict(r.pattern_port_usage()) != dict(pu):
            bad.append(["port-usage", "row %d: ports %s, in the rewritten graph %s" % (i, r.pattern_port_usage(), dict(pu))])
    for arity, tab in tables(ct):
        mine = count([o[1] for o in occ if o[0] is None and len(o[2]) == arity])
        if len(mine) != len(tab) or any(get(tab, x) != n for x, n in mine):
            bad.append(["singleton-usage", "singletons with %d ports: %s, in the rewritten graph %s" % (arity, dict(tab), mine)])
    return bad


# ------------------------------------------------------------------------------------------ description lengths
def U0(n):
    n += 1
    k = math.floor(math.log2(n))
    return k + 2 * math.floor(math.log2(k + 1)) + 1


def C(n, k):
    return math.log2(math.comb(n, k))


def preq(seq, eps=.5):
    out, tot = 0.0, len(seq) * eps
    for n in seq:
        for i in range(n):
            out -= math.log2((eps + i) / tot)
            tot += 1
    return out


def all_labels(g):
    return ([x for v in g.nodes for x in labs(g.nodes[v].get("label"))], [e["label"] for _, _, e in g.edges(data=True)])


def lengths(D, ct):
    """(model, data): description lengths by their definition, from the data graph, the used patterns, the rewritten graph"""
    vs, es = (count(x) for x in all_labels(D))
    total = sum(n for _, n in vs + es)
    occ = list(occurrences(ct))

    def code(tab, x):
        for y, n in tab:
            if y == x:
                return -math.log2(n / total)
        raise KeyError(x)

    def structure(p):
        n = len(p.nodes)
        a, b = (count(x) for x in all_labels(p))
        return math.log2(len(vs) + len(es)) + U0(n) + sum(code(vs, x) + U0(k) + C(n, k) for x, k in a) + \
            sum(code(es, x) + U0(k) + C(n * n, k) for x, k in b)
    model, ports_of, uses = 0.0, [], []
    for i in sorted({o[0] for o in occ if o[0] is not None}):
        mine = [o for o in occ if o[0] == i]
        pu = collections.Counter(p for o in mine for p in o[2])
        n = len(mine[0][3].nodes)
        model += structure(mine[0][3]) + math.log2(n + 1) + C(n, len(pu))
        uses.append(len(mine))
        ports_of.append(pu)
    for arity in (1, 2):
        mine = [o for o in occ if o[0] is None and len(o[2]) == arity]
        for x, k in count([o[1] for o in mine]):
            model += structure(next(o[3] for o in mine if o[1] == x)) + math.log2(arity + 1) + (2 if arity == 2 else 0)
            uses.append(k)
            ports_of.append({p: k for p in range(1, arity + 1)})
    into = collections.Counter(str(q) for o in occ for q in o[2].values())
    data = U0(len(occ)) + math.log2(len(into) + 1) + sum(k * math.log2(len(p) + 1) for k, p in zip(uses, ports_of)) + \
        preq(uses) + preq(list(into.values())) + sum(preq(list(p.values())) for p in ports_of)
    return model, data


def near(a, b):
    return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


# ------------------------------------------------------------------------------------------ judging a code table
def judge_table(D, ct, what):
    bad = []
    if "told" in what:
        bad += usages(ct)
        if not told(D, ct):
            bad.append(["lossy", "the rewritten graph and the patterns do not give back the data graph"])
    if "dl" in what:
        ct.compute_total_description_length()
        model, data = lengths(D, ct)
        if not near(ct.description_length(), model):
            bad.append(["model-length", "description length of the code table %r, by its definition %r" % (ct.description_length(), model)])
        if not near(ct.compute_rewritten_graph_description(), data):
            bad.append(["data-length", "description length of the rewritten graph %r, by its definition %r" % (ct.compute_rewritten_graph_description(), data)])
        u = [r.pattern_usage() for r in ct.rows()]
        su = count([o[1] for o in occurrences(ct) if o[0] is None])
        total = sum(u) + sum(n for _, n in su)
        for r in ct.rows():
            if r.pattern_usage() and not near(r.code_length(), -math.log2(r.pattern_usage() / total)):
                bad.append(["code", "code length %r for usage %d of %d" % (r.code_length(), r.pattern_usage(), total)])
            pt = sum(r.pattern_port_usage().values())
            for p, n in r.pattern_port_usage().items():
                if not near(r.port_code_length()[p], -math.log2(n / pt)):
                    bad.append(["port-code", "port code length %r for usage %d of %d" % (r.port_code_length()[p], n, pt)])
        for x, n in su:
            if get(ct.singleton_code_length(), x) is None or not near(get(ct.singleton_code_length(), x), -math.log2(n / total)):
                bad.append(["singleton-code", "code length %r of a singleton used %d of %d" % (get(ct.singleton_code_length(), x), n, total)])
        if len(ct.singleton_code_length()) != len(su):
            bad.append(["singleton-code", "%d singleton codes for %d singletons" % (len(ct.singleton_code_length()), len(su))])
    return bad


def judge_fit(D, m, ct0, what):
    """ct0: a code table without rows, covered, over another copy of D"""
    ct = table_of(m)
    bad = judge_table(D, ct, what)
    if "told" in what:
        pats = list(m.patterns())
        want = [o for o in occurrences(ct)]
        rows = [r.pattern() for r in ct.rows()]
        got = sorted(i for i, p in enumerate(rows) if any(p is q for q in pats))
        if got != sorted({o[0] for o in want if o[0] is not None}):
            bad.append(["patterns", "patterns() gives rows %s" % got])
        sv = count([o[1] for o in want if o[0] is None and len(o[2]) == 1])
        se = count([o[1] for o in want if o[0] is None and len(o[2]) == 2])
        rest = [p for p in pats if not any(p is q for q in rows)]
        gv = [p.nodes[1].get("label") for p in rest if len(p) == 1]
        ge = [e["label"] for p in rest if len(p) == 2 for _, _, e in p.edges(data=True)]
        if len(gv) != len(sv) or len(ge) != len(se) or not same_set(gv, [x for x, _ in sv]) or not same_set(ge, [x for x, _ in se]):
            bad.append(["patterns", "patterns() gives the singletons %s %s, used are %s %s" % (gv, ge, sv, se)])
    if "dl" in what:
        if not near(m.description_length(), sum(lengths(D, ct))):
            bad.append(["dl", "description_length() %r, by its definition %r" % (m.description_length(), sum(lengths(D, ct)))])
        init = sum(lengths(D, ct0))
        if not near(m.initial_description_length(), init):
            bad.append(["initial-dl", "initial_description_length() %r, singletons only %r" % (m.initial_description_length(), init)])
        if m.description_length() > m.initial_description_length() + 1e-7:
            bad.append(["longer", "description length %r longer than the initial one %r" % (m.description_length(), m.initial_description_length())])
    return bad


class Clock:
    """a clock whose reading advances by an unknown amount once, before some reading (symbolic), and stands still else"""
    def __init__(self, at, base=1000.0, step=1000.0):
        self.at, self.n, self.base, self.step = at, 0, base, step

    def __call__(self):
        self.n += 1
        return self.base + (self.step if self.at < self.n else 0.0)


class Stuck(BaseException):
    pass


def run_any(mods, spec, lab, what, clock=None, sym=False):
    """the code under test on one input; returns the problems"""
    gm, ctm, lcm_, rowm = mods
    D = build(spec, lab)

    def table(rows):
        g = build(spec, lab)
        ct = ctm.CodeTable(lcm_.LabelCodes(g), g)
        for r in rows:
            ct.add_row(rowm.CodeTableRow(build(r, lab)))
        ct.cover()
        return ct
    if spec.get("rows") is not None:
        ct = table(spec["rows"])
        for _ in range(spec.get("again", 0)):  # covering again gives the same
            ct.cover()
        return judge_table(D, ct, what)
    m = gm.GraphMDL()
    if spec.get("before"):
        m.fit(build(spec["before"], lab))
    g = build(spec, lab)
    if spec.get("same"):  # fitted twice on the same graph object
        m.fit(g)
    if clock is not None:
        names_ = ("time", "monotonic", "perf_counter", "process_time")
        old = {n: getattr(time, n) for n in names_}
        try:
            if sym:
                loader.CLOCK = clock
            else:
                for n in names_:
                    setattr(time, n, clock)
            m.fit(g, timeout=spec["timeout"])
        finally:
            loader.CLOCK = None
            for n in names_:
                setattr(time, n, old[n])
    else:
        m.fit(g)
    bad = judge_fit(D, m, table([]), what)
    if clock is not None and "dl" in what and not bad:
        n = gm.GraphMDL()
        n.fit(build(spec, lab))
        if n.description_length() > m.description_length() + 1e-7:
            bad.append(["less-time", "description length %r after a fit stopped early, %r without time limit" % (m.description_length(), n.description_length())])
    return bad


def modules(load):
    return [load(P + x) for x in ("graph_mdl", "code_table", "label_codes", "code_table_row")]


def names(spec):
    vs, es = [], []

    def add(out, x):
        for i in (x if isinstance(x, (list, tuple)) else [x]):
            if i is not None and i not in out:
                out.append(i)
    for s in [spec] + list(spec.get("rows") or []) + ([spec["before"]] if spec.get("before") else []):
        for x in s["nodes"]:
            add(vs, x)
        for _, _, x in s["edges"]:
            add(es, x)
    return vs, es


def harness(name, specs, bounds, what, lengths_=(1,), **k):
    """labels whose name starts with a capital letter are symbolic; the others are themselves"""
    def run(c):
        spec = c.choice("spec", specs)
        vs, es = names(spec)
        lab, sizes = {}, {}
        for x in vs + es:
            if x[0].isupper():
                n = c.choice("len_" + x, list(lengths_)) if len(lengths_) > 1 else lengths_[0]
                lab[x] = sym_str(x, n)
            else:
                lab[x] = SymStr(x)
        c.payload = lambda m: {"spec": spec, "lab": {x: str_value(m, v) for x, v in lab.items()}}
        for x in vs:  # vertex and edge labels are different names
            for y in es:
                b = lab[x] != lab[y]
                c.assume(b.b if isinstance(b, SymBool) else b)
        for s in [spec] + list(spec.get("rows") or []):
            for x in s["nodes"]:  # the labels of one vertex are different names
                if isinstance(x, (list, tuple)):
                    for i in range(len(x)):
                        for j in range(i):
                            b = lab[x[i]] != lab[x[j]]
                            c.assume(b.b if isinstance(b, SymBool) else b)
        for s in [spec] + list(spec.get("rows") or []):  # parallel edges have different labels
            for i, (u, v, x) in enumerate(s["edges"]):
                for u2, v2, y in s["edges"][:i]:
                    if (u, v) == (u2, v2):
                        b = lab[x] != lab[y]
                        c.assume(b.b if isinstance(b, SymBool) else b)
        clock = None
        if "timeout" in spec:
            at = sym_int("at", 1, 60)
            clock = Clock(at)
            c.payload = lambda m: {"spec": spec, "lab": {x: str_value(m, v) for x, v in lab.items()}, "at": model_value(m, at)}
        bad = run_any(modules(loader.load), spec, lab, what, clock, True)
        c.prove(not bad, bad[0][1] if bad else "")
    return Harness(name, run, bounds, hash_mode="eq", **dict(dict(witness_every=25), **k))


def replay_for(what):
    def replay(p):
        import importlib
        import signal
        d = p["data"]

        def stuck(*a):
            raise Stuck()
        old = signal.signal(signal.SIGALRM, stuck)
        signal.alarm(60)
        try:
            bad, err = real(run_any, modules(importlib.import_module), d["spec"], d["lab"], what,
                            Clock(d["at"]) if "at" in d else None)
        except Stuck:
            return [["endless", "still running after 60 s"]]
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return [err] if err else bad
    return replay
