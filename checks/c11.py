from fractions import Fraction as F

from vf import expr as X
from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf.core import Workload, raises

PROPERTY = "C11"
RULE = (
    "a case is a network of connected components, or an attempted connection; distinct by"
    " the rows read back or the connection tried, non-trivial with a connection"
)
ASSUMPTIONS = [
    "a connection made twice counts twice, as two connections",
    "definitions of port fields contain no port field (refused at model creation)",
    "ports of the same type object or of equal types are of the same type",
]
REQUIRE = {
    "problem built": 600, "row observed": 5000, "connection": 1500,
    "port field read": 800, "sum of connections read": 1500,
    "sum of no connection": 100, "connection accepted": 500,
    "connection refused": 1000, "reading refused": 300, "reordered": 300,
}


class PortGen(G.SysGen):
    def make_ports(self, spec, models):
        r = self.rng
        for i in range(r.randint(1, 2)):
            spec.port_types[f"pt{i}"] = [f"f{j}" for j in range(r.randint(1, 3))]
        for k, m in enumerate(models):
            for i in range(r.randint(1, 3)):
                m.ports[f"q{i}"] = r.choice(list(spec.port_types))
            for i, (q, pt) in enumerate(m.ports.items()):
                mode = r.choice(["all", "none", "even", "odd"])
                for j, f in enumerate(spec.port_types[pt]):
                    if mode == "all" or mode == ("even", "odd")[j % 2]:
                        g = self.gen_for(m, True, True, ())
                        m.defs[(q, f)] = g.linear(self.rng.randint(1, 3))

    def connect(self, spec):
        r = self.rng
        ends = [
            (c.id, q, pt, spec.models[c.model])
            for c in spec.components
            for q, pt in spec.models[c.model].ports.items()
        ]
        cand = [
            (a, b) for i, a in enumerate(ends) for b in ends[i + 1:]
            if legal(spec, a, b)
        ]
        r.shuffle(cand)
        limit = r.choice([2, 4, 12])
        per_end = r.choice([1, 2, 9])
        n = {}
        for a, b in cand:
            ka, kb = a[:2], b[:2]
            if len(spec.connections) >= limit or n.get(ka, 0) >= per_end or \
                    n.get(kb, 0) >= per_end:
                continue
            n[ka] = n.get(ka, 0) + 1
            n[kb] = n.get(kb, 0) + 1
            if r.random() < 0.5:
                a, b = b, a
            spec.connections.append((a[0], a[1], b[0], b[1]))
        if spec.connections and r.random() < 0.1:
            a, p, b, q = r.choice(spec.connections)
            spec.connections.append(r.choice([(a, p, b, q), (b, q, a, p)]))

    def constraint(self, m, name, ports, port_ctx):
        r = self.rng
        base = super().constraint(m, name, (), None)
        if base is None or not ports:
            return base
        e = ("lit", F(0))
        for q, f, k in r.sample(list(ports), min(len(ports), r.randint(1, 3))):
            t = (k, q, f)
            kinds = port_ctx[(q, f)]
            x = r.random()
            if x < 0.3:
                t = ("mul", ("lit", F(r.choice([-2, 3]))), t)
            elif x < 0.4 and m.params:
                cs = [n for n in m.params if m.params[n] == (False, False)]
                if cs:
                    t = ("mul", t, ("par", r.choice(cs)))
            elif x < 0.6 and not kinds & {"shift", "eval", "tsum", "asum", "expec"}:
                t = r.choice([("asum", t), ("shift", t, ("lit", F(r.randint(-3, 3)))),
                              ("expec", t)])
            e = (r.choice(["add", "sub"]), e, t)
        x = r.random()
        if x < 0.5:
            return G.ConSpec(name, ("cmp", r.choice(["=", "<=", ">="]), e,
                                    r.choice([("lit", F(1))] + [("var", v.name) for v in m.variables[:1]])))
        return G.ConSpec(name, e, ("lit", F(-1)), ("lit", F(2)))


def legal(spec, a, b):
    return (
        a[2] == b[2]
        and a[:2] != b[:2]
        and all(
            ((a[1], f) in a[3].defs) != ((b[1], f) in b[3].defs)
            for f in spec.port_types[a[2]]
        )
    )


def draw(r):
    T, S = r.choice([1, 2, 3]), r.choice([1, 2])
    g = PortGen(r, T=T, S=S, max_models=4, max_components=6, depth=2, kinds=False)
    return P.Setup(g.system(), list(range(T)), S)


def reads(spec):
    for c in spec.components:
        m = spec.models[c.model]
        for k in m.bindings + m.constraints:
            for e in (k.expr,):
                for x in X.walk(e):
                    if x[0] in ("pf", "psum"):
                        n = sum((c.id, x[1]) in ((a, p), (b, q))
                                for a, p, b, q in spec.connections)
                        yield x[0], n


def networks(case):
    st = draw(case.rng)
    case.ev("connection", len(st.spec.connections))
    for k, n in reads(st.spec):
        case.ev("port field read" if k == "pf" else
                "sum of connections read" if n else "sum of no connection")
    want = st.reference()
    p, got = P.observe(case, st, case.rng)
    d = L.diff(got, want)
    case.check(not d, "port fields are not what the connected components define",
               differences="\n".join(d[:10]))
    # neither the order nor the direction of the connections matters
    if len(st.spec.connections) > 1:
        case.ev("reordered")
        r = case.rng
        r.shuffle(st.spec.connections)
        st.spec.connections = [
            c if r.random() < 0.5 else (c[2], c[3], c[0], c[1])
            for c in st.spec.connections
        ]
        _, again = P.observe(case, st, r)
        d = L.diff(again, got)
        case.check(not d, "the order or direction of connections matters",
                   differences="\n".join(d[:10]))
    if st.spec.connections:
        case.distinct(sorted(repr(x) for x in got.cons.items()))
    case.sample(dict(connections=st.spec.connections,
                     rows={k: str(v) for k, v in list(got.cons.items())[:3]}))


def refused_reads(case):
    """a plain read of a port with no or several connections"""
    r = case.rng
    st = draw(r)
    spec = st.spec
    bad = []
    for c in spec.components:
        m = spec.models[c.model]
        for q, pt in m.ports.items():
            n = sum((c.id, q) in ((a, p), (b, s)) for a, p, b, s in spec.connections)
            if n != 1 and m.variables:
                bad.append((m, q, r.choice(spec.port_types[pt]), n))
    if not bad:
        return
    m, q, f, n = r.choice(bad)
    e = ("pf", q, f)
    for _ in range(r.randint(0, 2)):
        e = r.choice([("add", e, ("var", m.variables[0].name)), ("neg", e), ("asum", e),
                      ("mul", ("lit", F(2)), e)])
        if e[0] == "asum":
            break
    m.constraints.append(G.ConSpec("bad", ("cmp", "<=", e, ("lit", F(5)))))
    case.note(**st.text(), read=(m.id, q, f), connections=n)
    net, db, _ = G.build_python(spec, r)
    try:
        P.build(st, net, db)
    except Exception:
        case.ev("reading refused")
        case.distinct((spec.connections, m.id, q, f, e))
        return
    case.fail(f"a field of a port with {n} connections was read without summing",
              port=(m.id, q, f))


def connections(case):
    """acceptance of every pair of ports"""
    from andromede.study import Network, Node, PortRef, create_component

    r = case.rng
    spec = G.Spec()
    for i in range(r.randint(1, 3)):
        spec.port_types[f"pt{i}"] = [f"f{j}" for j in range(r.randint(1, 3))]
    pts = G.build_port_types(spec)
    # same fields with another name, same name with other fields, equal copies
    extra = dict(spec.port_types)
    comps = []
    for k in range(r.randint(2, 3)):
        m = G.ModelSpec(f"m{k}", variables=[G.VarSpec("x"), G.VarSpec("y")])
        m.params["p"] = (True, False)
        for i in range(r.randint(1, 3)):
            m.ports[f"q{i}"] = r.choice(list(spec.port_types))
        for q, pt in m.ports.items():
            for f in spec.port_types[pt]:
                if r.random() < 0.5:
                    m.defs[(q, f)] = r.choice(
                        [("var", "x"), ("lit", F(0)), ("sub", ("var", "y"), ("par", "p"))])
        types, fields = G.build_port_types(spec), dict(spec.port_types)
        if r.random() < 0.3:
            # a type of the same name with other fields in this model
            from andromede.model import PortField, PortType
            n = r.choice(list(spec.port_types))
            fields[n] = spec.port_types[n] + ["g"]
            types[n] = PortType(n, [PortField(f) for f in fields[n]])
        # definitions must be about fields of the type
        spec.models[m.id] = m
        mod = G.build_model(spec, m, r, types)
        c = (Node(mod, f"c{k}") if r.random() < 0.3 else create_component(mod, f"c{k}"))
        comps.append((c, m, fields))
    net = Network("n")
    for c, _, _ in comps:
        (net.add_node if isinstance(c, Node) else net.add_component)(c)
    accepted = []
    for c1, m1, t1 in comps:
        for c2, m2, t2 in comps:
            for q1 in list(m1.ports) + ["unknown"]:
                for q2 in list(m2.ports) + ["unknown"]:
                    ok = q1 in m1.ports and q2 in m2.ports
                    if ok:
                        n1, n2 = m1.ports[q1], m2.ports[q2]
                        ok = n1 == n2 and t1[n1] == t2[n2] and all(
                            ((q1, f) in m1.defs) != ((q2, f) in m2.defs)
                            for f in t1[n1])
                    case.note(models=repr([x[1] for x in comps]),
                              types=repr([x[2] for x in comps]), connect=(c1.id, q1, c2.id, q2))
                    before = len(list(net.connections))
                    e = raises(lambda: net.connect(PortRef(c1, q1), PortRef(c2, q2)))
                    case.check((e is None) == ok, "a connection was "
                               + ("refused" if ok else "accepted") + " wrongly",
                               ports=(c1.id, q1, c2.id, q2), error=repr(e))
                    now = list(net.connections)
                    case.check(len(now) == before + ok,
                               "a refused connection was kept, or an accepted one lost")
                    case.ev("connection accepted" if ok else "connection refused")
                    case.distinct((repr(m1), q1, repr(m2), q2))


def hubs(case):
    """many components connected to one port"""
    r = case.rng
    spec = G.Spec(horizon=2, scenarios=1)
    spec.port_types["pt"] = ["f", "g"][: r.randint(1, 2)]
    fs = spec.port_types["pt"]
    hub = G.ModelSpec("hub", variables=[G.VarSpec("x")])
    hub.ports["q"] = "pt"
    for i, f in enumerate(fs):
        hub.constraints.append(G.ConSpec(
            f"k{i}", ("cmp", r.choice(["=", "<=", ">="]),
                      ("add", ("psum", "q", f), ("var", "x")), ("lit", F(3)))))
    unit = G.ModelSpec("unit", variables=[G.VarSpec("y"), G.VarSpec("z")])
    unit.params["p"] = (False, False)
    unit.ports["q"] = "pt"
    for f in fs:
        unit.defs[("q", f)] = ("mul", ("par", "p"), ("var", r.choice("yz")))
    spec.models = {"hub": hub, "unit": unit}
    spec.components.append(G.CompSpec("H", "hub", r.random() < 0.5))
    n = r.choice([8, 9, 10, 11, 16, 17, 32, 33, 40, 64, 65, 100])
    for i in range(n):
        spec.components.append(G.CompSpec(f"u{i}", "unit", False))
        spec.data[(f"u{i}", "p")] = ("const", F(i + 1))
        a, b = ("H", "q"), (f"u{i}", "q")
        spec.connections.append(a + b if r.random() < 0.5 else b + a)
    r.shuffle(spec.components)
    r.shuffle(spec.connections)
    st = P.Setup(spec, [0, 1], 1)
    p, got = P.observe(case, st, r)
    d = L.diff(got, st.reference())
    case.check(not d, "port fields are not what the connected components define",
               differences="\n".join(d[:10]), connections=n)
    case.ev("connection", n)
    case.ev("hub of many connections")
    case.distinct((n, spec.connections[:3]))


WORKLOADS = [
    Workload("hubs", hubs, 60),
    Workload("networks", networks, 1500),
    Workload("refused_reads", refused_reads, 800),
    Workload("connections", connections, 400),
]
