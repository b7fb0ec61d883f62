"""Walks over the transition graph printed by LayoutMC, turned into scripts of
drv_tuple.  The walks cover every transition of the graph (up to a budget)."""
import collections, random, re


def parse(out):
    """-> (states, adjacency): adj[s] = list of [op, ok, s2]"""
    ids, adj, facts = {}, [], []

    def sid(s):
        n = ids.get(s)
        if n is None:
            n = ids[s] = len(adj)
            adj.append([])
            m = re.match(r"<<(\d+), (\d+)", s)
            facts.append((int(m.group(1)), int(m.group(2))) if m else None)
        return n
    for l in out.splitlines():
        if not l.startswith('"EDGE#'):
            continue
        _, a, op, ok, b = l.strip()[1:-1].replace('\\"', '"').split("#")
        op = tuple(int(x) if x.strip().isdigit() else x.strip().strip('"') for x in op[2:-2].split(","))
        adj[sid(a)].append((op, ok == "TRUE", sid(b)))
    return adj, facts, 0


def cover(adj, root, rng, budget, maxlen=400):
    """Yields walks (lists of (op, ok, target)) from the root which together
    cover all the edges, up to `budget' steps."""
    todo = [list(range(len(e))) for e in adj]
    for t in todo:
        rng.shuffle(t)
    left = sum(len(t) for t in todo)
    total = left
    spent = 0
    walks = []
    while left and spent < budget:
        cur, walk = root, []
        while len(walk) < maxlen and left and spent < budget:
            if todo[cur]:
                n = todo[cur].pop()
                left -= 1
                e = adj[cur][n]
                walk.append(e)
                spent += 1
                cur = e[2]
                continue
            # the nearest state with something left
            prev = {cur: None}
            q = collections.deque([cur])
            goal = None
            while q:
                s = q.popleft()
                if todo[s]:
                    goal = s
                    break
                es = adj[s]
                for e in es:
                    if e[2] not in prev:
                        prev[e[2]] = (s, e)
                        q.append(e[2])
            if goal is None:
                break
            path = []
            s = goal
            while prev[s] is not None:
                s0, e = prev[s]
                path.append(e)
                s = s0
            walk += reversed(path)
            spent += len(path)
            cur = goal
        if not walk:
            break
        walks.append(walk)
    return walks, total - left, total


def script(walk, c, rng, genus, stretchy_init=None):
    """c: constants of the model.  genus: of the stretchy fields
    (0 = text, 3 = property)."""
    nl, nc, ns, tiny = c["NL"], c["NC"], c["NS"], c["Tiny"] == "TRUE"
    o = ["clear", "it 0"]
    for n in range(nl):
        o.append("F 0 %d %d -1" % (genus, rng.randrange(2)))
    for n in range(nc):
        o.append("F 2 %d %d -1" % (genus, rng.randrange(2)))
    if tiny:
        o.append("F 0 4 0 -1")
    for n in range(ns):
        o.append("F 1 %d %d -1" % (genus, rng.randrange(2)))
    # the smallest buffer has 13 units, padding adjusts the space
    pad = 13 - ns - c["H0"] - c["T0"]
    for units, g in ((8, 22), (4, 18), (2, 12), (1, 8)):
        while pad >= units:
            o.append("F 1 %d 0 -1" % g)
            pad -= units
    o.append("wlimit 420")
    o.append("N %d %d 0" % (c["H0"], 4 * c["T0"] if pad < 0 else 0))
    k = [0]

    def val(u):
        k[0] += 1
        return 2000000 + 1000 * rng.randrange(1, 2000) + (4 * u - 1 if genus == 0 else 4 * u - 2) - rng.randrange(3)

    def tok(owner):
        return 2 * (owner - 1) + rng.randrange(2)

    def stok(s):
        return 2 * (nl + nc + (1 if tiny else 0) + s - 1) + rng.randrange(2)
    for op, ok, _ in walk:
        x = op[0]
        if x == "set":
            o.append("S %d %d %d" % (tok(op[1]), val(op[2]), rng.randrange(2)))
        elif x == "tiny":
            o.append("S %d %d 0" % (tok(op[1]), rng.randrange(3, 40)))
        elif x == "era":
            o.append("E %d" % tok(op[1]))
        elif x == "ins":
            o.append("I %d %d" % (tok(op[1]), val(op[2])))
        elif x == "erx":
            o.append("X %d %d" % (tok(op[1]), op[2] - 1))
        elif x == "upd":
            o.append("U %d %d %d" % (tok(op[1]), op[2] - 1, val(op[3])))
        elif x == "sset":
            o.append("S %d %d %d" % (stok(op[1]), val(op[2]), rng.randrange(2)))
        elif x == "sera":
            o.append("E %d" % stok(op[1]))
        elif x == "opt":
            o.append("O 1")
        else:
            raise ValueError(op)
    return o
