"""State graph of an exhaustive TLC run (-dump dot) -> walks from the initial state that cover every
(abstract state, operation) pair.  The operation of a transition is read from the variable `last' of its target."""
import re, os, subprocess, collections


def load(path, op_var="last", drop=()):
    """returns (init node, {node: {op text: target}}, n_edges).  Nodes are abstract states: the label without op_var"""
    node = {}      # fingerprint -> (abstract label, op)
    edges = []
    init = None
    rx_node = re.compile(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"(.*)')
    rx_edge = re.compile(r'^(-?\d+) -> (-?\d+)')
    for line in open(path):
        m = rx_edge.match(line)
        if m:
            edges.append((m.group(1), m.group(2)))
            continue
        m = rx_node.match(line)
        if m:
            label = m.group(2).replace('\\"', '"').replace("\\\\", "\\")
            filled = "style = filled" in m.group(3)
            parts = [p.strip() for p in label.split("\\n")]
            keep, op = [], ""
            cur = None
            for p in parts:
                if p.startswith("/\\ "):
                    cur = p[3:].split(" =", 1)[0]
                if cur == op_var:
                    op += p[3:].split(" = ", 1)[1] if p.startswith("/\\ ") else " " + p
                elif cur not in drop:
                    keep.append(p)
            node[m.group(1)] = ("\n".join(keep), op)
            if filled and init is None:
                init = m.group(1)
    g = collections.defaultdict(dict)
    for a, b in edges:
        if a in node and b in node:
            g[node[a][0]].setdefault(node[b][1], node[b][0])
    return node[init][0], g, len(edges)


def cover(init, g, rnd, max_len=60, max_walks=None):
    """walks (lists of op texts) covering every (state, op) pair of the graph"""
    # shortest paths from init
    prev = {init: None}
    q = collections.deque([init])
    while q:
        x = q.popleft()
        for op, y in sorted(g.get(x, {}).items()):
            if y not in prev:
                prev[y] = (x, op); q.append(y)
    def path(x):
        ops = []
        while prev[x]:
            x, op = prev[x]; ops.append(op)
        return ops[::-1]
    todo = {x: list(ops) for x, ops in g.items() if x in prev}
    for v in todo.values():
        v.sort()
    for v in todo.values():
        rnd.shuffle(v)
    order = sorted(todo); rnd.shuffle(order)
    walks = []
    for start in order:
        while todo[start]:
            w = path(start); x = start
            while len(w) < max_len:
                if todo.get(x):
                    op = todo[x].pop()
                    w.append(op); x = g[x][op]
                else:
                    # one random step towards something else
                    nxt = [(op, y) for op, y in g.get(x, {}).items() if todo.get(y)]
                    if not nxt:
                        break
                    op, y = rnd.choice(nxt); w.append(op); x = y
            walks.append(w)
            if max_walks and len(walks) >= max_walks:
                return walks
    return walks


def parse_record(text):
    """[o |-> "set", k |-> 1, arg |-> <<...>>, r |-> "x"] -> dict (flat TLA+ values to python)"""
    return parse_tla(text)


def parse_tla(text):
    toks = re.findall(r'"[^"]*"|<<|>>|\|->|:>|@@|-?\d+|\w+|[\[\]{}(),]', text)
    pos = [0]
    def val():
        t = toks[pos[0]]; pos[0] += 1
        if t[0] == '"': return t[1:-1]
        if t == "<<":
            out = []
            while toks[pos[0]] != ">>":
                out.append(val())
                if toks[pos[0]] == ",": pos[0] += 1
            pos[0] += 1; return out
        if t == "{":
            out = []
            while toks[pos[0]] != "}":
                out.append(val())
                if toks[pos[0]] == ",": pos[0] += 1
            pos[0] += 1; return out
        if t == "[":
            out = {}
            while toks[pos[0]] != "]":
                k = toks[pos[0]]; pos[0] += 2
                out[k] = val()
                if toks[pos[0]] == ",": pos[0] += 1
            pos[0] += 1; return out
        if t == "TRUE": return True
        if t == "FALSE": return False
        return int(t)
    return val()
