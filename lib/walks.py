"""Turning a TLC state graph into test walks that together take every transition."""
import os, random, re
from nexo import ToolError
import tlc as T

def graph(module, cfg, timeout=300, key="act"):
    """Explore and return (init nodes, {node: action tuple}, {node: [successors]}, tlc result)."""
    import nexo
    path = os.path.join(nexo.scratch(), "graph-%s" % module)
    r = T.tlc(module, cfg, timeout=timeout, extra=["-dump", "dot", path], env=dict(VERBOSE="0"))
    if r["rc"] != 0: raise ToolError("graph of %s: %s" % (module, r["out"][-3000:]))
    act, succ, indeg = {}, {}, set()
    node = re.compile(r'^(-?\d+) \[label="(.*?)"(?:,style = filled)?\];?', re.S)
    inits = []
    for line in open(path + ".dot"):
        m = re.match(r'^(-?\d+) -> (-?\d+)', line)
        if m:
            succ.setdefault(m.group(1), []).append(m.group(2)); continue
        m = re.match(r'^(-?\d+) \[label="(.*)"(,style = filled)?\];?\s*$', line.rstrip("\n"))
        if m:
            a = re.search(r'%s = <<([^<>]*)>>' % key, m.group(2))
            if not a: raise ToolError("no act in " + line[:200])
            act[m.group(1)] = tuple(parse(x) for x in a.group(1).split(", ")) if a.group(1) else ()
            if m.group(3): inits.append(m.group(1))
    os.remove(path + ".dot")
    return inits, act, succ, r

def parse(x):
    x = x.strip().replace('\\"', '"')
    if x.startswith('"'): return x.strip('"')
    if x in ("TRUE", "FALSE"): return x == "TRUE"
    return int(x)

def cover(inits, act, succ, rng, maxlen=40, limit=None):
    """Walks from an initial node that together visit every node (= every labelled transition)."""
    from collections import deque
    # BFS tree: shortest path to every node
    par = {i: None for i in inits}; dq = deque(inits); order = []
    while dq:
        n = dq.popleft(); order.append(n)
        for m in succ.get(n, ()):
            if m not in par: par[m] = n; dq.append(m)
    todo = set(order) - set(inits)
    targets = list(todo); rng.shuffle(targets)
    targets.sort(key=lambda n: 0)
    walks = []
    for t in targets:
        if t not in todo: continue
        path = []
        n = t
        while n is not None: path.append(n); n = par[n]
        path.reverse()
        # extend greedily through uncovered nodes
        seen = set(path); todo -= seen
        while len(path) < maxlen:
            nx = [m for m in succ.get(path[-1], ()) if m in todo]
            if not nx: break
            m = rng.choice(nx); path.append(m); todo.discard(m)
        walks.append([act[n] for n in path[1:]])
        if limit and len(walks) >= limit: break
    total = len(order) - len(inits)
    return walks, total - len(todo), total
