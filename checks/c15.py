"""C15: level structures and pseudo peripheral nodes."""

import networkx as nx
import numpy as np
import scipy.sparse as sp

from mon.core import Frozen, grow, pick, scenario

from sigmaepsilon.math.graph import Graph
from sigmaepsilon.math.graph.utils import pseudo_peripheral_nodes, rooted_level_structure
from sigmaepsilon.math.linalg.sparse import csr_matrix

KINDS = ["gnp sparse", "gnp", "gnp dense", "path", "cycle", "star", "tree", "grid", "complete", "components",
         "isolated", "barbell", "single", "empty", "lollipop", "loops", "regular", "caterpillar", "wheel", "long"]


def make(rng, i):
    kind = KINDS[i % len(KINDS)]
    n = grow(rng, rng.integers(2, 25), 300)
    s = int(rng.integers(2**31))
    if kind == "gnp sparse":
        G = nx.gnp_random_graph(n, 1.3 / n, seed=s)
    elif kind == "gnp":
        G = nx.gnp_random_graph(n, 3.0 / n, seed=s)
    elif kind == "gnp dense":
        G = nx.gnp_random_graph(n, 0.6, seed=s)
    elif kind == "path":
        G = nx.path_graph(n)
    elif kind == "cycle":
        G = nx.cycle_graph(n + 1)
    elif kind == "star":
        G = nx.star_graph(n)
    elif kind == "tree":
        G = nx.Graph([(k, int(rng.integers(k))) for k in range(1, n)])
    elif kind == "grid":
        G = nx.convert_node_labels_to_integers(nx.grid_2d_graph(int(rng.integers(1, 6)), int(rng.integers(2, 6))))
    elif kind == "complete":
        G = nx.complete_graph(n)
    elif kind == "components":
        G = nx.disjoint_union_all([nx.gnp_random_graph(int(rng.integers(1, 9)), 0.5, seed=s + k) for k in range(int(rng.integers(2, 5)))])
    elif kind == "isolated":
        G = nx.gnp_random_graph(n, 2.0 / n, seed=s)
        G.add_nodes_from(range(n, n + 3))
    elif kind == "barbell":
        G = nx.barbell_graph(int(rng.integers(3, 6)), int(rng.integers(0, 6)))
    elif kind == "single":
        G = nx.empty_graph(1)
    elif kind == "empty":
        G = nx.empty_graph(n)
    elif kind == "lollipop":
        G = nx.lollipop_graph(int(rng.integers(3, 6)), n)
    elif kind == "loops":
        G = nx.gnp_random_graph(n, 2.5 / n, seed=s)
        for v in range(n):
            if rng.random() < 0.5:
                G.add_edge(v, v)
    elif kind == "regular":
        G = nx.random_regular_graph(3, 2 * int(rng.integers(2, 10)), seed=s)
    elif kind == "caterpillar":
        G = nx.path_graph(n)
        for k in range(n, 2 * n):
            G.add_edge(k, int(rng.integers(n)))
    elif kind == "wheel":
        G = nx.wheel_graph(n + 3)
    else:
        G = nx.path_graph(120)
        G.add_edge(int(rng.integers(120)), int(rng.integers(120)))
    # numbering and order of insertion are arbitrary
    N = G.number_of_nodes()
    p = rng.permutation(N) if rng.random() < 0.8 else np.arange(N)
    m = dict(zip(sorted(G.nodes), (int(k) for k in p)))
    E = [(m[a], m[b]) for a, b in G.edges]
    return kind, N, E


def levels(adj, root):
    """Distance of every node from the root, -1 if there is no path."""
    d = {root: 0}
    front = [root]
    while front:
        nxt = []
        for v in front:
            for w in adj[v]:
                if w not in d:
                    d[w] = d[v] + 1
                    nxt.append(w)
        front = nxt
    L = [[] for _ in range(max(d.values()) + 1)]
    for v, k in d.items():
        L[k].append(v)
    return [sorted(x) for x in L]


def judge_levels(m, rls, ref, tag):
    got = {int(k): v for k, v in rls.items()}
    m.ok(sorted(got) == list(range(len(ref))), "levels are numbered without gaps", how=tag, got=sorted(got), expected=len(ref))
    for k, L in enumerate(ref):
        m.ok(sorted(int(v) for v in got[k]) == L, "nodes of a level", how=tag, level=k, got=got[k], expected=L)


def shape_of(L):
    return len(L), max(len(x) for x in L)


def judge_peripheral(m, res, adj, tag):
    res = [int(v) for v in res]
    root, last = res[-1], sorted(res[:-1])
    L = levels(adj, root)
    m.ok(last == L[-1], "the last level of the returned node", how=tag, got=res, expected=(L[-1], root))
    n, w = shape_of(L)
    for v in L[-1]:
        n2, w2 = shape_of(levels(adj, v))
        m.ok(not (n2 > n or (n2 == n and w2 < w)), "no node of the last level does better", how=tag, root=root, node=v, own=(n, w), other=(n2, w2))


@scenario(quick=600, thorough=12000)
def graph(m, rng, i):
    kind, N, E = make(rng, i)
    adj = [set() for _ in range(N)]
    for a, b in E:
        adj[a].add(b)
        adj[b].add(a)
    m.note(N=N, E=E)
    m.feat("graph:" + kind)
    r = np.array([a for a, b in E] + [b for a, b in E if a != b], dtype=int)
    c = np.array([b for a, b in E] + [a for a, b in E if a != b], dtype=int)
    data = rng.choice([1.0, 2.5, -1.0], len(r))
    A = sp.coo_matrix((data, (r, c)), shape=(N, N)).tocsr()
    if rng.random() < 0.5 and A.nnz:
        # unsorted columns
        for v in range(N):
            s = slice(A.indptr[v], A.indptr[v + 1])
            p = rng.permutation(s.stop - s.start)
            A.indices[s] = A.indices[s][p]
            A.data[s] = A.data[s][p]
        A.has_sorted_indices = False
    C = csr_matrix(A)
    fr = Frozen(data=C.data, indices=C.indices, indptr=C.indptr)
    roots = range(N) if N <= 8 else [0, N - 1] + [int(v) for v in rng.integers(N, size=4)]
    comps = set()
    for root in roots:
        L = levels(adj, root)
        comps.add(sum(len(x) for x in L))
        judge_levels(m, rooted_level_structure(C, root), L, f"root {root}")
    m.feat("connected" if comps == {N} else "not connected")
    judge_levels(m, rooted_level_structure(C), levels(adj, 0), "default root")
    judge_peripheral(m, pseudo_peripheral_nodes(C), adj, "csr")
    fr.check(m)
    # through networkx; nodes are numbered in the order of insertion
    G = Graph()
    order = [int(v) for v in rng.permutation(N)]
    name = (lambda v: v) if rng.random() < 0.6 else (lambda v: f"n{v}")
    for v in order:
        G.add_node(name(v))
    for a, b in E:
        if rng.random() < 0.7:
            G.add_edge(name(a), name(b))
        else:
            G.add_edge(name(b), name(a), weight=float(pick(rng, [0.5, 3.0, -1.0, 0.0])))
    pos = {v: k for k, v in enumerate(order)}
    adj2 = [set(pos[w] for w in adj[v]) for v in order]
    root = int(rng.integers(N))
    judge_levels(m, G.rooted_level_structure(root), levels(adj2, root), "Graph")
    judge_levels(m, G.rooted_level_structure(), levels(adj2, 0), "Graph, default root")
    judge_peripheral(m, G.pseudo_peripheral_nodes(), adj2, "Graph")
    B = G.adjacency_matrix(to_csr=True)
    m.ok(type(B) is csr_matrix, "adjacency matrix as a CSR matrix")
    ids = list(G.nodes)
    D = np.array([[float(G[a][b].get("weight", 1)) if b in G[a] else 0.0 for b in ids] for a in ids])
    m.equal(B.to_numpy(), D, "adjacency matrix")
    m.equal(G.adjacency_matrix().toarray(), D, "adjacency matrix of SciPy")
    m.ok(G.number_of_nodes() == N and G.number_of_edges() == len(set(map(frozenset, E))), "the graph is left alone")
