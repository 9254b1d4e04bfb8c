"""Model of the networkx graphs, written in the subset of Python the interpreter reads; only analysed, never executed."""


class NodeView:
    def __init__(self, graph):
        self._g = graph

    def __iter__(self):
        return iter(list(self._g._adj))

    def __len__(self):
        return len(self._g._adj)

    def __contains__(self, n):
        return n in self._g._adj

    def __call__(self, data=False):
        if data is True:
            return [(n, self._g._node[n]) for n in self._g._adj]
        return list(self._g._adj)

    def data(self):
        return [(n, self._g._node[n]) for n in self._g._adj]

    def __getitem__(self, n):
        return self._g._node[n]

    def keys(self):
        return list(self._g._adj)

    def __le__(self, other):
        return set(self._g._adj) <= set(other)

    def __ge__(self, other):
        return set(self._g._adj) >= set(other)

    def __lt__(self, other):
        return set(self._g._adj) < set(other)

    def __gt__(self, other):
        return set(self._g._adj) > set(other)

    def __and__(self, other):
        return set(self._g._adj) & set(other)

    def __rand__(self, other):
        return set(self._g._adj) & set(other)

    def __or__(self, other):
        return set(self._g._adj) | set(other)

    def __ror__(self, other):
        return set(self._g._adj) | set(other)

    def __sub__(self, other):
        return set(self._g._adj) - set(other)

    def __rsub__(self, other):
        return set(other) - set(self._g._adj)

    def __xor__(self, other):
        return set(self._g._adj) ^ set(other)

    def __eq__(self, other):
        return set(self._g._adj) == set(other)

    def __ne__(self, other):
        return set(self._g._adj) != set(other)

    def __le__(self, other):
        return set(self._g._adj) <= set(other)

    def __ge__(self, other):
        return set(self._g._adj) >= set(other)

    def isdisjoint(self, other):
        return set(self._g._adj).isdisjoint(other)


class EdgeView:
    def __init__(self, graph):
        self._g = graph

    def __iter__(self):
        return iter(self._g._edge_list())

    def __len__(self):
        return len(self._g._edge_list())

    def __contains__(self, e):
        u, v = e[0], e[1]
        return u in self._g._adj and v in self._g._adj[u]

    def __call__(self, nbunch=None, data=False):
        if nbunch is None and data is False:
            return self
        out = []
        seen = set()
        starts = self._g._adj if nbunch is None else ([nbunch] if isinstance(nbunch, (int, str)) else [n for n in dict.fromkeys(nbunch) if n in self._g._adj])
        for u in starts:
            for v in self._g._adj[u]:
                if v not in seen:
                    out.append((u, v, self._g._adj[u][v]) if data is True else (u, v))
            if not self._g.is_directed():
                seen.add(u)
        return out

    def __getitem__(self, e):
        return self._g._adj[e[0]][e[1]]

    def __eq__(self, other):
        return len(self) == len(other) and all(e in other for e in self._g._edge_list())

    def __and__(self, other):
        return {e for e in other if e in self}

    def __rand__(self, other):
        return {e for e in other if e in self}

    def __or__(self, other):
        return set(self._g._edge_list()) | set(other)

    def __ror__(self, other):
        return set(self._g._edge_list()) | set(other)

    def __sub__(self, other):
        return {e for e in self._g._edge_list() if e not in other}

    def __rsub__(self, other):
        return {e for e in other if e not in self}


class DiDegreeView:
    pass


class DegreeView(DiDegreeView):
    def __init__(self, values):
        self._values = values

    def __iter__(self):
        return iter(list(self._values.items()))

    def __getitem__(self, n):
        return self._values[n]

    def __call__(self, n=None):
        if n is None:
            return self
        return self._values[n]

    def __len__(self):
        return len(self._values)


class Graph:
    def __init__(self, incoming=None, **attr):
        self._adj = {}
        self._pred = {}
        self._node = {}
        self.graph = {}
        if incoming is not None:
            if isinstance(incoming, Graph):
                for n in incoming._adj:
                    self.add_node(n)
                for u, v in incoming._edge_list():
                    self.add_edge(u, v)
            else:
                for e in incoming:
                    self.add_edge(e[0], e[1])

    def is_directed(self):
        return False

    def is_multigraph(self):
        return False

    @property
    def nodes(self):
        return NodeView(self)

    @property
    def edges(self):
        return EdgeView(self)

    @property
    def adj(self):
        return self._adj

    @property
    def degree(self):
        return DegreeView({n: len(self._adj[n]) for n in self._adj})

    def adjacency(self):
        return list(self._adj.items())

    def __iter__(self):
        return iter(list(self._adj))

    def __len__(self):
        return len(self._adj)

    def __contains__(self, n):
        return n in self._adj

    def __getitem__(self, n):
        return self._adj[n]

    def order(self):
        return len(self._adj)

    def number_of_nodes(self):
        return len(self._adj)

    def number_of_edges(self, u=None, v=None):
        if u is None:
            return len(self._edge_list())
        return 1 if self.has_edge(u, v) else 0

    def size(self):
        return len(self._edge_list())

    def has_node(self, n):
        return n in self._adj

    def has_edge(self, u, v):
        return u in self._adj and v in self._adj[u]

    def add_node(self, n, **attr):
        if n not in self._adj:
            self._adj[n] = {}
            self._pred[n] = {}
            self._node[n] = {}
        self._node[n].update(attr)

    def add_nodes_from(self, nodes, **attr):
        for n in nodes:
            self.add_node(n, **attr)

    def add_edge(self, u, v, **attr):
        self.add_node(u)
        self.add_node(v)
        data = dict(self._adj[u].get(v, {}))
        data.update(attr)
        self._adj[u][v] = data
        self._adj[v][u] = data

    def add_edges_from(self, edges, **attr):
        for e in edges:
            self.add_edge(e[0], e[1], **attr)

    def remove_edge(self, u, v):
        if not self.has_edge(u, v):
            raise NetworkXError("The edge is not in the graph")
        del self._adj[u][v]
        if u != v:
            del self._adj[v][u]

    def remove_edges_from(self, edges):
        for e in list(edges):
            if self.has_edge(e[0], e[1]):
                self.remove_edge(e[0], e[1])

    def remove_node(self, n):
        if n not in self._adj:
            raise NetworkXError("The node is not in the graph")
        for v in list(self._adj[n]):
            if v != n:
                del self._adj[v][n]
        del self._adj[n]
        del self._pred[n]
        del self._node[n]

    def remove_nodes_from(self, nodes):
        for n in list(nodes):
            if n in self._adj:
                self.remove_node(n)

    def neighbors(self, n):
        if n not in self._adj:
            raise NetworkXError("The node is not in the graph")
        return iter(list(self._adj[n]))

    def _edge_list(self):
        out = []
        seen = set()
        for u in self._adj:
            for v in self._adj[u]:
                if v not in seen:
                    out.append((u, v))
            seen.add(u)
        return out

    def copy(self):
        g = Graph()
        for n in self._adj:
            g.add_node(n, **self._node[n])
        for u, v in self._edge_list():
            g.add_edge(u, v, **self._adj[u][v])
        return g

    def subgraph(self, nodes):
        g = Graph()
        keep = set(nodes)
        for n in self._adj:
            if n in keep:
                g.add_node(n, **self._node[n])
        for u, v in self._edge_list():
            if u in keep and v in keep:
                g.add_edge(u, v, **self._adj[u][v])
        return g

    def nbunch_iter(self, nbunch=None):
        return iter(list(self._adj) if nbunch is None else [n for n in nbunch if n in self._adj])


class DiGraph:
    def __init__(self, incoming=None, **attr):
        self._adj = {}
        self._pred = {}
        self._node = {}
        self.graph = {}
        if incoming is not None:
            for e in incoming:
                self.add_edge(e[0], e[1])

    def is_directed(self):
        return True

    @property
    def nodes(self):
        return NodeView(self)

    @property
    def edges(self):
        return EdgeView(self)

    @property
    def adj(self):
        return self._adj

    @property
    def in_degree(self):
        return DegreeView({n: len(self._pred[n]) for n in self._adj})

    @property
    def out_degree(self):
        return DegreeView({n: len(self._adj[n]) for n in self._adj})

    def __iter__(self):
        return iter(list(self._adj))

    def __len__(self):
        return len(self._adj)

    def __contains__(self, n):
        return n in self._adj

    def __getitem__(self, n):
        return self._adj[n]

    def number_of_nodes(self):
        return len(self._adj)

    def number_of_edges(self):
        return len(self._edge_list())

    def has_node(self, n):
        return n in self._adj

    def has_edge(self, u, v):
        return u in self._adj and v in self._adj[u]

    def add_node(self, n, **attr):
        if n not in self._adj:
            self._adj[n] = {}
            self._pred[n] = {}
            self._node[n] = {}
        self._node[n].update(attr)

    def add_nodes_from(self, nodes):
        for n in nodes:
            self.add_node(n)

    def add_edge(self, u, v, **attr):
        self.add_node(u)
        self.add_node(v)
        self._adj[u][v] = dict(attr)
        self._pred[v][u] = dict(attr)

    def add_edges_from(self, edges):
        for e in edges:
            self.add_edge(e[0], e[1])

    def remove_edge(self, u, v):
        if not self.has_edge(u, v):
            raise NetworkXError("The edge is not in the graph")
        del self._adj[u][v]
        del self._pred[v][u]

    def remove_edges_from(self, edges):
        for e in list(edges):
            if self.has_edge(e[0], e[1]):
                self.remove_edge(e[0], e[1])

    def successors(self, n):
        return iter(list(self._adj[n]))

    def neighbors(self, n):
        return iter(list(self._adj[n]))

    def predecessors(self, n):
        return iter(list(self._pred[n]))

    def out_edges(self, n):
        return [(n, v) for v in self._adj[n]]

    def in_edges(self, n):
        return [(u, n) for u in self._pred[n]]

    def _edge_list(self):
        return [(u, v) for u in self._adj for v in self._adj[u]]

    def copy(self):
        g = DiGraph()
        for n in self._adj:
            g.add_node(n, **self._node[n])
        for u, v in self._edge_list():
            g.add_edge(u, v, **self._adj[u][v])
        return g


def topological_generations(g):
    indegree = {n: len(g._pred[n]) for n in g._adj}
    zero = [n for n in indegree if indegree[n] == 0]
    indegree = {n: d for n, d in indegree.items() if d > 0}
    out = []
    while len(zero) > 0:
        this = zero
        zero = []
        for n in this:
            for c in g._adj[n]:
                indegree[c] = indegree[c] - 1
                if indegree[c] == 0:
                    zero.append(c)
                    del indegree[c]
        out.append(this)
    if len(indegree) > 0:
        raise NetworkXUnfeasible("Graph contains a cycle or graph changed during iteration")
    return out


def is_directed_acyclic_graph(g):
    indegree = {n: len(g._pred[n]) for n in g._adj}
    zero = [n for n in indegree if indegree[n] == 0]
    count = 0
    while len(zero) > 0:
        n = zero.pop()
        count = count + 1
        for c in g._adj[n]:
            indegree[c] = indegree[c] - 1
            if indegree[c] == 0:
                zero.append(c)
    return count == len(indegree)


def topological_sort(g):
    return [n for gen in topological_generations(g) for n in gen]


def isolates(g):
    return [n for n in g._adj if len(g._adj[n]) == 0]


def number_connected_components(g):
    return len(connected_components(g))


def is_connected(g):
    return len(connected_components(g)) == 1


def connected_components(g):
    seen = set()
    out = []
    for n in g._adj:
        if n not in seen:
            comp = {n}
            todo = [n]
            while len(todo) > 0:
                u = todo.pop()
                for v in g._adj[u]:
                    if v not in comp:
                        comp.add(v)
                        todo.append(v)
            seen |= comp
            out.append(comp)
    return out


def compose(g, h):
    r = g.copy()
    for n in h._adj:
        r.add_node(n, **h._node[n])
    for u, v in h._edge_list():
        r.add_edge(u, v, **h._adj[u][v])
    return r


def relabel_nodes(g, mapping, copy=True):
    r = Graph()
    for n in g._adj:
        r.add_node(mapping.get(n, n), **g._node[n])
    for u, v in g._edge_list():
        r.add_edge(mapping.get(u, u), mapping.get(v, v), **g._adj[u][v])
    return r


def graphs_equal(g, h):
    return set(g._adj) == set(h._adj) and {frozenset(e) for e in g._edge_list()} == {frozenset(e) for e in h._edge_list()}


def path_graph(n):
    g = Graph()
    for i in range(n):
        g.add_node(i)
    for i in range(n - 1):
        g.add_edge(i, i + 1)
    return g


def empty_graph(n):
    g = Graph()
    for i in range(n):
        g.add_node(i)
    return g
