"""Small tetrahedral meshes, written in the MSH 2.2 format."""

CUBE = [((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)), ((0, 0, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1)),
        ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)), ((0, 0, 0), (0, 1, 0), (0, 1, 1), (1, 1, 1)),
        ((0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1)), ((0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1))]


class Mesh:
    """nodes: list of (x, y, z); tets: list of (region name, (4 node numbers from 0));
    tris: list of (surface name, (3 node numbers))."""

    def __init__(self, nodes, tets, tris=()):
        self.nodes, self.tets, self.tris = list(nodes), list(tets), list(tris)

    def write(self, path, vol_order=None, surf_order=None):
        vols = vol_order or list(dict.fromkeys(r for r, _ in self.tets))
        surfs = surf_order or list(dict.fromkeys(r for r, _ in self.tris))
        tag = {}
        n = 0
        lines = []
        for s in surfs:
            n += 1
            tag[2, s] = n
            lines.append('2 %d "%s"' % (n, s))
        for v in vols:
            n += 1
            tag[3, v] = n
            lines.append('3 %d "%s"' % (n, v))
        with open(path, "w") as f:
            f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n")
            if lines:
                f.write("$PhysicalNames\n%d\n%s\n$EndPhysicalNames\n" % (len(lines), "\n".join(lines)))
            f.write("$Nodes\n%d\n" % len(self.nodes))
            for i, p in enumerate(self.nodes):
                f.write("%d %r %r %r\n" % ((i + 1,) + tuple(map(float, p))))
            f.write("$EndNodes\n$Elements\n%d\n" % (len(self.tets) + len(self.tris)))
            k = 0
            for r, q in self.tris:
                k += 1
                t = tag[2, r]
                f.write("%d 2 2 %d %d %d %d %d\n" % ((k, t, t) + tuple(x + 1 for x in q)))
            for r, q in self.tets:
                k += 1
                t = tag[3, r]
                f.write("%d 4 2 %d %d %d %d %d %d\n" % ((k, t, t) + tuple(x + 1 for x in q)))
            f.write("$EndElements\n")

    def permuted(self, perm):
        """perm[i] is the new number of node i."""
        nodes = [None] * len(self.nodes)
        for i, p in enumerate(self.nodes):
            nodes[perm[i]] = p
        return Mesh(nodes, [(r, tuple(perm[x] for x in q)) for r, q in self.tets],
                    [(r, tuple(perm[x] for x in q)) for r, q in self.tris])

    def faces(self):
        """face (sorted triple) -> list of (tet number, oriented triple)"""
        d = {}
        for n, (_, (a, b, c, e)) in enumerate(self.tets):
            for f in ((b, c, e), (a, e, c), (a, b, e), (a, c, b)):
                d.setdefault(tuple(sorted(f)), []).append((n, f))
        return d

    def boundary(self, where=None):
        """Faces of a single tetrahedron whose nodes all satisfy where(point)."""
        out = []
        for f, l in self.faces().items():
            if len(l) == 1 and (where is None or all(where(self.nodes[i]) for i in f)):
                out.append(l[0][1])
        return out

    def interface(self, r1, r2):
        out = []
        for f, l in self.faces().items():
            if len(l) == 2 and {self.tets[l[0][0]][0], self.tets[l[1][0]][0]} == {r1, r2}:
                out.append(l[0][1])
        return out

    def add_surface(self, name, faces):
        self.tris += [(name, tuple(f)) for f in faces]
        return self


def orient(nodes, q):
    a, b, c, d = (nodes[i] for i in q)
    u, v, w = ([y[k] - a[k] for k in range(3)] for y in (b, c, d))
    det = (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))
    return q if det > 0 else (q[0], q[2], q[1], q[3])


def box(n=(1, 1, 1), l=(10., 10., 10.), origin=(0., 0., 0.), region=lambda x, y, z: "A", keep=None):
    """A box of n cells, each cut in 6 tetrahedra; region(cell centre) gives the region name or None."""
    nodes, num, tets = [], {}, []

    def node(i, j, k):
        if (i, j, k) not in num:
            num[i, j, k] = len(nodes)
            nodes.append(tuple(origin[a] + l[a] * m / n[a] for a, m in enumerate((i, j, k))))
        return num[i, j, k]
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                r = region(*(origin[a] + l[a] * (m + 0.5) / n[a] for a, m in enumerate((i, j, k))))
                if r is None:
                    continue
                for c in CUBE:
                    q = tuple(node(i + a, j + b, k + d) for a, b, d in c)
                    tets.append((r, orient(nodes, q)))
    return Mesh(nodes, tets)
