#!/usr/bin/env python3
"""Derives the specification tables of simplices and pyramids from their geometry (no table of /repo is read).

A Kuhn simplex of type b in a cube of side h: offsets from the cube's anchor satisfy
d[i] >= d[j] >= d[k] for the axis order (i, j, k) of the type.  One refinement step splits
the cube in 2^dim subcubes, each again divided into Kuhn simplices; the parent of a
sub-simplex is the type that contains its centroid; children are ordered by
(subcube, type) in Morton order of the subcube."""
import itertools

def arr(x):
    if isinstance(x, (list, tuple)):
        return "{" + ",".join(arr(e) for e in x) + "}"
    return str(x)

# axis orders per type: triangle: type 0 is x >= y, type 1 is y >= x.
TRI = {0: (0, 1), 1: (1, 0)}
# tetrahedron: type b: first axis b/2, second axis the one two (even) / one (odd) further.
TET = {}
for b in range(6):
    i = b // 2
    j = (i + (2 if b % 2 == 0 else 1)) % 3
    TET[b] = (i, j, 3 - i - j)

def containing(orders, p):
    """type of the unit-cube simplex strictly containing point p"""
    r = [b for b, o in orders.items() if all(p[o[n]] > p[o[n + 1]] for n in range(len(o) - 1))]
    assert len(r) == 1, (p, r)
    return r[0]

def verts(orders, b):
    d = len(orders[b])
    v = [tuple([0] * d)]
    cur = [0] * d
    for a in orders[b]:
        cur[a] = 1
        v.append(tuple(cur))
    return v

def simplex(name, orders):
    d = len(orders[0])
    nt, nc = len(orders), 2 ** d
    out = []
    pt = [[0] * nt for _ in range(nc)]
    for c in range(nc):
        for b in range(nt):
            vs = verts(orders, b)
            # centroid * 2*(d+1) in units where the parent cube has side 2
            p = [(d + 1) * ((c >> a) & 1) + sum(v[a] for v in vs) for a in range(d)]
            pt[c][b] = containing(orders, p)
    rk = [[[-1] * nt for _ in range(nc)] for _ in range(nt)]
    ch = [[] for _ in range(nt)]
    for P in range(nt):
        for c in range(nc):
            for b in range(nt):
                if pt[c][b] == P:
                    rk[P][c][b] = len(ch[P])
                    ch[P].append((c, b))
        assert len(ch[P]) == nc
    out.append("static const int8_t %s_PT[%d][%d] = %s;" % (name, nc, nt, arr(pt)))
    out.append("static const int8_t %s_RK[%d][%d][%d] = %s;" % (name, nt, nc, nt, arr(rk)))
    out.append("static const int8_t %s_CC[%d][%d] = %s;" % (name, nt, nc, arr([[c for c, b in ch[P]] for P in range(nt)])))
    out.append("static const int8_t %s_CB[%d][%d] = %s;" % (name, nt, nc, arr([[b for c, b in ch[P]] for P in range(nt)])))
    out.append("static const int8_t %s_VX[%d][%d][%d] = %s;" % (name, nt, d + 1, d, arr([verts(orders, b) for b in range(nt)])))
    return out, pt, ch

# Pyramid cells of the unit cube: 6: z <= min(x,y) (base below, apex at (1,1,1)),
# 7: z >= max(x,y) (base above, apex at the anchor), and the tetrahedra 0 (x>=z>=y) and 3 (y>=z>=x).
def in_cell(b, p):
    x, y, z = p
    if b == 6:
        return z < min(x, y)
    if b == 7:
        return z > max(x, y)
    return containing(TET, p) == b
PYRV = {6: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)],
        7: [(0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 0)]}

def pyra_children():
    if not hasattr(pyra_children, "ch"):
        pyra()
    return pyra_children.ch

def pyra():
    out = []
    def cen(c, b):
        vs = PYRV[b] if b >= 6 else verts(TET, b)
        # interior point: the mean of the vertices, scaled by 20, parent cube has side 2
        return [20 * ((c >> a) & 1) + sum(20 * v[a] for v in vs) // len(vs) for a in range(3)]
    # parent type of a cell (c, b) whose parent has pyramid shape, -1 if there is none
    pt = [[-1] * 8 for _ in range(8)]
    ch = {6: [], 7: []}
    for c in range(8):
        for b in (0, 3, 6, 7):
            for P in (6, 7):
                if in_cell(P, cen(c, b)):
                    pt[c][b] = P
    for P in (6, 7):
        for c in range(8):
            for b in (0, 3, 6, 7):
                if pt[c][b] == P:
                    ch[P].append((c, b))
        assert len(ch[P]) == 10, ch[P]
    rk = [[[-1] * 8 for _ in range(8)] for _ in range(2)]
    for P in (6, 7):
        for n, (c, b) in enumerate(ch[P]):
            rk[P - 6][c][b] = n
    pyra_children.ch = ch
    # number of pyramid-shaped children preceding child n
    out.append("static const int8_t pyra_PT[8][8] = %s;" % arr(pt))
    out.append("static const int8_t pyra_RK[2][8][8] = %s;" % arr(rk))
    out.append("static const int8_t pyra_CC[2][10] = %s;" % arr([[c for c, b in ch[P]] for P in (6, 7)]))
    out.append("static const int8_t pyra_CB[2][10] = %s;" % arr([[b for c, b in ch[P]] for P in (6, 7)]))
    out.append("static const int8_t pyra_NP[2][11] = %s;" % arr([[sum(1 for c, b in ch[P][:n] if b >= 6) for n in range(11)] for P in (6, 7)]))
    out.append("static const int8_t pyra_VX[2][5][3] = %s;" % arr([PYRV[6], PYRV[7]]))
    return out

# faces: simplices: face f is opposite to vertex f
def sfaces(n):
    return [[v for v in range(n) if v != f] for f in range(n)]
PYRF = {6: [[0, 2, 4], [1, 3, 4], [0, 1, 4], [2, 3, 4], [0, 1, 2, 3]],
        # the faces of an upside-down pyramid: numbered such that equally numbered faces are parallel
        7: [[2, 3, 4], [0, 1, 4], [1, 3, 4], [0, 2, 4], [0, 1, 2, 3]]}

def det(m):
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(3))

def in_plane(pts, p):
    """does p lie in the line/plane spanned by the first dim points of pts"""
    d = len(p)
    rows = [[pts[i][a] - pts[0][a] for a in range(d)] for i in range(1, d)] + [[p[a] - pts[0][a] for a in range(d)]]
    return det(rows) == 0

def pftab(kids, vertsof, facesof, types):
    """PF[type][child][face of child] = face of the parent that contains it, -1: inner"""
    out = []
    for P in types:
        pv = [tuple(2 * x for x in v) for v in vertsof(P)]
        row = []
        for c, b in kids[P]:
            cv = [tuple(v[a] + ((c >> a) & 1) for a in range(len(v))) for v in vertsof(b)]
            r = []
            for g in facesof(b):
                m = [f for f, fv in enumerate(facesof(P)) if all(in_plane([pv[i] for i in fv], cv[v]) for v in g)]
                assert len(m) <= 1
                r.append(m[0] if m else -1)
            row.append(r + [-1] * (5 - len(r)))
        out.append(row)
    return out

def faces():
    out = []
    _, _, ch2 = simplex("tri", TRI)
    _, _, ch3 = simplex("tet", TET)
    t2 = pftab(ch2, lambda b: verts(TRI, b), lambda b: sfaces(3), range(2))
    t3 = pftab(ch3, lambda b: verts(TET, b), lambda b: sfaces(4), range(6))
    pk = pyra_children()
    vo = lambda b: PYRV[b] if b >= 6 else verts(TET, b)
    fo = lambda b: PYRF[b] if b >= 6 else sfaces(4)
    tp = pftab(pk, vo, fo, (6, 7))
    out.append("static const int8_t tri_PF[2][4][5] = %s;" % arr(t2))
    out.append("static const int8_t tet_PF[6][8][5] = %s;" % arr(t3))
    out.append("static const int8_t pyra_PF[2][10][5] = %s;" % arr(tp))
    # derived: face of child k in face f (KF), children at a face in order (FC), their number (NC)
    cube = lambda d: [[[g if ((k >> (g >> 1)) & 1) == (g & 1) else -1 for g in range(2 * d)] for k in range(2 ** d)]]
    prism = [[[t2[t][k & 3][g] if g < 3 else (g if (k >> 2) == g - 3 else -1) for g in range(5)] for k in range(8)] for t in range(2)]
    for nm, pf, nf, nk in (("line", cube(1), 2, 2), ("quad", cube(2), 4, 4), ("hex", cube(3), 6, 8), ("tri", t2, 3, 4), ("tet", t3, 4, 8), ("prism", prism, 5, 8),
                           ("pyra", [r + [[-1] * 5] * 2 for r in t3] + tp, 5, 10)):
        kf = [[[([g for g in range(len(r[k])) if r[k][g] == f] + [-1])[0] for k in range(nk)] for f in range(nf)] for r in pf]
        fc = [[([k for k in range(nk) if x[k] >= 0] + [-1] * 5)[:5] for x in t] for t in kf]
        out.append("static const int8_t %s_KF[%d][%d][%d] = %s;" % (nm, len(kf), nf, nk, arr(kf)))
        out.append("static const int8_t %s_FC[%d][%d][5] = %s;" % (nm, len(fc), nf, arr(fc)))
        out.append("static const int8_t %s_NC[%d][%d] = %s;" % (nm, len(fc), nf, arr([[sum(k >= 0 for k in x) for x in t] for t in fc])))
    out.append("static const int8_t pyra_FV[2][5][4] = %s;" % arr([[f + [-1] * (4 - len(f)) for f in PYRF[P]] for P in (6, 7)]))
    return out

def main():
    print("/* generated by spec/gen_tables.py */")
    print("\n".join(simplex("tri", TRI)[0]))
    print("\n".join(simplex("tet", TET)[0]))
    print("\n".join(pyra()))
    print("\n".join(faces()))

if __name__ == "__main__":
    main()
