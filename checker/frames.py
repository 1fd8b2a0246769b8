"""Kinds and frames of the vectors of a dodecahedron: a type inference on the
abstract values of its construction.  A vector is of a face or of a vertex,
and has been turned by some rotation matrices (outermost first).  A rotation
made for a vector is what puts that vector on the pole."""
from terms import restrict

FACE, VERTEX = "face", "vertex"
# makes faces from constants, makes vertices from faces
SOURCES = {"_computeFullVecList": FACE, "_computeDodecahedronVertices": VERTEX}
SAME = {"_sortedVectorList", "_findClosePair", "_findCloseList"}
ROTATION = "_computeCoordTransform"


class Frames:
    def __init__(self, params, on):
        self.params = params        # function name -> positional parameters
        self.on = on                # the case considered

    def arg(self, t, k):
        """The k-th parameter of an opaque call."""
        names = self.params(t.args[2].args[0])
        i = sorted(names).index(names[k])
        return t.args[3 + i]

    def call(self, t):
        return t.args[2].args[0] if t.op == "x" and t.args[1] == "opaque" else None

    def of(self, t):
        """(kind, rotations) of a vector, or of the elements of a list of
        vectors; None if unclear."""
        f = self.call(t)
        if f in SOURCES:
            return SOURCES[f], ()
        if f in SAME:
            return self.of(self.arg(t, 0))
        if t.op == "x" and t.args[1] in ("item", "elem") or t.op == "elem":
            return self.of(t.args[2] if t.op == "x" else t.args[0])
        if t.op == "x" and t.args[1] in ("method.copy", "numpy.array", "numpy.asarray"):
            return self.of(t.args[2])
        if t.op == "x" and t.args[1] in ("numpy.dot", "numpy.matmul") and len(t.args) == 4:
            m, v = t.args[2], t.args[3]
            if self.call(m) == ROTATION:
                r = self.of(v)
                return r and (r[0], (m,) + r[1])
            return None
        if t.op == "ite":
            r = restrict(t, self.on)
            if r.op != "ite":
                return self.of(r)
            a, b = self.of(t.args[1]), self.of(t.args[2])
            return a if a == b else None
        if t.op in ("seq", "tup", "comp", "seg"):
            e = [self.of(u) for u in t.args[{"seq": 0, "tup": 1, "comp": 3, "seg": 1}[t.op]:]]
            return e[0] if e and all(x == e[0] for x in e) else None
        return None

    def pole(self, m):
        """What a rotation puts on the pole."""
        return self.of(self.arg(m, 0))
