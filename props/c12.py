"""rotation matrices"""
import itertools

from .common import *
from .c07 import clean, equal

TH, T2 = V("th"), V("t2")
THI = E(T.sym("th_int", "I"))
INTS = [E(T.sym(n + "_int", "I")) for n in ("inc", "om", "Om")]
SPEC = {"x": rot_x, "y": rot_y, "z": rot_z}


def matrix(res):
    c = S.asarray(res).cells
    return [[E(c[r, q] if c.ndim == 2 else c[r, q, 0]) for q in range(3)] for r in range(3)]


def run(chk):
    k = chk.load()
    chk.under_contract(k, "rot_mat_x", "rot_mat_y", "rot_mat_z", "euler_rotation_matrix")
    eye = [[C(int(r == q)) for q in range(3)] for r in range(3)]
    for ax in "xyz":
        fn = getattr(k, f"rot_mat_{ax}")
        M = None
        for arg in ("float", "np64", "int"):
            for dt in (None, "float64", "float32", "type"):
                nm = f"rot_mat_{ax}[{arg},{dt or 'default'}]"
                kw = {} if dt is None else {"dtype": S.rnp.float32 if dt == "type" else S.rnp.dtype(dt)}
                p = chk.single(nm, lambda: fn(S.SymInt(tm(THI)) if arg == "int" else num(TH, arg == "np64"), **kw))
                if p is None:
                    continue
                want = S.rnp.dtype("float32" if dt in ("float32", "type") else "float64")
                ok = isinstance(p.result, S.SymArray) and p.result.dims == (3, 3)
                chk.expect(f"{nm}/shape", ok, f"{p.result!r}")
                if not ok:
                    continue
                chk.expect(f"{nm}/dtype", p.result.dtype == want, f"{p.result.dtype}")
                R = matrix(p.result)
                for r in range(3):
                    for q in range(3):
                        chk.prove(f"{nm}/post.{r}{q}", R[r][q].eq(SPEC[ax](E(T.to_real(tm(THI))) if arg == "int" else TH)[r][q]), [])
                M = M or R
        if M is None:
            continue
        Mt = [[M[q][r] for q in range(3)] for r in range(3)]
        pr = matmul(M, Mt)
        A = [[subst(x, {TH: TH + T2}) for x in r] for r in M]
        B = matmul(M, [[subst(x, {TH: T2}) for x in r] for r in M])
        for r in range(3):
            for q in range(3):
                chk.prove(f"rot_mat_{ax}/orthogonal.{r}{q}", pr[r][q].eq(eye[r][q]), [])
                chk.prove(f"rot_mat_{ax}/additive.{r}{q}", A[r][q].eq(B[r][q]), [])
        det = dot(M[0], cross(M[1], M[2]))
        chk.prove(f"rot_mat_{ax}/determinant", det.eq(1), [])
        n = "xyz".index(ax)
        # fixes its axis, turns the next axis towards the one after
        for r in range(3):
            chk.prove(f"rot_mat_{ax}/axis.{r}", M[r][n].eq(int(r == n)), [])
        y, z = (n + 1) % 3, (n + 2) % 3
        chk.prove(f"rot_mat_{ax}/counter-clockwise", and_(M[y][y].eq(cos(TH)), M[z][y].eq(sin(TH))), [])
    inc, om, Om = Vs("inc om Om")
    for kd in list(itertools.product(("array", "float"), repeat=3)) + [("np64",) * 3, ("array", "np64", "np64")] + [
            tuple(i if j == n else o for j in range(3)) for n in range(3) for i in ("intarray", "int", "single") for o in ("array", "float")] + [
            ("intarray",) * 3, ("int",) * 3, ("single",) * 3, ("int", "intarray", "int")]:
        for dg in (None, False, True):
            angles = [(rad(E(T.to_real(tm(n)))) if dg else E(T.to_real(tm(n)))) if q.startswith("int") else x for x, n, q in zip((inc, om, Om), INTS, kd)]
            goal = matmul(matmul(rot_z(angles[2]), rot_x(angles[0])), rot_z(angles[1]))
            nm = f"euler_rotation_matrix[{','.join(kd)},{'default' if dg is None else 'deg' if dg else 'rad'}]"

            def thunk():
                ax = CTX.new_axis("N")
                xs = [vec(t, ax) if q == "array" else vec(n, ax, "int64") if q == "intarray" else S.SymInt(tm(n)) if q == "int" else
                      vec(t, ax, "float32") if q == "single" else num(t, q == "np64") for t, n, q in
                      zip([deg(x) if dg else x for x in (inc, om, Om)], INTS, kd)]
                return ax, k.euler_rotation_matrix(*xs, **({} if dg is None else {"degrees": dg}))
            ps = [p for p in chk.paths(nm, thunk) if not p.ended]
            for n, p in enumerate(ps):
                if p.exc is not None:
                    chk.record(f"{nm}/no-exception", False, "symbolic execution", 0, repr(p.exc))
                    continue
                ax, r = p.result
                ok = isinstance(r, S.SymArray) and same_dims(r.dims, (3, 3, ax) if set(kd) & {"array", "intarray", "single"} else (3, 3))
                chk.expect(f"{nm}/shape", ok, f"{r!r}")
                if not ok:
                    continue
                R = matrix(r)
                for i in range(3):
                    for j in range(3):
                        chk.prove(f"{nm}/path{n}/post.{i}{j}", R[i][j].eq(goal[i][j]), clean(p))
