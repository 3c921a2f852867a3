from .common import *

NU, EC, EA = V("nu"), V("e"), V("E")
REG = {"ell": [EC >= 0, EC < 1], "hyp": [EC > 1], "par": [EC.eq(1)]}
PT = {"ell": dict(nu=0.9, e=0.3, E=0.8), "hyp": dict(nu=0.9, e=1.7, E=0.8), "par": dict(nu=0.9, e=1.0, E=0.8)}


def t2e_facts(reg, nu=NU):
    return REG[reg] + [cos(nu / 2).ne(0)] + ([1 + EC * cos(nu) > 0] if reg == "hyp" else [])


def t2e_post(reg, nu, x):
    q = 1 + EC * cos(nu)
    if reg == "ell":
        return [("cos", (q * cos(x)).eq(EC + cos(nu))), ("sin", (q * sin(x)).eq(sqrt(1 - EC * EC) * sin(nu))),
                ("range", wrapped(x))]
    if reg == "hyp":
        return [("cosh", (q * cosh(x)).eq(EC + cos(nu))), ("sinh", (q * sinh(x)).eq(sqrt(EC * EC - 1) * sin(nu)))]
    return [("tan", x.eq(sin(nu / 2) / cos(nu / 2)))]


def e2t_facts(reg, ea=EA):
    return REG[reg] + ([cos(ea / 2).ne(0)] if reg == "ell" else [])


def e2t_post(reg, ea, x):
    if reg == "ell":
        q = 1 - EC * cos(ea)
        return [("cos", (q * cos(x)).eq(cos(ea) - EC)), ("sin", (q * sin(x)).eq(sqrt(1 - EC * EC) * sin(ea))),
                ("range", wrapped(x))]
    if reg == "hyp":
        q = EC * cosh(ea) - 1
        return [("cos", (q * cos(x)).eq(EC - cosh(ea))), ("sin", (q * sin(x)).eq(sqrt(EC * EC - 1) * sinh(ea))),
                ("range", wrapped(x))]
    q = 1 + ea * ea
    return [("cos", (q * cos(x)).eq(1 - ea * ea)), ("sin", (q * sin(x)).eq(2 * ea)), ("range", wrapped(x))]


def run(chk):
    k = chk.load()
    chk.under_contract(k, "true_to_eccentric", "eccentric_to_true")
    chk.assumptions.append("the pole of tan(x/2) at an elliptic anomaly of exactly pi (modulo a revolution) is excluded; "
                           "floating point never hits it exactly")
    for fname, x, facts, post in (("true_to_eccentric", NU, t2e_facts, t2e_post),
                                  ("eccentric_to_true", EA, e2t_facts, e2t_post)):
        for kinds in PAIRS:
            nm = f"{fname}[{kinds[0]},{kinds[1]}]"
            ps, box = anomaly_call(chk, getattr(k, fname), nm, x, EC, kinds)
            if not ps:
                continue
            for n, p in enumerate(ps):
                check_anomaly_shape(chk, f"{nm}/path{n}", p.result, box["args"])
            for reg in ("ell", "hyp", "par"):
                fs = facts(reg)
                chk.witness(f"{nm}/{reg}", fs, env(**PT[reg]))
                hit = 0
                for n, p in enumerate(ps):
                    pc = [f for f in p.pc if not T.syms_of(f) & {s for s in T.syms_of(f) if s.sort == "I"}]
                    if len(ps) > 1 and not feasible(fs + pc):
                        continue
                    hit += 1
                    for g, goal in post(reg, x, cell(p.result)):
                        chk.prove(f"{nm}/{reg}/path{n}/post.{g}", goal, fs + pc)
                chk.expect(f"{nm}/{reg}/some-path", hit > 0, "no feasible path")
    # mutual inverse and same point, by composition
    def thunk(f, x):
        return lambda: f(*anomaly_args(("array", "array"), x, EC))
    p1 = chk.single("compose/true_to_eccentric", thunk(k.true_to_eccentric, NU))
    p2 = chk.single("compose/eccentric_to_true", thunk(k.eccentric_to_true, EA))
    if p1 is None or p2 is None:
        return
    to, back = cell(p1.result), cell(p2.result)
    for reg in ("ell", "hyp", "par"):
        fs = t2e_facts(reg) + [NU >= 0, NU < TWO_PI]
        # equality in [0, 2 pi): same point of the circle and same range
        comp = subst(back, {EA: to})
        chk.prove(f"inverse/true-eccentric-true/{reg}", same_angle(comp, NU), fs)
        chk.prove(f"inverse/true-eccentric-true/{reg}/range", wrapped(comp), fs)
        fs = e2t_facts(reg) + ([EA >= 0, EA < TWO_PI] if reg == "ell" else [])
        comp = subst(to, {NU: back})
        if reg == "ell":
            chk.prove(f"inverse/eccentric-true-eccentric/{reg}", same_angle(comp, EA), fs)
            chk.prove(f"inverse/eccentric-true-eccentric/{reg}/range", wrapped(comp), fs)
        else:
            chk.prove(f"inverse/eccentric-true-eccentric/{reg}", comp.eq(EA), fs)
        # the same distance
        a = V("a")
        fs = t2e_facts(reg) + [a > 0]
        if reg == "ell":
            chk.prove(f"same-point/{reg}", (a * (1 - EC * cos(to))).eq(a * (1 - EC * EC) / (1 + EC * cos(NU))), fs)
        elif reg == "hyp":
            chk.prove(f"same-point/{reg}", (a * (EC * cosh(to) - 1)).eq(a * (EC * EC - 1) / (1 + EC * cos(NU))), fs)
        else:
            chk.prove(f"same-point/{reg}", (a * (1 + to * to)).eq(2 * a / (1 + cos(NU))), fs)


def feasible(fs):
    from dv import smt
    return smt.SOLVER.feasible([tm(f) for f in fs])
