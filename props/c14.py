"""direct update"""
from .orbops import *
from . import zero


SHARDS = 7


def run(chk):
    mod = setup(chk)
    chk.under_contract(mod, *METHODS)
    for job in chk.mine(list(jobs(mod)) + list(zero.jobs(mod, "C14"))):
        chk.guard(job[1], job[0], chk, *job[1:])


def jobs(mod):
    ops = {**basic(), **derived()}
    ups = updates()
    for typ in TYPES:
        for dg in (False, True):
            u = "deg" if dg else "rad"
            for name, op in ops.items():
                yield (check_change, f"direct[{typ},{u}]/{name}", mod, op, "direct", typ, dg)
            for name, op in ups.items():
                if (typ, dg) in (("true", False), ("mean", True)) or "block" in name:
                    yield (check_change, f"direct[{typ},{u}]/{name}", mod, op, "direct", typ, dg)
            for how in ("kep", "cart", "kepler", "cartesian", "none"):
                for vk in ("scalar", "array"):
                    for mk in ("none", "scalar", "array"):
                        if mk != "array" and (typ, dg) != ("mean", True):
                            continue
                        yield (construct, f"construct[{typ},{u},{how},{vk},m={mk}]", mod, "direct", typ, dg, how, vk, mk)
    # auto_update does not matter
    for name in ("a=scalar", "vx=array", "mean_anomaly=array", "propagate(scalar)"):
        yield (check_change, f"direct-noauto[mean,deg]/{name}", mod, ops[name], "direct-noauto", "mean", True)


METHODS = ["Orbit.__init__", "Orbit.update", "Orbit.calculate_cartesian", "Orbit.calculate_kepler", "Orbit.calc_true_anomaly"]
