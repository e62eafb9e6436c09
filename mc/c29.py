"""C29: an analysis that fails leaves every existing result as it was, publishes no wrong one and can be repeated."""
import contextlib, copy, io
import numpy as np
from . import ref, obs
from .c05 import HS
from .c06 import trn, sq
from .c10 import LSH, CMP, TEE, THREE, HOLE, ACT, SHEAR, digest, stress, same_stress
from .c11 import GET, val
from . import c24
from .core import close

NEEDS_FEA = True
CHUNK = 1
ALPHABET = ("successful analyses G (geometric), W/w (warping, direct/iterative), P (plastic), F/f (frame, direct/iterative); faults: an unknown solver type for W and F, the k-th "
            "linear solution of W, w, F, f not converging (every k), the incomplete factorisation of w, f being singular, the k-th root search of P not converging or failing "
            "(every k), sections on which the iterative solver does not converge by itself; with and without progress display")
BOUND = {"quick": "8 sections: the reachable states of the real section under all successful and all faulty operations (states merged by content, at most depth 3 - every result "
                  "request, stress analysis and display in every state); one fault at a time",
         "thorough": "12 sections, until no new state is found (at most depth 6)"}
ORACLE = ("results of the same analysis on a fresh section (direct or iterative, 1e-9): every available result equals one of them in every state, a failing operation raises and "
          "takes nothing away, the torsion and warping results appear only with an analysis that solved for them, stresses and displays as on a fresh section")

CORNER = [sq(0, 0, 1, 1, None), sq(1, 1, 1, 1, None)]      # regions meeting in a point: the iterative solver may refuse
APART = [sq(0, 0, 1, 1, "S"), sq(3, 0, 1, 1, "C")]
SECS = [dict(regions=LSH), dict(regions=CMP, compound=1), dict(regions=HOLE), dict(regions=CORNER, compound=1), dict(regions=APART, compound=1), dict(regions=LSH, ti=1),
        dict(regions=THREE, compound=1, ti=1), dict(regions=CMP, compound=1, fine=1),
        dict(regions=TEE, compound=1), dict(regions=CORNER, compound=1, ti=1), dict(regions=HOLE, fine=1), dict(regions=THREE, compound=1, fine=1)]
GOOD = ["G", "W", "w", "P", "F", "f"]
FAULTS = (["W:x", "F:x"] + [f"{o}:{k}" for o in "Ww" for k in (1, 2, 3)] + ["F:1", "f:1", "w:i", "f:i"] + [f"P:{k}" for k in (1, 2, 3, 4)] + [f"P:e{k}" for k in (1, 2, 3, 4)])


def cases(tier):
    q = tier == "quick"
    out = []
    for k, s in enumerate(SECS[:8] if q else SECS):
        base = dict(s, tr=["mix", "id", "rot345"][k % 3], mesh={"s": 0.3 if s.get("fine") else 0}, depth=3 if q else 6, timeout=600 if q else 3600)
        for first in GOOD + FAULTS:
            out.append(dict(base, first=first))
    return out


def new(case):
    from sectionproperties.analysis import Section
    g = ref.build(dict(case, tr=trn(case["tr"])))
    obs.mesh(g, case["mesh"], ref.area_scale(trn(case["tr"])))
    return Section(g, time_info=bool(case.get("ti")))


class Stop(RuntimeError):
    """the injected fault"""


@contextlib.contextmanager
def fault(kind):
    """arm one fault; yields a list that holds the injection once it has happened"""
    import sectionproperties.analysis.solver as so
    import sectionproperties.analysis.section as se
    import sectionproperties.analysis.plastic_section as pl
    hit, saved = [], []

    def patch(mod, name, make):
        if hasattr(mod, name):
            old = getattr(mod, name)
            saved.append((mod, name, old))
            setattr(mod, name, make(old))
    n = [0]
    op, f = kind.split(":")
    if f in "123" and op != "P":
        def make(old):
            def g(*a, **k):
                n[0] += 1
                if n[0] == int(f):
                    hit.append(1)
                    raise Stop("injected: the solver did not converge")
                return old(*a, **k)
            return g
        patch(so, "solve_direct_lagrange", make); patch(so, "solve_cgs_lagrange", make)
    elif f == "i":
        def make(old):
            def g(*a, **k):
                hit.append(1)
                raise Stop("injected: factor is exactly singular")
            return g
        patch(se, "spilu", make)
    elif op == "P":
        def make(old):
            def g(*a, **k):
                n[0] += 1
                if n[0] != int(f[-1]):
                    return old(*a, **k)
                hit.append(1)
                if f[0] == "e":
                    raise Stop("injected: no root in the bracket")
                d, r = old(*a, **k)
                r.converged = False
                return d * 1.5 + 0.25, r
            return g
        patch(pl, "brentq", make)
    try:
        yield hit
    finally:
        for mod, name, old in saved:
            setattr(mod, name, old)


def act(s, op):
    with contextlib.redirect_stdout(io.StringIO()):
        o, _, f = op.partition(":")
        sv = {"solver_type": "lu"} if f == "x" else {"solver_type": "cgs"} if o in "wf" else {}
        if o == "G":
            s.calculate_geometric_properties()
        elif o in "Ww":
            s.calculate_warping_properties(**sv)
        elif o in "Ff":
            s.calculate_frame_properties(**sv)
        elif o == "P":
            s.calculate_plastic_properties()


def results(s):
    d = {}
    for name in GET:
        try:
            d[name] = val(getattr(s, name)())
        except RuntimeError:
            pass
    return d


REF = {}


def baseline(case, rec):
    """op -> results of a fresh section after it (None: the operation fails by itself)"""
    key = repr((case["regions"], case["tr"], case["mesh"], case.get("ti")))
    if key not in REF:
        b = {}
        for op in GOOD:
            s = new(case)
            if op in "WwP":
                act(s, "G")
            try:
                act(s, op)
            except RuntimeError:
                b[op] = None
                continue
            b[op] = results(s)
            with contextlib.redirect_stdout(io.StringIO()):
                if op == "G":
                    b["S"] = stress(s, ACT)
                if op in "Ww":
                    b["M" + op] = stress(s, SHEAR)
        for k, it in (("W", "w"), ("F", "f")):
            # an iterative solution that is accepted solves the same equations (to its tolerance)
            if b[it] is not None and b[k] is not None:
                for n in ("get_j", "get_ej"):
                    if n in b[k]:
                        rec.check(close(b[it][n][0], b[k][n][0], 1e-3), lambda: f"a fresh section gives {n} = {b[it][n][0]} with the iterative and {b[k][n][0]} with the direct solver")
        REF[key] = b
    return REF[key]


class State:
    def __init__(self, s):
        self.s, self.done, self.frame = s, set(), False      # completed analyses; results that must be there

    def clone(self):
        from sectionproperties.pre.pre import DEFAULT_MATERIAL
        memo = {}
        for m in [DEFAULT_MATERIAL] + [ref.material(k) for k in ref.MATS]:
            memo[id(m)] = m
        c = State(copy.deepcopy(self.s, memo))
        c.done, c.frame = set(self.done), self.frame
        return c


def near(name, a, b, L, i11):
    """equal up to round-off of the section's scale"""
    if len(a) != len(b):
        return False
    at = {"get_c": L, "get_sc": L, "get_sc_p": L, "get_sc_t": L, "get_pc": L, "get_pc_p": L, "get_beta": L, "get_beta_p": L, "get_phi": 1e3}.get(name, 0)
    if not at and len(a) > 1:
        at = max(abs(v) for v in b)
    if name in ("get_gamma", "get_egamma"):
        at = i11 * L * L
    return all(close(x, y, 1e-9, 1e-9 * at) for x, y in zip(a, b))


def step(st, op, case, rec, hist):
    s, base = st.s, baseline(case, rec)
    tag = f"after {' '.join(hist) or 'nothing'}: {op}"
    o, _, f = op.partition(":")
    before = results(s)
    need = {"W": "G", "w": "G", "P": "G"}.get(o)
    refuse = (need is not None and need not in st.done) or base[o] is None
    err = None
    with fault(op) if f not in ("", "x") else contextlib.nullcontext([1] if f else []) as hit:
        try:
            act(s, op)
        except Exception as e:
            err = e
    fired = bool(hit)
    if fired and f:
        rec.check(err is not None, lambda: f"{tag}: the fault was not reported")
        rec.count("faults")
    elif f and not refuse:
        rec.count("faults that did not occur")
    if refuse:
        # by itself the iterative solver may or may not converge on such sections from another starting point
        rec.check(err is not None or base[o] is None, lambda: f"{tag}: did not fail although {need} has not been run")
    elif not fired:
        rec.check(err is None, lambda: f"{tag}: failed with {err!r}; a fresh section does not fail")
    if err is not None:
        rec.check(isinstance(err, (RuntimeError, ValueError)), lambda: f"{tag}: failed with {err!r}")
    else:
        st.done |= {o.upper()} if o != "f" else {"F"}
    after = results(s)
    L = max(abs(v) for v in base["G"]["get_rc"] + base["G"]["get_c"])
    i11 = max(abs(v) for v in base["G"].get("get_ip", base["G"].get("get_eip")))
    for name, v in before.items():
        rec.check(name in after, lambda: f"{tag}: {name} was {v}, it is not available any more")
    for name, v in after.items():
        src = {"G": "GFf", "W": "WwFf", "P": "P"}[GET[name][0]]
        want = [base[k][name] for k in src if base[k] is not None and name in base[k]]
        if not want:
            continue
        rec.check(any(near(name, v, w, L, i11) for w in want), lambda: f"{tag}: {name} = {v} ({'was ' + str(before[name]) if name in before else 'not available before'}), a fresh section gives {want[0]}")
        rec.step()
    for k in st.done:
        b = base[k] or {}
        for name in b:
            if GET[name][0] == k or k == "F":
                rec.check(name in after, lambda: f"{tag}: {name} is not available although {k} has completed")
    # a result nothing has solved for must not be there
    if not st.done & {"W", "F"} and "get_j" in after or not st.done & {"W", "F"} and "get_ej" in after:
        # allowed only when a warping analysis failed after the torsion problem was solved
        rec.check(any(h[:2] in ("W:", "w:") or h in "Ww" for h in hist + [op]), lambda: f"{tag}: a torsion constant is available without any warping or frame analysis")
    if not st.done & {"W"}:
        for name in ("get_sc", "get_as", "get_eas", "get_beta", "get_sc_p"):
            if name in after:
                rec.check(any(h[:2] in ("W:", "w:") or h in "Ww" for h in hist + [op]), lambda: f"{tag}: {name} is available without any warping analysis")
    return after


def look(st, case, rec, hist, have):
    with contextlib.redirect_stdout(io.StringIO()):
        look_(st, case, rec, hist, have)


def look_(st, case, rec, hist, have):
    """stresses and displays of the state"""
    s, base = st.s, baseline(case, rec)
    tag = f"after {' '.join(hist)}"
    if "G" in st.done:
        same_stress(rec, f"{tag}: bending stresses", stress(s, ACT), base["S"], 1e-9)
    try:
        m = stress(s, SHEAR)
    except RuntimeError:
        rec.check("W" not in st.done, lambda: f"{tag}: the shear stress analysis fails although the warping analysis has completed")
    else:
        wants = [base["M" + k] for k in "Ww" if "M" + k in base]
        if wants:
            same_stress(rec, f"{tag}: shear stresses", m, wants[0], 2e-2 if len(wants) > 1 else 1e-8)
    comp = s.is_composite()
    c24.check(rec, tag, lambda: s.display_results(fmt=".15e"), have, 1 if comp else 0, ".15e", None)
    if comp:
        c24.check(rec, tag, lambda: s.display_transformed_results(e_ref=2.0, fmt=".15e"), have, 2, ".15e", 2.0)


def run_case(case, rec):
    st = State(new(case))
    have = step(st, case["first"], case, rec, [])
    look(st, case, rec, [case["first"]], have)
    frontier = [(st, [case["first"]])]
    seen = {(digest(st.s), tuple(sorted(st.done)))}
    depth = 1
    while frontier and depth < case["depth"]:
        nxt = []
        for st, hist in frontier:
            for op in GOOD + FAULTS:
                c = st.clone()
                have = step(c, op, case, rec, hist)
                k = (digest(c.s), tuple(sorted(c.done)))
                rec.trace()
                if k not in seen:
                    seen.add(k)
                    look(c, case, rec, hist + [op], have)
                    nxt.append((c, hist + [op]))
                    rec.state((repr(case["regions"]), case.get("ti"), case.get("fine"), k))
        frontier = nxt
        depth += 1
    rec.count("closed" if not frontier else "bounded by depth")
    rec.outcome((repr(case["regions"]), case["first"], len(seen)))
