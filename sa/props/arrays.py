"""Properties of the cosmology-aware array classes."""

from . import prop
from .. import cosmo, cosmocheck as cc, npspec, programs as pg

ASSUME = [
    "numpy and unyt primitives behave as their transfer functions in sa/npspec.py say (homogeneity degrees of numpy functions)",
    "the scale factor is a positive number different from 1, all operands of one program belong to one snapshot",
    "loops over unknown sequences are followed for one abstract iteration",
]


def merge(rep, J, keep=None, label=""):
    """judge results -> obligations of the report"""
    st = J.stats
    n = st["results_checked"] + st["operands_checked"] + st["paths"]
    rep.obligations += n
    bad = 0
    for f in J.findings:
        if keep is not None and not keep(f):
            continue
        bad += f["n"]
        rep.add(f["rule"], f["construct"], f["message"], f["where"], "scenario %s with frames %s (C comoving, P physical, V physical without transform, U unset)" % (f["scenario"], f["frames"]))
    rep.discharged += max(0, n - bad - st["undecided_paths"])
    for u in J.undecided:
        rep.undecided.append("%s: %s" % (u[0], u[2]))
    for k, v in J.reasons.items():
        rep.undecided.append("%s: %s" % (v[0], k))
    for k, v in st.items():
        rep.count(k, v)
    if J.undecided:
        rep.count("unanalysable", len(J.undecided))


def world(rep):
    W = cosmo.world(rep.root)
    rep.assumptions = ASSUME
    return W


def ufuncs(W, rep, keep=None, pick=None):
    J = cc.Judge(W)
    lines = cc.lines_of(npspec.UFUNC_SCENARIOS)
    cc.run_ufuncs(W, J, [l for l in lines if pick is None or pick(l)])
    merge(rep, J, keep)
    return J


def functions(W, rep, keep=None, pick=None):
    J = cc.Judge(W)
    lines = cc.lines_of(npspec.FUNC_SCENARIOS)
    cc.run_functions(W, J, [l for l in lines if pick is None or pick(l)])
    merge(rep, J, keep)
    return J


def programs(W, rep, progs, keep=None):
    J = cc.Judge(W)
    pg.run(W, J, progs)
    merge(rep, J, keep)
    return J


def stats(W, rep):
    s = W.it.stats
    rep.coverage["functions_interpreted"] = len(s["functions"])
    rep.coverage["statements_interpreted"] = s["stmts"]
    rep.samples = rep.samples or sorted(str(x) for x in s["functions"])[:12]


@prop("P01", "Abstract interpretation of __array_ufunc__ and everything it calls for every ufunc scenario and every assignment of "
             "frames (comoving, physical, physical-untransformable, unset) to the operands, in a (scale-factor dimension, frame) domain; "
             "every result's labels are compared with the numbers it holds.")
def p01(rep):
    W = world(rep)
    rep.rules = ["label", "mixed-frames", "refused", "class", "valid-transform", "compression", "out-label", "out-unwritten", "mutated-operand", "unset-frame"]
    ufuncs(W, rep)
    programs(W, rep, pg.ARITH + pg.FACTOR)
    stats(W, rep)
    rep.floor = 2500


@prop("P02", "Abstract interpretation of __array_function__, the registered numpy-function implementations and everything they call, "
             "for every scenario and every assignment of frames to the operands; result labels are compared with the numbers held.")
def p02(rep):
    W = world(rep)
    rep.rules = ["label", "mixed-frames", "refused", "class", "valid-transform", "out-label", "out-unwritten", "mutated-operand", "unset-frame"]
    functions(W, rep)
    stats(W, rep)
    reg = registered(W)
    done = {cc.Scenario(l).func for l in cc.lines_of(npspec.FUNC_SCENARIOS)}
    rep.coverage["registered_functions"] = len(reg)
    rep.coverage["registered_without_scenario"] = sorted(reg - done)
    rep.floor = 4000


def registered(W):
    m = W.it.get_mod("swiftsimio._array_functions")
    d = W.it.mod_attr(m, "_HANDLED_FUNCTIONS")
    out = set()
    for k in d:
        p = getattr(k, "path", None)
        if p and p.startswith("numpy."):
            out.add(p[6:])
    return out


FRAME = {"mixed-frames", "unset-frame", "refused"}


def frame_only(f):
    return f["rule"] in FRAME or (f["rule"] in ("label", "out-label") and ("built from operands in different frames" in f["message"] or "but holds" in f["message"])
                                  and len(set(f["frames"]) & set("CPV")) > 1)


@prop("P03", "Every binary and n-ary operation is interpreted with its operands in different frames; a kernel (numpy primitive) reached "
             "with numbers of two frames, or of two scale-factor dimensions where they must agree, is a violation, and so is refusing a "
             "combination that has a common frame or accepting an operand whose frame is unset.")
def p03(rep):
    W = world(rep)
    rep.rules = sorted(FRAME)
    multi = lambda l: len(cc.Scenario(l).framed) > 1
    ufuncs(W, rep, frame_only, multi)
    functions(W, rep, frame_only, multi)
    programs(W, rep, pg.ARITH + pg.COMPARE)
    stats(W, rep)
    rep.floor = 4000


@prop("P04", "Every array method, view, index, conversion and unit multiplication is interpreted for each frame of the receiver; the "
             "result must be of the cosmology-aware class of its shape and carry the receiver's four labels.")
def p04(rep):
    W = world(rep)
    rep.rules = ["label", "class", "valid-transform", "compression", "refused"]
    programs(W, rep, pg.METHODS)
    keep = lambda f: f["rule"] in ("class", "valid-transform", "compression") or "lost" in f["message"] or "without cosmology labels" in f["message"]
    ufuncs(W, rep, keep)
    functions(W, rep, keep, lambda l: not l.startswith("?"))
    stats(W, rep)
    rep.floor = 1500


@prop("P05", "Every conversion entry point, and their compositions, is interpreted for each frame of the receiver: the numbers must end "
             "up in the frame the label says, conversions without a valid transform must be refused before anything changes, and the "
             "out-of-place forms must return fresh memory.")
def p05(rep):
    W = world(rep)
    rep.rules = ["label", "not-refused", "refused", "refused-late", "aliasing", "mutated-operand", "answer"]
    programs(W, rep, pg.CONVERSIONS + [p for p in pg.CONSTRUCT if "convert" in p.line])
    programs(W, rep, [p for p in pg.FACTOR if "a_factor" in p.line or "redshift" in p.line])
    stats(W, rep)
    rep.floor = 200


@prop("P06", "Abstract interpretation with per-buffer write counters: no operation may change the numbers or labels of an operand it is "
             "not documented to write, and an out= or destination array must be written and labelled consistently.")
def p06(rep):
    W = world(rep)
    rep.rules = ["mutated-operand", "out-label", "out-unwritten", "aliasing", "refused-late"]
    keep = lambda f: f["rule"] in rep.rules
    ufuncs(W, rep, keep)
    functions(W, rep, keep)
    programs(W, rep, pg.METHODS + pg.CONVERSIONS + pg.CONSTRUCT, keep)
    programs(W, rep, [p for p in pg.ARITH if p.mutates])
    stats(W, rep)
    rep.floor = 4000


@prop("P07", "Every constructor and importer, with each way of giving the labels and each kind of input, is interpreted: the requested "
             "labels must be attached, the numbers must be in the frame the label says, and inconsistent requests must raise.")
def p07(rep):
    W = world(rep)
    rep.rules = ["label", "class", "not-refused", "refused", "answer", "aliasing", "mutated-operand"]
    programs(W, rep, pg.CONSTRUCT + pg.FACTOR)
    stats(W, rep)
    rep.floor = 150


@prop("P08", "The pickle protocol methods and the copy hooks are interpreted through a model of pickle/copy: the restored object must "
             "carry the four labels of the original, and the array's own state must reach its base class intact.")
def p08(rep):
    W = world(rep)
    rep.rules = ["label", "class", "refused", "aliasing"]
    progs = [p for p in pg.METHODS if "pickle" in p.line or "copy" in p.line]
    for p in progs:
        p.fresh = True
    programs(W, rep, progs)
    stats(W, rep)
    rep.floor = 60
