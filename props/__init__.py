import importlib, json, os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TRUSTED = [
    "rustc nightly MIR construction and rustc_public (mirdump): the verified text is the MIR of /repo's current source",
    "mirv symbolic executor (mirv/interp.py) and its VC encoding; soundness argument in DESIGN.md",
    "z3 4.8 / z3-new / cvc5 / z3 python bindings: an obligation counts as discharged on their `unsat`",
    "integer atoms carry their machine range; U256 is a mathematical integer in [0, 2^256): proved of the `uint` crate's own MIR (in P01's check) for checked_add, checked_sub, comparisons, conversions, bits, is_zero and (thorough runs) shifts; assumed, as documented, for multiplication, division and remainder",
]
ASSUMPTIONS = [
    "the program built by the pinned 1.70 toolchain behaves as the nightly MIR of the same source (std library bodies are nightly's)",
    "logging and formatting have no effect on results",
]


def load(pid):
    for f in sorted(os.listdir(HERE)):
        if f.endswith(".py") and f not in ("__init__.py",):
            importlib.import_module("props." + f[:-3])
    from .reg import PROPS

    p = dict(PROPS[pid])
    own = {s.name for s in p["specs"]}
    p["specs"] = list(p["specs"])
    for q, names in SUPPORT.get(pid, {}).items():
        for s in PROPS[q]["specs"]:
            if (names is None or s.name in names) and s.name not in own:
                own.add(s.name)
                p["specs"].append(s)
    return p


# What the operations on accounts rest on: the calls they make to the pool
# state, the fees and the curves are replaced by contracts there, and those
# contracts are discharged in the same check.  property -> {property: specs}
CODEC = {"P17": None, "P16": None}
SUPPORT = {
    "P18": {"P07": ("linear price validation", "linear price initial supply"), "P08": None, "P09": None, "P12": ("fee validation",), "P15": None, "P16": None, "P17": None},
    "P19": dict(CODEC),
    "P20": dict(CODEC, P12=None, P13=None, P14=None),
    "P21": dict(CODEC, P10=None, P07=("linear price deposits",), P09=None),
    "P22": dict(CODEC, P10=None, P12=None),
    "P23": dict(CODEC, P11=None, P26=("constant product one-sided deposit",), P12=None, P14=None, P07=("linear price deposits",), P09=None),
    "P24": dict(CODEC, P11=None, P26=None, P12=None, P14=None),
    "P27": dict(CODEC, P20=None, P12=None, P13=None),
}


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def match_known(known, spec, inputs, bad):
    for k in known:
        if k.get("spec") == spec and k.get("inputs") == inputs:
            return k
    return None


def record_known(known, spec, rec):
    return False
