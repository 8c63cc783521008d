"""Which property an obligation of the verifier belongs to."""

ALL = ["C%02d" % i for i in range(1, 19)]

# obligation name prefix -> properties (first match wins)
PREFIX = [
    ("val.repeatable", ("C12",)),
    ("val.", ("C01",)),
    ("ctl.one-switch", ("C02",)),
    ("ctl.no-switch", ("C01", "C02")),
    ("ctl.returns-this", ("C02",)),
    ("valid.", ("C03",)),
    ("exn.transfer", ("C01",)),
    ("exn.no-switch-in-handler", ("C04", "C05")),
    ("exn.eptr-valid", ("C04",)),
    ("exn.", ("C04",)),
    ("unwind.", ("C05",)),
    ("stack.", ("C06",)),
    ("alloc.", ("C06",)),
    ("ctx.none-left", ("C05", "C06")),
    ("obj.user-operator", ("C14",)),
    ("obj.", ("C07",)),
    ("own.", ("C08",)),
    ("it.deref", ("C09", "C12", "C01")),
    ("it.", ("C09",)),
    ("layout.context-apart", ("C10", "C17")),
    ("layout.context", ("C10", "C18")),
    ("layout.preallocated", ("C10", "C17")),
    ("layout.apart", ("C10", "C17")),
    ("layout.in-stack", ("C10", "C17")),
    ("regs.", ("C17",)),
    ("layout.", ("C10",)),
    ("guard.", ("C18",)),
    ("fn.", ("C11",)),
    ("ref.", ("C13",)),
    ("cat.", ("C14",)),
    ("frame.observer-pure", ("C03", "C09", "C12", "C15")),
    ("frame.", ("C15",)),
    ("synth.", ("C16",)),
    ("mem.heap-released", ("C07", "C06")),
]

# harness/interface.cpp: obligations on types
FACTS = {"not_copyable": ("C08",), "not_copy_assignable": ("C08",), "move_noexcept": ("C08",), "testable_const": ("C03",),
         "single_pass": ("C09",), "iterator_value": ("C09",), "iterator_reference": ("C09",), "output_only": ("C09",),
         "get_value": ("C01",), "takes_rvalue": ("C14",), "takes_lvalue": ("C14",),
         "get_reference": ("C13",), "deref_reference": ("C13",), "arrow_pointer": ("C13",), "keeps_const": ("C13",),
         "takes_reference": ("C13",), "no_conversion": ("C13",)}

# the remaining obligations (control flow, memory validity) belong to the
# properties the operation they occur in exists for
SEGMENT = [
    ("new_", ("C02", "C06", "C11")),
    ("second new", ("C02", "C06", "C15")),
    ("call", ("C01", "C02")),
    ("it_", ("C09", "C02")),
    ("del-synthesized", ("C16",)),
    ("del-moved-from", ("C08",)),
    ("del", ("C05", "C06")),
    ("fn-propagate", ("C05", "C06")),
    ("fn-throw", ("C04",)),
    ("fn-return", ("C02", "C03")),
    ("mv", ("C08",)),
    ("as", ("C08",)),
    ("self-assign", ("C08",)),
    ("get", ("C01", "C12")),
    ("bool", ("C03",)),
    ("not", ("C03",)),
    ("sizeof", ("C02",)),
]


def props(segment_op, ob, tn=None):
    """segment_op: operation name with state, e.g. 'callc @susp'."""
    r = props_(segment_op, ob, tn)
    return r if "-owner-moved" not in segment_op or "C08" in r or ob == "val.repeatable" else r + ("C08",)


def props_(segment_op, ob, tn=None):
    op = segment_op.split(" @")[0]
    if op == "interface":
        return FACTS[ob[len("type."):]]
    for p, r in PREFIX:
        if ob.startswith(p):
            if ob.startswith("frame.observer-pure"):
                if op in ("bool", "not"):
                    return ("C03", "C15")
                if op.startswith("it_"):
                    return ("C09", "C12", "C15")
                return ("C12", "C15") if op.startswith("get") else ("C15",)
            if ob == "it.deref":
                return r
            return r
    for p, r in SEGMENT:
        if op.startswith(p):
            if ob == "mem.out-of-bounds":
                r = r + ("C17",)
            if op.startswith("get") and tn in REF:
                return ("C13",)
            if ob.startswith("mem.") and tn in REF and op.startswith(("call", "it_", "second")):
                return r + ("C13",)
            return r
    return ("C02",)


# which element types matter for a property (None: all)
CLS = ["val", "big", "mov", "cpy", "ali", "tdt", "ncp"]
TRI = ["i32", "tri", "wid", "emp", "ptr", "boo", "dbl", "enu", "lon", "chr", "hug", "al1", "al6", "p12", "odd"]
REF = ["iref", "vref", "cref", "kref", "dref", "tref"]
TYPES = {
    "C01": CLS + TRI + REF,
    "C07": CLS + ["i32", "vref"],
    "C09": CLS + TRI + REF,
    "C12": CLS + TRI + REF,
    "C13": REF,
    "C14": CLS + TRI,
    "C17": ["i32", "wid", "val", "ali", "vref", "void"],
    "C18": ["i32", "val", "ali", "hug", "vref", "void"],
}
EVERY = CLS + TRI + REF + ["void"]


def types(prop):
    return TYPES.get(prop, EVERY)
