"""Which models decide which property, by tier."""

LEVEL = "model_checking"


def model(mod, replay=True, **consts):
    return {"do": "model", "mod": mod, "consts": consts, "replay": replay}


def q(s):
    return '"%s"' % s


def _steps(prop, tier):
    th = "TRUE" if tier == "thorough" else "FALSE"

    def decode(f, **k):
        return model("MC_Decode", Family=q(f), Thorough=th, **k)

    def api(f, **k):
        return model("MC_Api", Family=q(f), Thorough=th, **k)
    def envelope(f, **k):
        return model("MC_Envelope", Family=q(f), Thorough=th, **k)

    def varint(f, **k):
        return model("MC_Varint", Family=q(f), Thorough=th, **k)
    schema = model("MC_Schema", Family=q("all"), Thorough=th)
    large = model("MC_Schema", Family=q("large"), Thorough=th)
    # transport schedules; their I/O error table is judged by C11 only
    sched = dict(model("MC_Transport", replay=(prop == "C11"), Thorough=th), schedules=True)
    enum = model("MC_Enum", Thorough=th)
    hostile = model("MC_Hostile", Thorough=th)

    # every next byte from every reachable state; one more level when thorough
    def byte(starts, depth):
        return model("MC_Bytes", Starts=q(starts), Depth=depth + (tier == "thorough"))
    calls = [api(f) for f in ("values", "ids", "nesting", "sequences", "histories")]
    text = model("MC_Text", Thorough=th)

    # from every state, every call, of the sequences that make sense or of all
    def reads(strict, depth=5):
        return model("MC_Ops", Depth=depth + (tier == "thorough"), Strict="TRUE" if strict else "FALSE", Seeks="FALSE", Thorough=th)
    seeks = model("MC_Ops", Depth=5 if tier == "thorough" else 4, Strict="TRUE", Seeks="TRUE", Thorough=th)
    writes = model("MC_WOps", Depth=7 if tier == "thorough" else 5, Thorough=th)
    every = [schema, large] + [decode(f) for f in ("variants", "unknown", "incomplete", "malformed", "charged")] \
        + calls + [envelope("messages"), envelope("errors")]

    # executions recorded from the code, for the specification to accept: (what, how many)
    def trace(what, n=6000, mode="all", mod="Trace"):
        return [{"do": "trace", "mod": mod, "consts": {"Mode": q(mode)}, "what": what, "n": 30000 if tier == "thorough" else n, "round": k}
                for k in range(10 if tier == "thorough" else 1)]
    return {
        "C01": trace("values", mode="round") + [schema, large],
        "C02": trace("values", mode="bytes") + [schema, large],
        "C03": trace("styles") + [decode("variants"), text],
        "C04": trace("unknown") + [decode("unknown")],
        "C05": trace("dropped") + [decode("incomplete")],
        "C06": trace("cuts", mode="cut") + [schema, large, decode("variants"), decode("unknown")] + calls,
        "C07": trace("wild", 12000, "answers") + [decode("malformed"), text, envelope("errors"), hostile, reads(False), byte("types", 2), byte("skips", 2)],
        "C08": trace("limits", mode="limit") + [schema, large, decode("charged"), decode("huge"), api("charges"), reads(True)],
        "C09": trace("async-any", 9000, "async") + [reads(False), writes, sched, text] + every + [byte("types", 1), byte("few", 2)],
        "C10": trace("writes", mode="counts") + trace("varints", mode="counts") + [schema, large] + calls + [envelope("messages"), envelope("errors"), varint("palette"), writes],
        "C11": trace("faulty-any", 9000, "faulty") + [sched] + every,
        "C12": trace("calls") + [api("nesting"), api("sequences"), api("histories"), api("charges"), reads(True), writes],
        "C13": trace("calls") + [api("values"), api("ids"), api("histories"), writes],
        "C14": trace("enums") + [enum],
        "C15": trace("messages") + [envelope("messages"), envelope("errors"), api("histories")],
        "C16": trace("varints", 20000) + [varint("palette"), varint("strings"), varint("dense")],
        "C17": trace("wild", 12000, "malformed") + [decode("malformed"), text, reads(True), byte("types", 2), byte("skips", 2)],
        "C18": [model("MC_Order", Thorough=th)],
        "C19": [model("MC_Error", Thorough=th)],
        "C20": trace("seeks") + [seeks],
        "C21": trace("tapes", mod="TapeTrace") + [model("MC_Tape", Thorough=th)],
    }[prop]


IDS = ["C%02d" % i for i in range(1, 22)]
PLAN = {p: (lambda tier, p=p: _steps(p, tier)) for p in IDS}

CLAIMED = IDS
NOTE = ("Exhaustive over the bounded families of spec/ (DESIGN.md gives the bounds per property); "
        "trusts TLC, the transcription of parquet.thrift and the harness's comparison code.")
NOTES = {p: NOTE for p in IDS}
