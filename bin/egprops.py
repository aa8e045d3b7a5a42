"""Which stages and models decide each property."""


def conf(gen, want, trace, **kw):
    d = {"gen": gen, "want": want, "trace": trace}
    d.update(kw)
    return d


PRE_CFG = """SPECIFICATION Spec
CONSTANTS Producers = {p1, p2} Takers = {c1} Controllers = {k1} MAXQ = %d LIMIT = %d LOCKED = TRUE
CONSTRAINT Bound
INVARIANTS SizeBound AtMostOnce
PROPERTIES Halted Fifo
CHECK_DEADLOCK FALSE
"""
PRE_NEG = """INIT MInit
NEXT MNext
CONSTANTS Producers = {p1, p2} Takers = {c1, c2} Controllers = {k1} MAXQ = 2 LIMIT = 5 LOCKED = FALSE
CONSTRAINT Bound
INVARIANTS SizeBound AtMostOnce
CHECK_DEADLOCK FALSE
"""

TOY = {"eg.p": "17", "eg.q": "0B", "eg.g": "02"}


def model(module, invariants, constants="", thorough=None, **kw):
    """A model of one or more states, checked exhaustively."""
    def cfg(c):
        return "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n%sINVARIANTS %s\n" % (("CONSTANTS " + c + "\n") if c else "", invariants)
    d = {"module": module, "cfg": cfg(constants)}
    if thorough:
        d["cfg_thorough"] = cfg(thorough)
    d.update(kw)
    return d


def broken(module, invariants, constants, note, **kw):
    """A deliberately wrong variant, which must be rejected."""
    return model(module, invariants, constants, expect_violation=True, note=note, **kw)


PRIM = model("MC_Prim", "Naturals FieldP FieldQ Members Bytes Hashing Vectors", props=TOY,
             note="the primitive operators against plain TLA+ definitions over a toy group, and published vectors")
PARAMS = model("MC_Params", "Sizes Cofactor Order Fermat Laws", note="facts about the standard parameters")
HASHES = [model("MC_Hash", "Injective Hashes", 'Alphabet = {"", "a", "b", "null"} MaxLen = 3', 'Alphabet = {"", "a", "b", "null", "aa"} MaxLen = 4',
                props=TOY, note="the delimited text determines the items"),
          broken("MC_Hash", "Injective", 'Alphabet = {"a", "a|a"} MaxLen = 2', "with the delimiter inside a text it does not", props=TOY)]
PROOFS = model("MC_Proofs", "Complete CompleteConstant Sound Decrypts Adds", "Rich = FALSE", "Rich = TRUE", props=TOY,
               note="completeness and special soundness of the proofs, ElGamal, over a toy group")
BALLOT_INV = "Meant Ordered Sums Faithful Exact Recorded OrderFree Compact Accumulates Names"
BALLOTS = [model("MC_Ballot", BALLOT_INV, "Opts = 3", "Opts = 4", props=TOY, note="every marking of every small contest: votes, placeholders, records, compact form")]
CHAIN_INV = "Linked NoFork Binds"
CHAIN = [model("MC_Chain", CHAIN_INV, 'Devices = {"1", "2"} MaxLog = 4 Forgets = "none"', 'Devices = {"1", "2", "3"} MaxLog = 5 Forgets = "none"',
               note="devices, refusals and other encryptions in every order"),
         broken("MC_Chain", CHAIN_INV, 'Devices = {"1", "2"} MaxLog = 4 Forgets = "compact"', "a compact ballot that does not advance the chain"),
         broken("MC_Chain", CHAIN_INV, 'Devices = {"1", "2"} MaxLog = 4 Forgets = "refusal"', "a refusal that resets the chain")]
MANIFESTS = model("MC_Manifest", "Detected PlaceholdersOk Delivery ValidOnes BaseValid", note="every single change of a hashed field, pairwise")
HASHED = model("MC_Hashed", "Holds Uniform", "Lengths = {0, 1, 29, 30, 31, 32, 33, 61, 62, 63, 64} Maxes = {0, 30, 62}",
               "Lengths = {0, 1, 2, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 95, 96, 128, 509, 510, 511, 512, 513} Maxes = {0, 30, 62, 510}",
               note="round trip around every boundary; every altered part refused")
FIX_CONST = 'Threads = {%s} Bases = {%s} Exps = {%s} LOCKED = %s KEYED = %s'
FIXED = [model("MC_FixedBase", "Correct Tables", FIX_CONST % ("t1, t2", '"02", "03"', "0, 1, 7, 15", "TRUE", "TRUE"),
               FIX_CONST % ("t1, t2, t3", '"02", "03", "05"', "0, 1, 2, 5, 7, 12, 15", "TRUE", "TRUE"), props=TOY,
               note="the cache of tables under every interleaving"),
         broken("MC_FixedBase", "Correct", FIX_CONST % ("t1, t2", '"02", "03"', "0, 1, 7, 15", "FALSE", "TRUE"), "a table published before it is filled", props=TOY),
         broken("MC_FixedBase", "Correct", FIX_CONST % ("t1, t2", '"02", "03"', "0, 1, 7, 15", "TRUE", "FALSE"), "two bases under one key", props=TOY)]
MEM_CONST = 'Names = {"a", "b", "c"} Words = {0, 1, 2} Wipe = "%s" Left <- LeftOf'
MEMORY = [model("MC_Memory", "Clean", MEM_CONST % "all", 'Names = {"a", "b", "c", "d"} Words = {0, 1, 2} Wipe = "all" Left <- LeftOf',
                note="every order of making, copying, replacing and dropping elements"),
          broken("MC_Memory", "Clean", MEM_CONST % "first", "only the first word wiped"),
          broken("MC_Memory", "Clean", MEM_CONST % "none", "nothing wiped")]
QUEUE_CFG = """SPECIFICATION Spec
CONSTANTS Producers = {%s} Consumers = {"c1", "c2"} Each = 2 Lock = "%s"
INVARIANTS Fifo Values Once Truthful
CHECK_DEADLOCK FALSE
"""
POOL_CFG = """SPECIFICATION Spec
CONSTANTS Workers = {"w1", "w2", "w3"} Tasks = {%s} Places = 2 Ends = "%s" Wakes = %s Guards = %s
INVARIANTS AtMostOnce AllRun Limited
PROPERTIES Over
CHECK_DEADLOCK FALSE
"""
TASKS = [{"module": "MC_Queue", "cfg": QUEUE_CFG % ('"p1", "p2"', "both") + "PROPERTIES Finishes\n", "cfg_thorough": QUEUE_CFG % ('"p1", "p2", "p3"', "both"),
          "note": "the queue with a lock at each end, step by step, in every interleaving"},
         {"module": "MC_Queue", "cfg": QUEUE_CFG % ('"p1", "p2"', "none"), "expect_violation": True, "note": "consumers without a lock"},
         {"module": "MC_Queue", "cfg": QUEUE_CFG % ('"p1", "p2"', "late"), "expect_violation": True, "note": "a node published before its value"},
         {"module": "MC_Pool", "cfg": POOL_CFG % ("1, 2, 3, 4", "empty", "TRUE", "TRUE"), "cfg_thorough": POOL_CFG % ("1, 2, 3, 4, 5, 6", "empty", "TRUE", "TRUE"),
          "note": "submitters, workers, semaphore and the end of the pool in every interleaving; everything ends"},
         {"module": "MC_Pool", "cfg": POOL_CFG % ("1, 2, 3", "at once", "TRUE", "TRUE"), "expect_violation": True, "note": "a pool that does not wait for its queue"},
         {"module": "MC_Pool", "cfg": POOL_CFG % ("1, 2, 3", "empty", "FALSE", "TRUE"), "expect_violation": True, "note": "a place given back that wakes nobody"},
         {"module": "MC_Pool", "cfg": POOL_CFG % ("1, 2, 3", "empty", "TRUE", "FALSE"), "expect_violation": True, "note": "a semaphore that does not look at its count"}]
WIRE = [model("MC_Wire", "OneThing Members", 'Loses = "" Rich = FALSE', 'Loses = "" Rich = TRUE', note="no two small objects have a document in common, in any permitted way of writing it"),
        broken("MC_Wire", "OneThing", 'Loses = "language" Rich = FALSE', "a member that is not written")]
WIRE2 = [model("MC_Wire", "Apart", 'Loses = "" Rich = FALSE', 'Loses = "" Rich = TRUE', note="no change that readers must refuse leads to another document"),
         broken("MC_Wire", "Apart", 'Loses = "" Rich = FALSE MayLack <- NothingMayLack', "members that may be missing, taken for defects")]
MODELS = {"P26": WIRE2, "P25": WIRE, "P24": TASKS, "P23": MEMORY, "P01": BALLOTS, "P02": BALLOTS, "P03": BALLOTS + CHAIN, "P04": [PROOFS], "P05": [PROOFS], "P06": [PRIM, PARAMS], "P07": FIXED, "P08": [PRIM],
          "P09": [PRIM] + HASHES, "P11": CHAIN, "P12": [MANIFESTS] + HASHES, "P14": [MANIFESTS], "P15": [HASHED], "P16": [PROOFS, PARAMS], "P17": BALLOTS, "P22": CHAIN + FIXED}

CR = "Trace_Crypto"
MF = "Trace_Manifest"
BA = "Trace_Ballot"


def ballot(want):
    return conf("Gen_Ballot", want, BA)


def capi(gen, want, trace, div=3):
    """The same behaviours through the C interface, under AddressSanitizer, with 1/div of the random sampling."""
    return conf(gen, want, trace, flavour="asan", api="c", genprops={"eg.div": str(div)})


PROPS = {
    "P01": {"stages": [ballot("plain"), ballot("enc"), ballot("parts")]},
    "P02": {"stages": [ballot("plain"), ballot("enc"), ballot("parts")]},
    "P03": {"stages": [ballot("parts"), ballot("enc"), ballot("chain")]},
    "P04": {"stages": [conf("Gen_Crypto", "make", CR), conf("Gen_Crypto", "check", CR), ballot("plain"), ballot("parts")]},
    "P05": {"stages": [conf("Gen_Crypto", "check", CR), conf("Gen_Crypto", "make", CR), ballot("tamper")]},
    "P11": {"stages": [ballot("chain"), ballot("enc"), conf("Gen_Manifest", "context", MF)]},
    "P17": {"stages": [ballot("compact"), ballot("chain")]},
    "P18": {"stages": [conf("Gen_Manifest", "manifest", MF), conf("Gen_Manifest", "context", MF), conf("Gen_Crypto", "elgamal", CR),
                       conf("Gen_Crypto", "make", CR), conf("Gen_Crypto", "hashed", CR), ballot("serial"), ballot("compact")]},
    "P19": {"stages": [ballot("serial")]},
    "P09": {"stages": [conf("Gen_Crypto", "hash", CR), conf("Gen_Crypto", "hashed", CR),
                       conf("Gen_Crypto", "elgamal", CR)]},
    "P10": {"stages": [conf("Gen_Crypto", "nonce", CR), conf("Gen_Crypto", "make", CR), conf("Gen_Group", "rand", "Trace_Group", racy=True), ballot("enc"), ballot("parts")]},
    "P15": {"stages": [conf("Gen_Crypto", "hashed", CR)]},
    "P16": {"stages": [conf("Gen_Crypto", "elgamal", CR)]},
    "P12": {"stages": [conf("Gen_Manifest", "fields", MF), conf("Gen_Manifest", "manifest", MF), conf("Gen_Manifest", "small", MF),
                       conf("Gen_Manifest", "context", MF)]},
    "P13": {"stages": [conf("Gen_Manifest", "small", MF), conf("Gen_Manifest", "manifest", MF), conf("Gen_Manifest", "fields", MF)]},
    "P14": {"stages": [conf("Gen_Manifest", "manifest", MF), conf("Gen_Manifest", "context", MF)]},
    "P06": {"stages": [conf("Gen_Group", "arith", "Trace_Group")]},
    "P07": {"stages": [conf("Gen_Group", "fix", "Trace_Group", racy=True),
                       conf("Gen_Group", "thr", "Trace_Group", flavour="tsan")]},
    "P08": {"stages": [conf("Gen_Group", "conv", "Trace_Group")]},
    "P21": {"stages": [capi("Gen_CApi", "all", "Trace_CApi", 1), capi("Gen_Manifest", "wp", MF, 1), capi("Gen_Manifest", "small", MF, 1),
                       capi("Gen_Manifest", "manifest", MF), capi("Gen_Manifest", "fields", MF), capi("Gen_Manifest", "context", MF),
                       capi("Gen_Manifest", "wire", MF, 6), capi("Gen_Manifest", "bad", MF, 4), capi("Gen_Ballot", "wire", BA, 6), capi("Gen_Ballot", "bad", BA, 4),
                       capi("Gen_Crypto", "elgamal", CR), capi("Gen_Crypto", "make", CR), capi("Gen_Crypto", "check", CR),
                       capi("Gen_Crypto", "hash", CR), capi("Gen_Group", "conv", "Trace_Group"), capi("Gen_Group", "arith", "Trace_Group"),
                       capi("Gen_Precompute", "seq", "Trace_Precompute")]
                      + [capi("Gen_Ballot", w, BA, d) for w, d in (("plain", 3), ("enc", 3), ("parts", 3), ("chain", 4), ("tamper", 6), ("compact", 6), ("serial", 8))]},
    "P23": {"stages": [conf("Gen_Group", "wipe", "Trace_Memory")]},
    "P24": {"stages": [conf("Gen_Tasks", "all", "Trace_Tasks", racy=True), conf("Gen_Tasks", "tsan", "Trace_Tasks", flavour="tsan")]},
    "P26": {"stages": [conf("Gen_Manifest", "bad", MF, flavour="asan"), conf("Gen_Ballot", "bad", BA, flavour="asan")]},
    "P25": {"stages": [conf("Gen_Manifest", "wire", MF), ballot("wire")]},
    "P22": {"stages": [conf("Gen_Ballot", "threads", BA, flavour="tsan"), conf("Gen_Ballot", "threads", BA, racy=True)]},
    "P20": {"stages": [conf("Gen_Precompute", "seq", "Trace_Precompute", racy=True),
                       conf("Gen_Precompute", "thr", "Trace_Precompute", flavour="tsan"), ballot("enc")],
            "models": [{"module": "MC_Precompute", "cfg": PRE_CFG % (2, 5), "cfg_thorough": PRE_CFG % (3, 8),
                        "note": "2 producers, 1 consumer, 1 controller, all interleavings of critical sections"},
                       {"module": "MC_Precompute", "cfg": PRE_NEG, "expect_violation": True,
                        "note": "without atomic critical sections the invariants fail"}]},
}

for _p, _ms in MODELS.items():
    PROPS[_p].setdefault("models", []).extend(_ms)
