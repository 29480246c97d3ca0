"""Which harness decides which property, with which bounds."""
import threading
HARNESSES = {}
PROPS = {}
COMMON_ASSUMPTIONS = [
    "kernel, libc and other modules are replaced by the nondeterministic stubs of the harness; they may return any result the interface documents unless a bound says otherwise",
    "malloc succeeds unless a harness says otherwise",
    "CBMC's memory model and SAT solver are trusted; counterexamples are not (each is replayed natively)",
]

# Layout transforms applied to the copy CBMC reads (never to the natively replayed copy): the
# object's embedded buffer becomes a separate array object, which keeps pointer arithmetic on it
# decidable and turns any overrun of the buffer into a bounds violation.
T_BUF = [(r"->buf\b", "->bufp[0]"),
         (r"unsigned char(\s+)buf\[\s*OBJ_BUF_SIZE\s*\];", r"unsigned char\1(*bufp)[OBJ_BUF_SIZE];")]

# The type-specific state of an object is a union of structs; the solver gets a struct instead
# (same fields, no overlap), which avoids byte-level updates. Code that reads another type's
# member would not be seen (it is in the native replay).
T_AUX = [(r"typedef\s+union\s+aux_obj\b", "typedef struct aux_obj")]

# The lexer's text buffer becomes a separate array (harnesses create one lexer).
T_LEX = [(r"\b\w+->text\b", "lex_storage"), (r"struct\s+lexer_state\s*\{", "static char lex_storage[LEX_MAX_STR];\nstruct lexer_state {")]

class H:
    def __init__(self, name, src, files, bounds, redirect=(), scale=None, defs=None, unwind=8, unwindset=None,
                 opts=(), file_defs=None, harness_defs=(), extra_src=(), included=(), allow_nobody=(),
                 timeout=700, mem=None, object_bits=10, transform=(), intercept=(), malloc_fail=False, no_witness=False, weight=1,
                 native_flags=(), native_libs=(), expect_native_clean=True, advisory=False, model=None, hunwind=40, any_witness=False):
        self.name, self.src, self.files, self.bounds = name, src, list(files), bounds
        self.redirect, self.scale, self.defs = list(redirect), dict({"LIST_ALLOC": 1}, **(scale or {})), dict(defs or {})
        self.unwind, self.unwindset, self.opts = unwind, dict(unwindset or {}), list(opts)
        self.file_defs = file_defs or {}
        self.harness_defs, self.extra_src, self.included = list(harness_defs), list(extra_src), list(included)
        self.allow_nobody, self.timeout, self.mem = set(allow_nobody), timeout, mem
        self.object_bits, self.malloc_fail, self.no_witness = object_bits, malloc_fail, no_witness
        self.weight, self.native_flags, self.native_libs = weight, list(native_flags), list(native_libs)
        self.transform = list(transform)
        self.intercept = list(intercept)
        self.advisory = advisory
        self.hunwind = hunwind
        self.any_witness = any_witness
        self.model = dict(model or {})          # repo file -> reference model used by the solver
        self.expect_native_clean = expect_native_clean
        assert name not in HARNESSES, name
        HARNESSES[name] = self
        self.init()
    def init(self):
        self.lock = threading.Lock()
        self.native_exe = None

def prop(id, quick, thorough=(), assumptions=(), note=None):
    PROPS[id] = {"quick": list(quick), "thorough": list(thorough), "assumptions": list(assumptions), "note": note}

import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harnesses.py")).read())
