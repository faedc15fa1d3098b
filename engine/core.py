"""Check framework: builds the harness from /repo's current headers, runs cases in parallel
worker processes, replays counterexamples natively and writes evidence."""
import re, os, sys, time, json, random, subprocess, threading, ctypes, pickle, struct, resource, hashlib, traceback, signal, select
from . import terms as T, llparse as L, symex as X, smt, lin, contracts as C

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AESI_REPO", "/repo")
INC = REPO + "/include"
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
OPT = "/usr/bin/opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"
GXX = "/usr/bin/g++"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NOVEC = bool(os.environ.get("VERIF_NOVEC"))     # development: judge by the solver alone
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p


# ------------------------------------------------------------------ operations
class Op:
    """one extern "C" entry point wrapping public API calls.
    params: list of (name, kind) with kind = ('in', nbytes) | ('out', nbytes) | ('u', bits) | ('ref', layoutfn)"""

    def __init__(self, name, params, body, spec, ret=0, gen=None, native_only=False):
        self.name = name
        self.params = params
        self.body = body
        self.spec = spec
        self.ret = ret           # bits of return value (0: void)
        self.gen = gen

    def code(self):
        ps = []
        for n, k in self.params:
            if k[0] == "in":
                ps.append("const uint32_t* %s" % n)
            elif k[0] in ("inbytes",):
                ps.append("const unsigned char* %s" % n)
            elif k[0] == "out":
                ps.append("uint32_t* %s" % n)
            elif k[0] == "outbytes":
                ps.append("unsigned char* %s" % n)
            elif k[0] == "u":
                ps.append("uint%d_t %s" % (k[1], n))
            else:
                raise KeyError(k)
        rt = "uint%d_t" % self.ret if self.ret else "void"
        return 'extern "C" %s %s(%s) {\n%s\n}\n' % (rt, self.name, ", ".join(ps), self.body)


PRELUDE = r'''
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <cstring>
#include <cstdint>
#include <string_view>
#include <type_traits>
template <std::size_t W> static inline Aeu<W> ldu(const uint32_t* p) {
    static_assert(std::is_trivially_copyable_v<Aeu<W>> && sizeof(Aeu<W>) == W / 8);
    Aeu<W> r; std::memcpy((void*)&r, p, W / 8); return r;
}
template <std::size_t W> static inline void stu(const Aeu<W>& v, uint32_t* p) { std::memcpy(p, (const void*)&v, W / 8); }
/* signed: p[0] = sign (0 zero, 1 positive, else negative), p[1..] magnitude */
template <std::size_t W> static inline Aesi<W> lds(const uint32_t* p) {
    if (p[0] == 0) return Aesi<W>(0);
    Aesi<W> r(1);
    for (std::size_t i = 0; i < W / 32; ++i) r.setBlock(i, p[1 + i]);
    if (p[0] != 1) r.inverse();
    return r;
}
template <std::size_t W> static inline void sts(const Aesi<W>& v, uint32_t* p) {
    p[0] = (v.isZero() ? 1u : 0u) | (v.isPositive() ? 2u : 0u) | (v.isNegative() ? 4u : 0u);
    const Aeu<W> m = v.unsignedCast();
    std::memcpy(p + 1, (const void*)&m, W / 8);
}
static inline unsigned ord(std::strong_ordering o) { return o < 0 ? 1u : (o > 0 ? 2u : 0u); }
'''

POISON = r'''
extern "C" __attribute__((noinline)) void poison_stack(unsigned char b) {
    volatile unsigned char buf[65536];
    for (unsigned i = 0; i < sizeof(buf); ++i) buf[i] = b;
}
'''


class Harness:
    def __init__(self, pid, ops, prelude=PRELUDE, flags=(), native_prelude=None, native_flags=(), libs=(),
                 native_extra="", inc=None):
        self.pid = pid
        self.ops = {o.name: o for o in ops}
        assert len(self.ops) == len(ops), "duplicate op names"
        self.prelude = prelude
        self.flags = list(flags)
        self.native_prelude = native_prelude or prelude
        self.native_flags = list(native_flags)
        self.libs = list(libs)
        self.native_extra = native_extra
        self.inc = inc or INC
        self.dir = os.path.join(VERIF, "build", pid)
        os.makedirs(self.dir, exist_ok=True)
        self.module = None
        self.sofiles = []

    def src(self, native=False):
        return (self.native_prelude if native else self.prelude) + "\n" + \
            "\n".join(o.code() for o in self.ops.values()) + (POISON + self.native_extra if native else "")

    def build(self):
        d = self.dir
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        with open(d + "/h.cpp", "w") as f:
            f.write(self.src())
        with open(d + "/n.cpp", "w") as f:
            f.write(self.src(True))
        jobs = [
            [CLANG, "-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-w",
             "-I" + self.inc, *self.flags, "-S", "-emit-llvm", d + "/h.cpp", "-o", d + "/h0.ll"],
            [GXX, "-std=c++20", "-O2", "-DNDEBUG", "-w", "-shared", "-fPIC", "-I" + self.inc, *self.flags, *self.native_flags,
             d + "/n.cpp", "-o", d + "/n_o2.so", *self.libs],
            [CLANG, "-std=c++20", "-O0", "-w", "-shared", "-fPIC", "-I" + self.inc, *self.flags, *self.native_flags,
             d + "/n.cpp", "-o", d + "/n_o0.so", *self.libs],
        ]
        ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for j in jobs]
        for j, p in zip(jobs, ps):
            o, e = p.communicate()
            if p.returncode:
                raise BuildError(" ".join(j) + "\n" + e[-4000:])
        run([OPT, "-S", "-passes=function(sroa,simplifycfg<no-speculate-blocks>)", d + "/h0.ll", "-o", d + "/h.ll"])
        self.sofiles = [d + "/n_o2.so", d + "/n_o0.so"]
        with open(d + "/h.ll") as f:
            self.module = L.parse(f.read())
        return self

    # -------------------------------------------------- native execution (in a forked child)
    def native(self, op, inputs, so, poison=0, timeout=20):
        """inputs: dict name -> int (u) or bytes (in).  returns dict or ('crash', sig)"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(timeout)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                lib = ctypes.CDLL(so)
                out = _native_call(lib, op, inputs, poison)
                os.write(w, pickle.dumps(out))
            except BaseException as e:       # noqa
                os._exit(77)
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st != 0 or not data:
            return {"$crash": "signal %d" % (st & 127) if st & 127 else "exit %d" % (st >> 8)}
        return pickle.loads(data)

    def native_batch(self, items, so):
        """items: list of (op, inputs); one child for all; falls back to one by one on a crash"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(60)
                lib = ctypes.CDLL(so)
                outs = [_native_call(lib, op, inp, 0) for op, inp in items]
                d = pickle.dumps(outs)
                while d:
                    n = os.write(w, d)
                    d = d[n:]
            except BaseException:            # noqa
                os._exit(77)
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st != 0 or not data:
            return [self.native(op, inp, so) for op, inp in items]
        return pickle.loads(data)

    def sanitized(self, op, inputs, san="address,undefined"):
        """compile and run a stand-alone replay under a sanitizer -> (returncode, text)"""
        main = ["#include <cstdio>\n#include <cstdlib>\nint main() {"]
        args = []
        for n, k in op.params:
            if k[0] in ("in", "inbytes"):
                b = inputs[n]
                main.append("static const unsigned char d_%s[] = {%s};" % (n, ",".join(map(str, b)) or "0"))
                main.append("void* p_%s = malloc(%d); memcpy(p_%s, d_%s, %d);" % (n, max(len(b), 0), n, n, len(b)))
                args.append("(%s)p_%s" % ("const uint32_t*" if k[0] == "in" else "const unsigned char*", n))
            elif k[0] in ("out", "outbytes"):
                sz = k[1] if isinstance(k[1], int) else k[1](inputs)
                main.append("void* p_%s = malloc(%d);" % (n, sz))
                args.append("(%s)p_%s" % ("uint32_t*" if k[0] == "out" else "unsigned char*", n))
            else:
                args.append("uint%d_t(%dull)" % (k[1], inputs[n]))
        main.append("%s(%s); puts(\"done\"); return 0; }" % (op.name, ", ".join(args)))
        src = self.native_prelude + "\n" + op.code() + self.native_extra + "\n".join(main)
        d = self.dir
        tag = hashlib.sha1((src + san).encode()).hexdigest()[:10]
        f = "%s/san_%s" % (d, tag)
        with open(f + ".cpp", "w") as fh:
            fh.write(src)
        flags = ["-D_GLIBCXX_ASSERTIONS"] if san == "assertions" else ["-fsanitize=" + san, "-fno-sanitize-recover=all"] if san else []
        try:
            run([CLANG, "-std=c++20", "-O0", "-g", "-w", *flags,
                 "-I" + self.inc, *self.flags, *self.native_flags, f + ".cpp", "-o", f, *self.libs])
        except BuildError as e:
            return None, str(e)
        try:
            p = subprocess.run([f], capture_output=True, text=True, timeout=60,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), preexec_fn=_unlimit)
        except subprocess.TimeoutExpired:
            return 124, "timeout"
        return p.returncode, (p.stdout + p.stderr)[-3000:]


_SANRE = re.compile(r"runtime error:|ERROR: AddressSanitizer: |WARNING: MemorySanitizer: |Assertion '")


def _unlimit():
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)


def _native_call(lib, op, inputs, poison):
    args = []
    outs = []
    for n, k in op.params:
        if k[0] in ("in", "inbytes"):
            b = ctypes.create_string_buffer(bytes(inputs[n]), max(1, len(inputs[n])))
            args.append(b)
        elif k[0] in ("out", "outbytes"):
            sz = k[1] if isinstance(k[1], int) else k[1](inputs)
            b = ctypes.create_string_buffer(b"\xa5" * (sz + 64), sz + 64)
            args.append(b)
            outs.append((n, b, sz))
        else:
            args.append({8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[k[1]](inputs[n]))
    f = getattr(lib, op.name)
    f.restype = {0: None, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[op.ret]
    if poison is not None:
        lib.poison_stack(ctypes.c_ubyte(poison))
    r = f(*args)
    res = {n: b.raw[:sz] for n, b, sz in outs}
    for n, b, sz in outs:
        if b.raw[sz:] != b"\xa5" * 64:
            res["$overrun"] = n
    if op.ret:
        res["ret"] = int(r)
    return res


# ------------------------------------------------------------------ cases
class Blocks:
    """symbolic input buffer as list of 32-bit terms (or bytes)"""

    def __init__(self, items, width=32):
        self.items = list(items)
        self.width = width

    @property
    def wide(self):
        return T.cat(*reversed(self.items))

    def sl(self, lo, hi):
        return T.cat(*reversed(self.items[lo:hi]))

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)


class Case:
    """one partition of the input space of an operation"""

    def __init__(self, op, name, inputs, assume=(), strategy=("bv",), timeout=30, summaries=None, goals=None,
                 setup=None, prove=None, weight=1, vectors=4, skip_obl=False, bounds="", exec_timeout=None, lemma_inputs=None, vacuous=False, gen=None, strictub=False):
        self.op = op
        self.name = name
        self.inputs = inputs            # function() -> dict name -> T | Blocks
        self.assume = assume            # function(i) -> list of T  (or ())
        self.strategy = strategy
        self.timeout = timeout
        self.summaries = summaries
        self.setup = setup              # function(ex) to tune the executor
        self.prove = prove              # custom prover(ctx) -> list of (label, status, env)
        self.weight = weight
        self.vectors = vectors
        self.skip_obl = skip_obl
        self.bounds = bounds
        self.lemma_inputs = lemma_inputs
        self.vacuous = vacuous          # the case may turn out to be empty
        self.ref = None                 # harness of the reference build: outputs must agree with it
        self.audit = False              # let the solver check the term rewriting done for this case
        self.confirm = None             # function(op, inputs, reference outputs): is a difference real?
        self.strictub = strictub        # array subscripts and uninitialised outputs are obligations too
        self.gen = gen                  # function(rng) -> assignment of the input variables, or None


_vn = {}


def V(name, w, lo=0, hi=None):
    """variable; the same name always has the same range"""
    hi = (1 << w) - 1 if hi is None else hi
    k = (w, lo, hi)
    n = name
    i = 0
    while True:
        if n not in _vn:
            _vn[n] = k
        if _vn[n] == k:
            return T.var(n, w, lo, hi)
        i += 1
        n = "%s~%d" % (name, i)


def ublocks(name, n, k=None, top=True):
    """n blocks; exactly k filled when k is given (top block non-zero if top)"""
    if k is None:
        return Blocks([V("%s%d" % (name, i), 32) for i in range(n)])
    out = []
    for i in range(n):
        if i >= k:
            out.append(T.const(0, 32))
        elif i == k - 1 and top:
            out.append(V("%s%d" % (name, i), 32, 1))
        else:
            out.append(V("%s%d" % (name, i), 32))
    return Blocks(out)


def sblocks(name, n, sign, k=None):
    """signed operand: sign word then magnitude; sign in -1,0,1 (0: magnitude zero)"""
    if sign == 0:
        return Blocks([T.const(0, 32)] * (n + 1))
    b = ublocks(name, n, k)
    return Blocks([T.const(1 if sign > 0 else 2, 32)] + b.items)


def kbytes(k, inputs):
    return k[1] if isinstance(k[1], int) else k[1](inputs)


class Ctx:
    """symbolic execution of one case, handed to provers"""
    pass


_limit = {"exec": None, "ex": None, "i": None}      # seconds one symbolic execution may take; the latest executor


def execute(h, case, concrete_sizes=None):
    """run case symbolically -> Ctx"""
    op = case.op
    ctx = Ctx()
    inp = case.inputs()
    ctx.i = inp
    ex = X.Executor(h.module)
    if _limit["exec"] is not None:
        ex.tlimit = time.time() + _limit["exec"]
    _limit["ex"] = ex
    _limit["i"] = inp
    ex.feasible = lambda pc: smt.check(abstract_mul(list(pc)), 5, want_model=False)[0] != "unsat"
    st = X.State()
    args = []
    outs = []
    for n, k in op.params:
        if k[0] in ("in", "inbytes"):
            b = inp[n]
            es = b.width // 8
            o = ex.new_obj(st, es * len(b), "input " + n)
            ex.gmem[o] = st.mem[o]
            for j, v in enumerate(b.items):
                ex.store(st, X.mkptr(o, es * j), es, v)
            args.append(X.mkptr(o))
        elif k[0] in ("out", "outbytes"):
            sz = kbytes(k, inp)
            o = ex.new_obj(st, sz, "output " + n)
            outs.append((n, k, o, sz))
            args.append(X.mkptr(o))
        else:
            args.append(inp[n])
    for c in (case.assume(inp) if callable(case.assume) else case.assume):
        st.assume(c)
    ctx.pre = list(st.pc)
    ex.arraybounds = case.strictub
    if case.summaries:
        case.summaries(ex)
    if case.setup:
        case.setup(ex)
    ctx.dead = False
    try:
        r = ex.call(st, op.name, args)
    except X.Dead:
        ctx.dead = True
        r = None
    ctx.ex = ex
    ctx.st = st
    ctx.pc = list(st.pc)
    o = {}
    if not ctx.dead:
        for n, k, oid, sz in outs:
            obj = st.mem[oid]
            w = 4 if k[0] == "out" else 1
            o[n] = Blocks([_rd(ex, obj, j, w) for j in range(0, sz, w)], 8 * w)
        if op.ret:
            o["ret"] = r
    ctx.o = o
    return ctx


def _rd(ex, obj, off, n):
    v = ex.read_cells(obj, off, n)
    if isinstance(v, X.Ptr):
        v = ex.ptr2int(v)
    return v


def concretize(inp, env, op):
    """inputs dict of terms + env -> native inputs"""
    out = {}
    for n, k in op.params:
        if k[0] in ("in", "inbytes"):
            b = inp[n]
            vals = T.evaluate(b.items, env) if len(b) else []
            fmt = {8: "B", 16: "H", 32: "I", 64: "Q"}[b.width]
            out[n] = struct.pack("<%d%s" % (len(vals), fmt), *vals)
        elif k[0] == "u":
            out[n] = T.evaluate([inp[n]], env)[0]
    return out


def constify(op, ninp, nout, inp_shape):
    """native inputs/outputs -> constant terms for the spec"""
    i = {}
    for n, k in op.params:
        if k[0] in ("in", "inbytes"):
            w = inp_shape[n].width
            fmt = {8: "B", 16: "H", 32: "I", 64: "Q"}[w]
            cnt = len(ninp[n]) * 8 // w
            i[n] = Blocks([T.const(x, w) for x in struct.unpack("<%d%s" % (cnt, fmt), ninp[n])], w)
        elif k[0] == "u":
            i[n] = T.const(ninp[n], k[1])
    for n in inp_shape:
        if n not in i:
            i[n] = inp_shape[n]
    o = {}
    if nout is not None:
        for n, k in op.params:
            if k[0] in ("out", "outbytes"):
                w = 32 if k[0] == "out" else 8
                b = nout[n]
                fmt = {8: "B", 32: "I"}[w]
                o[n] = Blocks([T.const(x, w) for x in struct.unpack("<%d%s" % (len(b) * 8 // w, fmt), b)], w)
        if op.ret:
            o["ret"] = T.const(nout["ret"], op.ret)
    return i, o


def goals_of(op, i, o):
    out = []
    for g in op.spec(i, o):
        if len(g) == 2:
            out.append((g[0], g[1], None, None))
        else:
            out.append((g[0], None, g[1], g[2]))
    return out


def goal_cond(g):
    return g[1] if g[1] is not None else T.eq(g[2], g[3])


def check_concrete(op, ninp, nout, shape):
    """-> list of failing labels"""
    if "$crash" in nout:
        return ["native run ended abnormally (%s)" % nout["$crash"]]
    bad = []
    if "$overrun" in nout:
        bad.append("wrote past the end of " + nout["$overrun"])
    i, o = constify(op, ninp, nout, shape)
    for g in goals_of(op, i, o):
        c = goal_cond(g)
        if c is T.FALSE:
            bad.append(g[0])
        elif c is not T.TRUE:
            v = T.evaluate([c], {})[0]
            if not v:
                bad.append(g[0])
    return bad


def differs(nout, nref):
    if "$crash" in nref:
        return []
    if "$crash" in nout:
        return ["native run ended abnormally (%s)" % nout["$crash"]]
    return ["%s differs between the builds" % k for k in sorted(set(nout) | set(nref)) if nout.get(k) != nref.get(k)]


def fix_sizes(ninp):
    return ninp


def hexd(d):
    return {k: (v.hex() if isinstance(v, (bytes, bytearray)) else v) for k, v in d.items()}


def replay_env(h, case, inp, env, kind="goal"):
    """-> dict(confirmed, ...)"""
    return replay_inputs(h, case, inp, concretize(inp, env, case.op), kind)


def replay_inputs(h, case, inp, ninp, kind="goal"):
    op = case.op
    res = {"op": op.name, "case": case.name, "inputs": hexd(ninp)}
    for so in h.sofiles:
        for poison in (0xff, 0x5a, 0):
            nout = h.native(op, _szfix(op, ninp), so, poison)
            if case.ref:
                nref = case.ref.native(op, ninp, case.ref.sofiles[h.sofiles.index(so)], poison)
                bad = differs(nout, nref)
                if bad and case.confirm:
                    how = case.confirm(op, ninp, nref)
                    if not how:
                        continue
                    bad = bad + [how]
            else:
                bad = check_concrete(op, ninp, nout, inp)
            if bad:
                res.update(confirmed=True, how=os.path.basename(so) + " poison %#x" % poison, failed=bad,
                           outputs=hexd(nout))
                return res
    if kind == "ub":
        for san in ("address,undefined", "memory") + (("assertions",) if case.strictub else ()):
            rc, txt = h.sanitized(op, _szfix(op, ninp), san)
            if rc not in (0, None) and _SANRE.search(txt):
                res.update(confirmed=True, how="clang -fsanitize=" + san, failed=["undefined behaviour"], outputs=txt[-1500:])
                return res
    res["confirmed"] = False
    return res


class _Sz:
    pass


def _szfix(op, ninp):
    return ninp


def sample_env(ctx, rng, vars_):
    env = {}
    for t in vars_:
        if t.op == "bv":
            env[t.k] = rng.random() < 0.5
            continue
        r = rng.random()
        lo, hi = t.lo, t.hi
        if r < 0.15:
            v = lo
        elif r < 0.3:
            v = hi
        elif r < 0.4:
            v = 1
        elif r < 0.5:
            v = 1 << rng.randrange(t.w)
        elif r < 0.6:
            v = (1 << rng.randrange(1, t.w + 1)) - 1
        elif r < 0.7:
            v = rng.randrange(0, 256)
        else:
            v = rng.randrange(lo, hi + 1)
        env[t.k] = min(max(v, lo), hi)
    return env


def input_terms(inp):
    out = []
    for v in inp.values():
        if isinstance(v, Blocks):
            out += v.items
        elif isinstance(v, T.T):
            out.append(v)
    return out


def abstract_mul(fs):
    """replace products of two non-constants by free variables (over-approximation)"""
    m = {}
    for t in T.postorder(fs):
        if t.op == "mul" and all(x.op != "c" for x in t.a):
            m[t.id] = T.var("mul!%d" % t.id, t.w, t.lo, t.hi)
    return T.subst(fs, m) if m else fs


def smt_goal(pc, g, strategy, timeout):
    """decide pc => goal with the strategies in order"""
    c = goal_cond(g)
    if c is T.TRUE:
        smt.STATS["trivial"] += 1
        return "unsat", None
    last = "unknown"
    for s in strategy:
        if isinstance(s, tuple):
            s, tmo = s
        else:
            tmo = timeout
        try:
            if s == "bv":
                r, env = smt.check(pc + [T.not_(c)], tmo)
            elif s == "cvc5":
                r, env = smt.check_cvc5(pc + [T.not_(c)], tmo)
            elif s == "lin":
                if g[2] is not None and g[2].w > 1:
                    r, env = lin.prove_eq(pc, g[2], g[3], tmo)
                else:
                    r, env = lin.check(pc + [T.not_(c)], tmo)
            elif s == "abs":
                r, env = smt.check(abstract_mul(list(pc) + [T.not_(c)]), tmo)
                if r == "sat":
                    r, env = "unknown", None
            elif s == "semi":
                r, env = semi(pc, T.not_(c), tmo)
            else:
                raise KeyError(s)
        except (RecursionError, MemoryError) as e:
            r, env = "unknown", None
        if r != "unknown":
            return r, env
    return "unknown", None


def semi(pc, bad, timeout, rounds=24):
    """counterexample search for nonlinear goals: pin a random half of the variables to corner
    values and decide the rest exactly.  Only ever answers sat or unknown."""
    f = T.and_(*pc, bad)
    vs = [v for v in T.variables([f]) if v.op == "v"]
    if not vs:
        return "unknown", None
    rng = random.Random(SEED * 7919 + 13)
    t0 = time.time()
    groups = {}
    for v in vs:
        groups.setdefault(v.k[0], []).append(v)
    gk = sorted(groups)
    for it in range(rounds):
        if time.time() - t0 > timeout:
            break
        if len(gk) > 1:
            pin = groups[gk[it % len(gk)]]
        else:
            pin = rng.sample(vs, max(1, len(vs) // 2))
        env = sample_env(None, rng, pin)
        m = {v.id: T.const(env[v.k], v.w) for v in pin}
        g = T.subst([f], m)[0]
        if g is T.FALSE:
            continue
        r, e2 = smt.check([g], max(2, min(8, timeout / 6)))
        if r == "unknown":
            r, e2 = lin.check([g], max(2, min(8, timeout / 6)))
        if r == "sat":
            env.update(e2)
            return "sat", env
    return "unknown", None


def blank_ctx(case):
    ctx = Ctx()
    ctx.i = case.inputs()
    ctx.pre = list(case.assume(ctx.i)) if callable(case.assume) else list(case.assume)
    ctx.o = None
    ctx.dead = False
    ctx.ex = None
    ctx.pc = ctx.pre
    return ctx


def lemma_ab(op, n, d):
    """dividend and divisor -> inputs of an operation with buffers a and b"""
    out = {}
    for nm, k in op.params:
        if k[0] == "in" and nm in ("a", "b"):
            v = n if nm == "a" else d
            if v >> (8 * k[1]):
                return None
            out[nm] = v.to_bytes(k[1], "little")
        elif k[0] in ("in", "inbytes", "u"):
            return None
    return out


def witnesses(h, case, res, budget):
    """an undecided case: the solver produces inputs for every branch the symbolic execution met, each is run natively"""
    t0 = time.time()
    ex, inp = _limit["ex"], _limit["i"]
    if ex is None or inp is None or not ex.branch_log:
        return
    op = case.op
    rng = random.Random("%d w %s %s" % (SEED, op.name, case.name))
    vs = T.variables(input_terms(inp))
    pcs = []
    for k in range(4):
        pcs += [w[k] for w in ex.branch_log.values() if len(w) > k]
    envs = []
    slow = 0
    for n, pc in enumerate(pcs):
        if time.time() - t0 > budget or slow > 6:
            break
        t1 = time.time()
        r, env = smt.check(list(pc), 3)
        if time.time() - t1 > 2:
            slow += 1
        if r != "sat":
            continue
        envs.append(env)
        # the same path again with a few inputs pinned to other values
        for _ in range(3):
            if time.time() - t0 > budget:
                break
            pin = rng.sample(vs, max(1, len(vs) // 2)) if vs else []
            fixed = sample_env(None, rng, pin)
            f = T.subst([T.and_(*pc)], {v.id: T.const(fixed[v.k], v.w) for v in pin if v.op == "v"})[0]
            if f is T.FALSE:
                continue
            r, e2 = smt.check([f], 1)
            if r == "sat":
                e = dict(fixed)
                e.update(e2)
                envs.append(e)
    if not envs:
        return
    try:
        full = []
        for e in envs:
            d = {v.k: v.lo if v.op == "v" else False for v in vs}
            d.update(e)
            full.append(d)
        ninps = [concretize(inp, e, op) for e in full]
        keep = [k for k, e in enumerate(full) if not case_pre(case, inp) or T.evaluate([T.and_(*case_pre(case, inp))], e)[0]]
    except (KeyError, TypeError):
        return
    ninps = [ninps[k] for k in keep]
    res["witnesses"] = len(ninps)
    if not ninps:
        return
    nouts = h.native_batch([(op, _szfix(op, n)) for n in ninps], h.sofiles[0])
    refs = case.ref.native_batch([(op, n) for n in ninps], case.ref.sofiles[0]) if case.ref else None
    for k, (ninp, nout) in enumerate(zip(ninps, nouts)):
        bad = differs(nout, refs[k]) if case.ref else check_concrete(op, ninp, nout, inp)
        if not bad:
            continue
        rp = replay_inputs(h, case, inp, ninp)
        if rp["confirmed"]:
            rp["what"] = "input of a path found by the solver: " + bad[0]
            res["violations"].append(rp)
            res["status"] = "violated"
            return


def case_pre(case, inp):
    return list(case.assume(inp)) if callable(case.assume) else list(case.assume)


def run_case(h, case, limit=0):
    """executed in a worker process"""
    t0 = time.time()
    _limit["exec"] = limit * 0.6 if limit else None
    _limit["ex"] = _limit["i"] = None
    res = run_case1(h, case)
    if res["status"] == "inconclusive" and not res["violations"]:
        left = limit - (time.time() - t0) if limit else 60
        try:
            witnesses(h, case, res, min(60, max(8, left * 0.6)))
        except (MemoryError, RecursionError, KeyError, SyntaxError) as e:
            res["notes"].append("path witnesses: %s" % type(e).__name__)
    return res


def run_case1(h, case, deadline=0):
    if not case.audit:
        return decide_case(h, case, deadline)
    from . import audit
    audit.start()
    try:
        res = decide_case(h, case, deadline)
    finally:
        audit.stop()
    a = res["audit"] = audit.verify()
    if a["failed"] and res["status"] == "proved":
        res["status"] = "inconclusive"
        res["notes"].append("term rewriting refuted by the solver: " + a["failed"][0][:400])
    return res


def decide_case(h, case, deadline):
    op = case.op
    res = {"case": case.name, "op": op.name, "status": "proved", "goals": 0, "obligations": 0, "notes": [],
           "violations": [], "vectors": 0, "reach": False, "bounds": case.bounds}
    t0 = time.time()
    try:
        ctx = execute(h, case)
        ref = execute(case.ref, case) if case.ref else None
    except C.LemmaFailed as e:
        res["notes"].append("inductive step refuted: " + str(e))
        ctx = blank_ctx(case)
        for n, d in e.cand:
            ninp = case.lemma_inputs(n, d) if case.lemma_inputs else lemma_ab(op, n, d)
            if ninp is None:
                continue
            rp = replay_inputs(h, case, ctx.i, ninp)
            if rp["confirmed"]:
                rp["what"] = "division step refuted: " + str(e)
                res["violations"].append(rp)
                res["status"] = "violated"
                return res
        res["status"] = "inconclusive"
    except (C.LemmaUnknown, X.Unsupported, X.Unwound, KeyError, SyntaxError, RecursionError, AssertionError, IndexError,
            AttributeError, TypeError, ValueError) as e:
        res["status"] = "inconclusive"
        res["notes"].append("encoding stopped: %s %s" % (type(e).__name__, str(e)[:300]))
        # still look at the native behaviour for the validation vectors
        ctx = blank_ctx(case)
    res["exec_s"] = round(time.time() - t0, 3)
    ex = ctx.ex
    if ex is not None:
        res["steps"] = ex.nsteps
        res["funcs"] = dict(ex.visited_funcs)
        res["accesses"] = ex.naccess
        res["cut"] = len(ex.cut_paths)
        res["goals"] += ex.lemmas
        if getattr(ex, "contract_uses", 0):
            res["contract_uses"] = ex.contract_uses
    # --- encoding validation + reachability witness
    validate(h, case, ctx, res)
    if res["violations"]:
        res["status"] = "violated"
        return res
    if ex is None:
        return res
    # --- obligations
    if not case.skip_obl:
        for ob in ex.obl:
            res["obligations"] += 1
            f = ob.formula()
            r, env = smt.check([f], case.timeout)
            if r == "unknown":
                r, env = lin.check([f], case.timeout)
            if r == "unsat":
                continue
            if r == "unknown":
                res["status"] = "inconclusive"
                res["notes"].append("undecided obligation: %s (%s)" % (ob.what, ob.where))
                continue
            rp = replay_env(h, case, ctx.i, env, "ub")
            rp["what"] = "%s (%s)" % (ob.what, ob.where)
            if rp["confirmed"]:
                res["violations"].append(rp)
                res["status"] = "violated"
                return res
            res["status"] = "inconclusive"
            res["notes"].append("unconfirmed obligation: %s %s" % (rp["what"], json.dumps(rp["inputs"])))
    if case.strictub and not ctx.dead and not undef_outputs(h, case, ctx, res):
        return res
    if ctx.dead:
        if not ex.obl:
            res["status"] = "inconclusive"
            res["notes"].append("no path returns")
        return res
    # --- goals
    if case.ref:
        outcomes = ref_goals(ctx, ref, case)
    elif case.prove:
        outcomes = case.prove(ctx, case)
    else:
        outcomes = []
        for g in goals_of(op, ctx.i, ctx.o):
            r, env = smt_goal(ctx.pc, g, case.strategy, case.timeout)
            outcomes.append((g[0], r, env))
            if r == "sat":
                break
    for label, r, env in outcomes:
        res["goals"] += 1
        if r == "unsat":
            continue
        if r == "unknown":
            if res["status"] == "proved":
                res["status"] = "inconclusive"
            res["notes"].append("undecided goal: " + label)
            continue
        rp = replay_env(h, case, ctx.i, env)
        rp["what"] = label
        if rp["confirmed"]:
            res["violations"].append(rp)
            res["status"] = "violated"
            return res
        res["status"] = "inconclusive"
        und = [k for k in env if k.startswith("undef")]
        res["notes"].append("counterexample did not reproduce: %s %s %s" % (label, json.dumps(rp["inputs"]), und))
    if ex.cut_paths:
        res["notes"].append("%d paths cut at the unwinding bound" % len(ex.cut_paths))
    if not res["reach"]:
        r, env = smt.check(ctx.pc, case.timeout)
        if r == "sat":
            res["reach"] = True
        elif case.vacuous:
            res["notes"].append("no input follows this plan (%s)" % r)
        else:
            res["status"] = "inconclusive"
            res["notes"].append("no reachability witness (%s)" % r)
    return res


def ref_goals(ctx, ref, case):
    """every output equals the one of the reference build"""
    if ref.dead:
        return []
    out = []
    gap = lambda e, t: t.op == "v" and e.undefs.get(t.k, "").startswith("uninitialised read of output ")
    for nm in ctx.o:
        x, y = ctx.o[nm], ref.o[nm]
        pairs = list(zip(x.items, y.items)) if isinstance(x, Blocks) else [(x, y)] if x is not None else []
        for j, (p, q) in enumerate(pairs):
            if gap(ctx.ex, p) and gap(ref.ex, q):
                continue
            r, env = smt_goal(list(ctx.pc) + list(ref.pc), ("%s[%d]" % (nm, j), None, p, q), case.strategy, case.timeout)
            out.append(("%s[%d] equals the reference build" % (nm, j), r, env))
            if r == "sat":
                return out
    return out


def undef_outputs(h, case, ctx, res):
    """no output may depend on memory that was never written -> False when a violation was confirmed"""
    flat = []
    for v in ctx.o.values():
        flat += v.items if isinstance(v, Blocks) else [v] if v is not None else []
    us = [v for v in T.variables(flat + list(ctx.pc)) if v.k in ctx.ex.undefs and not ctx.ex.undefs[v.k].startswith("uninitialised read of output ")]
    res["goals"] += 1
    if not us:
        smt.STATS["trivial"] = smt.STATS.get("trivial", 0) + 1
        return True
    m = {u: T.fresh("undefcopy", u.w) for u in us}
    pc2 = T.subst(list(ctx.pc), m)
    fl2 = T.subst(flat, m)
    diff = T.or_(*[T.not_(T.eq(x, y)) for x, y in zip(flat, fl2) if x is not y])
    r, env = smt.check(list(ctx.pc) + list(pc2) + [diff], case.timeout)
    if r == "unsat":
        return True
    if r == "sat":
        ninp = concretize(ctx.i, env, case.op)
        rp = {"op": case.op.name, "case": case.name, "inputs": hexd(ninp), "what": "result depends on " + ctx.ex.undefs[us[0].k]}
        seen = {}
        for so in h.sofiles:
            for poison in (0xff, 0x5a, 0):
                nout = h.native(case.op, ninp, so, poison)
                seen.setdefault(json.dumps(hexd(nout), sort_keys=True), (os.path.basename(so), poison))
        if len(seen) > 1:
            rp.update(confirmed=True, how="different results with different stack contents", failed=["uninitialised memory"], outputs=list(seen)[:3])
        else:
            rc, txt = h.sanitized(case.op, ninp, "memory")
            if rc not in (0, None) and _SANRE.search(txt):
                rp.update(confirmed=True, how="clang -fsanitize=memory", failed=["uninitialised memory"], outputs=txt[-1500:])
        if rp.get("confirmed"):
            res["violations"].append(rp)
            res["status"] = "violated"
            return False
        res["notes"].append("unconfirmed: %s %s" % (rp["what"], json.dumps(rp["inputs"])))
    else:
        res["notes"].append("undecided whether the result depends on " + ctx.ex.undefs[us[0].k])
    res["status"] = "inconclusive"
    return True


def validate(h, case, ctx, res):
    op = case.op
    rng = random.Random("%d %s %s" % (SEED, op.name, case.name))
    ins = input_terms(ctx.i)
    vs = [v for v in T.variables(ins)]
    envs = []
    tries = 0
    while len(envs) < case.vectors and tries < 40:
        tries += 1
        env = sample_env(ctx, rng, vs)
        if case.gen:
            g = case.gen(rng)
            if g is None:
                continue
            env.update(g)
        if ctx.pre and not T.evaluate([T.and_(*ctx.pre)], env)[0]:
            continue
        envs.append(env)
    if not envs and ctx.pre:
        r, env = smt.check(ctx.pre, 10)
        if r == "sat":
            envs = [env]
    if not envs:
        return
    ninps = [concretize(ctx.i, e, op) for e in envs]
    nouts = h.native_batch([(op, _szfix(op, n)) for n in ninps], h.sofiles[0])
    if case.ref:
        nrefs = case.ref.native_batch([(op, n) for n in ninps], case.ref.sofiles[0])
    flat = []
    if ctx.o:
        for k, v in ctx.o.items():
            if isinstance(v, Blocks):
                flat += [(k, j, x) for j, x in enumerate(v.items)]
            elif v is not None:
                flat.append((k, None, v))
    for k, (env, ninp, nout) in enumerate(zip(envs, ninps, nouts)):
        bad = [] if NOVEC else differs(nout, nrefs[k]) if case.ref else check_concrete(op, ninp, nout, ctx.i)
        if bad and case.ref and case.confirm and not case.confirm(op, ninp, nrefs[k]):
            bad = []
        if bad:
            res["violations"].append({"op": op.name, "case": case.name, "inputs": hexd(ninp), "outputs": hexd(nout),
                                      "failed": bad, "confirmed": True, "how": "encoding validation vector",
                                      "what": bad[0]})
            return
        if ctx.ex is None:
            continue
        try:
            pcok = T.evaluate([T.and_(*ctx.pc)], env)[0]
        except KeyError:
            continue
        und = any(v.k.startswith("undef") or v.k.startswith("addr!") for v in T.variables([x for _, _, x in flat]))
        if not pcok:
            if not case.vacuous and not ctx.ex.cut_paths and not ctx.dead and not any(v.k.startswith("undef") for v in T.variables(ctx.pc)):
                res["status"] = "inconclusive"
                res["notes"].append("encoding validation: path condition excludes %s" % json.dumps(hexd(ninp)))
            continue
        res["reach"] = True
        try:
            vals = T.evaluate([x for _, _, x in flat], env)
        except KeyError:
            continue
        res["vectors"] += 1
        for (k, j, x), v in zip(flat, vals):
            if j is None:
                nv = nout[k]
            else:
                w = x.w // 8
                nv = int.from_bytes(nout[k][j * w:(j + 1) * w], "little")
            if nv != v:
                if any(y.k.startswith("undef") or y.k.startswith("addr!") for y in T.variables([x])):
                    continue
                res["status"] = "inconclusive"
                res["notes"].append("encoding validation mismatch on %s[%s]: native %x encoding %x inputs %s" %
                                    (k, j, nv, v, json.dumps(hexd(ninp))))
                return


# ------------------------------------------------------------------ scheduling
def _child(fn, w, memgb):
    sys.setrecursionlimit(1000000)
    threading.stack_size(1024 * 1024 * 1024)
    box = {}

    def go():
        try:
            box["r"] = fn()
        except BaseException as e:               # noqa
            box["r"] = {"case": "?", "op": "?", "status": "inconclusive",
                        "notes": ["worker error: %s" % traceback.format_exc()[-1500:]], "violations": []}
    t = threading.Thread(target=go)
    t.start()
    t.join()
    r = box.get("r")
    r["stats"] = dict(smt.STATS)
    d = pickle.dumps(r)
    while d:
        n = os.write(w, d)
        d = d[n:]


def schedule(jobs, deadline, nproc=NPROC, memgb=7, stop_on_violation=True, onresult=None):
    """jobs: list of (name, fn, per-job timeout).  returns list of results"""
    pending = list(jobs)
    running = {}
    results = []
    stop = False
    while (pending or running) and not stop:
        now = time.time()
        while pending and len(running) < nproc and now < deadline:
            name, fn, tmo = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                for rr in running.values():
                    os.close(rr["fd"])
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (memgb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                    _child(fn, w, memgb)
                finally:
                    os._exit(0)
            os.close(w)
            running[pid] = {"name": name, "fd": r, "t0": now, "tmo": tmo, "data": b""}
        if now >= deadline and pending:
            for name, fn, tmo in pending:
                results.append({"case": name, "op": "", "status": "inconclusive",
                                "notes": ["not started: overall time limit"], "violations": [], "stats": {}})
            pending = []
        if not running:
            break
        fds = [x["fd"] for x in running.values()]
        rl, _, _ = select.select(fds, [], [], 0.2)
        for pid, x in list(running.items()):
            done = False
            if x["fd"] in rl:
                c = os.read(x["fd"], 1 << 20)
                if c:
                    x["data"] += c
                else:
                    done = True
            if not done and (time.time() - x["t0"] > x["tmo"] or time.time() > deadline):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                x["killed"] = True
                done = True
            if done:
                os.close(x["fd"])
                os.waitpid(pid, 0)
                del running[pid]
                try:
                    r = pickle.loads(x["data"])
                except Exception:                # noqa
                    r = {"case": x["name"], "op": "", "status": "inconclusive", "violations": [], "stats": {},
                         "notes": ["time limit %ds" % x["tmo"] if x.get("killed") else "worker ended without a result"]}
                r["wall"] = round(time.time() - x["t0"], 2)
                r.setdefault("case", x["name"])
                if r["case"] == "?":
                    r["case"] = x["name"]
                results.append(r)
                if onresult:
                    onresult(r)
                if r["violations"] and stop_on_violation:
                    stop = True
    for pid, x in running.items():
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(x["fd"])
        os.waitpid(pid, 0)
    return results


def out(s):
    print(s, flush=True)


def finish(pid, results, t0, h=None, assumptions=(), bounds="", extra=None, known=()):
    viol = [v for r in results for v in r["violations"]]
    st = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    funcs = {}
    for r in results:
        for f, n in r.get("funcs", {}).items():
            funcs[f] = funcs.get(f, 0) + n
    proved = [r for r in results if r["status"] == "proved"]
    inc = [r for r in results if r["status"] == "inconclusive"]
    samples = []
    for r in results[:6]:
        samples.append({k: r.get(k) for k in ("case", "op", "status", "goals", "obligations", "steps", "exec_s", "wall", "bounds")})
    cov = {
        "states": sum(n for n in funcs.values()),
        "transitions": sum(r.get("steps", 0) for r in results),
        "traces_validated_against_impl": sum(r.get("vectors", 0) for r in results),
        "samples": samples,
        "states_meaning": "calls of library or harness functions executed symbolically; transitions are the IR instructions executed symbolically",
        "cases": len(results),
        "cases_proved": len(proved),
        "cases_inconclusive": len(inc),
        "cases_violated": len([r for r in results if r["status"] == "violated"]),
        "goals_checked": sum(r.get("goals", 0) for r in results),
        "memory_accesses_checked": sum(r.get("accesses", 0) for r in results),
        "ub_obligations_checked": sum(r.get("obligations", 0) for r in results),
        "reachability_witnesses": sum(1 for r in results if r.get("reach")),
        "solver_queries": st.get("queries", 0),
        "solver_unsat": st.get("unsat", 0),
        "solver_sat": st.get("sat", 0),
        "solver_unknown": st.get("unknown", 0),
        "goals_trivially_equal_after_normalisation": st.get("trivial", 0),
        "solver_seconds": round(st.get("time", 0), 2),
        "term_rewrites_verified_by_solver": sum(r["audit"]["verified"] for r in results if "audit" in r),
        "term_rewrites_undecided": sum(r["audit"]["undecided"] for r in results if "audit" in r),
        "cases_with_verified_rewriting": sum(1 for r in results if "audit" in r),
        "functions_encoded": sorted(funcs),
        "bounds": bounds,
        "inconclusive": [{"case": r["case"], "notes": r["notes"][:4]} for r in inc][:60],
    }
    if extra:
        cov.update(extra)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
          "level": "model_checking", "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    out("%s: %d cases, %d proved, %d inconclusive, %d violated; %d queries, %.1f solver-s, wall %.1fs" % (
        pid, len(results), len(proved), len(inc), cov["cases_violated"], cov["solver_queries"], cov["solver_seconds"],
        time.time() - t0))
    for r in inc:
        out("INCONCLUSIVE case=%s %s" % (r["case"], "; ".join(r["notes"][:3])[:600]))
    if viol:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for n, v in enumerate(viol[:5]):
            p = VERIF + "/replays/%s-%d.json" % (pid, n)
            v["property"] = pid
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            out("  %s: %s [%s] inputs=%s" % (v["op"], v.get("what"), ", ".join(map(str, v.get("failed", [])))[:200],
                                             json.dumps(v["inputs"])[:400]))
            out("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0
