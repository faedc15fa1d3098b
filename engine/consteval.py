"""evaluation of operations by the compilers' constant evaluator, and the headers as the constant evaluator sees them"""
import os, re, json, subprocess, hashlib
from . import core

PRE = r'''
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <array>
#include <cstdint>
#include <cstdio>
#include <string_view>
#include <type_traits>
using std::uint8_t; using std::uint16_t; using std::uint32_t; using std::uint64_t;
template <std::size_t W> static constexpr inline Aeu<W> ldu(const uint32_t* p) {
    Aeu<W> r{}; for (std::size_t i = 0; i < W / 32; ++i) r.setBlock(i, p[i]); return r;
}
template <std::size_t W> static constexpr inline void stu(const Aeu<W>& v, uint32_t* p) { for (std::size_t i = 0; i < W / 32; ++i) p[i] = v.getBlock(i); }
template <std::size_t W> static constexpr inline Aesi<W> lds(const uint32_t* p) {
    if (p[0] == 0) return Aesi<W>(0);
    Aesi<W> r(1);
    for (std::size_t i = 0; i < W / 32; ++i) r.setBlock(i, p[1 + i]);
    if (p[0] != 1) r.inverse();
    return r;
}
template <std::size_t W> static constexpr inline void sts(const Aesi<W>& v, uint32_t* p) {
    p[0] = (v.isZero() ? 1u : 0u) | (v.isPositive() ? 2u : 0u) | (v.isNegative() ? 4u : 0u);
    stu<W>(v.unsignedCast(), p + 1);
}
static constexpr inline unsigned ord(std::strong_ordering o) { return o < 0 ? 1u : (o > 0 ? 2u : 0u); }
template <class L> concept usable = requires { typename std::integral_constant<int, (L{}(), 0)>; };
template <class R> static void show(const char* id, const R& r) {
    std::printf("%s", id);
    r([](const char* n, const void* p, std::size_t k) { std::printf(" %s=", n); for (std::size_t i = 0; i < k; ++i) std::printf("%02x", ((const unsigned char*)p)[i]); });
    std::printf("\n");
}
'''
RX = [(re.compile(r"\bif\s+consteval\b"), "if (true)"),
      (re.compile(r"\bif\s*(?:!|\bnot\b)\s*consteval\b"), "if (false)"),
      (re.compile(r"(?:(?:::\s*)?\bstd\s*::\s*)?\bis_constant_evaluated\s*\(\s*\)"), "true"),
      (re.compile(r"\b__builtin_is_constant_evaluated\s*\(\s*\)"), "true"),
      (re.compile(r"\b__builtin_constant_p\s*\("), "(true || "),]


def headers(name):
    """copy of the include tree in which the question whether this is a constant evaluation is answered yes; -> (directory, answers)"""
    dst = os.path.join(core.VERIF, "build", name)
    n = 0
    for d, _, fs in os.walk(core.INC):
        e = os.path.join(dst, os.path.relpath(d, core.INC))
        os.makedirs(e, exist_ok=True)
        for f in fs:
            with open(os.path.join(d, f), encoding="utf-8", errors="surrogateescape") as fh:
                s = fh.read()
            for r, to in RX:
                s, k = r.subn(to, s)
                n += k
            with open(os.path.join(e, f), "w", encoding="utf-8", errors="surrogateescape") as fh:
                fh.write(s)
    return dst, n


def _ptype(body, n, default):
    m = re.search(r"\(\s*(?:const\s+)?((?:unsigned\s+)?\w+)\s*\*\s*\)\s*%s\b" % n, body)
    return m.group(1) if m else default


_SZ = {"char": 1, "wchar_t": 4, "uint64_t": 8, "uint32_t": 4, "uint16_t": 2, "uint8_t": 1, "unsigned char": 1, "int32_t": 4, "int64_t": 8, "char16_t": 2, "char32_t": 4, "char8_t": 1}


def block(id, op, ninp):
    """source that evaluates one operation on constants, or None"""
    decl, outs = [], []
    for n, k in op.params:
        if k[0] in ("in", "inbytes", "out", "outbytes"):
            t = _ptype(op.body, n, "uint32_t" if k[0] in ("in", "out") else "unsigned char")
            if t not in _SZ:
                return None
            sz = _SZ[t]
        if k[0] in ("in", "inbytes"):
            b = bytes(ninp[n])
            vs = [int.from_bytes(b[j:j + sz], "little") for j in range(0, len(b), sz)]
            decl.append("const %s %s[] = {%s};" % (t, n, ", ".join("(%s)%dull" % (t, v) for v in vs) or "0"))
        elif k[0] in ("out", "outbytes"):
            z = k[1] if isinstance(k[1], int) else k[1](ninp)
            decl.append("%s* %s = r__.%s;" % (t, n, n))
            c = max(1, -(-z // sz))
            fill = int.from_bytes(b"\xa5" * sz, "little")
            outs.append((n, t, c, fill, z))
        else:
            decl.append("const uint%d_t %s = %dull;" % (k[1], n, ninp[n]))
    if op.ret:
        outs.append(("ret", "uint%d_t" % op.ret, 1, 0, op.ret // 8))
    body = op.body
    fields = "".join("%s %s[%d]{}; " % (t, n, c) for n, t, c, f, z in outs)
    fills = "".join("for (auto& x : r__.%s) x = (%s)%dull; " % (n, t, f) for n, t, c, f, z in outs)
    vis = "".join('f("%s", %s, %d); ' % (n, n, z) for n, t, c, f, z in outs)
    call = "r__.ret[0] = [&]() -> uint%d_t { %s }();" % (op.ret, body) if op.ret else "[&]() -> void { %s }();" % body
    return ("namespace e_%s {\nstruct R { %s template <class F> void operator()(F f) const { %s} };\n"
            "constexpr auto go = [] { R r__; %s\n%s\n%s\nreturn r__; };\n"
            "template <class L> static void run() { if constexpr (usable<L>) { static constexpr R r = L{}(); show(\"%s\", r); } else std::printf(\"%s -\\n\"); }\n}\n"
            % (id, fields, vis, fills, "\n".join(decl), call, id, id))


def evaluate(items, dir, tag, cxx=None, timeout=240, flags=()):
    """items: [(id, op, ninp)] -> dict id -> outputs (bytes by name), or None where it is no constant expression.  ids left out: not evaluated"""
    src, ids = [PRE], []
    for id, op, n in items:
        b = block(id, op, n)
        if b:
            src.append(b)
            ids.append(id)
    src.append("int main() {" + "".join("e_%s::run<decltype(e_%s::go)>(); " % (i, i) for i in ids) + "}")
    os.makedirs(dir, exist_ok=True)
    f = os.path.join(dir, "ce_" + tag)
    with open(f + ".cpp", "w") as fh:
        fh.write("\n".join(src))
    cxx = cxx or core.GXX
    lim = ["-fconstexpr-ops-limit=200000000", "-fconstexpr-loop-limit=10000000"] if "g++" in cxx else ["-fconstexpr-steps=200000000"]
    p = subprocess.run(["timeout", str(timeout), cxx, "-std=c++20", "-O0", "-w", *lim, "-I" + core.INC, *flags, f + ".cpp", "-o", f], capture_output=True, text=True)
    if p.returncode:
        if len(items) == 1:
            return {"$error": p.stderr[-1500:]}
        h = len(items) // 2
        if p.returncode == 124:
            return {"$error": "timeout"}
        a, b = evaluate(items[:h], dir, tag + "a", cxx, timeout, flags), evaluate(items[h:], dir, tag + "b", cxx, timeout, flags)
        return {**b, **a}
    q = subprocess.run([f], capture_output=True, text=True, timeout=60)
    os.unlink(f)
    out = {}
    for l in q.stdout.split("\n"):
        w = l.split(" ")
        if len(w) < 2:
            continue
        out[w[0]] = None if w[1] == "-" else {k: bytes.fromhex(v) for k, v in (x.split("=") for x in w[1:])}
    return out
