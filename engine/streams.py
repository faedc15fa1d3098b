"""Model of std::basic_ostream / std::basic_istream for symbolic execution.

A stream object has libstdc++'s layout (so that the library's inline members work on it as compiled);
formatted insertion, write, put and read are modelled on top of the state these members keep."""
import re
from . import terms as T, symex as X, models

PRE = r'''
#include <sstream>
#include <iostream>
template class std::basic_ios<char>;
template class std::basic_ios<wchar_t>;
template <typename C> std::basic_ostream<C>* os_make();
template <typename C> std::basic_istream<C>* is_make(const unsigned char* data, uint64_t n);
extern "C" std::basic_ostream<char>* os_make_c();
extern "C" std::basic_ostream<wchar_t>* os_make_w();
extern "C" std::basic_istream<char>* is_make_c(const unsigned char* data, uint64_t n);
extern "C" uint64_t os_done_c(std::basic_ostream<char>* os, unsigned char* out, uint64_t cap);
extern "C" uint64_t os_done_w(std::basic_ostream<wchar_t>* os, uint32_t* out, uint64_t cap);
/* the executor calls these to look at the stream's state */
struct StreamPeek : std::ios_base {
    static uint32_t get(std::ios_base& b) { return uint32_t(b.*(&StreamPeek::_M_streambuf_state)); }
    static void set(std::ios_base& b, uint32_t v) { b.*(&StreamPeek::_M_streambuf_state) = std::_Ios_Iostate(v); }
};
struct InPeek : std::basic_istream<char> {
    static void set(std::basic_istream<char>& b, uint64_t v) { b.*(&InPeek::_M_gcount) = std::streamsize(v); }
};
extern "C" uint32_t peek_flags_c(std::basic_ostream<char>* s) { return uint32_t(s->flags()); }
extern "C" uint32_t peek_flags_w(std::basic_ostream<wchar_t>* s) { return uint32_t(s->flags()); }
extern "C" uint64_t peek_width_c(std::basic_ostream<char>* s) { return uint64_t(s->width()); }
extern "C" uint64_t peek_width_w(std::basic_ostream<wchar_t>* s) { return uint64_t(s->width()); }
extern "C" void peek_width0_c(std::basic_ostream<char>* s) { s->width(0); }
extern "C" void peek_width0_w(std::basic_ostream<wchar_t>* s) { s->width(0); }
extern "C" uint32_t peek_fill_c(std::basic_ostream<char>* s) { return (unsigned char)(s->fill()); }
extern "C" uint32_t peek_fill_w(std::basic_ostream<wchar_t>* s) { return uint32_t(s->fill()); }
extern "C" std::ios_base* peek_ios_c(std::basic_ostream<char>* s) { return s; }
extern "C" std::ios_base* peek_ios_w(std::basic_ostream<wchar_t>* s) { return s; }
extern "C" uint32_t peek_state_c(std::basic_ostream<char>* s) { return StreamPeek::get(*s); }
extern "C" void peek_setstate_c(std::basic_ostream<char>* s, uint32_t v) { StreamPeek::set(*s, v); }
extern "C" uint32_t peek_istate_c(std::basic_istream<char>* s) { return StreamPeek::get(*s); }
extern "C" void peek_setistate_c(std::basic_istream<char>* s, uint32_t v) { StreamPeek::set(*s, v); }
extern "C" void peek_gcount_c(std::basic_istream<char>* s, uint64_t v) { InPeek::set(*s, v); }
template <> inline std::basic_ostream<char>* os_make<char>() { return os_make_c(); }
template <> inline std::basic_ostream<wchar_t>* os_make<wchar_t>() { return os_make_w(); }
static inline uint64_t os_done(std::basic_ostream<char>* os, void* out, uint64_t cap) { return os_done_c(os, (unsigned char*)out, cap); }
static inline uint64_t os_done(std::basic_ostream<wchar_t>* os, void* out, uint64_t cap) { return os_done_w(os, (uint32_t*)out, cap); }
'''

NATIVE = r'''
template <typename C, typename U> static uint64_t os_done_t(std::basic_ostream<C>* os, U* out, uint64_t cap) {
    auto* s = static_cast<std::basic_ostringstream<C>*>(os);
    const auto t = s->str();
    for (uint64_t i = 0; i < t.size() && i < cap; ++i) out[i] = U(t[i]);
    delete s;
    return t.size();
}
extern "C" std::basic_ostream<char>* os_make_c() { return new std::basic_ostringstream<char>; }
extern "C" std::basic_ostream<wchar_t>* os_make_w() { return new std::basic_ostringstream<wchar_t>; }
extern "C" std::basic_istream<char>* is_make_c(const unsigned char* d, uint64_t n) { return new std::basic_istringstream<char>(std::string((const char*)d, n)); }
extern "C" uint64_t os_done_c(std::basic_ostream<char>* os, unsigned char* out, uint64_t cap) { return os_done_t(os, out, cap); }
extern "C" uint64_t os_done_w(std::basic_ostream<wchar_t>* os, uint32_t* out, uint64_t cap) { return os_done_t(os, out, cap); }
'''

DEC, HEX, LEFT, OCT, INTERNAL, RIGHT, SHOWBASE, SHOWPOS, UPPER = 2, 8, 32, 64, 16, 128, 512, 2048, 16384
BASEFIELD, ADJUST = DEC | OCT | HEX, LEFT | RIGHT | INTERNAL
EOF, FAIL, BAD = 2, 4, 1
LIMIT = 2304


class Streams:
    """registers the model with an executor"""

    def __init__(self, ex):
        self.ex = ex
        self.buf = {}           # stream object -> (text object, kind)
        ex.externs["os_make_c"] = lambda e, st, a: self.make(st, 8)
        ex.externs["os_make_w"] = lambda e, st, a: self.make(st, 32)
        ex.externs["is_make_c"] = self.is_make
        ex.externs["os_done_c"] = lambda e, st, a: self.done(st, a, 8)
        ex.externs["os_done_w"] = lambda e, st, a: self.done(st, a, 32)
        for n in list(ex.m.funcs) + list(ex.m.decls if hasattr(ex.m, "decls") else []):
            self.register(n)
        for pat in ("_ZStls*", "_ZNSo*", "_ZNSt13basic_ostreamI*", "_ZNSi*", "_ZNSt13basic_istreamI*", "_ZSt4endl*", "_ZSt5flush*"):
            ex.externs[pat] = self.unknown(pat)

    def unknown(self, pat):
        def h(ex, st, a):
            raise X.Unsupported("stream function " + pat)
        return h

    # ------------------------------------------------------------ objects
    def make(self, st, cw, inp=False):
        ex = self.ex
        vt = ex.new_obj(st, 64, "stream vtable")
        o = ex.new_obj(st, 512, "stream", zero=True)
        t = ex.new_obj(st, LIMIT * cw // 8 + 16, "stream text")
        for i in (vt, o, t):
            st.mem[i].heap = True
        off = 16 if inp else 8
        for j in range(0, 64, 8):
            ex.store(st, X.mkptr(vt, j), 8, T.const(off, 64))
        ex.store(st, X.mkptr(o), 8, X.mkptr(vt, 40))
        ex.store(st, X.mkptr(t), 8, T.const(0, 64))           # characters used
        self.buf[o] = (t, cw)
        # defaults of a new stream
        self.st_flags(st, o, cw, 0x1002, inp)                 # skipws | dec
        if not inp:
            self.st_fill(st, o, cw, 32)
        return X.mkptr(o)

    def st_flags(self, st, o, cw, v, inp=False):
        # ios_base: vptr 0, precision 8, width 16, flags 24
        off = 16 if inp else 8
        self.ex.store(st, X.mkptr(o, off + 8), 8, T.const(6, 64))
        self.ex.store(st, X.mkptr(o, off + 24), 4, T.const(v, 32))

    def st_fill(self, st, o, cw, v):
        p = self.ex.call(st, "peek_ios_" + ("c" if cw == 8 else "w"), [X.mkptr(o)])
        off = 224
        self.ex.store(st, self.ex.padd(p, off), cw // 8, T.const(v, cw))
        self.ex.store(st, self.ex.padd(p, off + cw // 8), 1, T.const(1, 8))

    def which(self, p):
        if len(p.alts) != 1:
            raise X.Unsupported("ambiguous stream")
        _, o, off = p.alts[0]
        if o not in self.buf:
            raise X.Unsupported("unknown stream object")
        return o, self.buf[o][0], self.buf[o][1]

    def put(self, st, p, chars):
        ex = self.ex
        o, t, cw = self.which(p)
        n = X._conc(ex.load(st, X.mkptr(t), 8), "stream position")
        for c in chars:
            if n >= LIMIT:
                raise X.Unwound("stream text")
            ex.store(st, X.mkptr(t, 16 + n * cw // 8), cw // 8, c)
            n += 1
        ex.store(st, X.mkptr(t), 8, T.const(n, 64))

    def sfx(self, cw):
        return "c" if cw == 8 else "w"

    def padded(self, st, p, chars, lead=0):
        """apply width, fill and adjustment; width becomes 0"""
        ex = self.ex
        o, t, cw = self.which(p)
        s = self.sfx(cw)
        w = X._conc(ex.call(st, "peek_width_" + s, [p]), "stream width")
        if w > len(chars):
            fl = X._conc(ex.call(st, "peek_flags_" + s, [p]), "stream flags")
            f = ex.call(st, "peek_fill_" + s, [p])
            f = T.ext(f, cw - 1, 0) if f.w > cw else f
            pad = [f] * (w - len(chars))
            if fl & ADJUST == LEFT:
                chars = chars + pad
            elif fl & ADJUST == INTERNAL:
                chars = chars[:lead] + pad + chars[lead:]
            else:
                chars = pad + chars
        ex.call(st, "peek_width0_" + s, [p])
        self.put(st, p, chars)

    def done(self, st, a, cw):
        ex = self.ex
        o, t, w = self.which(a[0])
        n = X._conc(ex.load(st, X.mkptr(t), 8), "stream position")
        cap = X._conc(a[2], "capacity")
        for j in range(min(n, cap)):
            ex.store(st, ex.padd(a[1], j * cw // 8), cw // 8, ex.load(st, X.mkptr(t, 16 + j * cw // 8), cw // 8))
        return T.const(n, 64)

    # ------------------------------------------------------------ inserters
    def register(self, n):
        ex = self.ex
        if n.startswith("_ZStlsI") and "basic_ostream" in n and "Aeu" not in n and "Aesi" not in n and not n.startswith("_ZStlsIwSt11char_traitsIwESaI") and "basic_string" not in n:
            ex.summaries[n] = self.ins_char_or_text
        elif re.match(r"_ZNSo(?:lsE|3put|5write|5flush)|_ZNSt13basic_ostreamI[cw]St11char_traitsI[cw]EE(?:lsE|3put|5write|5flush)", n):
            tail = re.sub(r"^_ZNSo|^_ZNSt13basic_ostreamI[cw]St11char_traitsI[cw]EE", "", n)
            if tail.startswith("lsEP"):
                ex.summaries[n] = self.ins_manip
            elif tail in ("lsEj", "lsEm", "lsEy", "lsEt", "lsEi", "lsEl", "lsEx", "lsEs"):
                ex.summaries[n] = self.ins_int(tail[-1])
            elif tail.startswith("3put"):
                ex.summaries[n] = self.ins_put
            elif tail.startswith("5write"):
                ex.summaries[n] = self.ins_write
        elif re.match(r"_ZNSi4read|_ZNSt13basic_istreamI[c]St11char_traitsI[c]EE4read", n):
            ex.summaries[n] = self.is_read
        elif re.match(r"_ZNKSt9basic_iosI[cw]St11char_traitsI[cw]EE5widenEc", n):
            ex.summaries[n] = self.widen

    def widen(self, ex, st, a):
        w = 32 if "Iw" in ex.stack[-1] else None
        c = a[1]
        return T.sext(c, 32) if w else c

    def ins_char_or_text(self, ex, st, a):
        o, t, cw = self.which(a[0])
        x = a[1]
        if isinstance(x, X.Ptr):
            # a narrow text on a wide stream differs from a wide one only in the size of its characters
            w = self.textwidth(x, cw)
            s = models._cstr(ex, st, x, w)
            self.padded(st, a[0], [T.const(ord(c), cw) for c in s])
        else:
            c = x if x.w == cw else T.sext(x, cw) if x.w < cw else T.ext(x, cw - 1, 0)
            self.padded(st, a[0], [c])
        return a[0]

    def textwidth(self, p, cw):
        """character size of a constant text, by its declared type"""
        if cw == 8:
            return 1
        oi = p.alts[0][1]
        nm = self.ex.objname.get(oi, "")
        g = self.ex.m.globals.get(nm[1:]) if nm.startswith("@") else None
        if g and g[0][0] == "arr" and g[0][2] == ("i", 8):
            return 1
        return 4

    def ins_put(self, ex, st, a):
        self.put(st, a[0], [a[1]])
        return a[0]

    def ins_write(self, ex, st, a):
        o, t, cw = self.which(a[0])
        n = X._conc(a[2], "write size")
        state = X._conc(ex.call(st, "peek_state_c", [a[0]]), "stream state")
        if state & (BAD | FAIL):
            return a[0]
        self.put(st, a[0], [ex.load(st, ex.padd(a[1], j * cw // 8), cw // 8) for j in range(n)])
        return a[0]

    def ins_manip(self, ex, st, a):
        f = a[1]
        if len(f.alts) != 1:
            raise X.Unsupported("ambiguous manipulator")
        nm = ex.objname[f.alts[0][1]][1:]
        o, t, cw = self.which(a[0])
        if "ios_base" in nm:
            ex.call(st, nm, [ex.call(st, "peek_ios_" + self.sfx(cw), [a[0]])])
            return a[0]
        raise X.Unsupported("manipulator " + nm)

    def ins_int(self, ty):
        def h(ex, st, a):
            o, t, cw = self.which(a[0])
            v = a[1]
            fl = X._conc(ex.call(st, "peek_flags_" + self.sfx(cw), [a[0]]), "stream flags")
            b = {HEX: 16, OCT: 8}.get(fl & BASEFIELD, 10)
            if ty in "ilxs" and (b == 10 or v.hi >> (v.w - 1)) and v.hi >> (v.w - 1):
                raise X.Unsupported("signed insertion")
            up = bool(fl & UPPER)
            lead = []
            w = X._conc(ex.call(st, "peek_width_" + self.sfx(cw), [a[0]]), "stream width")
            if v.lo < b and v.hi >= b and w and b in (8, 16) and b ** w > v.hi and fl & ADJUST not in (LEFT, INTERNAL) and not fl & SHOWBASE:
                # the length varies but the padding fills it up to the width
                f = ex.call(st, "peek_fill_" + self.sfx(cw), [a[0]])
                f = T.ext(f, cw - 1, 0) if f.w > cw else f
                k = b.bit_length() - 1
                x = T.zext(v, k * w) if v.w < k * w else T.ext(v, k * w - 1, 0)
                ds = models.numeral(T.cat(T.const(1, 1), x), b, up, cw)[1:]
                if not (f.op == "c" and f.k == 48):
                    ds = [T.ite(T.eq(T.ext(x, k * w - 1, k * j), T.const(0, k * (w - j))), f, c) if j else c for j, c in zip(reversed(range(w)), ds)]
                ex.call(st, "peek_width0_" + self.sfx(cw), [a[0]])
                self.put(st, a[0], ds)
                return a[0]
            ds = models.numeral(v, b, up, cw)
            if fl & SHOWBASE and b != 10 and not (v.op == "c" and v.k == 0):
                if v.lo == 0:
                    raise X.Unsupported("base of a possibly zero block")
                lead = [T.const(48, cw)] + ([T.const(88 if up else 120, cw)] if b == 16 else [])
            if fl & SHOWPOS and ty in "ilxs":
                lead = [T.const(43, cw)]
            self.padded(st, a[0], lead + ds, len(lead) if b == 16 else 0)
            return a[0]
        return h

    # ------------------------------------------------------------ input
    def is_make(self, ex, st, a):
        n = X._conc(a[1], "stream length")
        p = self.make(st, 8, True)
        o, t, cw = self.which(p)
        for j in range(n):
            ex.store(st, X.mkptr(t, 16 + j), 1, ex.load(st, ex.padd(a[0], j), 1))
        ex.store(st, X.mkptr(t, 8), 8, T.const(n, 64))
        return p

    def is_read(self, ex, st, a):
        o, t, cw = self.which(a[0])
        n = X._conc(a[2], "read size")
        state = X._conc(ex.call(st, "peek_istate_c", [a[0]]), "stream state")
        if state:
            ex.call(st, "peek_gcount_c", [a[0], T.const(0, 64)])
            ex.call(st, "peek_setistate_c", [a[0], T.const(state | FAIL, 32)])
            return a[0]
        pos = X._conc(ex.load(st, X.mkptr(t), 8), "stream position")
        end = X._conc(ex.load(st, X.mkptr(t, 8), 8), "stream end")
        k = min(n, end - pos)
        for j in range(k):
            ex.store(st, ex.padd(a[1], j), 1, ex.load(st, X.mkptr(t, 16 + pos + j), 1))
        ex.store(st, X.mkptr(t), 8, T.const(pos + k, 64))
        ex.call(st, "peek_gcount_c", [a[0], T.const(k, 64)])
        if k < n:
            ex.call(st, "peek_setistate_c", [a[0], T.const(EOF | FAIL, 32)])
        return a[0]
