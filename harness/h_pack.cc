// P12: values survive pack/unpack, alone and in nibble-indexed sequences.
#include <cassert>
#include <cstring>
#include <type_traits>
#include <vector>
#include <memory>
#include "TestUtil.h"
#include "Packer.h"
#include "pbt.h"
using namespace BufferUtils;

// pointers of any kind are read back as the decoder reads %p arguments
template <typename T> using RT = typename std::conditional<std::is_pointer<T>::value, const void *, T>::type;

enum Ty { U8, U16, U32, U64, BOOL_, CHAR_, SCHAR, SHORT_, INT_, LONG_, LLONG, ULLONG, SIZE_, WINT, PTRDIFF, PTR, CPTR, FLOAT_, DOUBLE_, LDOUBLE, NTY };
static const char *names[] = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "bool", "char", "signed char", "short", "int", "long", "long long",
                              "unsigned long long", "size_t", "wint_t", "ptrdiff_t", "void*", "const char*", "float", "double", "long double"};

struct Val {
    int ty;
    unsigned char b[16];
    size_t size;
    size_t used;
    int code;
};

template <typename T> static void put(Val &v, T x) { memset(v.b, 0, 16); memcpy(v.b, &x, std::is_same<T, long double>::value ? 10 : sizeof(T)); v.size = sizeof(T); }
template <typename T> static T get(const Val &v) { T x = T(); memcpy(&x, v.b, std::is_same<T, long double>::value ? 10 : sizeof(T)); return x; }
template <typename T> static bool same(const Val &v, T x) { return memcmp(v.b, &x, std::is_same<T, long double>::value ? 10 : sizeof(T)) == 0; }

#define EACH(X) X(U8, uint8_t) X(U16, uint16_t) X(U32, uint32_t) X(U64, uint64_t) X(BOOL_, bool) X(CHAR_, char) X(SCHAR, signed char) X(SHORT_, short) \
    X(INT_, int) X(LONG_, long) X(LLONG, long long) X(ULLONG, unsigned long long) X(SIZE_, size_t) X(WINT, wint_t) X(PTRDIFF, ptrdiff_t) \
    X(PTR, void *) X(CPTR, const char *) X(FLOAT_, float) X(DOUBLE_, double) X(LDOUBLE, long double)

// The value's bits from 64 (or 128) generated ones.
static Val make(int ty, uint64_t bits, uint64_t hi) {
    Val v;
    v.ty = ty; v.used = 0; v.code = 0;
    switch (ty) {
        case BOOL_: put<bool>(v, bits & 1); break;
        case FLOAT_: { uint32_t u = uint32_t(bits); float f; memcpy(&f, &u, 4); put(v, f); if (f != f) memcpy(v.b, &u, 4); break; }
        case DOUBLE_: { double f; memcpy(&f, &bits, 8); put(v, f); break; }
        case LDOUBLE: {
            long double f = (long double)(int64_t(bits)) * __builtin_powl(2.0L, int(hi % 2000) - 1000);
            if (hi % 37 == 0) f = 1.0L / 0.0L; else if (hi % 41 == 0) f = __builtin_nanl("");
            put(v, f); break;
        }
#define M(E, T) case E: put<T>(v, (T)bits); break;
        M(U8, uint8_t) M(U16, uint16_t) M(U32, uint32_t) M(U64, uint64_t) M(CHAR_, char) M(SCHAR, signed char) M(SHORT_, short) M(INT_, int) M(LONG_, long)
        M(LLONG, long long) M(ULLONG, unsigned long long) M(SIZE_, size_t) M(WINT, wint_t) M(PTRDIFF, ptrdiff_t) M(PTR, void *) M(CPTR, const char *)
#undef M
    }
    return v;
}

static int doPack(const Val &v, char **out) {
    switch (v.ty) {
#define P(E, T) case E: return pack(out, get<T>(v));
        EACH(P)
#undef P
    }
    return -1;
}

// float arguments come back through the type they were packed with and through double
template <typename T> static void check(pbt::Tape &t, const Val &v, T got, const char *how) {
    if (!same<T>(v, got)) {
        char a[64] = {0}, b[64] = {0};
        for (size_t i = 0; i < v.size; ++i) { sprintf(a + 2 * i, "%02x", v.b[i]); sprintf(b + 2 * i, "%02x", ((unsigned char *)&got)[i]); }
        t.fail("%s: %s with bytes %s comes back as %s", how, names[v.ty], a, b);
    }
}

static void doUnpack(pbt::Tape &t, const Val &v, const char **in, uint8_t code, const char *how) {
    switch (v.ty) {
#define U(E, T) case E: check<RT<T>>(t, v, unpack<RT<T>>(in, code), how); break;
        EACH(U)
#undef U
    }
}

static void doNext(pbt::Tape &t, const Val &v, Nibbler &nb, bool alt) {
    if (alt && v.ty == INT_) { check<unsigned>(t, v, nb.getNext<unsigned>(), "read as unsigned"); return; }
    if (alt && v.ty == U32) { check<int>(t, v, nb.getNext<int>(), "read as int"); return; }
    if (alt && v.ty == LONG_) { check<unsigned long>(t, v, nb.getNext<unsigned long>(), "read as unsigned long"); return; }
    if (alt && v.ty == U64) { check<long long>(t, v, nb.getNext<long long>(), "read as long long"); return; }
    if (alt && v.ty == FLOAT_) {
        double d = nb.getNext<double>();
        float f = get<float>(v);
        if (!(d == double(f) || (d != d && f != f))) t.fail("float %g read as double gives %g", f, d);
        return;
    }
    switch (v.ty) {
#define N(E, T) case E: check<RT<T>>(t, v, nb.getNext<RT<T>>(), "Nibbler"); break;
        EACH(N)
#undef N
    }
}

static uint64_t genBits(pbt::Tape &t, int ty) {
    if (ty == FLOAT_ || ty == DOUBLE_) {
        switch (t.draw(4)) {
            case 0: { double d = double(int64_t(t.bits())); if (ty == FLOAT_) { float f = float(d); uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
            case 1: { static const double sp[] = {0.0, -0.0, 1.0, 0.5, __builtin_inf(), -__builtin_inf(), __builtin_nan(""), 5e-324, 1.7e308};
                      double d = t.pick(sp); if (ty == FLOAT_) { float f = float(d); uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
            default: return t.draw(0);
        }
    }
    return t.bits();
}

static void single(pbt::Tape &t, const Val &v) {
    // exact size of the type as pack() receives it (types narrower than int are promoted)
    size_t room = v.size < 4 && v.ty != U8 && v.ty != U16 && v.ty != BOOL_ ? 4 : v.size;
    std::unique_ptr<char[]> buf(new char[room]);
    memset(buf.get(), 0xA5, room);
    char *o = buf.get();
    int code = doPack(v, &o);
    size_t used = size_t(o - buf.get());
    if (used > v.size || used == 0) t.fail("%s: packing used %zu bytes", names[v.ty], used);
    std::unique_ptr<char[]> rd(new char[used]);
    memcpy(rd.get(), buf.get(), used);
    const char *in = rd.get();
    doUnpack(t, v, &in, uint8_t(0xf & code), "unpack");
    if (size_t(in - rd.get()) != used) t.fail("%s: packed to %zu bytes but %zu were consumed (code %d)", names[v.ty], used, size_t(in - rd.get()), code);
    if ((0xf & code) != 0 && v.ty != FLOAT_ && v.ty != DOUBLE_ && v.ty != LDOUBLE && !((code >= 1 && code <= 8) || (code >= 9 && code <= 16)))
        t.fail("%s: pack returned the code %d", names[v.ty], code);
}

static void prop(pbt::Tape &t) {
    if (t.chance(5)) {      // exhaustive over the narrow types (slice by generated high byte)
        int ty = int(t.draw(NTY));
        uint64_t base = t.draw(256) << 8;
        t.note("every %s value of the slice 0x%llx..+255 alone\n", names[ty], (unsigned long long)base);
        for (uint64_t i = 0; i < 256; ++i) single(t, make(ty, base + i, 3));
        for (uint64_t i = 0; i < 256; ++i) single(t, make(ty, 0 - (base + i), 5));
        t.nontrivial = true;
        t.key = "x" + std::to_string(ty) + "/" + std::to_string(base);
        t.extra[0] += 512;
        return;
    }
    size_t n = size_t(t.draw(t.chance(10) ? 255 : 12));
    std::vector<Val> vals;
    size_t total = (n + 1) / 2;
    for (size_t i = 0; i < n; ++i) {
        int ty = int(t.draw(NTY));
        uint64_t b = genBits(t, ty);
        vals.push_back(make(ty, b, ty == LDOUBLE ? t.draw(1 << 20) : 0));
        total += vals.back().size;
        t.note("%s:%llx ", names[ty], (unsigned long long)b);
        single(t, vals.back());
    }
    size_t pad = size_t(t.draw(9));     // any alignment
    std::unique_ptr<char[]> store(new char[pad + total + 3]);
    memset(store.get(), 0x5A, pad + total);
    char *start = store.get() + pad;
    TwoNibbles *nib = reinterpret_cast<TwoNibbles *>(start);
    char *o = start + (n + 1) / 2;
    for (size_t i = 0; i < n; ++i) {
        char *before = o;
        int code = doPack(vals[i], &o);
        if (i & 1) nib[i / 2].second = 0xf & code; else nib[i / 2].first = 0xf & code;
        if (size_t(o - before) > vals[i].size) t.fail("%s: packing used %zu bytes", names[vals[i].ty], size_t(o - before));
    }
    size_t len = size_t(o - start);
    std::unique_ptr<char[]> rd(new char[pad + len]);
    memcpy(rd.get() + pad, start, len);
    const char *rs = rd.get() + pad;
    if (getSizeOfPackedValues(reinterpret_cast<const TwoNibbles *>(rs), uint32_t(n)) != len - (n + 1) / 2)
        t.fail("%zu values packed into %zu bytes, computed size %u", n, len - (n + 1) / 2,
               getSizeOfPackedValues(reinterpret_cast<const TwoNibbles *>(rs), uint32_t(n)));
    Nibbler nb(rs, int(n));
    if (nb.getEndOfPackedArguments() != rs + len) t.fail("the computed end of the packed area is off by %ld", long(nb.getEndOfPackedArguments() - (rs + len)));
    bool alt = t.draw(2);
    for (size_t i = 0; i < n; ++i) doNext(t, vals[i], nb, alt && i % 2);
    t.nontrivial = n > 0;
    t.extra[0] += n;
    for (auto &v : vals) t.key.append(reinterpret_cast<char *>(v.b), v.size).append(1, char(v.ty));
}

int main(int argc, char **argv) { return pbt::run(argc, argv, "P12", prop); }
