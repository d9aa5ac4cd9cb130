// Test arrays around sdp_Mem, plus numeric helpers shared by the harnesses.
#pragma once
#include "mc/mc.hpp"
#include <algorithm>
#include <complex>
#include <memory>
#include "ska-sdp-func/utility/sdp_errors.h"
#include "ska-sdp-func/utility/sdp_logging.h"
#include "ska-sdp-func/utility/sdp_mem.h"

typedef std::complex<double> cd;
typedef std::vector<int64_t> Shape;

inline size_t tsize(sdp_MemType t)
{
    switch (t)
    {
    case SDP_MEM_CHAR: return 1;
    case SDP_MEM_INT: return 4;
    case SDP_MEM_FLOAT: return 4;
    case SDP_MEM_DOUBLE: return 8;
    case SDP_MEM_COMPLEX_FLOAT: return 8;
    case SDP_MEM_COMPLEX_DOUBLE: return 16;
    default: return 0;
    }
}
inline bool t_is_single(sdp_MemType t) { return t == SDP_MEM_FLOAT || t == SDP_MEM_COMPLEX_FLOAT; }
inline const char* tname(sdp_MemType t)
{
    switch (t)
    {
    case SDP_MEM_VOID: return "void";
    case SDP_MEM_CHAR: return "char";
    case SDP_MEM_INT: return "int";
    case SDP_MEM_FLOAT: return "float";
    case SDP_MEM_DOUBLE: return "double";
    case SDP_MEM_COMPLEX_FLOAT: return "cfloat";
    case SDP_MEM_COMPLEX_DOUBLE: return "cdouble";
    default: return "?";
    }
}

// contiguous, padded rows/elements, transposed (F order), all axes reversed, last axis in steps of one and a half elements
enum Layout { L_C = 0, L_PAD = 1, L_F = 2, L_REV = 3, L_ODD = 4 };

// An exactly-sized heap block (so that the sanitizer sees any overrun) wrapped as sdp_Mem.
struct Arr
{
    sdp_MemType type = SDP_MEM_VOID;
    Shape shape, stride;   // stride in bytes
    char* data = nullptr;  // the first element
    char* base = nullptr;  // the lowest address
    size_t nbytes = 0;
    sdp_Mem* mem = nullptr;
    bool own = true;

    Arr() {}
    Arr(sdp_MemType t, const Shape& s, Layout lay = L_C, sdp_MemLocation loc = SDP_MEM_CPU)
    {
        init(t, s, lay, loc);
    }
    Arr(const Arr&) = delete;
    Arr& operator=(const Arr&) = delete;
    Arr(Arr&& o) { *this = std::move(o); }
    Arr& operator=(Arr&& o)
    {
        reset();
        type = o.type; shape = o.shape; stride = o.stride; data = o.data; base = o.base; nbytes = o.nbytes; mem = o.mem;
        o.data = o.base = nullptr; o.mem = nullptr;
        return *this;
    }
    void reset()
    {
        if (mem) sdp_mem_free(mem);
        free(base);
        mem = nullptr; data = base = nullptr;
    }
    ~Arr() { reset(); }
    void init(sdp_MemType t, const Shape& s, Layout lay, sdp_MemLocation loc = SDP_MEM_CPU)
    {
        reset();
        type = t; shape = s; stride.assign(s.size(), 0);
        size_t es = tsize(t);
        int64_t n = 1;
        if (lay == L_F)
        {
            for (size_t i = 0; i < s.size(); ++i) { stride[i] = n * es; n *= s[i]; }
        }
        else if (lay == L_PAD)
        {
            n = 2; // gap of one element between neighbours
            for (int i = (int) s.size() - 1; i >= 0; --i) { stride[i] = n * es; n = n * s[i] + 1; }
        }
        else if (lay == L_ODD)
        {
            n = es + es / 2;
            for (int i = (int) s.size() - 1; i >= 0; --i) { stride[i] = n; n *= s[i]; }
        }
        else
        {
            for (int i = (int) s.size() - 1; i >= 0; --i) { stride[i] = n * es; n *= s[i]; }
        }
        int64_t last = 0, tot = 1;
        for (size_t i = 0; i < s.size(); ++i) { last += (s[i] - 1) * stride[i]; tot *= s[i]; }
        nbytes = tot > 0 ? last + es : 0;
        data = base = (char*) malloc(nbytes ? nbytes : 1);
        memset(base, 0, nbytes ? nbytes : 1);
        if (lay == L_PAD || lay == L_ODD) memset(base, 0x5a, nbytes);
        if (lay == L_REV)
        {
            if (tot > 0) data += last;
            for (auto& x : stride) x = -x;
        }
        sdp_Error st = SDP_SUCCESS;
        mem = sdp_mem_create_wrapper(data, t, loc, (int32_t) s.size(), shape.data(), stride.data(), &st);
        if (lay == L_PAD || lay == L_ODD) fill(0);
    }
    int nd() const { return (int) shape.size(); }
    int64_t size() const { int64_t n = 1; for (auto x : shape) n *= x; return n; }
    // linear logical index -> address
    char* at(int64_t lin) const
    {
        int64_t off = 0;
        for (int i = nd() - 1; i >= 0; --i) { off += (lin % shape[i]) * stride[i]; lin /= shape[i]; }
        return data + off;
    }
    int64_t lin(std::initializer_list<int64_t> ix) const
    {
        int64_t l = 0; int k = 0;
        for (auto x : ix) { l = l * shape[k] + x; ++k; }
        return l;
    }
    cd get(int64_t l) const
    {
        char* p = at(l);
        switch (type)
        {
        case SDP_MEM_CHAR: return (double) *(signed char*) p;
        case SDP_MEM_INT: return (double) *(int*) p;
        case SDP_MEM_FLOAT: return (double) *(float*) p;
        case SDP_MEM_DOUBLE: return *(double*) p;
        case SDP_MEM_COMPLEX_FLOAT: return cd(((float*) p)[0], ((float*) p)[1]);
        case SDP_MEM_COMPLEX_DOUBLE: return cd(((double*) p)[0], ((double*) p)[1]);
        default: return 0;
        }
    }
    void set(int64_t l, cd v)
    {
        char* p = at(l);
        switch (type)
        {
        case SDP_MEM_CHAR: *(signed char*) p = (signed char) v.real(); break;
        case SDP_MEM_INT: *(int*) p = (int) v.real(); break;
        case SDP_MEM_FLOAT: *(float*) p = (float) v.real(); break;
        case SDP_MEM_DOUBLE: *(double*) p = v.real(); break;
        case SDP_MEM_COMPLEX_FLOAT: ((float*) p)[0] = (float) v.real(); ((float*) p)[1] = (float) v.imag(); break;
        case SDP_MEM_COMPLEX_DOUBLE: ((double*) p)[0] = v.real(); ((double*) p)[1] = v.imag(); break;
        default: break;
        }
    }
    cd get(std::initializer_list<int64_t> ix) const { return get(lin(ix)); }
    void set(std::initializer_list<int64_t> ix, cd v) { set(lin(ix), v); }
    double re(std::initializer_list<int64_t> ix) const { return get(lin(ix)).real(); }
    void fill(cd v) { for (int64_t i = 0; i < size(); ++i) set(i, v); }
    std::vector<cd> all() const
    {
        std::vector<cd> v; for (int64_t i = 0; i < size(); ++i) v.push_back(get(i));
        return v;
    }
    std::string bytes() const { return std::string(base, nbytes); }
    bool has_nan() const
    {
        for (int64_t i = 0; i < size(); ++i) { cd v = get(i); if (!(std::abs(v) < 1e300)) return true; }
        return false;
    }
};

// Deterministic, structureless test values (no random source: the same on every run).
inline double hashval(uint64_t i, uint64_t salt = 0)
{
    uint64_t x = i * 0x9E3779B97F4A7C15ull + salt * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull;
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
    return (double) (x >> 11) / (double) (1ull << 53) * 2.0 - 1.0;
}
inline void fill_hash(Arr& a, uint64_t salt = 0, double scale = 1.0)
{
    bool cx = (a.type & SDP_MEM_COMPLEX) == SDP_MEM_COMPLEX;
    for (int64_t i = 0; i < a.size(); ++i)
        a.set(i, cd(scale * hashval(i, salt), cx ? scale * hashval(i, salt + 7777) : 0.0));
}
inline double max_diff(const std::vector<cd>& a, const std::vector<cd>& b)
{
    if (a.size() != b.size()) return 1e300;
    double m = 0;
    for (size_t i = 0; i < a.size(); ++i)
    {
        double d = std::abs(a[i] - b[i]);
        if (!(d <= 1e300)) return 1e300;
        if (d > m) m = d;
    }
    return m;
}
inline double max_abs(const std::vector<cd>& a)
{
    double m = 0; for (auto& x : a) { double d = std::abs(x); if (!(d <= 1e300)) return 1e300; if (d > m) m = d; }
    return m;
}
inline uint64_t hash_vals(const std::vector<cd>& v, double q = 1e-6)
{
    uint64_t h = 1469598103934665603ull;
    for (auto& x : v)
    {
        long r = lround(std::min(1e12, std::max(-1e12, x.real() / q)));
        long i = lround(std::min(1e12, std::max(-1e12, x.imag() / q)));
        h = mc::fnv(&r, sizeof r, h); h = mc::fnv(&i, sizeof i, h);
    }
    return h;
}
inline std::string shape_str(const Shape& s)
{
    std::string o = "(";
    for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + std::to_string(s[i]);
    return o + ")";
}
