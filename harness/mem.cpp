// M01: sequences of operations on memory handles against a reference model.
// M02: element-wise operations for every type / shape / layout.
#include <sys/mman.h>
#include "mc/arr.hpp"
#include "ska-sdp-func/utility/sdp_mem_view.h"
extern "C" { int __sanitizer_get_ownership(const volatile void*); size_t __sanitizer_get_allocated_size(const volatile void*); size_t __sanitizer_get_current_allocated_bytes(); }

// ------------------------------------------------------------------ M01 ----
struct Block { std::vector<unsigned char> bytes; char* real = nullptr; bool alive = true; };
struct H    // model of one handle
{
    sdp_Mem* mem = nullptr;
    int type = 0; Shape shape, stride; int ref = 0; bool owner = false, ro = false;
    std::shared_ptr<Block> blk; int64_t off = 0; // byte offset of element 0 in blk
    int64_t n() const { int64_t k = 1; for (auto s : shape) k *= s; return k; }
    bool contig() const
    {
        int64_t k = tsize((sdp_MemType) type);
        for (int i = (int) shape.size() - 1; i >= 0; --i) { if (stride[i] != k) return false; k *= shape[i]; }
        return true;
    }
    int64_t eoff(int64_t l) const
    {
        int64_t o = off;
        for (int i = (int) shape.size() - 1; i >= 0; --i) { o += (l % shape[i]) * stride[i]; l /= shape[i]; }
        return o;
    }
};

static const sdp_MemType ALL_TYPES[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE,
    SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};

static void verify_handle(const H& h, const char* after)
{
    sdp_Mem* m = h.mem;
    const char* K = "handle-metadata";
    MC_CHECK(sdp_mem_type(m) == h.type, K, "type after %s", after);
    MC_CHECK(sdp_mem_num_dims(m) == (int) h.shape.size(), K, "num_dims after %s", after);
    MC_CHECK(sdp_mem_location(m) == SDP_MEM_CPU, K, "location after %s", after);
    for (int d = -1; d <= (int) h.shape.size(); ++d)
    {
        bool in = d >= 0 && d < (int) h.shape.size();
        MC_CHECK(sdp_mem_shape_dim(m, d) == (in ? h.shape[d] : 0), K, "shape[%d] after %s", d, after);
        MC_CHECK(sdp_mem_stride_bytes_dim(m, d) == (in ? h.stride[d] : 0), K, "stride[%d] after %s", d, after);
        MC_CHECK(sdp_mem_stride_elements_dim(m, d) == (in ? h.stride[d] / (int64_t) tsize((sdp_MemType) h.type) : 0),
                K, "stride elements[%d] after %s", d, after);
    }
    const bool empty = h.n() == 0;
    if (!empty)
    {
        MC_CHECK(sdp_mem_num_elements(m) == h.n(), K, "num_elements after %s", after);
        MC_CHECK(sdp_mem_is_c_contiguous(m) == (h.contig() ? 1 : 0), K, "contiguity after %s", after);
        MC_CHECK(sdp_mem_is_read_only(m) == (h.ro ? 1 : 0), "read-only-flag", "read-only flag after %s", after);
        MC_CHECK(sdp_mem_is_complex(m) == ((h.type & SDP_MEM_COMPLEX) ? 1 : 0), K, "is_complex after %s", after);
        MC_CHECK(sdp_mem_is_double(m) == ((h.type & SDP_MEM_DOUBLE) ? 1 : 0), K, "is_double after %s", after);
        MC_CHECK(sdp_mem_is_floating_point(m) == (h.type == SDP_MEM_FLOAT || h.type == SDP_MEM_DOUBLE ? 1 : 0),
                K, "is_floating_point after %s", after);
        int nd = (int) h.shape.size();
        bool c4 = (h.type & SDP_MEM_COMPLEX) && ((nd > 1 && h.shape[nd - 1] == 4) ||
                (nd > 2 && h.shape[nd - 1] == 2 && h.shape[nd - 2] == 2));
        MC_CHECK(sdp_mem_is_complex4(m) == (c4 ? 1 : 0), K, "is_complex4 after %s", after);
    }
    if (h.blk->alive && !empty)
    {
        MC_CHECK((char*) sdp_mem_data(m) == h.blk->real + h.off, K, "data pointer after %s", after);
        MC_CHECK(sdp_mem_data_const(m) == sdp_mem_data(m), K, "const data pointer after %s", after);
        size_t es = tsize((sdp_MemType) h.type);
        for (int64_t i = 0; i < h.n(); ++i)
        {
            int64_t o = h.eoff(i);
            MC_CHECK(memcmp(h.blk->real + o, &h.blk->bytes[o], es) == 0, "contents",
                    "element %ld wrong after %s", (long) i, after);
        }
    }
}
static void verify_block(const Block& b, const char* after)
{
    if (b.alive && b.bytes.size())
        MC_CHECK(memcmp(b.real, b.bytes.data(), b.bytes.size()) == 0, "contents",
                "memory block changed outside the addressed elements by %s", after);
}

static void m01_body()
{
    const int depth = mc::quick() ? 4 : 5;
    std::vector<H> hs;
    std::vector<std::shared_ptr<Block> > blocks;
    std::vector<char*> ext; // external storage behind wrappers
    const Shape shapes[] = {{3}, {2, 3}, {2, 2, 2}, {2, 0}, {1, 4}};
    int stamp = 1;
    size_t before = 0;
    {
        static bool warm = false;
        if (!warm) { warm = true; sdp_Error s = SDP_SUCCESS; int64_t one[] = {1}; sdp_mem_free(sdp_mem_create(SDP_MEM_INT, SDP_MEM_CPU, 1, one, &s)); }
    }
    int types_left = 2;
    for (int step = 0; step < depth; ++step)
    {
        // Enabled operations.
        struct Op { int kind, a, b; };
        std::vector<Op> ops;
        int live = (int) hs.size();
        if (live < 3)
        {
            int nshape = step == 0 ? 5 : 2;
            int ntype = step == 0 ? 6 : 1;
            for (int s = 0; s < nshape; ++s)
                for (int t = 0; t < ntype; ++t)
                {
                    ops.push_back({0, s, t});                 // create
                    if (step == 0 || s == 1) { ops.push_back({1, s, t}); } // wrap contiguous external
                    if (s == 1) { ops.push_back({2, s, t}); }              // wrap padded external
                }
        }
        for (int i = 0; i < live; ++i)
        {
            if (live < 3)
            {
                ops.push_back({3, i, 0}); // alias
                ops.push_back({4, i, 0}); // copy
                for (int v = 0; v < 6; ++v) ops.push_back({5, i, v}); // slice variants
            }
            ops.push_back({6, i, 0}); // ref inc
            ops.push_back({7, i, 0}); // free
            ops.push_back({8, i, hs[i].ro ? 0 : 1}); // toggle read only
            ops.push_back({9, i, 0}); // clear
            if (hs[i].n()) ops.push_back({10, i, 0}); // write through data pointer
            for (int j = 0; j < live; ++j)
                if (j != i) ops.push_back({11, i, j}); // copy contents j -> i
        }
        Op op = ops[mc::choose((int) ops.size(), "op")];
        char desc[64];
        sdp_Error st = SDP_SUCCESS;
        static const char* names[] = {"create", "wrap", "wrap-strided", "alias", "copy", "slice", "ref_inc", "free",
            "set_read_only", "clear", "write", "copy_contents"};
        snprintf(desc, sizeof desc, "%s(%d,%d)", names[op.kind], op.a, op.b);
        mc::context("mem-%s", names[op.kind]);
        mc::calls();
        auto blank = [&](size_t n) { auto b = std::make_shared<Block>(); b->bytes.assign(n, 0); blocks.push_back(b); return b; };
        switch (op.kind)
        {
        case 0: {
            H h; h.shape = shapes[op.a]; h.type = step == 0 ? ALL_TYPES[op.b] : SDP_MEM_COMPLEX_FLOAT;
            int64_t n = tsize((sdp_MemType) h.type);
            h.stride.assign(h.shape.size(), 0);
            for (int i = (int) h.shape.size() - 1; i >= 0; --i) { h.stride[i] = n; n *= h.shape[i]; }
            h.mem = sdp_mem_create((sdp_MemType) h.type, SDP_MEM_CPU, (int) h.shape.size(), h.shape.data(), &st);
            MC_CHECK(st == SDP_SUCCESS && h.mem, "create", "create failed");
            h.owner = true; h.ref = 1; h.blk = blank(n); h.blk->real = (char*) sdp_mem_data(h.mem);
            hs.push_back(h); break;
        }
        case 1: case 2: {
            H h; h.shape = shapes[op.a]; h.type = step == 0 ? ALL_TYPES[op.b] : SDP_MEM_COMPLEX_FLOAT;
            int64_t es = tsize((sdp_MemType) h.type), n = es;
            h.stride.assign(h.shape.size(), 0);
            if (op.kind == 2) n = 2 * es;
            for (int i = (int) h.shape.size() - 1; i >= 0; --i)
            {
                h.stride[i] = n; n *= h.shape[i]; if (op.kind == 2) n += es;
            }
            int64_t ext_n = es; for (size_t i = 0; i < h.shape.size(); ++i) ext_n += (h.shape[i] - 1) * h.stride[i];
            if (h.n() == 0) ext_n = 0;
            char* p = (char*) malloc(ext_n ? ext_n : 1);
            ext.push_back(p);
            h.blk = blank(ext_n);
            for (int64_t i = 0; i < ext_n; ++i) { h.blk->bytes[i] = (unsigned char) (stamp * 31 + i * 7); p[i] = (char) h.blk->bytes[i]; }
            ++stamp;
            h.blk->real = p;
            h.mem = sdp_mem_create_wrapper(p, (sdp_MemType) h.type, SDP_MEM_CPU, (int) h.shape.size(), h.shape.data(),
                    op.kind == 2 ? h.stride.data() : 0, &st);
            MC_CHECK(st == SDP_SUCCESS && h.mem, "create", "wrap failed");
            h.ref = 1; hs.push_back(h); break;
        }
        case 3: {
            H h = hs[op.a]; h.owner = false; h.ref = 1;
            h.mem = sdp_mem_create_alias(hs[op.a].mem);
            hs.push_back(h); break;
        }
        case 4: {
            H& s = hs[op.a];
            if (!s.blk->alive) mc::infeasible();
            H h; h.type = s.type; h.shape = s.shape; h.ref = 1; h.owner = true; h.ro = false;
            h.mem = sdp_mem_create_copy(s.mem, SDP_MEM_CPU, &st);
            MC_CHECK(st == SDP_SUCCESS && h.mem, "create", "copy failed");
            // deep copy: same logical contents; its own layout is whatever it says, within its own block
            int64_t es = tsize((sdp_MemType) h.type), ext_n = es;
            for (size_t i = 0; i < h.shape.size(); ++i)
            {
                h.stride.push_back(sdp_mem_stride_bytes_dim(h.mem, (int) i));
                ext_n += (h.shape[i] - 1) * h.stride[i];
            }
            if (h.n() == 0) ext_n = 0;
            h.blk = blank(ext_n); h.blk->real = (char*) sdp_mem_data(h.mem);
            MC_CHECK(!ext_n || h.blk->real, "copy", "no data");
            MC_CHECK(!ext_n || h.blk->real != s.blk->real + s.off, "copy", "copy shares memory with its source");
            // the claimed extent must be inside the allocation
            if (ext_n)
            {
                MC_CHECK(__sanitizer_get_ownership(h.blk->real) &&
                        (int64_t) __sanitizer_get_allocated_size(h.blk->real) >= ext_n, "copy-strided",
                        "copy allocates %ld bytes but its strides span %ld",
                        (long) __sanitizer_get_allocated_size(h.blk->real), (long) ext_n);
                memcpy(h.blk->bytes.data(), h.blk->real, ext_n);
                for (int64_t i = 0; i < h.n(); ++i)
                    MC_CHECK(!memcmp(h.blk->real + h.eoff(i), s.blk->real + s.eoff(i), es), "copy-strided",
                            "element %ld of the copy differs from its source", (long) i);
            }
            hs.push_back(h); break;
        }
        case 5: {
            H& s = hs[op.a];
            int nd = (int) s.shape.size();
            Shape offs(nd, 0), shp;
            int nds = nd;
            bool ok = true;
            switch (op.b)
            {
            case 0: shp = s.shape; break;                                  // whole
            case 1: offs[nd - 1] = s.shape[nd - 1] - 1; shp = s.shape; shp[nd - 1] = 1; break; // last column
            case 2: offs[0] = s.shape[0] - 1; shp.assign(s.shape.begin() + 1, s.shape.end()); nds = nd - 1; break; // last row
            case 3: offs[nd - 1] = 1; shp = s.shape; break;                // offset + shape too long
            case 4: shp = s.shape; shp[0] += 1; break;                     // shape too long
            case 5: offs[0] = -1; shp = s.shape; break;                    // negative
            }
            if (nds == 0) mc::infeasible();
            for (int i = 0; i < nd; ++i) if (offs[i] < 0 || offs[i] >= s.shape[i]) ok = false;
            for (int i = 0; i < nds; ++i)
            {
                int d = nd - nds + i;
                if (shp[i] < 0 || offs[d] + shp[i] > s.shape[d]) ok = false;
            }
            sdp_Mem* m = sdp_mem_create_wrapper_for_slice(s.mem, offs.data(), nds, shp.data(), &st);
            if (!ok)
            {
                MC_CHECK(st != SDP_SUCCESS && !m, "slice-bounds", "slice %s at %s of %s accepted", shape_str(shp).c_str(),
                        shape_str(offs).c_str(), shape_str(s.shape).c_str());
                break;
            }
            MC_CHECK(st == SDP_SUCCESS && m, "slice", "valid slice rejected");
            H h; h.type = s.type; h.shape = shp; h.ref = 1; h.blk = s.blk; h.off = s.off; h.ro = s.ro; h.mem = m;
            for (int i = 0; i < nd; ++i) h.off += offs[i] * s.stride[i];
            h.stride.assign(s.stride.end() - nds, s.stride.end());
            hs.push_back(h); break;
        }
        case 6: {
            sdp_Mem* m = sdp_mem_ref_inc(hs[op.a].mem);
            MC_CHECK(m == hs[op.a].mem, "refcount", "ref_inc returns another handle");
            hs[op.a].ref++; break;
        }
        case 7: {
            H& h = hs[op.a];
            if (op.a % 2) sdp_mem_ref_dec(h.mem); else sdp_mem_free(h.mem);
            if (--h.ref == 0)
            {
                if (h.owner)
                {
                    if (h.blk->bytes.size())
                        MC_CHECK(!__sanitizer_get_ownership(h.blk->real), "refcount", "owned memory not released");
                    h.blk->alive = false;
                }
                else if (h.blk->alive && h.blk->real && h.blk->bytes.size())
                    MC_CHECK(__sanitizer_get_ownership(h.blk->real), "refcount", "freeing a non-owning handle released the memory");
                hs.erase(hs.begin() + op.a);
            }
            break;
        }
        case 8: sdp_mem_set_read_only(hs[op.a].mem, op.b); hs[op.a].ro = op.b; break;
        case 9: {
            H& h = hs[op.a];
            if (!h.blk->alive) mc::infeasible();
            sdp_mem_clear_contents(h.mem, &st);
            if (h.ro) { MC_CHECK(st != SDP_SUCCESS || h.n() == 0, "clear-read-only", "read-only array was cleared"); st = SDP_SUCCESS; break; }
            MC_CHECK(st == SDP_SUCCESS, "clear", "clear failed");
            for (int64_t i = 0; i < h.n(); ++i) memset(&h.blk->bytes[h.eoff(i)], 0, tsize((sdp_MemType) h.type));
            break;
        }
        case 10: {
            H& h = hs[op.a];
            if (!h.blk->alive) mc::infeasible();
            for (int64_t i = 0; i < h.n(); ++i)
            {
                int64_t o = h.eoff(i);
                char* p = (char*) sdp_mem_data(h.mem) + (o - h.off);
                for (size_t k = 0; k < tsize((sdp_MemType) h.type); ++k)
                {
                    p[k] = (char) (stamp * 13 + i * 5 + k + 1); h.blk->bytes[o + k] = (unsigned char) p[k];
                }
            }
            ++stamp; break;
        }
        case 11: {
            H& d = hs[op.a]; H& s = hs[op.b];
            if (!d.blk->alive || !s.blk->alive || !d.contig() || !s.contig() || d.blk == s.blk) mc::infeasible();
            // copy min(n) - so both in range - with the largest legal offsets
            if (d.type != s.type) mc::infeasible();
            int64_t n = std::min(d.n(), s.n()); if (n == 0) mc::infeasible();
            if (n > 1) --n;
            int64_t od = d.n() - n, os = s.n() - n;
            sdp_mem_copy_contents(d.mem, s.mem, od, os, n, &st);
            if (d.ro) { MC_CHECK(st != SDP_SUCCESS, "copy-read-only", "read-only array was written to"); st = SDP_SUCCESS; break; }
            MC_CHECK(st == SDP_SUCCESS, "copy_contents", "copy failed");
            int64_t es = tsize((sdp_MemType) d.type);
            memcpy(&d.blk->bytes[d.off + od * es], &s.blk->bytes[s.off + os * es], n * es);
            break;
        }
        }
        MC_CHECK(op.kind == 5 || st == SDP_SUCCESS, "status", "unexpected status %d after %s", (int) st, desc);
        for (auto& h : hs) verify_handle(h, desc);
        for (auto& b : blocks) verify_block(*b, desc);
        uint64_t sh = 1469598103934665603ull;
        for (auto& h : hs)
        {
            int v[] = {h.type, (int) h.shape.size(), h.ref, h.owner, h.ro, (int) h.off, h.blk->alive, (int) h.n(), h.contig()};
            sh = mc::fnv(v, sizeof v, sh);
            if (h.blk->bytes.size()) sh = mc::fnv(h.blk->bytes.data(), h.blk->bytes.size(), sh);
        }
        mc::state(sh);
    }
    // Release everything in creation or reverse order; nothing may be freed twice or kept.
    bool rev = hs.size() > 1 && mc::flip("free-order");
    if (rev) std::reverse(hs.begin(), hs.end());
    mc::context("mem-final-free");
    std::vector<std::shared_ptr<Block> > own;
    for (auto& h : hs) { while (h.ref-- > 0) sdp_mem_free(h.mem); if (h.owner) { h.blk->alive = false; if (h.blk->bytes.size()) MC_CHECK(!__sanitizer_get_ownership(h.blk->real), "refcount", "owned memory not released at the end"); } }
    for (auto p : ext) free(p);
    (void) before; (void) types_left;
}

// ------------------------------------------------------------------ M02 ----
static const Shape M2SHAPES[] = {{1}, {4}, {2, 3}, {3, 1}, {2, 2, 3}, {1, 3, 2}, {2, 1, 2, 2}, {2, 0, 3}, {0}};

template<typename V> static const void* at_view(const V& v, const int64_t* ix, std::integral_constant<int, 1>) { return &v(ix[0]); }
template<typename V> static const void* at_view(const V& v, const int64_t* ix, std::integral_constant<int, 2>) { return &v(ix[0], ix[1]); }
template<typename V> static const void* at_view(const V& v, const int64_t* ix, std::integral_constant<int, 3>) { return &v(ix[0], ix[1], ix[2]); }
template<typename V> static const void* at_view(const V& v, const int64_t* ix, std::integral_constant<int, 4>) { return &v(ix[0], ix[1], ix[2], ix[3]); }
template<typename T, int D, typename M>
static void view_case(Arr& a, M* mem, const Shape& shp, bool good, sdp_Error* st, bool odd)
{
    sdp_MemViewCpu<T, D> v;
    sdp_mem_check_and_view(mem, &v, st);
    if (!odd) for (int d = 0; d < D; ++d) MC_CHECK(v.shape[d] == (good ? shp[d] : 0), "view", "view shape[%d]", d);
    if (!good) return;
    MC_CHECK((char*) v.ptr == a.data, "view", "view pointer");
    for (int64_t i = 0; i < a.size(); ++i)
    {
        int64_t l = i, ix[4] = {0, 0, 0, 0};
        for (int d = D - 1; d >= 0; --d) { ix[d] = l % shp[d]; l /= shp[d]; }
        MC_CHECK((char*) at_view(v, ix, std::integral_constant<int, D>()) == a.at(i), "view", "view element address %ld", (long) i);
    }
}
// Copies between arrays of different types: bytes are copied, and none of them lies outside the two arrays
static void m02_cross_copy()
{
    const sdp_MemType ts = ALL_TYPES[mc::choose(6, "type")], td = ALL_TYPES[mc::choose(6, "type of destination")];
    const int64_t n = mc::pick({1, 3, 8}, "elements"), nd = mc::pick({1, 3, 5}, "elements of destination");
    const bool async = mc::flip("async");
    Arr a(ts, {n}), b(td, {nd});
    fill_hash(a, 3, 50.0);
    const int64_t es = tsize(ts), ed = tsize(td);
    const std::string raw = a.bytes();
    mc::context("copy_contents %s to %s", tname(ts), tname(td));
    // every offset and length that ends within, at or just beyond the end of either array, in units of either type
    for (int64_t od = 0; od <= nd * std::max(ed, es) / std::min(ed, es) + 1; ++od)
        for (int64_t os = 0; os <= n + 1; ++os)
            for (int64_t k = 0; k <= n + 1; ++k)
            {
                fill_hash(b, 9, 50.0);
                const std::string was = b.bytes();
                sdp_Error st = SDP_SUCCESS;
                mc::calls();
                if (async) sdp_mem_copy_contents_async(b.mem, a.mem, od, os, k, 0, &st);
                else sdp_mem_copy_contents(b.mem, a.mem, od, os, k, &st);
                MC_CHECK(a.bytes() == raw, "copy-types", "source changed");
                const bool inside = os + k <= n && (od + k) * es <= nd * ed;
                if (!inside && k > 0) MC_CHECK(st != SDP_SUCCESS, "copy-types-range", "%lld elements from %lld to %lld accepted although they do not fit", (long long) k, (long long) os, (long long) od);
                if (ts == td && inside) MC_CHECK(st == SDP_SUCCESS, "copy-types", "valid copy refused");
                std::string want = was;
                if (!st && k > 0) memcpy(&want[b.data - b.base + od * es], a.data + os * es, k * es);
                MC_CHECK(b.bytes() == want, "copy-types", "%lld elements from %lld to %lld: wrong bytes in the destination", (long long) k, (long long) os, (long long) od);
            }
    mc::state((uint64_t) ts * 7 + (uint64_t) td * 64 + n * 1024 + nd * 65536);
}
// The same operations on arrays too large for any block, chunk or small counter
static void m02_large()
{
    static const Shape SH[] = {{70001}, {300, 301}, {41, 42, 43}};
    const int op = mc::choose(5, "op");
    const Shape shp = SH[mc::choose(3, "shape")];
    const sdp_MemType type = ALL_TYPES[mc::choose(6, "type")];
    const Layout lay = mc::pick({L_C, L_PAD, L_F}, "layout");
    const bool fp = type != SDP_MEM_CHAR && type != SDP_MEM_INT;
    Arr a(type, shp, lay);
    fill_hash(a, 5, 50.0);
    const bool contig = sdp_mem_is_c_contiguous(a.mem);
    sdp_Error st = SDP_SUCCESS;
    const int64_t n = a.size();
    static const char* names[] = {"set_value", "scale_real", "convert_precision", "clear_contents", "copy_contents"};
    mc::context("large %s %s %s layout %d", names[op], tname(type), shape_str(shp).c_str(), lay);
    if ((op == 0 && type == SDP_MEM_CHAR) || (op == 1 && (!contig || !fp)) || (op == 2 && (!contig || !fp)) || (op == 4 && !contig)) mc::infeasible();
    mc::calls();
    auto diff = [&](double x, double y, double tol) { return !(std::fabs(x - y) <= tol * (1 + std::fabs(y))); };
    Arr was(type, shp, lay);
    memcpy(was.base, a.base, a.nbytes);
    if (op == 0) sdp_mem_set_value(a.mem, -3, &st);
    else if (op == 1) sdp_mem_scale_real(a.mem, -2.5, &st);
    else if (op == 3) sdp_mem_clear_contents(a.mem, &st);
    else if (op == 2)
    {
        const sdp_MemType to = type == SDP_MEM_FLOAT ? SDP_MEM_DOUBLE : type == SDP_MEM_DOUBLE ? SDP_MEM_FLOAT : type == SDP_MEM_COMPLEX_FLOAT ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
        sdp_Mem* o = sdp_mem_convert_precision(a.mem, to, &st);
        MC_CHECK(st == SDP_SUCCESS && o, "large-convert", "refused");
        Arr r(to, shp);
        memcpy(r.data, sdp_mem_data(o), r.nbytes);
        sdp_mem_free(o);
        for (int64_t i = 0; i < n; ++i)
        {
            const cd x = r.get(i), y = was.get(i);
            if (diff(x.real(), y.real(), 1e-6) || diff(x.imag(), y.imag(), 1e-6)) mc::fail("large-convert", "element %lld of %lld differs", (long long) i, (long long) n);
        }
    }
    else
    {
        Arr b(type, {n + 7});
        fill_hash(b, 6, 50.0);
        const std::string old = b.bytes();
        sdp_mem_copy_contents(b.mem, a.mem, 3, 2, n - 2, &st);
        MC_CHECK(st == SDP_SUCCESS, "large-copy", "refused");
        std::string want = old;
        memcpy(&want[b.data - b.base + 3 * tsize(type)], a.data + 2 * tsize(type), (n - 2) * tsize(type));
        MC_CHECK(b.bytes() == want, "large-copy", "wrong bytes in the destination");
    }
    MC_CHECK(st == SDP_SUCCESS, mc::strf("large-%s", names[op]), "refused");
    if (op == 0 || op == 1 || op == 3)
    {
        const double f = t_is_single(type) ? 1e-6 : 1e-14;
        std::vector<bool> mine(a.nbytes, false);
        for (int64_t i = 0; i < n; ++i)
        {
            const cd x = a.get(i), y = op == 0 ? cd(-3) : op == 3 ? cd(0) : was.get(i) * -2.5;
            if (diff(x.real(), y.real(), f) || diff(x.imag(), y.imag(), f)) mc::fail(mc::strf("large-%s", names[op]), "element %lld of %lld is wrong", (long long) i, (long long) n);
            for (size_t k = 0; k < tsize(type); ++k) mine[a.at(i) - a.base + k] = true;
        }
        for (size_t i = 0; i < a.nbytes; ++i) if (!mine[i] && a.base[i] != was.base[i]) mc::fail(mc::strf("large-%s", names[op]), "byte outside the array elements changed");
    }
    mc::state(hash_vals({a.get(0), a.get(n - 1)}) ^ (uint64_t) op * 7919 ^ (uint64_t) n << 20);
}
static void m02_body()
{
    int what = mc::choose(9, "op");
    if (what == 7) return m02_cross_copy();
    if (what == 8) return m02_large();
    int ti = mc::choose(6, "type");
    Shape shp = M2SHAPES[mc::choose(9, "shape")];
    Layout lay = (Layout) mc::choose(5, "layout");
    sdp_MemType type = ALL_TYPES[ti];
    if (lay == L_ODD && tsize(type) < 2) mc::infeasible();
    Arr a(type, shp, lay);
    fill_hash(a, 3, 50.0);
    std::vector<cd> before = a.all();
    std::string raw = a.bytes();
    sdp_Error st = SDP_SUCCESS;
    const bool contig = sdp_mem_is_c_contiguous(a.mem);
    const bool empty = a.size() == 0;
    const bool fp = type != SDP_MEM_CHAR && type != SDP_MEM_INT;
    mc::calls();
    auto gaps_ok = [&](const char* key)
    {
        // only the addressed elements may have changed
        Arr m(type, shp, lay);
        std::vector<bool> touched(a.nbytes, false);
        for (int64_t i = 0; i < a.size(); ++i)
            for (size_t k = 0; k < tsize(type); ++k) touched[a.at(i) - a.base + k] = true;
        for (size_t i = 0; i < a.nbytes; ++i)
            MC_CHECK(touched[i] || a.base[i] == raw[i], key, "byte outside the array elements changed");
    };
    const double tol = t_is_single(type) ? 1e-5 : 1e-12;
    switch (what)
    {
    case 0: { // set_value
        mc::context("set_value %s %s layout %d", tname(type), shape_str(shp).c_str(), lay);
        int v = mc::pick({0, 1, -3, 77}, "value");
        sdp_mem_set_value(a.mem, v, &st);
        bool supported = shp.size() <= 3 && type != SDP_MEM_CHAR;
        if (lay == L_ODD && st != SDP_SUCCESS) supported = false;
        if (!supported) { MC_CHECK(st != SDP_SUCCESS, "set_value-unsupported", "accepted"); MC_CHECK(a.bytes() == raw, "set_value-unsupported", "data changed"); break; }
        MC_CHECK(st == SDP_SUCCESS, "set_value", "rejected");
        for (int64_t i = 0; i < a.size(); ++i) MC_CHECK(a.get(i) == cd(v, 0), "set_value", "element %ld", (long) i);
        gaps_ok("set_value");
        break;
    }
    case 1: { // scale_real
        mc::context("scale_real %s layout %d", tname(type), lay);
        double v = mc::pick({0.0, 1.0, -2.5, 1.0 / 3}, "factor");
        if (empty) mc::infeasible();
        sdp_mem_scale_real(a.mem, v, &st);
        bool supported = contig && fp;
        if (!supported) { MC_CHECK(st != SDP_SUCCESS, "scale-unsupported", "accepted"); MC_CHECK(a.bytes() == raw, "scale-unsupported", "data changed"); break; }
        MC_CHECK(st == SDP_SUCCESS, "scale_real", "rejected");
        for (int64_t i = 0; i < a.size(); ++i)
            MC_CHECK(std::abs(a.get(i) - before[i] * v) <= tol * (1 + std::abs(before[i])), "scale_real", "element %ld", (long) i);
        break;
    }
    case 2: { // convert precision to each type
        sdp_MemType to = ALL_TYPES[mc::choose(6, "to")];
        mc::context("convert_precision %s to %s", tname(type), tname(to));
        if (empty) mc::infeasible();
        sdp_Mem* o = sdp_mem_convert_precision(a.mem, to, &st);
        MC_CHECK(a.bytes() == raw, "convert", "source changed");
        bool okpair = (to == type) || ((type ^ to) == (SDP_MEM_FLOAT | SDP_MEM_DOUBLE) && fp);
        if (!contig || !okpair)
        {
            MC_CHECK(st != SDP_SUCCESS, "convert-unsupported", "accepted");
            sdp_mem_free(o); break;
        }
        MC_CHECK(st == SDP_SUCCESS && o, "convert", "rejected");
        MC_CHECK(sdp_mem_type(o) == to && sdp_mem_num_dims(o) == (int) shp.size() && sdp_mem_num_elements(o) == a.size(),
                "convert", "metadata of the result");
        for (size_t d = 0; d < shp.size(); ++d) MC_CHECK(sdp_mem_shape_dim(o, (int) d) == shp[d], "convert", "shape");
        MC_CHECK(sdp_mem_is_c_contiguous(o), "convert", "contiguity");
        MC_CHECK(sdp_mem_data(o) != a.data, "convert", "result shares memory");
        Arr r(to, shp);
        memcpy(r.data, sdp_mem_data(o), r.nbytes);
        for (int64_t i = 0; i < a.size(); ++i)
            MC_CHECK(std::abs(r.get(i) - before[i]) <= 1e-5 * (1 + std::abs(before[i])) * (to == SDP_MEM_FLOAT || to == SDP_MEM_COMPLEX_FLOAT ? 1 : 1e-7),
                    "convert", "element %ld", (long) i);
        sdp_mem_free(o);
        break;
    }
    case 3: { // clear contents / portion
        int64_t n = a.size();
        if (empty) mc::infeasible();
        int s = mc::range(-1, (int) n, "start"), k = mc::range(-1, (int) n + 1, "count");
        mc::context("clear %s layout %d", tname(type), lay);
        if (lay == L_C || (contig)) 
        {
            sdp_mem_clear_portion(a.mem, s, k, &st);
            if (s < 0 || k < 0 || s + k > n)
            {
                MC_CHECK(k == 0 || st != SDP_SUCCESS, "clear_portion-range", "out of range clear accepted");
                MC_CHECK(a.bytes() == raw, "clear_portion-range", "data changed");
                break;
            }
            MC_CHECK(st == SDP_SUCCESS, "clear_portion", "rejected");
            for (int64_t i = 0; i < n; ++i)
                MC_CHECK(a.get(i) == (i >= s && i < s + k ? cd(0) : before[i]), "clear_portion", "element %ld of [%d,+%d)", (long) i, s, k);
        }
        else
        {
            if (s || k) mc::infeasible();
            sdp_mem_clear_contents(a.mem, &st);
            MC_CHECK(st == SDP_SUCCESS, "clear_contents", "rejected");
            for (int64_t i = 0; i < n; ++i) MC_CHECK(a.get(i) == cd(0), "clear_contents-strided", "element %ld not cleared", (long) i);
            gaps_ok("clear_contents-strided");
        }
        break;
    }
    case 4: { // copy_contents with all offsets and lengths, in and out of range
        if (empty || !contig) mc::infeasible();
        int64_t n = a.size(), nb = 5;
        Arr b(type, {nb});
        fill_hash(b, 9, 50.0);
        std::vector<cd> bb = b.all();
        int od = mc::range(0, 5, "dst-off"), os = mc::range(0, (int) n, "src-off"), k = mc::range(0, (int) std::max(n, nb) + 1, "count");
        bool async = mc::flip("async");
        mc::context("copy_contents %s", tname(type));
        if (async) sdp_mem_copy_contents_async(b.mem, a.mem, od, os, k, 0, &st);
        else sdp_mem_copy_contents(b.mem, a.mem, od, os, k, &st);
        MC_CHECK(a.bytes() == raw, "copy_contents", "source changed");
        bool ok = od + k <= nb && os + k <= n;
        if (!ok && k > 0)
        {
            MC_CHECK(st != SDP_SUCCESS, "copy_contents-range", "out of range copy accepted");
            MC_CHECK(max_diff(b.all(), bb) == 0, "copy_contents-range", "destination changed");
            break;
        }
        if (k > 0) MC_CHECK(st == SDP_SUCCESS, "copy_contents", "valid copy rejected");
        for (int64_t i = 0; i < nb; ++i)
            MC_CHECK(b.get(i) == (k > 0 && i >= od && i < od + k ? before[os + i - od] : bb[i]), "copy_contents", "element %ld", (long) i);
        break;
    }
    case 5: { // typed views see exactly the element at each index
        mc::context("view %s layout %d", tname(type), lay);
        if (empty) mc::infeasible();
        int vt = mc::choose(6, "view-type");
        int vd = mc::range(1, 4, "view-dims");
        bool cst = mc::flip("const"), ro = mc::flip("read-only");
        int pre = mc::choose(2, "pre-status");
        sdp_mem_set_read_only(a.mem, ro);
        st = pre ? SDP_ERR_RUNTIME : SDP_SUCCESS;
        bool good = !pre && ALL_TYPES[vt] == type && vd == (int) shp.size() && (cst || !ro);
        bool odd = false;
        for (size_t d = 0; d < shp.size(); ++d) if (a.stride[d] % (int64_t) tsize(type))
        {
            if (shp[d] == 1) mc::infeasible(); // not settled
            good = false; odd = true; // views count in elements
        }
#define VIEWD(T, D) view_case<T, D>(a, a.mem, shp, good, &st, odd);
#define VIEWC(T, D) view_case<const T, D>(a, (const sdp_Mem*) a.mem, shp, good, &st, odd);
#define DIMS(M, T) switch (vd) { case 1: M(T, 1) break; case 2: M(T, 2) break; case 3: M(T, 3) break; case 4: M(T, 4) break; }
        if (cst)
        {
            if (vt < 2) mc::infeasible(); // no const views of char / int are provided
            switch (vt) { case 2: DIMS(VIEWC, float) break; case 3: DIMS(VIEWC, double) break;
                case 4: DIMS(VIEWC, std::complex<float>) break; case 5: DIMS(VIEWC, std::complex<double>) break; }
        }
        else switch (vt) { case 0: DIMS(VIEWD, char) break; case 1: DIMS(VIEWD, int) break; case 2: DIMS(VIEWD, float) break;
            case 3: DIMS(VIEWD, double) break; case 4: DIMS(VIEWD, std::complex<float>) break; case 5: DIMS(VIEWD, std::complex<double>) break; }
        if (pre) MC_CHECK(st == SDP_ERR_RUNTIME, "view", "existing error replaced");
        else MC_CHECK((st == SDP_SUCCESS) == good, "view", "view of %s %dD on %s accepted/rejected wrongly",
                tname(ALL_TYPES[vt]), vd, tname(type));
        MC_CHECK(a.bytes() == raw, "view", "data changed by making a view");
        break;
    }
    case 6: { // matching, random fill, names
        int ti2 = mc::choose(6, "type2");
        Shape s2 = M2SHAPES[mc::choose(9, "shape2")];
        Layout l2 = (Layout) mc::choose(3, "layout2");
        Arr b(ALL_TYPES[ti2], s2, l2);
        bool same = type == b.type && shp == s2 && a.stride == b.stride;
        mc::context("is_matching");
        MC_CHECK(!!sdp_mem_is_matching(a.mem, b.mem, 1) == same, "is_matching", "wrong answer");
        MC_CHECK(!!sdp_mem_is_matching(a.mem, b.mem, 0) == same, "is_matching", "wrong answer");
        Arr g(ALL_TYPES[ti2], s2, l2, SDP_MEM_GPU);
        MC_CHECK(!sdp_mem_is_matching(a.mem, g.mem, 1), "is_matching", "different locations match");
        MC_CHECK(!!sdp_mem_is_matching(a.mem, g.mem, 0) == same, "is_matching", "location should be ignored");
        MC_CHECK(sdp_mem_type_size(b.type) == (int64_t) tsize(b.type), "type_size", "type size");
        if (lay == L_C && l2 == L_C && fp && !empty && ti2 == 0)
        {
            mc::context("random_fill");
            sdp_mem_random_fill(a.mem, &st);
            MC_CHECK(st == SDP_SUCCESS, "random_fill", "rejected");
            for (int64_t i = 0; i < a.size(); ++i)
                MC_CHECK(a.get(i).real() >= 0 && a.get(i).real() <= 1 && a.get(i).imag() >= 0 && a.get(i).imag() <= 1,
                        "random_fill", "value out of [0,1]");
        }
        break;
    }
    }
    mc::state(hash_vals(a.all()) ^ (uint64_t) what * 7919 ^ (uint64_t) ti << 20 ^ (uint64_t) st << 40);
}

// Arrays of more than 2^31 elements: all sizes, strides, offsets and ranges count in 64 bits. The memory is reserved, not
// used: only the pages of the elements addressed are ever touched.
static void m01_large()
{
    mc::context("large arrays");
    static const Shape SH[] = {{(int64_t) 5 << 30}, {5, (int64_t) 1 << 30}, {1 << 16, 5, 1 << 14}, {3, 1 << 10, 1 << 11, 1 << 10}};
    const Shape shp = SH[mc::choose(4, "shape")];
    const sdp_MemType type = ALL_TYPES[mc::choose(6, "type")];
    const int64_t es = tsize(type);
    const int nd = (int) shp.size();
    int64_t n = 1; for (auto d : shp) n *= d;
    const bool padded = mc::flip("padded");
    Shape stride(nd);
    int64_t k = es;
    for (int d = nd - 1; d >= 0; --d) { stride[d] = k; k *= shp[d]; if (padded) k += es; }
    static char* base = nullptr;
    const size_t total = (size_t) 96 << 30; // the largest array here with its gaps
    if (!base)
    {
        void* p = mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) mc::infeasible();
        base = (char*) p;
    }
    sdp_Error st = SDP_SUCCESS;
    H h; h.type = type; h.shape = shp; h.stride = stride;
    auto meta = [&](sdp_Mem* m, const Shape& sh, const Shape& sd, const void* ptr, const char* what)
    {
        int64_t c = es; bool cont = true;
        for (int d = (int) sh.size() - 1; d >= 0; --d) { if (sd[d] != c) cont = false; c *= sh[d]; }
        MC_CHECK(m && sdp_mem_num_dims(m) == (int) sh.size() && sdp_mem_num_elements(m) == c / es, "large-handle", "%s: number of elements is %lld, not %lld", what,
                (long long) sdp_mem_num_elements(m), (long long) (c / es));
        for (size_t d = 0; d < sh.size(); ++d)
            MC_CHECK(sdp_mem_shape_dim(m, (int) d) == sh[d] && sdp_mem_stride_bytes_dim(m, (int) d) == sd[d] && sdp_mem_stride_elements_dim(m, (int) d) == sd[d] / es,
                    "large-handle", "%s: size or stride of dimension %zu", what, d);
        MC_CHECK(!!sdp_mem_is_c_contiguous(m) == cont, "large-handle", "%s: contiguity", what);
        MC_CHECK(sdp_mem_data(m) == ptr, "large-handle", "%s: address of the first element", what);
    };
    mc::calls(8);
    sdp_Mem* m = sdp_mem_create_wrapper(base, type, SDP_MEM_CPU, nd, shp.data(), padded ? stride.data() : nullptr, &st);
    MC_CHECK(!st, "large-handle", "wrapper refused");
    meta(m, shp, stride, base, "wrapper");
    sdp_Mem* al = sdp_mem_create_alias(m);
    meta(al, shp, stride, base, "alias");
    // a slice of the far corner, and of the middle
    Shape off(nd), ss(nd);
    const bool corner = mc::flip("corner");
    int64_t o = 0;
    for (int d = 0; d < nd; ++d) { ss[d] = std::min<int64_t>(2, shp[d]); off[d] = corner ? shp[d] - ss[d] : shp[d] / 2; o += off[d] * stride[d]; }
    sdp_Mem* sl = sdp_mem_create_wrapper_for_slice(m, off.data(), nd, ss.data(), &st);
    MC_CHECK(!st, "large-handle", "slice refused");
    meta(sl, ss, stride, base + o, "slice");
    sdp_Mem* row = sdp_mem_create_wrapper_for_slice(m, off.data(), 1, &ss[nd - 1], &st);
    MC_CHECK(!st, "large-handle", "row refused");
    meta(row, {ss[nd - 1]}, {stride[nd - 1]}, base + o, "row");
    // a view of the whole array finds the far element
    int64_t ix[4] = {0, 0, 0, 0};
    for (int d = 0; d < nd; ++d) ix[d] = off[d];
    void* at = nullptr;
    if (type == SDP_MEM_COMPLEX_FLOAT)
    {
        if (nd == 1) { sdp_MemViewCpu<std::complex<float>, 1> v; sdp_mem_check_and_view(m, &v, &st); at = &v(ix[0]); }
        if (nd == 2) { sdp_MemViewCpu<std::complex<float>, 2> v; sdp_mem_check_and_view(m, &v, &st); at = &v(ix[0], ix[1]); }
        if (nd == 3) { sdp_MemViewCpu<std::complex<float>, 3> v; sdp_mem_check_and_view(m, &v, &st); at = &v(ix[0], ix[1], ix[2]); }
        if (nd == 4) { sdp_MemViewCpu<std::complex<float>, 4> v; sdp_mem_check_and_view(m, &v, &st); at = &v(ix[0], ix[1], ix[2], ix[3]); }
        MC_CHECK(!st && at == base + o, "large-view", "view finds the element %lld bytes away", (long long) ((char*) at - (base + o)));
    }
    // clearing and copying elements far from the start
    if (!padded)
    {
        int64_t e = corner ? n - 4 : n / 2 - 1, cnt = 3;
        memset(base + e * es - 16, 7, (size_t) (cnt * es + 32));
        sdp_mem_clear_portion(m, e, cnt, &st);
        MC_CHECK(!st, "large-clear", "refused");
        for (int64_t b = -16; b < cnt * es + 16; ++b)
            MC_CHECK(base[e * es + b] == (b >= 0 && b < cnt * es ? 0 : 7), "large-clear", "byte %lld from the start of the portion is %d", (long long) b, base[e * es + b]);
        std::vector<char> small((size_t) (6 * es), 3);
        int64_t six = 6;
        sdp_Mem* t = sdp_mem_create_wrapper(small.data(), type, SDP_MEM_CPU, 1, &six, nullptr, &st);
        for (int64_t b = 0; b < cnt * es; ++b) base[e * es + b] = (char) (b + 11);
        sdp_mem_copy_contents(t, m, 2, e, cnt, &st);
        MC_CHECK(!st, "large-copy", "copy from the array refused");
        for (int64_t b = 0; b < six * es; ++b)
            MC_CHECK(small[(size_t) b] == (b >= 2 * es && b < (2 + cnt) * es ? (char) (b - 2 * es + 11) : 3), "large-copy", "byte %lld copied from the array", (long long) b);
        for (int64_t b = 0; b < six * es; ++b) small[(size_t) b] = (char) (b + 61);
        sdp_mem_copy_contents(m, t, e, 1, cnt, &st);
        MC_CHECK(!st, "large-copy", "copy to the array refused");
        for (int64_t b = -16; b < cnt * es + 16; ++b)
            MC_CHECK(base[e * es + b] == (b >= 0 && b < cnt * es ? (char) (b + es + 61) : 7), "large-copy", "byte %lld copied to the array", (long long) b);
        // just out of range
        for (int64_t s : {n - 2, (int64_t) -1, ((int64_t) 1 << 32) + n})
        {
            sdp_Error s2 = SDP_SUCCESS;
            sdp_mem_copy_contents(t, m, 0, s, cnt, &s2);
            MC_CHECK(s2 == SDP_ERR_INVALID_ARGUMENT || s2 == SDP_ERR_RUNTIME || s2 == SDP_ERR_MEM_COPY_FAILURE, "large-range", "copy of elements beyond the end accepted");
            s2 = SDP_SUCCESS;
            sdp_mem_clear_portion(m, s, cnt, &s2);
            MC_CHECK(s2 != SDP_SUCCESS, "large-range", "clearing elements beyond the end accepted");
        }
        madvise(base + ((e * es - 16) & ~4095L), 8192 * 2, MADV_DONTNEED);
        sdp_mem_free(t);
    }
    else
    {
        // elements of a slice: set them, and nothing else
        memset(base + o - 16, 7, (size_t) (4 * es + 32));
        sdp_Mem* r2 = row;
        if (type != SDP_MEM_CHAR)
        {
            sdp_mem_set_value(r2, 0, &st);
            MC_CHECK(!st, "large-set", "refused");
            for (int64_t b = -16; b < 4 * es + 16; ++b)
                MC_CHECK(base[o + b] == (b >= 0 && b < ss[nd - 1] * es ? 0 : 7), "large-set", "byte %lld", (long long) b);
        }
        madvise(base + ((o - 16) & ~4095L), 8192 * 2, MADV_DONTNEED);
    }
    mc::state((uint64_t) n * 31 + (uint64_t) type * 7 + padded * 2 + corner + (uint64_t) nd * 1000003);
    for (sdp_Mem* x : {row, sl, al, m}) sdp_mem_free(x);
}
static void body()
{
    if (mc::prop("M02")) m02_body();
    else if (mc::flip("large")) m01_large();
    else m01_body();
}
MC_MAIN(body)
