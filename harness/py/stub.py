"""A stand-in for the compiled library: every function records what it is called with.

Written from the prototypes of the public C headers. The Python layer of the working tree loads it
as it would load the library.
"""
import ctypes
import hashlib
import os
import subprocess

# kinds: m array, h<Kind> object, i int32, l int64, d double, f float, s string, I int*, D double[3], e status
PROTOS = """
sdp_sky_coord_epoch d hSky
sdp_sky_coord_set_epoch v hSky d
sdp_bucket_sort v m m m m i l l d l m m m m m m e
sdp_count_and_prefix_sum v m m m i l l d l I m m m e
sdp_tiled_indexing v m m i l l d l l l l m m m m m e
sdp_optimised_indexed_weighting v m m m d i d l I m m m m m m m e
sdp_optimized_weighting v m m m m d i l m m m m m m m e
sdp_degrid_uvw_custom v m m m m d d d d i m e
sdp_dft_point_v00 v m m m m e
sdp_dft_point_v01 v m m m d d m e
sdp_element_beam_dipole v i m m d d i i m e
sdp_element_beam_spherical_wave_harp v i m m m i m i m e
sdp_station_beam_aperture_array v d m m m m i i m m m m m i m i i i e
sdp_fft_convolution v m m m e
sdp_fft_create Fft m m i i e
sdp_fft_exec v hFft m m e
sdp_fft_free v xFft
sdp_fft_padded_size i i d
sdp_flagger_dynamic_threshold v m m d d d d i i i e
sdp_function_example_a_create_plan ExampleA i i f e
sdp_function_example_a_exec v hExampleA m e
sdp_function_example_a_free_plan v xExampleA
sdp_vector_add v m m m e
sdp_gridder_uvw_es_fft_create_plan EsFft m m m m m d d d d d i e
sdp_gridder_uvw_es_fft_free_plan v xEsFft
sdp_grid_uvw_es_fft v hEsFft m m m m m e
sdp_ifft_degrid_uvw_es v hEsFft m m m m m e
sdp_grid_wstack_wtower_degrid_all v m d d m i d d d d i i i i d d i m i e
sdp_grid_wstack_wtower_grid_all v m d d m i d d d d i i i i d d i m i e
sdp_gridder_clamp_channels_single v m i d d m m d d m m l l e
sdp_gridder_clamp_channels_uv v m d d m m d d d d m m l l e
sdp_gridder_determine_max_w_tower_height d i i d d d d i i i i d d i d e
sdp_gridder_determine_w_step d d d d d d
sdp_gridder_make_kernel v m m e
sdp_gridder_make_pswf_kernel v i m e
sdp_gridder_make_w_pattern v i d d d d m e
sdp_gridder_rms_diff d m m e
sdp_gridder_subgrid_add v m i i m d e
sdp_gridder_subgrid_cut_out v m i i m e
sdp_gridder_uvw_bounds_all v m d d m m D D e
sdp_gridder_direct_create Direct i i d d d d i e
sdp_gridder_direct_degrid v hDirect m i i i d d m m m m e
sdp_gridder_direct_degrid_correct v hDirect m i i i e
sdp_gridder_direct_grid v hDirect m m m m d d m i i i e
sdp_gridder_direct_grid_correct v hDirect m i i i e
sdp_gridder_direct_free v xDirect
sdp_gridder_direct_image_size i hDirect
sdp_gridder_direct_shear_u d hDirect
sdp_gridder_direct_shear_v d hDirect
sdp_gridder_direct_subgrid_size i hDirect
sdp_gridder_direct_support i hDirect
sdp_gridder_direct_theta d hDirect
sdp_gridder_direct_w_step d hDirect
sdp_gridder_wtower_uvw_create Wtower i i d d d d i i i i e
sdp_gridder_wtower_uvw_degrid v hWtower m i i i d d m m m m l l e
sdp_gridder_wtower_uvw_degrid_correct v hWtower m i i i e
sdp_gridder_wtower_uvw_grid v hWtower m m m m d d m i i i l l e
sdp_gridder_wtower_uvw_grid_correct v hWtower m i i i e
sdp_gridder_wtower_uvw_free v xWtower
sdp_gridder_wtower_uvw_image_size i hWtower
sdp_gridder_wtower_uvw_oversampling i hWtower
sdp_gridder_wtower_uvw_shear_u d hWtower
sdp_gridder_wtower_uvw_shear_v d hWtower
sdp_gridder_wtower_uvw_subgrid_size i hWtower
sdp_gridder_wtower_uvw_support i hWtower
sdp_gridder_wtower_uvw_theta d hWtower
sdp_gridder_wtower_uvw_w_oversampling i hWtower
sdp_gridder_wtower_uvw_w_step d hWtower
sdp_gridder_wtower_uvw_w_support i hWtower
sdp_hogbom_clean v m m m d d i m m m e
sdp_ms_clean_cornwell v m m m m d d i m m m e
sdp_phase_rotate_uvw v hSky hSky m m e
sdp_phase_rotate_vis v hSky hSky d d m m m e
sdp_weighting_briggs v m m d d m m m e
sdp_weighting_uniform v m m d m m m e
sdp_swiftly_create Swiftly l l l d e
sdp_swiftly_free v xSwiftly
sdp_swiftly_prepare_facet v hSwiftly m m l e
sdp_swiftly_extract_from_facet v hSwiftly m m l e
sdp_swiftly_add_to_subgrid v hSwiftly m m l e
sdp_swiftly_add_to_subgrid_2d v hSwiftly m m l l e
sdp_swiftly_finish_subgrid_inplace v hSwiftly m l e
sdp_swiftly_finish_subgrid v hSwiftly m m l e
sdp_swiftly_finish_subgrid_inplace_2d v hSwiftly m l l e
sdp_swiftly_prepare_subgrid_inplace v hSwiftly m l e
sdp_swiftly_prepare_subgrid_inplace_2d v hSwiftly m l l e
sdp_swiftly_extract_from_subgrid v hSwiftly m m l e
sdp_swiftly_extract_from_subgrid_2d v hSwiftly m m l l e
sdp_swiftly_add_to_facet v hSwiftly m m l e
sdp_swiftly_finish_facet v hSwiftly m m l e
"""
KINDS = ["Mem", "Sky", "Fft", "ExampleA", "EsFft", "Direct", "Wtower", "Swiftly"]
SIG = {}
for _line in PROTOS.strip().splitlines():
    _w = _line.split()
    SIG[_w[0]] = (_w[1], _w[2:])
ORDER = list(SIG)
CT = {"i": "int", "l": "long long", "d": "double", "f": "float", "s": "const char*", "I": "int*", "D": "double*", "e": "int*"}

RUNTIME = r"""
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
enum { KIND_Mem, KIND_Sky, KIND_Fft, KIND_ExampleA, KIND_EsFft, KIND_Direct, KIND_Wtower, KIND_Swiftly };
typedef struct Obj { int kind, alive, id, type, loc, nd, ro, frees; void* data; long long shape[32], stride[32];
    char name[64]; double c[3], epoch; struct Obj* next; } Obj;
static Obj* objs; static int num_objs;
static char* log_; static size_t len_, cap_;
static char script_fn[128]; static int script_status, script_null, script_skip;
static void put(const char* fmt, ...)
{
    va_list a;
    if (cap_ - len_ < 4096) { cap_ = cap_ * 2 + 65536; log_ = realloc(log_, cap_); }
    va_start(a, fmt); len_ += vsnprintf(log_ + len_, cap_ - len_, fmt, a); va_end(a);
}
static Obj* find(const void* p) { for (Obj* o = objs; o; o = o->next) if (o == p) return o; return 0; }
static Obj* make(int kind) { Obj* o = calloc(1, sizeof(Obj)); o->kind = kind; o->alive = 1; o->id = ++num_objs; o->next = objs; objs = o; return o; }
static void rec_obj(const void* p, int kind)
{
    Obj* o = find(p);
    if (!p) { put(" NULL"); return; }
    if (!o) { put(" BAD"); return; }
    if (o->kind != kind) { put(" KIND%d", o->kind); return; }
    if (!o->alive) { put(" DEAD%d", o->id); return; }
    if (kind != KIND_Mem) { put(" %d", o->id); return; }
    put(" M%d,%lld,%d,%d,%d", o->id, (long long) (size_t) o->data, o->type, o->loc, o->ro);
    for (int i = 0; i < o->nd; ++i) put(",%lld:%lld", o->shape[i], o->stride[i]);
}
static void rel(const void* p, int kind, const char* fn)
{
    Obj* o = find(p);
    put("%s", fn); rec_obj(p, kind); put("\n");
    if (o && o->kind == kind) { o->alive = 0; o->frees++; }
}
static long long script_arg; static const char* cur_args;
// status only for the call which has this array address or number among its arguments
void stub_script_arg(const char* fn, int status, long long arg) { strcpy(script_fn, fn); script_status = status; script_null = 0; script_skip = 0; script_arg = arg; }
static int scripted(const char* fn, int* null)
{
    *null = 0;
    if (script_arg)
    {
        char key[64];
        if (strcmp(fn, script_fn)) return 0;
        // the line just recorded
        size_t b = len_ - 1;
        while (b > 0 && log_[b - 1] != '\n') --b;
        char* line = strndup(log_ + b, len_ - b);
        snprintf(key, sizeof key, ",%lld,", script_arg); int hit = strstr(line, key) != 0;
        snprintf(key, sizeof key, " i%lld ", script_arg); hit |= strstr(line, key) != 0;
        free(line);
        if (!hit) return 0;
        script_arg = 0; script_fn[0] = 0;
        return script_status;
    }
    if (strcmp(fn, script_fn)) return 0;
    if (script_skip-- > 0) return 0;
    *null = script_null;
    script_fn[0] = 0;
    return script_status;
}
const char* stub_log(void) { put(""); return log_; }
void stub_clear_log(void) { len_ = 0; put(""); log_[0] = 0; }
void stub_reset(void) { while (objs) { Obj* n = objs->next; free(objs); objs = n; } num_objs = 0; script_fn[0] = 0; stub_clear_log(); }
void stub_script(const char* fn, int status, int null, int skip) { strcpy(script_fn, fn); script_status = status; script_null = null; script_skip = skip; }
int stub_live(int kind) { int n = 0; for (Obj* o = objs; o; o = o->next) n += o->kind == kind && o->alive; return n; }
int stub_is_live(int id) { for (Obj* o = objs; o; o = o->next) if (o->id == id) return o->alive; return -1; }
int stub_created(void) { return num_objs; }
void* sdp_mem_create_wrapper(void* data, int type, int loc, int nd, const long long* shape, const long long* stride, int* status)
{
    int null, st = scripted("sdp_mem_create_wrapper", &null);
    if (*status) return 0;
    *status = st;
    if (null) return 0;
    Obj* o = make(KIND_Mem);
    o->data = data; o->type = type; o->loc = loc; o->nd = nd; o->ro = -1;
    for (int i = 0; i < nd && i < 32; ++i) { o->shape[i] = shape[i]; o->stride[i] = stride[i]; }
    return o;
}
void sdp_mem_set_read_only(void* m, int v) { Obj* o = find(m); if (o && o->kind == KIND_Mem) o->ro = v != 0; else put("sdp_mem_set_read_only BAD\n"); }
void sdp_mem_free(void* m) { if (!m) return; Obj* o = find(m); if (!o || o->kind != KIND_Mem || !o->alive) put("sdp_mem_free BAD\n"); else { o->alive = 0; o->frees++; } }
void* sdp_sky_coord_create(const char* type, double a, double b, double c)
{
    int null, st = scripted("sdp_sky_coord_create", &null);
    (void) st;
    if (null) return 0;
    Obj* o = make(KIND_Sky);
    snprintf(o->name, sizeof o->name, "%s", type); o->c[0] = a; o->c[1] = b; o->c[2] = c; o->epoch = 2000.0;
    return o;
}
void sdp_sky_coord_free(void* m) { if (!m) return; Obj* o = find(m); if (!o || o->kind != KIND_Sky || !o->alive) put("sdp_sky_coord_free BAD\n"); else { o->alive = 0; o->frees++; } }
double sdp_sky_coord_epoch(void* m) { Obj* o = find(m); return o && o->kind == KIND_Sky && o->alive ? o->epoch : -1; }
void sdp_sky_coord_set_epoch(void* m, double e) { Obj* o = find(m); if (o && o->kind == KIND_Sky && o->alive) o->epoch = e; else put("sdp_sky_coord_set_epoch BAD\n"); }
double sdp_sky_coord_value(void* m, int d) { Obj* o = find(m); return o && o->kind == KIND_Sky && o->alive ? (d >= 0 && d < 3 ? o->c[d] : 0.0) : -1; }
const char* sdp_sky_coord_type(void* m) { Obj* o = find(m); return o && o->kind == KIND_Sky && o->alive ? o->name : "?"; }
static void rec_sky(const void* p)
{
    Obj* o = find(p);
    if (!o || o->kind != KIND_Sky || !o->alive) { rec_obj(p, KIND_Sky); return; }
    put(" S%s,%a,%a,%a,%a", o->name, o->c[0], o->c[1], o->c[2], o->epoch);
}
"""


def ret_int(name):
    return 100 + 3 * ORDER.index(name)


def ret_double(name):
    return 1000.25 + ORDER.index(name) / 7.0


def source():
    out = [RUNTIME]
    for name, (ret, args) in SIG.items():
        if name.startswith("sdp_sky_coord"):
            continue
        par, body = [], []
        status = None
        for k, a in enumerate(args):
            p = "a%d" % k
            if a[0] in "hxm" and (len(a) > 1 or a == "m"):
                par.append("void* " + p)
                kind = "Mem" if a == "m" else a[1:]
                if a[0] == "x":
                    body.append('rel(%s, KIND_%s, "%s"); return;' % (p, kind, name))
                elif kind == "Sky":
                    body.append("rec_sky(%s);" % p)
                else:
                    body.append("rec_obj(%s, KIND_%s);" % (p, kind))
                continue
            par.append("%s %s" % (CT[a], p))
            if a == "i":
                body.append('put(" i%%d", %s);' % p)
            elif a == "l":
                body.append('put(" l%%lld", %s);' % p)
            elif a in "df":
                body.append('put(" d%%a", (double) %s);' % p)
            elif a == "I":
                body.append('if (%s) { put(" I%%d", *%s); *%s += 1000; } else put(" INULL");' % (p, p, p))
            elif a == "D":
                body.append('put(" D%%d", %s != 0); if (%s) for (int i = 0; i < 3; ++i) %s[i] = %d.5 + i;' % (p, p, p, 10 * k))
            elif a == "e":
                status = p
        free = args and args[0][0] == "x"
        rt = {"v": "void", "i": "int", "d": "double"}.get(ret, "void*")
        rv = {"v": "", "i": str(ret_int(name)) if ret == "i" else "",
              "d": repr(ret_double(name)) if ret == "d" else ""}.get(ret, "0")
        out.append("%s %s(%s)\n{" % (rt, name, ", ".join(par)))
        if free:
            out.append("    " + body[0])
        else:
            if status:
                out.append("    if (!%s) { put(\"%s NOSTATUS\\n\"); return %s; }\n    if (*%s) { put(\"%s PRIOR%%d\\n\", *%s); return %s; }"
                           % (status, name, rv, status, name, status, rv))
            out.append('    put("%s");' % name)
            out += ["    " + b for b in body]
            out.append('    put("\\n");')
            out.append('    int null, st = scripted("%s", &null); (void) st;' % name)
            if status:
                out.append("    *%s = st;" % status)
            if ret not in ("v", "i", "d"):
                out.append("    return null ? 0 : make(KIND_%s);" % ret)
            elif ret != "v":
                out.append("    return %s;" % rv)
        out.append("}")
    return "\n".join(out)


def build(build_dir):
    src = source()
    h = hashlib.sha256(src.encode()).hexdigest()[:16]
    d = os.path.join(build_dir, "stub." + h)
    so = os.path.join(d, "libska_sdp_func.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        c = os.path.join(d, "stub.%d.c" % os.getpid())
        with open(c, "w") as f:
            f.write(src)
        tmp = so + ".%d.tmp" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, c], check=True)
        os.replace(tmp, so)
        os.unlink(c)
    return d


def load(d):
    lib = ctypes.CDLL(os.path.join(d, "libska_sdp_func.so"))
    lib.stub_log.restype = ctypes.c_char_p
    lib.stub_script_arg.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_longlong]
    return lib
