// H01: the w-tower height search returns the height at which the accuracy of the gridder crosses the target.
#include "mc/arr.hpp"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/math/sdp_math_macros.h"

struct Cfg
{
    int image, n, sup, ovs, wsup, wovs;
    double theta, ws, hu, hv, fov, frac;
    int ns;
};
// distance of the sources from the centre, in pixels: the largest one inside the field of view which does not divide the image size
static int edge(int image, double theta, double fov)
{
    int e = (int) floor(fov / 2 / theta * image + 1e-9);
    while (e > 0 && image % e == 0) --e;
    return e;
}
struct Src { int i, j; double f; };
static std::vector<Src> sources(int image, int e)
{
    int h = image / 2;
    return {{h + e, h + e, 0.3}, {h - e, h - e, 0.2}, {h + e, h - e - 1, 0.3}, {h - e - 1, h + e, 0.2}};
}
static double o_n(double l, double m, double hu, double hv)
{
    long double a = hu * hu + hv * hv + 1, b = (long double) hu * l + (long double) hv * m - 1, c = (long double) l * l + (long double) m * m;
    return (double) ((sqrtl(b * b - a * c) + b) / a);
}

// error of the gridder, in w-planes from the sub-grid
struct Meter
{
    Cfg g; sdp_GridderWtowerUVW* plan = nullptr; std::unique_ptr<Arr> sub; std::vector<Src> src;
    Meter(const Cfg& g) : g(g)
    {
        sdp_Error st = SDP_SUCCESS;
        mc::context("wtower create");
        plan = sdp_gridder_wtower_uvw_create(g.image, g.n, g.theta, g.ws, g.hu, g.hv, g.sup, g.ovs, g.wsup, g.wovs, &st);
        MC_CHECK(!st && plan, "create", "status %d", (int) st);
        src = sources(g.image, edge(g.image, g.theta, g.fov));
        Arr img(SDP_MEM_COMPLEX_DOUBLE, {g.image, g.image});
        for (auto& s : src) img.set({s.i, s.j}, s.f);
        sdp_gridder_wtower_uvw_degrid_correct(plan, img.mem, 0, 0, 0, &st);
        sub.reset(new Arr(SDP_MEM_COMPLEX_DOUBLE, {g.n, g.n}));
        // the image, low-pass filtered to the sub-grid, one source at a time
        for (auto& s : src)
        {
            std::vector<cd> D[2];
            for (int ax = 0; ax < 2; ++ax) for (int p = 0; p < g.n; ++p)
            {
                cd d = 0;
                for (int k = -g.n / 2; k < g.n / 2; ++k)
                    d += std::polar(1.0, 2 * M_PI * k * ((double) (p - g.n / 2) / g.n - (double) ((ax ? s.j : s.i) - g.image / 2) / g.image));
                D[ax].push_back(d / (double) g.n);
            }
            cd a = img.get({s.i, s.j});
            for (int p = 0; p < g.n; ++p) for (int q = 0; q < g.n; ++q) sub->set({p, q}, sub->get({p, q}) + a * D[0][p] * D[1][q]);
        }
        MC_CHECK(!st, "create", "status %d", (int) st);
    }
    ~Meter() { sdp_gridder_wtower_uvw_free(plan); }
    double operator()(int planes)
    {
        int ns = g.ns ? g.ns : 3;
        double frac = g.frac ? g.frac : 2.0 / 3;
        Arr uvw(SDP_MEM_DOUBLE, {ns * ns, 3}), s(SDP_MEM_INT, {ns * ns}), e(SDP_MEM_INT, {ns * ns}), vis(SDP_MEM_COMPLEX_DOUBLE, {ns * ns, 1});
        e.fill(1);
        for (int i = 0; i < ns; ++i) for (int j = 0; j < ns; ++j)
        {
            double x[2] = {(double) j, (double) i};
            for (int d = 0; d < 2; ++d) uvw.set({i * ns + j, d}, g.n * frac / g.theta * (x[d] / (ns - 1) - 0.5));
            uvw.set({i * ns + j, 2}, planes * g.ws);
        }
        sdp_Error st = SDP_SUCCESS;
        sdp_gridder_wtower_uvw_degrid(plan, sub->mem, 0, 0, 0, C_0, C_0, uvw.mem, s.mem, e.mem, vis.mem, -1, -1, &st);
        MC_CHECK(!st, "degrid", "status %d", (int) st);
        double sum = 0;
        for (int r = 0; r < ns * ns; ++r)
        {
            cd w = 0;
            for (auto& q : src)
            {
                double l = (q.i - g.image / 2) * g.theta / g.image, m = (q.j - g.image / 2) * g.theta / g.image;
                w += q.f * std::polar(1.0, -2 * M_PI * (uvw.re({r, 0}) * l + uvw.re({r, 1}) * m + planes * g.ws * o_n(l, m, g.hu, g.hv)));
            }
            sum += std::norm(w - vis.get(r));
        }
        return sqrt(sum / (ns * ns));
    }
};

static void search()
{
    mc::context("max_w_tower_height");
    Cfg g;
    struct K { int image, n, s, w; };
    static const K Q[] = {{32, 16, 4, 4}, {24, 12, 4, 6}, {36, 16, 6, 8}, {28, 20, 8, 4}, {64, 32, 8, 8}};
    const K& k = Q[mc::choose(mc::quick() ? 4 : 5, "kernel")];
    g.image = k.image; g.n = k.n; g.sup = k.s; g.wsup = k.w; g.ovs = 64; g.wovs = 64;
    g.theta = mc::pick({0.25, 0.1}, "theta");
    g.fov = g.theta * mc::pick({0.7, 0.5, 0.3}, "field of view");
    g.ws = mc::pick({20.0, 7.0}, "w_step") * (g.theta < 0.2 ? 5 : 1);
    int sh = mc::choose(2, "shear"); g.hu = sh ? 0.1 : 0; g.hv = sh ? -0.15 : 0;
    g.frac = mc::pick({0.0, 0.4}, "sub-grid fraction");
    g.ns = mc::pick({0, 2, 3, 4, 1, -1, -2}, "samples");
    const int e = edge(g.image, g.theta, g.fov);
    if (e < 1 || e >= g.image / 2 || g.ns < 0 || g.ns == 1)
    {
        sdp_Error st = SDP_SUCCESS;
        double h = sdp_gridder_determine_max_w_tower_height(g.image, g.n, g.theta, g.ws, g.hu, g.hv, g.sup, g.ovs, g.wsup, g.wovs, g.fov, g.frac, g.ns, 0.1, &st);
        MC_CHECK(st && h == 0, "no-field", "no place for the sources or no samples, but status %d, height %g", (int) st, h);
        return;
    }
    const int N = 12;
    Meter m(g);
    std::vector<double> err;
    for (int i = 0; i <= N; ++i) err.push_back(m(i));
    if (getenv("H01_STAT")) { for (double x : err) fprintf(stderr, "%.3g ", x); fprintf(stderr, "\n"); }
    // targets: one which is out of reach, the default, and between neighbours in the order of size
    std::vector<double> s = err, T = {0, 10};
    std::sort(s.begin(), s.end());
    for (int i = 0; i < N; ++i) if (s[i + 1] > s[i] * (1 + 1e-6)) T.push_back(sqrt(s[i] * s[i + 1]));
    for (double t0 : T)
    {
        if (t0 == 10 && k.n != 12) continue;
        double t = t0 ? t0 : 2 * err[0];
        sdp_Error st = SDP_SUCCESS;
        mc::calls();
        double h = sdp_gridder_determine_max_w_tower_height(g.image, g.n, g.theta, g.ws, g.hu, g.hv, g.sup, g.ovs, g.wsup, g.wovs, g.fov, g.frac, g.ns, t0, &st);
        if (st && t > s[N]) { MC_CHECK(h == 0, "none", "target %g is never reached: status %d, height %g", t0, (int) st, h); continue; }
        MC_CHECK(!st, "status", "target %g: status %d", t0, (int) st);
        MC_CHECK(h >= 0 && fmod(h, 2) == 0, "height", "target %g: %g is not twice a number of planes", t0, h);
        int p = (int) (h / 2);
        if (p > 0)
        {
            double a = m(p);
            MC_CHECK(a < t * (1 + 1e-7), "inside", "target %g: height %g, but the error %d planes away is %g", t, h, p, a);
        }
        double b = m(p + 1);
        MC_CHECK(b > t * (1 - 1e-7), "outside", "target %g: height %g, but the error %d planes away is still %g", t, h, p + 1, b);
        mc::state(hash_vals({cd(h, t)}, 1e-9));
    }
}

static void worst_case()
{
    mc::context("worst_case_image");
    int image = mc::range(2, mc::quick() ? 40 : 90, "image size");
    double theta = mc::pick({0.25, 1.0, 1e-3}, "theta");
    int lay = mc::choose(5, "layout");
    // fields of view half a pixel steps from nothing to more than the image
    for (int f = -1; f <= 2 * image + 3; ++f)
    {
        double fov = (f + 0.25) * theta / image;
        int e = f < 0 ? 0 : edge(image, theta, fov);
        Arr img(SDP_MEM_COMPLEX_DOUBLE, {image, image}, (Layout) lay);
        fill_hash(img, 1);
        std::string b = img.bytes();
        sdp_Error st = SDP_SUCCESS;
        mc::calls();
        sdp_gridder_worst_case_image(theta, fov, img.mem, &st);
        bool ok = e >= 1 && lay != L_ODD;
        for (auto& s : sources(image, e)) if (s.i < 0 || s.j < 0 || s.i >= image || s.j >= image) ok = false;
        if (!ok)
        {
            MC_CHECK(st, "refuse", "image %d, field of view %g: no place for the sources (or elements out of step), but no error", image, fov / theta);
            MC_CHECK(img.bytes() == b, "refuse", "refused, but the image is changed");
            continue;
        }
        MC_CHECK(!st, "status", "image %d, field of view %g: status %d", image, fov / theta, (int) st);
        std::vector<cd> w(image * image);
        for (auto& s : sources(image, e)) w[s.i * image + s.j] = s.f;
        MC_CHECK(max_diff(img.all(), w) == 0, "image", "image %d, field of view %g: the sources are not in the corners", image, fov / theta);
    }
    mc::state(image * 10 + lay);
}

static void body()
{
    if (mc::flip("image")) worst_case(); else search();
}
MC_MAIN(body)
