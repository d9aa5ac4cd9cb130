// V01: set-up of the exponential-of-semicircle gridder: kernel choice, quadrature and image correction.
#include <cmath>
#include "mc/arr.hpp"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.h"

typedef long double ld;
// positive nodes and weights of Gauss-Legendre quadrature with 2 p points, largest node first
struct Gauss
{
    std::vector<ld> x, w;
    Gauss(int p)
    {
        const int n = 2 * p;
        auto legendre = [&](ld t, ld& d) {
            ld a = 1, b = t;
            for (int k = 2; k <= n; ++k) { ld c = ((2 * k - 1) * t * b - (k - 1) * a) / k; a = b; b = c; }
            d = n * (a - t * b) / (1 - t * t);
            return b;
        };
        for (int i = 1; i <= p; ++i)
        {
            ld t = cosl(M_PIl * (i - 0.25L) / (n + 0.5L)), d = 1;
            for (int it = 0; it < 50; ++it) { ld v = legendre(t, d); t -= v / d; }
            legendre(t, d);
            x.push_back(t); w.push_back(2 / ((1 - t * t) * d * d));
        }
    }
};

static const double GUARD = 12345.678;
static void quadrature()
{
    mc::context("gauss_legendre_conv_kernel");
    int s = mc::range(1, 20, "support"), image = mc::pick({0, 1, 2, 7, 16, 65}, "image size");
    double os = mc::pick({1.25, 1.5, 2.0}, "oversampling"), beta = s * mc::pick({1.2, 1.9, 2.3}, "beta");
    int grid = std::max(2, 2 * (int) ceil(image * os / 2));
    const int p = (3 * s + 4) / 2; // half as many points again as the support, and two
    Gauss g(p);
    std::vector<double> k(33, GUARD), x(33, GUARD), w(33, GUARD), c(image / 2 + 2, GUARD);
    mc::calls();
    sdp_generate_gauss_legendre_conv_kernel(image, grid, s, beta, k.data(), x.data(), w.data(), c.data());
    ld norm = 0;
    for (int i = 0; i < p; ++i)
    {
        ld e = expl(beta * (sqrtl(1 - g.x[i] * g.x[i]) - 1));
        MC_CHECK(fabsl(x[i] - g.x[i]) < 1e-14, "nodes", "support %d: node %d is %.17g, the root of the Legendre polynomial is %.17Lg", s, i, x[i], g.x[i]);
        MC_CHECK(fabsl(w[i] - g.w[i]) < 1e-12 * (double) g.w[i], "weights", "support %d: weight %d is %.17g, expected %.17Lg", s, i, w[i], g.w[i]);
        MC_CHECK(fabsl(k[i] - e) < 1e-9 * (double) e, "kernel", "support %d, beta %g: kernel at node %d is %.17g, expected %.17Lg", s, beta, i, k[i], e);
        norm += g.w[i] * e;
    }
    for (int i = p; i < 33; ++i)
        MC_CHECK(k[i] == GUARD && x[i] == GUARD && w[i] == GUARD, "extent", "support %d: wrote element %d of %d", s, i, p);
    for (int q = 0; q <= image / 2; ++q)
    {
        ld v = 0;
        for (int i = 0; i < p; ++i) v += g.w[i] * expl(beta * (sqrtl(1 - g.x[i] * g.x[i]) - 1)) * cosl(M_PIl * q * s * g.x[i] / grid);
        v /= norm;
        MC_CHECK(fabsl(c[q] - v) < 1e-11, "correction", "support %d, image %d, grid %d: correction of pixel %d is %.17g, expected %.17Lg", s, image, grid, q, c[q], v);
    }
    MC_CHECK(c[image / 2 + 1] == GUARD, "extent", "image %d: wrote more than half of the image", image);
    mc::state(s * 1000 + image);
}

static bool smooth(int n)
{
    if (n < 1) return false;
    for (int f : {2, 3, 5, 7, 11}) while (n % f == 0) n /= f;
    return n == 1;
}
struct Choice { int grid, s; double beta; };
static Choice choice(double eps, int image, bool dbl)
{
    Choice c = {-1, -1, -1};
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_calculate_params_from_epsilon(eps, image, dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT, c.grid, c.s, c.beta, &st);
    MC_CHECK(!st, "status", "epsilon %g, image %d: status %d", eps, image, (int) st);
    return c;
}
// root mean square error of gridding with the chosen kernel and correcting the image, over positions in a cell and pixels
static double accuracy(const Choice& c, int image)
{
    static std::map<int, std::unique_ptr<Gauss>> cache;
    auto& g = cache[c.s];
    if (!g) g.reset(new Gauss((3 * c.s + 4) / 2));
    const double b = c.beta * c.s;
    double sum = 0; int cnt = 0;
    const int nx = std::min(image / 2, 12);
    for (int ix = 0; ix <= nx; ++ix)
    {
        const double x = nx ? (double) ix / nx * (image / 2) / c.grid : 0;
        double corr = 0;
        for (size_t i = 0; i < g->x.size(); ++i) corr += (double) g->w[i] * exp(b * (sqrt(1 - (double) (g->x[i] * g->x[i])) - 1)) * cos(M_PI * x * c.s * (double) g->x[i]);
        corr *= c.s;
        for (int iu = 0; iu < 16; ++iu)
        {
            double u = (iu + 0.37) / 16;
            cd a = 0;
            for (int j = (int) ceil(u - c.s / 2.0); j <= u + c.s / 2.0; ++j)
            {
                double t = (j - u) * 2 / c.s;
                if (fabs(t) <= 1) a += exp(b * (sqrt(1 - t * t) - 1)) * std::polar(1.0, 2 * M_PI * j * x);
            }
            sum += std::norm(a / corr - std::polar(1.0, 2 * M_PI * u * x)); ++cnt;
        }
    }
    return sqrt(sum / cnt);
}
static void parameters()
{
    mc::context("params_from_epsilon");
    bool dbl = mc::flip("double");
    static const int BIG[] = {500, 777, 1024, 1999, 4096, 10000, 32768, 40000, 53333, 60000, 100000, 1000000};
    const int top = mc::quick() ? 600 : 4000;
    int image = mc::choose(top + 12, "image size") + 1;
    if (image > top) image = BIG[image - top - 1];
    Choice last = {0, 0, 0}; double acc = 0;
    int grid = 0;
    double worst = 0;
    for (int q = 0; q < 160; ++q)
    {
        double eps = 0.2 * pow(1.25, -q); // down to 8e-17
        Choice c = choice(eps, image, dbl);
        MC_CHECK(c.grid % 2 == 0 && smooth(c.grid / 2), "grid", "epsilon %g, image %d: grid size %d is not twice a product of small primes", eps, image, c.grid);
        MC_CHECK(c.grid > image, "grid", "epsilon %g, image %d: grid size %d", eps, image, c.grid);
        MC_CHECK(c.s >= 4 && c.s <= 16, "support", "epsilon %g, image %d: support %d", eps, image, c.s);
        MC_CHECK(c.grid >= grid, "monotone", "image %d: epsilon %g needs a smaller grid (%d) than a larger one (%d)", image, eps, c.grid, grid);
        // the padding is that of some oversampling factor, in steps of 0.05, and no more
        bool found = false;
        for (int f = 23; f <= 50 && !found; ++f)
        {
            for (double d : {-1e-9, 1e-9})
            {
                int n = (int) (image * (f * 0.05) * 0.5 + d) + 1;
                while (!smooth(n)) ++n;
                if (2 * n == c.grid) found = true;
            }
        }
        MC_CHECK(found, "padding", "epsilon %g, image %d: grid size %d is not the least of any oversampling factor", eps, image, c.grid);
        // low accuracies do not need large grids
        static const double NEED[][2] = {{0.0139, 1.2}, {2.6e-3, 1.25}, {1.9e-4, 1.35}, {2.4e-5, 1.4}, {1.65e-6, 1.5}, {1.8e-7, 1.55}, {1.7e-8, 1.6}, {1e-9, 1.7}, {8.4e-11, 1.75},
            {7.4e-12, 1.8}, {5.7e-13, 1.85}, {4.5e-14, 1.9}, {0, 2}},
            NEED_SINGLE[][2] = {{0.0139, 1.2}, {2.6e-3, 1.25}, {1.9e-4, 1.35}, {2.4e-5, 1.4}, {1.65e-6, 1.5}, {7.6e-7, 1.6}, {4.1e-7, 1.7}, {2.2e-7, 1.8}, {1.3e-7, 1.9}, {0, 2}};
        const double (*need)[2] = dbl ? NEED : NEED_SINGLE;
        int r = 0;
        while (eps <= need[r][0]) ++r;
        const double most = need[r][1];
        int n = (int) (image * most * 0.5 + 1e-9) + 1;
        while (!smooth(n)) ++n;
        MC_CHECK(c.grid <= 2 * n, "economy", "epsilon %g, image %d: grid size %d where an oversampling of %g is enough (%d)", eps, image, c.grid, most, 2 * n);
        grid = c.grid;
        if (dbl && q % 4 == 0)
        {
            Choice f = choice(eps, image, false);
            MC_CHECK(f.grid >= c.grid, "precision", "epsilon %g, image %d: double precision has a larger grid (%d) than single (%d)", eps, image, c.grid, f.grid);
        }
        if (q % 4 == 0)
        {
            Choice f = choice(eps, image + 1, dbl);
            MC_CHECK(f.grid >= c.grid, "size", "epsilon %g: an image of %d has a larger grid (%d) than one of %d (%d)", eps, image, c.grid, image + 1, f.grid);
        }
        if (c.s != last.s || c.beta != last.beta || c.grid != last.grid) acc = accuracy(c, image);
        last = c;
        MC_CHECK(acc < 4 * std::max(eps, 2e-15), "accuracy", "epsilon %g, image %d, %s precision: with support %d, beta %g and grid %d the error is %g", eps, image, dbl ? "double" : "single",
            c.s, c.beta, c.grid, acc);
        worst = std::max(worst, acc / std::max(eps, 2e-15));
        mc::state(image * 1000000ull + c.grid * 100 + c.s);
    }
    if (getenv("V01_STAT")) fprintf(stderr, "STAT %d %d %g\n", (int) dbl, image, worst);
}

// a plan is refused with the right code whichever argument is wrong, and here always, as there is no GPU
static void arguments()
{
    mc::context("es_fft_create_plan");
    bool dbl = mc::flip("double");
    int bad = mc::choose(25, "mistake");
    bool stack = mc::flip("w-stacking");
    sdp_MemType R = dbl ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT, C = dbl ? SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
    sdp_MemType R2 = dbl ? SDP_MEM_FLOAT : SDP_MEM_DOUBLE, C2 = dbl ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_COMPLEX_DOUBLE;
    const int nr = 5, nc = 2, ni = 12;
    Shape sh[] = {{nr, 3}, {nc}, {nr, nc}, {nr, nc}, {ni, ni}};
    sdp_MemType ty[] = {R, R, C, R, R};
    Layout la[] = {L_C, L_C, L_C, L_C, L_C};
    sdp_MemLocation lo[] = {SDP_MEM_CPU, SDP_MEM_CPU, SDP_MEM_CPU, SDP_MEM_CPU, SDP_MEM_CPU};
    double px = 1e-3, py = 1e-3;
    int ro = -1;
    std::set<int> want = {SDP_ERR_INVALID_ARGUMENT};
    if (bad == 0) want = {SDP_ERR_MEM_LOCATION, SDP_ERR_RUNTIME, SDP_ERR_MEM_ALLOC_FAILURE}; // nothing wrong, but for the GPU
    else if (bad <= 5) { ty[bad - 1] = bad == 3 ? R : C; want = {SDP_ERR_DATA_TYPE}; }
    else if (bad <= 10) { ty[bad - 6] = bad == 8 ? C2 : R2; want = {SDP_ERR_DATA_TYPE}; }
    else if (bad <= 15) sh[bad - 11][0] += 1;
    else if (bad <= 20) { if (bad == 17) sh[1][0] = 1; else sh[bad - 16][1] += 1; }
    else if (bad == 21) px = 2e-3;
    else if (bad == 22) la[0] = L_F;
    else if (bad == 23) ro = 4;
    else if (bad == 24) la[2] = L_PAD;
    std::vector<Arr> a;
    for (int i = 0; i < 5; ++i) { a.emplace_back(ty[i], sh[i], la[i], lo[i]); }
    for (auto& x : a) fill_hash(x, 3);
    if (ro >= 0) sdp_mem_set_read_only(a[ro].mem, 1);
    std::vector<std::string> before;
    for (auto& x : a) before.push_back(x.bytes());
    sdp_Error st = SDP_SUCCESS;
    mc::calls();
    sdp_GridderUvwEsFft* plan = sdp_gridder_uvw_es_fft_create_plan(a[0].mem, a[1].mem, a[2].mem, a[3].mem, a[4].mem, px, py, 1e-5, 0.5, 20, stack, &st);
    MC_CHECK(!plan, "plan", "a plan without a GPU");
    MC_CHECK(want.count(st), "code", "mistake %d: status %d", bad, (int) st);
    for (size_t i = 0; i < a.size(); ++i) MC_CHECK(a[i].bytes() == before[i], "inputs", "argument %zu is changed", i);
    sdp_gridder_uvw_es_fft_free_plan(plan);
    mc::state(bad * 2 + stack);
}

static void body()
{
    switch (mc::choose(3, "part"))
    {
    case 0: quadrature(); break;
    case 1: parameters(); break;
    default: arguments();
    }
}
MC_MAIN(body)
