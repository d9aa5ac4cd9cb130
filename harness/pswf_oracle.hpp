// Independent evaluation of the prolate spheroidal angular function S_mm(c, x) (Flammer normalisation at 0),
// from the symmetric tridiagonal eigenproblem in normalised associated Legendre functions.
#pragma once
#include <cmath>
#include <vector>
struct PswfOracle
{
    int m; long double c; std::vector<long double> beta; long double scale = 1, lam = 0;
    PswfOracle(int m_, double c_) : m(m_), c(c_)
    {
        const int N = (int) (c / 2) + 60;
        std::vector<long double> d(N), e(N, 0.0L);
        for (int k = 0; k < N; ++k)
        {
            long double r = 2 * k, l = m + r;
            d[k] = l * (l + 1) + c * c * (2 * l * (l + 1) - 2.0L * m * m - 1) / ((2 * l - 1) * (2 * l + 3));
            e[k] = c * c / (2 * l + 3) * sqrtl((2 * m + r + 1) * (2 * m + r + 2) * (r + 1) * (r + 2) / ((2 * l + 1) * (2 * l + 5)));
        }
        // smallest eigenvalue by bisection on the Sturm count
        long double lo = -1e7L, hi = 1e7L;
        for (int it = 0; it < 200; ++it)
        {
            long double mid = 0.5L * (lo + hi), q = 1; int cnt = 0;
            for (int k = 0; k < N; ++k)
            {
                q = d[k] - mid - (k ? e[k - 1] * e[k - 1] / q : 0.0L);
                if (q == 0) q = 1e-300L;
                if (q < 0) ++cnt;
            }
            if (cnt >= 1) hi = mid; else lo = mid;
        }
        lam = 0.5L * (lo + hi);
        // eigenvector by inverse iteration (Gaussian elimination, shifted slightly below the eigenvalue)
        std::vector<long double> x(N, 1.0L);
        long double sh = lam - 1e-13L * (1 + fabsl(lam));
        for (int it = 0; it < 6; ++it)
        {
            std::vector<long double> a(N), b = x;
            a[0] = d[0] - sh;
            for (int k = 1; k < N; ++k)
            {
                long double w = e[k - 1] / a[k - 1];
                a[k] = d[k] - sh - w * e[k - 1];
                b[k] -= w * b[k - 1];
            }
            x[N - 1] = b[N - 1] / a[N - 1];
            for (int k = N - 2; k >= 0; --k) x[k] = (b[k] - e[k] * x[k + 1]) / a[k];
            long double nn = 0; for (auto v : x) nn += v * v;
            nn = sqrtl(nn); for (auto& v : x) v /= nn;
        }
        beta = x;
        long double dd = 1; for (int k = 1; k <= m; ++k) dd *= 2 * k - 1;
        scale = dd / raw(0);
    }
    long double raw(long double x) const
    {
        // normalised associated Legendre functions by upward recurrence
        long double pmm = sqrtl(0.5L);
        for (int k = 1; k <= m; ++k) pmm *= sqrtl((2 * k + 1) / (2.0L * k) * (1 - x * x));
        long double p0 = 0, p1 = pmm, s = 0;
        const int L = m + 2 * (int) beta.size() - 1;
        for (int l = m; l <= L; ++l)
        {
            if ((l - m) % 2 == 0) s += beta[(l - m) / 2] * p1;
            long double l1 = l + 1;
            long double a = sqrtl((4 * l1 * l1 - 1) / (l1 * l1 - (long double) m * m));
            long double b = l > m ? sqrtl(((2 * l1 + 1) * ((long double) l * l - (long double) m * m)) /
                    ((2 * l1 - 3) * (l1 * l1 - (long double) m * m))) : 0.0L;
            long double p2 = a * x * p1 - b * p0;
            p0 = p1; p1 = p2;
        }
        return s;
    }
    double operator()(double x) const { return (double) (scale * raw(x)); }
};
