// Boring reference model of (rational) B-splines, in long double, written from the textbook
// definition and sharing no code with the library under test.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <string>
#include <vector>
#include <sstream>

namespace ref
{
    using real = long double;
    using rvec = std::vector<real>;

    template <typename V>
    rvec to_real(const V &v)
    {
        return rvec(v.begin(), v.end());
    }

    // Index s of the non empty knot interval holding u: right continuous inside, left continuous at
    // the end of the domain [k[p], k[n]].
    inline size_t span(const rvec &k, size_t p, size_t n, real u)
    {
        size_t s = p;
        for (size_t i = p; i < n; i++)
            if (k[i] < k[i + 1] && k[i] <= u)
                s = i;
        return s;
    }

    // d-th derivatives (0..dmax) of all n basis functions at u: D[d][i]
    inline std::vector<rvec> basis(const rvec &k, size_t p, real u, size_t dmax)
    {
        size_t n = k.size() - p - 1;
        size_t s = span(k, p, n, u);
        // N[d][i] for current degree q
        std::vector<rvec> N(dmax + 1, rvec(k.size() - 1, 0));
        N[0][s] = 1;
        for (size_t q = 1; q <= p; q++)
        {
            std::vector<rvec> M(dmax + 1, rvec(k.size() - 1, 0));
            for (size_t i = 0; i + q + 1 < k.size(); i++)
            {
                real a = k[i + q] - k[i], b = k[i + q + 1] - k[i + 1];
                for (size_t d = 0; d <= dmax; d++)
                {
                    real r = 0;
                    if (d == 0)
                    {
                        if (a > 0) r += (u - k[i]) / a * N[0][i];
                        if (b > 0) r += (k[i + q + 1] - u) / b * N[0][i + 1];
                    }
                    else
                    {
                        if (a > 0) r += q * N[d - 1][i] / a;
                        if (b > 0) r -= q * N[d - 1][i + 1] / b;
                    }
                    M[d][i] = r;
                }
            }
            N = M;
        }
        if (p == 0)
            for (size_t d = 1; d <= dmax; d++)
                for (auto &x : N[d]) x = 0;
        for (auto &r : N) r.resize(n);
        return N;
    }

    inline real binom(size_t n, size_t k)
    {
        std::vector<std::vector<real>> t(n + 1);
        for (size_t i = 0; i <= n; i++)
        {
            t[i].assign(i + 1, 1);
            for (size_t j = 1; j < i; j++) t[i][j] = t[i - 1][j - 1] + t[i - 1][j];
        }
        return t[n][k];
    }

    // value and magnitude bound (for scaling tolerances) of a derivative
    struct Val
    {
        rvec v, mag;
    };

    // homogeneous curve derivatives 0..dmax
    template <typename Poles>
    std::vector<Val> curve_h(const rvec &k, size_t p, const Poles &P, real u, size_t dmax)
    {
        auto N = basis(k, p, u, dmax);
        size_t dim = P[0].size();
        std::vector<Val> r(dmax + 1);
        for (size_t d = 0; d <= dmax; d++)
        {
            r[d].v.assign(dim, 0);
            r[d].mag.assign(dim, 0);
            for (size_t i = 0; i < N[d].size(); i++)
                for (size_t c = 0; c < dim; c++)
                {
                    r[d].v[c] += N[d][i] * P[i][c];
                    r[d].mag[c] += std::fabs(N[d][i] * P[i][c]);
                }
        }
        return r;
    }

    inline std::vector<Val> project(const std::vector<Val> &h)
    {
        size_t dim = h[0].v.size() - 1;
        std::vector<Val> r(h.size());
        real w = h[0].v[dim];
        for (size_t d = 0; d < h.size(); d++)
        {
            r[d].v.assign(dim, 0);
            r[d].mag.assign(dim, 0);
            for (size_t c = 0; c < dim; c++)
            {
                real s = h[d].v[c], m = h[d].mag[c];
                for (size_t i = 1; i <= d; i++)
                {
                    s -= binom(d, i) * h[i].v[dim] * r[d - i].v[c];
                    m += binom(d, i) * h[i].mag[dim] * r[d - i].mag[c];
                }
                r[d].v[c] = s / w;
                r[d].mag[c] = m / std::fabs(w);
            }
        }
        return r;
    }

    template <typename Poles>
    std::vector<Val> curve(const rvec &k, size_t p, const Poles &P, bool rational, real u, size_t dmax)
    {
        auto h = curve_h(k, p, P, u, dmax);
        return rational ? project(h) : h;
    }

    // surface, poles with u index fastest; result[a*(dv+1)+b]
    template <typename Poles>
    std::vector<Val> surf_h(const rvec &ku, const rvec &kv, size_t p, size_t q, const Poles &P, real u, real v, size_t du, size_t dv)
    {
        auto Nu = basis(ku, p, u, du), Nv = basis(kv, q, v, dv);
        size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1, dim = P[0].size();
        std::vector<Val> r((du + 1) * (dv + 1));
        for (size_t a = 0; a <= du; a++)
            for (size_t b = 0; b <= dv; b++)
            {
                auto &x = r[a * (dv + 1) + b];
                x.v.assign(dim, 0);
                x.mag.assign(dim, 0);
                for (size_t j = 0; j < nv; j++)
                {
                    if (Nv[b][j] == 0) continue;
                    for (size_t i = 0; i < nu; i++)
                    {
                        if (Nu[a][i] == 0) continue;
                        for (size_t c = 0; c < dim; c++)
                        {
                            real t = Nu[a][i] * Nv[b][j] * P[i + nu * j][c];
                            x.v[c] += t;
                            x.mag[c] += std::fabs(t);
                        }
                    }
                }
            }
        return r;
    }

    inline std::vector<Val> project2(const std::vector<Val> &h, size_t du, size_t dv)
    {
        size_t dim = h[0].v.size() - 1, st = dv + 1;
        std::vector<Val> r(h.size());
        real w = h[0].v[dim];
        for (size_t a = 0; a <= du; a++)
            for (size_t b = 0; b <= dv; b++)
            {
                auto &x = r[a * st + b];
                x.v.assign(dim, 0);
                x.mag.assign(dim, 0);
                for (size_t c = 0; c < dim; c++)
                {
                    real s = h[a * st + b].v[c], m = h[a * st + b].mag[c];
                    for (size_t i = 0; i <= a; i++)
                        for (size_t j = 0; j <= b; j++)
                        {
                            if (i + j == 0) continue;
                            real f = binom(a, i) * binom(b, j);
                            s -= f * h[i * st + j].v[dim] * r[(a - i) * st + (b - j)].v[c];
                            m += f * h[i * st + j].mag[dim] * r[(a - i) * st + (b - j)].mag[c];
                        }
                    x.v[c] = s / w;
                    x.mag[c] = m / std::fabs(w);
                }
            }
        return r;
    }

    template <typename Poles>
    std::vector<Val> surf(const rvec &ku, const rvec &kv, size_t p, size_t q, const Poles &P, bool rational, real u, real v, size_t du, size_t dv)
    {
        auto h = surf_h(ku, kv, p, q, P, u, v, du, dv);
        return rational ? project2(h, du, dv) : h;
    }

    template <typename T, size_t dim>
    bool close(const std::array<T, dim> &x, const Val &r, real tol, real floor_ = 1e-12L)
    {
        for (size_t c = 0; c < dim; c++)
        {
            real e = std::fabs((real)x[c] - r.v[c]);
            if (!(e <= tol * r.mag[c] + tol * floor_ + 1e-300L)) return false; // catches NaN
        }
        return true;
    }

    template <typename A>
    std::string str(const A &a)
    {
        std::ostringstream s;
        s.precision(17);
        s << "(";
        bool f = true;
        for (auto x : a)
        {
            s << (f ? "" : ",") << (double)x;
            f = false;
        }
        s << ")";
        return s.str();
    }

    // ---- alphabets shared by the harnesses ---------------------------------------------------

    // all multiplicity vectors of length m with entries 1..mmax
    inline std::vector<std::vector<size_t>> mults(size_t m, size_t mmax)
    {
        std::vector<std::vector<size_t>> r{{}};
        for (size_t i = 0; i < m; i++)
        {
            std::vector<std::vector<size_t>> n;
            for (auto &x : r)
                for (size_t k = 1; k <= mmax; k++)
                {
                    auto y = x;
                    y.push_back(k);
                    n.push_back(y);
                }
            r = n;
        }
        return r;
    }

    // m interior knots between a and b: spacing 0 uniform, 1 quadratic, 2 very uneven
    inline std::vector<double> breaks(size_t m, int spacing)
    {
        std::vector<double> r;
        double a = 0, b = 1;
        if (spacing == 1) { a = -1.5; b = 2.25; }
        if (spacing == 2) { a = 10; b = 13; }
        for (size_t i = 0; i <= m + 1; i++)
        {
            double t = double(i) / (m + 1);
            if (spacing == 1) t = t * t;
            if (spacing == 2) t = (i == 0) ? 0 : (i == m + 1) ? 1 : 0.9 + 0.09 * double(i) / (m + 1);
            r.push_back(i == m + 1 ? b : a + (b - a) * t);
        }
        return r;
    }

    inline std::vector<double> flat(const std::vector<double> &br, const std::vector<size_t> &m, size_t p)
    {
        std::vector<double> k(p + 1, br.front());
        for (size_t i = 0; i < m.size(); i++)
            k.insert(k.end(), m[i], br[i + 1]);
        k.insert(k.end(), p + 1, br.back());
        return k;
    }

    // parameters probing a knot vector: ends, knots, their double neighbours, span interiors
    inline std::vector<double> probes(const std::vector<double> &br, bool neighbours = true)
    {
        std::vector<double> r;
        for (size_t i = 0; i < br.size(); i++)
        {
            if (i && neighbours) r.push_back(std::nextafter(br[i], br.front()));
            r.push_back(br[i]);
            if (i + 1 < br.size())
            {
                if (neighbours) r.push_back(std::nextafter(br[i], br.back()));
                double h = br[i + 1] - br[i];
                r.push_back(br[i] + h * 0.25);
                r.push_back(br[i] + h * 0.5);
                r.push_back(br[i] + h * 0.9);
            }
        }
        return r;
    }

    // fixed, irregular coordinates (pure function of the index: no randomness)
    inline double coord(size_t i, size_t c)
    {
        double x = std::sin(1.0 + 1.7 * i + 0.9 * c) * 2 + 0.37 * i * (c + 1) - 0.11 * i * i * (c == 1);
        return x;
    }
    inline double weight(size_t i) { return 0.4 + 0.55 * ((i * 7 + 3) % 5); }

    template <size_t dim>
    std::vector<std::array<double, dim>> poles(size_t n, size_t seed = 0)
    {
        std::vector<std::array<double, dim>> r(n);
        for (size_t i = 0; i < n; i++)
            for (size_t c = 0; c < dim; c++) r[i][c] = coord(i + 13 * seed, c);
        return r;
    }
    // homogeneous poles (x*w, y*w, ..., w)
    template <size_t dim>
    std::vector<std::array<double, dim + 1>> hpoles(size_t n, size_t seed = 0)
    {
        std::vector<std::array<double, dim + 1>> r(n);
        for (size_t i = 0; i < n; i++)
        {
            double w = weight(i + seed);
            for (size_t c = 0; c < dim; c++) r[i][c] = coord(i + 13 * seed, c) * w;
            r[i][dim] = w;
        }
        return r;
    }
    inline std::string str(const std::vector<double> &a)
    {
        return str<std::vector<double>>(a);
    }
}
