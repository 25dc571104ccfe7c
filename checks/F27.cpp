// F27: special functions against their defining integrals over dense argument grids
// that straddle and hit every internal switch.
#include "mc.hpp"
#include "refxrf.hpp"
#include "fisx_math.h"
using namespace mc;
using fisx::Math;
typedef std::vector<double> VD;
using refx::integrate01;
static const double GAMMA = 0.57721566490153286061;

// exp(x) E_n(x), x > 0: integral over s of exp(-x (1/s - 1)) s^(n-2)
static double scaledE(int n, double x)
{
    if (n == 1 && x < 1e-3) { long double r = -GAMMA - std::log((long double) x), p = -1; for (int k = 1; k < 30; k++) { p *= -x / k; r += p / k; } return std::exp(x) * (double) r; }
    if (x > 1)
    {
        // integral over u of exp(-u) (1 + u/x)^-n / x
        double s = 0; for (int k = 0; k < 60; k++) for (auto & p : refx::gauss()) { double u = k + 0.5 + 0.5 * p.first; s += 0.5 * p.second * std::exp(-u) * std::pow(1 + u / x, -n); }
        return s / x;
    }
    return integrate01([=](double s) { return std::exp(-x * (1 / s - 1)) * std::pow(s, n - 2); });
}
// principal value of E_1 for negative arguments, times exp(x)
static double scaledE1neg(double x)
{
    long double y = -x, s = 0, p = 1;
    if (y > 45)
    {
        // PV int_0^inf exp(-u)/(y-u) du by its asymptotic series, stopped at the smallest term
        long double t = 1, sum = 1; for (int k = 1; k < y; k++) { t *= k / y; sum += t; if (t < 1e-20) break; }
        return (double) (-sum / y);
    }
    for (int k = 1; k < 600; k++) { p *= y / k; s += p / k; if (p / k < 1e-22L * s) break; }
    return (double) ((-GAMMA - std::log(y) - s) * std::exp(-y));
}
static VD grid(double lo, double hi, int perDecade)
{ VD r; int n = (int) std::lround(std::log10(hi / lo) * perDecade); for (int i = 0; i <= n; i++) r.push_back(lo * std::pow(10, (double) i / perDecade)); return r; }
static void around(VD & v, double x) { for (double e : {0.0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e-2, 1e-1}) { v.push_back(x * (1 - e)); if (e > 0) v.push_back(x * (1 + e)); } v.push_back(std::nextafter(x, 0)); v.push_back(std::nextafter(x, x * 2)); }

static void exponential(Run & r, double x, int NMAX)
{
    std::string at = num(x); r.note("x = " + at); r.step();
    r.site("E1");
    if (x > 0)
    {
        double s = scaledE(1, x);
        r.eq(Math::deBoerD(x), s, "exp(x) E1(x)", 1e-10);
        if (x < 700) r.eq(Math::E1(x), s * std::exp(-x), "E1", 1e-10); else r.check(Math::E1(x) >= 0 && Math::E1(x) <= std::exp(-x), "E1 of large argument", at);
        if (x <= 1) { double v = s * std::exp(-x) + std::log(x); r.eq(Math::AS_5_1_53(x), v, "E1(x)+log(x)", 2e-7, 1e-13 * std::max(1.0, std::fabs(std::log(x)))); r.check(throws([&] { Math::AS_5_1_56(x * (1 - 1e-9)); }), "rational approximation outside its domain is refused", at); }
        if (x >= 1) { r.eq(Math::AS_5_1_56(x), s * x, "x exp(x) E1(x)", 2e-7); r.check(x == 1 || throws([&] { Math::AS_5_1_53(x); }), "polynomial outside its domain is refused", at); }
        for (int n = 1; n <= NMAX; n++)
        {
            double w = scaledE(n, x) * std::exp(-x), g = Math::En(n, x);
            r.eq(g, w, "En", 1e-9, 1e-300);
            r.check(g >= -1e-300 && (x > 690 || g < std::exp(-x) / (x + n - 1) * (1 + 1e-9)), "En within its bounds", "n=" + str(n) + " x=" + at + " " + num(g));
        }
    }
    else
    {
        double s = scaledE1neg(x);
        r.eq(Math::deBoerD(x), s, "exp(x) E1(x), negative argument", 1e-10, 1e-14 * (1 + std::fabs(std::log(-x))));
        if (x > -700) r.eq(Math::E1(x), s * std::exp(-x), "E1, negative argument", 1e-10, 1e-14 * (1 + std::fabs(std::log(-x))) * std::exp(-x));
    }
}
static void intra(Run & r, double a, double b, double m, double rho, double t)
{
    std::string at = "mu1=" + num6(a) + " mu2=" + num6(b) + " muj=" + num6(m) + " density=" + num6(rho) + " thickness=" + num6(t);
    r.note(at); r.step(); r.site("deBoerL0");
    double d = rho * t, got = Math::deBoerL0(a, b, m, rho, t);
    // source above the emitting depth is attenuated by mu2, the emitted line by mu1
    double want = integrate01([=](double u) {
        double k = m / u, p = b, q = a;
        if (std::fabs(k - p) < 1e-6 * (k + p)) { double s = q + k, x = s * d; return (x < 1e-3 ? d * d * (0.5 - x / 3 + x * x / 8) : (1 - std::exp(-x) * (1 + x)) / (s * s)) / u; }
        double x = (k + p + q) * d;
        if (x < 1e-3) return d * d * (0.5 - d * (p + 2 * q + k) / 6) / u;
        return (refx::expint1(p + q, d) - refx::expint1(k + q, d)) / (k - p) / u;
    });
    r.check(got >= 0 && std::isfinite(got), "deBoerL0 finite and not negative", at + " " + num(got));
    if ((a + b) * d < 0.0100001 && got == 0) return;                 // documented: neglected for very thin layers
    bool thick = (a + b) * d > 9.999999;                             // documented: thick target formula
    double near = b == m ? 0 : 3e-16 / std::fabs(1 - b / m) / (b * (a + b));   // the difference of two close attenuations is not more precise
    r.check(Run::close(got, want, thick ? 1e-3 : 1e-6, near + 1e-13 / (a * b)), thick ? "deBoerL0 of a thick layer" : "deBoerL0", at + " " + num(got) + " want " + num(want));
}
static void inter(Run & r, double a2, double b1, double m1, double m2, double d1, double d2, double x, bool above)
{
    std::string at = "p=" + num6(a2) + " q=" + num6(b1) + " d1=" + num6(d1) + " d2=" + num6(d2) + " mu1j=" + num6(m1) + " mu2j=" + num6(m2) + " between=" + num6(x) + (above ? " from above" : " from below");
    r.note(at); r.step(); r.site("deBoerX");
    double want = refx::inter(a2, b1, m1, m2, d1, d2, x, above), got;
    if (above) got = Math::deBoerX(-a2, -b1, d1, d2, m1, m2, x, -a2 * d2);
    else got = Math::deBoerX(a2, b1, d1, d2, m1, m2, x, -b1 * d1);
    double range = above ? a2 * d2 + (m2 + b1) * d1 : (b1 + m2) * d1;
    bool plain = range < 500;                                        // the intermediate terms fit
    // the formula is a difference of four terms of about this size, which limits the precision
    double S = a2 * m1 + b1 * m2, big = (m2 / (a2 * S) * std::log1p(a2 / m2) + m1 / (b1 * S) * (1 + std::fabs(std::log(std::fabs(1 - b1 / m1) + 1e-12)))) + 1 / (a2 * b1);
    if (plain)
    {
        double bare = above ? Math::deBoerX(-a2, -b1, d1, d2, m1, m2, x) * std::exp(-a2 * d2) : Math::deBoerX(a2, b1, d1, d2, m1, m2, x) * std::exp(-b1 * d1);
        r.check(Run::close(bare, want, 1e-6, 1e-12 * big), "deBoerX without exponent", at + " " + num(bare) + " want " + num(want));
    }
    r.check(std::isfinite(got), "deBoerX finite", at + " " + num(got));
    r.check(Run::close(got, want, 1e-6, 1e-12 * big), above ? "deBoerX from above" : "deBoerX from below", at + " " + num(got) + " want " + num(want) + " size " + num6(big));
}
static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(1); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        static const VD mu = {0.5, 3.0, 20.0, 20.0 * (1 + 1e-9), 21.0, 150.0, 4000.0}, mass = {1e-6, 3e-4, 4e-3, 0.03, 0.2, 5.0};
        M.suite("interlayer enhancement", 7 * 7 * 2, [=](Run & r, int job) {
            double a = mu[job % 7], b = mu[job / 7 % 7]; bool above = job / 49;
            inter(r, a, b, mu[r.choose(7)], mu[r.choose(7)], mass[r.choose(6)], mass[r.choose(6)], VD({0, 1e-3, 0.7, 12})[r.choose(T ? 4 : 3)], above);
        });
        static VD dl;
        dl = {1e-7, 1e-4, 3e-3, 0.0099, 0.0101, 0.012, 0.05, 0.3, 1.0, 3.0, 8.0, 9.999, 10.001, 11.0, 25.0, 300.0, 5000.0};
        if (T) { dl.push_back(0.02); dl.push_back(0.1); dl.push_back(5.0); dl.push_back(1e5); }
        M.suite("intralayer enhancement", 13 * 13, [=](Run & r, int job) {
            static const VD m = {0.02, 0.5, 3.0, 19.0, 20.0 * (1 - 1e-9), 20.0, 20.0 * (1 + 1e-9), 21.0, 150.0, 155.0, 900.0, 4000.0, 1e5};
            double a = m[job % 13], b = m[job / 13], j = m[r.choose(13)], x = dl[r.choose((int) dl.size())], rho = VD({1.0, 19.3})[r.choose(2)];
            intra(r, a, b, j, rho, x / (a + b) / rho);
        });
        M.suite("exponential integral", 16, [=](Run & r, int job) {
            VD g = grid(1e-12, 2000, T ? 200 : 40); around(g, 1); around(g, 40); g.push_back(0.5); g.push_back(709); g.push_back(745); g.push_back(1e5); g.push_back(1e9);
            size_t n = g.size() / 8 + 1, i = (job / 2) * n + r.choose((int) n);
            if (i >= g.size()) return;
            double x = job % 2 ? -g[i] : g[i];
            exponential(r, x, T ? 12 : 6);
        });
        M.suite("domain", 1, [=](Run & r, int) {
            r.step(); r.site("domain");
            r.check(throws([] { Math::E1(0); }), "E1(0) is refused");
            for (int n : {0, -1, -7}) r.check(throws([=] { Math::En(n, 1.0); }), "En of order below one is refused", str(n));
            for (int n = 2; n < 9; n++) r.eq(Math::En(n, 0.0), 1.0 / (n - 1), "En(0)", 1e-15);
            double nan = NAN, inf = INFINITY;
            for (int k = 0; k < 3; k++) for (double bad : {-1.0, 0.0, nan, inf}) { double v[3] = {1, 2, 3}; v[k] = bad; r.check(throws([&] { Math::deBoerL0(v[0], v[1], v[2], 1.0, 0.1); }), "deBoerL0 refuses arguments outside its domain", str(k) + " " + num6(bad)); }
            r.check(!Math::isNumber(nan) && Math::isNumber(inf) && Math::isNumber(0) && Math::isNumber(-1e300), "isNumber");
            r.check(!Math::isFiniteNumber(nan) && !Math::isFiniteNumber(inf) && !Math::isFiniteNumber(-inf) && Math::isFiniteNumber(1.7976931348623157e308) && Math::isFiniteNumber(-1.7976931348623157e308) && Math::isFiniteNumber(5e-324) && Math::isFiniteNumber(0), "isFiniteNumber");
        });
        M.suite("error function", 8, [=](Run & r, int job) {
            int n = T ? 4000 : 800, i = job * n + r.choose(n); double x = -8 + 16.0 * i / (8 * n);
            r.note("x = " + num6(x)); r.step(); r.site("erf");
            double e = Math::erf(x), c = Math::erfc(x);
            r.eq(e, std::erf(x), "erf", 0, 1.3e-7); r.eq(c, std::erfc(x), "erfc", 1.3e-7, 0);
            r.eq(e + c, 1.0, "erf + erfc = 1", 1e-14); r.check(std::fabs(e) <= 1 + 1.3e-7 && c >= 0, "within bounds", num(x));
            r.eq(Math::erf(-x), -e, "erf odd", 0, 1.3e-7 * 2);
        });
        M.suite("resolution", 1, [=](Run & r, int) {
            double e = VD({0.0, 0.2, 1.0, 5.9, 17.4, 100})[r.choose(6)], n = VD({0, 0.08, 0.15})[r.choose(3)], f = VD({0.0, 0.1, 0.12})[r.choose(3)], q = VD({0.00385, 0.00296, 0.01})[r.choose(3)];
            r.step(); r.site("FWHM");
            double w = std::sqrt(n * n + std::pow(2.3548, 2) * e * f * q);
            r.eq(Math::getFWHM(e, n, f, q), w, "FWHM", 1e-12, 1e-300);
            if (q == 0.00385) r.eq(Math::getFWHM(e, n, f), w, "FWHM with the default quantum energy", 1e-12, 1e-300);
        });
    });
}
