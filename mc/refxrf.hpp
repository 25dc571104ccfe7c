// Independent fundamental-parameter calculation for a multilayer sample: primary
// rates in closed form, enhancement by integrating over the emission direction.
#pragma once
#include "reflibs.hpp"
#include "fisx_xrf.h"
#include <tuple>
namespace refx {
using ref::get;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;
typedef std::map<std::string, std::map<int, MMD> > Result;
static const double PI = std::acos(-1.0);

struct RLayer {
    MD comp; double rho = 1, t = 1, fill = 1; std::string name;      // name: chemical formula, empty = composition by hand
    RLayer() {}
    RLayer(const std::string & formula, const MD & atoms, double d, double th, double f = 1) : rho(d), t(th), fill(f), name(formula)
    { double s = 0; for (auto & p : atoms) { comp[p.first] = p.second * REF[0]->el.at(p.first).mass; s += comp[p.first]; } for (auto & p : comp) p.second /= s; }
    fisx::Layer layer() const
    {
        fisx::Layer l(name.size() ? name : "unnamed layer", rho, t, fill);
        return l;
    }
};
struct RTable { std::vector<std::pair<double, double> > n;
    double at(double e) const
    {
        if (n.empty()) return 1.0;
        if (e <= n.front().first) return n.front().second;
        if (e >= n.back().first) return n.back().second;
        for (size_t i = 0; i + 1 < n.size(); i++) if (e >= n[i].first && e < n[i + 1].first) return n[i].second + (n[i + 1].second - n[i].second) * (e - n[i].first) / (n[i + 1].first - n[i].first);
        return NAN;
    }
    fisx::TransmissionTable table() const { fisx::TransmissionTable t; std::map<double, double> m; for (auto & p : n) m[p.first] = p.second; t.setTransmissionTable(m); return t; }
};
struct Setup {
    std::vector<std::pair<double, double> > beam;                    // as given: any order, any scale
    std::vector<RLayer> filters, sample, attenuators;
    std::vector<RTable> userFilters, userAttenuators;
    bool hasDetector = false; RLayer detector; double area = 0, distance = 10; bool detectorThickness = true, detectorDensity = true;   // unless it has both it counts everything
    double in = 45, out = 45; int reference = 0;
    std::vector<std::pair<double, double> > rays() const             // normalised, descending energy
    {
        double s = 0; for (auto & p : beam) s += p.second;
        std::vector<std::pair<double, double> > r; for (auto & p : beam) r.push_back(std::make_pair(p.first, s > 0 ? p.second / s : p.second));
        std::sort(r.begin(), r.end()); std::reverse(r.begin(), r.end());
        return r;
    }
    void apply(fisx::XRF & x) const
    {
        VD e, w; for (auto & p : beam) { e.push_back(p.first); w.push_back(p.second); }
        x.setBeam(e, w);
        std::vector<fisx::Layer> f, s, a; for (auto & l : filters) f.push_back(l.layer()); for (auto & l : sample) s.push_back(l.layer()); for (auto & l : attenuators) a.push_back(l.layer());
        std::vector<fisx::TransmissionTable> uf, ua; for (auto & t : userFilters) uf.push_back(t.table()); for (auto & t : userAttenuators) ua.push_back(t.table());
        x.setBeamFilters(f); x.setUserBeamFilters(uf); x.setSample(s, reference); x.setAttenuators(a); x.setUserAttenuators(ua);
        if (hasDetector)
        {
            fisx::Detector d(detector.name, detectorDensity ? detector.rho : -1.0, detectorThickness ? detector.t : -1.0);
            d.setActiveArea(area); d.setDistance(distance);
            x.setDetector(d);
        }
        else { fisx::Detector d; d.setActiveArea(area); d.setDistance(distance); x.setDetector(d); }
        x.setGeometry(in, out, in + out);
    }
};

// ---- memoised element data ---------------------------------------------------
struct Data {
    int lib;
    std::map<std::pair<std::string, double>, MD> mus; std::map<std::pair<std::string, double>, MMD> facs;
    explicit Data(int l = 0) : lib(l) {}
    const MD & muEl(const std::string & s, double e)
    {
        auto k = std::make_pair(s, e); auto i = mus.find(k);
        if (i == mus.end()) { if (mus.size() > 200000) mus.clear(); i = mus.insert(std::make_pair(k, REF[lib]->el.at(s).muAt(e))).first; }
        return i->second;
    }
    double mu(const MD & c, double e, const char * what = "total") { double s = 0; for (auto & p : c) s += p.second * muEl(p.first, e).at(what); return s; }
    const MMD & factors(const std::string & s, double e)
    {
        auto k = std::make_pair(s, e); auto i = facs.find(k);
        if (i == facs.end()) { if (facs.size() > 100000) facs.clear(); i = facs.insert(std::make_pair(k, REF[lib]->el.at(s).factors(e))).first; }
        return i->second;
    }
    double transmission(const RLayer & l, double e, double sine = 1.0) { return (1 - l.fill) + l.fill * std::exp(-mu(l.comp, e) * l.rho * l.t / sine); }
};
inline bool inFamily(const std::string & line, const std::string & f)
{
    if (f == "Ka") return line.compare(0, 2, "KL") == 0;
    if (f == "Kb") return line[0] == 'K' && line[1] != 'L';
    return line.compare(0, f.size(), f) == 0;
}
inline double geometric(const Setup & s, int layer)
{
    if (s.area <= 0) return 1.0;
    double radius2 = s.area / PI, d = s.distance, so = std::sin(s.out * PI / 180);
    for (int i = s.reference; i < layer; i++) d += s.sample[i].t / so;
    for (int i = layer; i < s.reference; i++) d -= s.sample[i].t / so;
    return 0.5 * (1 - d / std::sqrt(d * d + radius2));
}
// (1-exp(-x))/x
inline double phi(double x) { return std::fabs(x) < 1e-12 ? 1.0 : -std::expm1(-x) / x; }

struct Request { std::string element, family; int layer; };

inline double efficiency(Data & D, const Setup & s, int layer, double e, bool solid)
{
    double so = std::sin(s.out * PI / 180), f = 1;
    for (int j = 0; j < layer; j++) f *= D.transmission(s.sample[j], e, so);
    for (auto & a : s.attenuators) f *= D.transmission(a, e);
    for (auto & t : s.userAttenuators) f *= t.at(e);
    if (solid) f *= geometric(s, layer);
    if (s.hasDetector && s.detectorThickness && s.detectorDensity) f *= 1 - D.transmission(s.detector, e);
    return f;
}
inline double beamWeight(Data & D, const Setup & s, double e, double w)
{
    for (auto & f : s.filters) w *= D.transmission(f, e);
    for (auto & t : s.userFilters) w *= t.at(e);
    return w;
}
struct Options { bool solid = false, massFractions = false; int secondary = 0; double limit = 0; };

// integration over (0,1): Gauss-Legendre on pieces graded geometrically towards both ends
inline const std::vector<std::pair<double, double> > & gauss()
{
    static std::vector<std::pair<double, double> > g;
    if (g.empty())
    {
        const int n = 16;
        for (int i = 0; i < n; i++)
        {
            double x = std::cos(PI * (i + 0.75) / (n + 0.5)), dp = 0;
            for (int it = 0; it < 100; it++)
            {
                double p0 = 1, p1 = x; for (int k = 2; k <= n; k++) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
                dp = n * (x * p1 - p0) / (x * x - 1); double dx = p1 / dp; x -= dx; if (std::fabs(dx) < 1e-16) break;
            }
            g.push_back(std::make_pair(x, 2 / ((1 - x * x) * dp * dp)));
        }
    }
    return g;
}
template<class F> double integrate01(F f, int ends = 46, int top = 12)
{
    double s = 0;
    auto piece = [&](double a, double b) { double h = (b - a) / 2, m = (a + b) / 2, q = 0; for (auto & p : gauss()) q += p.second * f(m + h * p.first); return q * h; };
    double b = 0.5;
    for (int k = 0; k < ends; k++) { s += piece(b / 2, b); b /= 2; }
    s += piece(0, b);
    double a = 0.5;
    for (int k = 0; k < top; k++) { double n = k == top - 1 ? 1.0 : a + (1 - a) / 2; s += piece(a, n); a = n; }
    return s;
}
// integral over 0<z<d of exp(-p z) with p of either sign
inline double expint1(double p, double d) { return d * phi(p * d); }
// exp(q) * integral over 0<z<d of exp(-p z) without overflow (q <= 0)
inline double scaled(double p, double d, double q) { return p >= 0 ? std::exp(q) * expint1(p, d) : std::exp(q - p * d) * expint1(-p, d); }

// enhancement inside one layer: a = attenuation of the exciting beam per unit mass depth, b = that of the emitted line, m = of the intermediate photon
inline double intra(double a, double b, double m, double D)
{
    return integrate01([=](double t) {
        double k = m / t;
        // source above the emitting depth: inner integral over source depth u<z of exp(-a u) exp(-k (z-u))
        // closed form of  int_0^D exp(-b z) [exp(-a z)-exp(-k z)]/(k-a) dz, and the mirror image
        auto half = [D, k](double p, double q) {
            // int_0^D dz exp(-q z) int_0^z du exp(-p u) exp(-k (z-u))
            if (std::fabs(k - p) < 1e-7 * k) { double s = q + k; double x = s * D; return x < 1e-4 ? D * D * (0.5 - x / 3) : (1 - std::exp(-x) * (1 + x)) / (s * s); }
            if ((k + p + q) * D < 1e-4) { return D * D / 2 * (1 - D * (p + 2 * q + k) / 3); }
            return (expint1(p + q, D) - expint1(k + q, D)) / (k - p);
        };
        return (half(a, b) + half(b, a)) / t;
    }, 30, 4);
}
// enhancement of a layer (1) by another one (2): optical thickness x between them, source above or below
inline double inter(double a2, double b1, double m1, double m2, double D1, double D2, double x, bool above)
{
    return integrate01([=](double t) {
        double k1 = m1 / t, k2 = m2 / t, q = -x / t;
        // above: source depth from the bottom of 2 is D2-u, receiving depth z from the top of 1
        // below: source depth u from the top of 2, receiving depth from the bottom of 1 is D1-z
        double s = above ? scaled(a2 - k2, D2, -k2 * D2) : expint1(a2 + k2, D2);
        double r = above ? expint1(b1 + k1, D1) : scaled(b1 - k1, D1, -k1 * D1);
        return s * r * std::exp(q) / t;
    }, 30, 6);
}
} // namespace refx
