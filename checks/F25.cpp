// F25: every itemised enhancement term against numerical integration over the
// emission direction, for every set-up of a menu.
#include "mc.hpp"
#include "refxrf.hpp"
using namespace mc;
using namespace refx;
using ref::get;
using fisx::XRF;

static std::vector<std::vector<RLayer> > SAMPLES;
static std::vector<std::vector<std::pair<double, double> > > BEAMS;
static std::vector<std::pair<double, double> > ANGLES = {{45, 45}, {90, 90}, {20, 70}, {80, 8}};
static Data * DD[2];
static void menu()
{
    auto L = [](const std::string & n, const MD & a, double rho, double t) { return RLayer(n, a, rho, t); };
    RLayer steel = L("Cr2Fe6Ni", {{"Cr", 2}, {"Fe", 6}, {"Ni", 1}}, 7.9, 0.001), thick = L("Cr2Fe6Ni", {{"Cr", 2}, {"Fe", 6}, {"Ni", 1}}, 7.9, 0.5), zn = L("ZnS", {{"Zn", 1}, {"S", 1}}, 4.1, 0.0008),
        glass = L("SiO2", {{"Si", 1}, {"O", 2}}, 2.2, 0.003), thin = L("Fe", {{"Fe", 1}}, 7.87, 2e-6), pb = L("PbCa2", {{"Pb", 1}, {"Ca", 2}}, 5.0, 0.0006), air = L("Ar", {{"Ar", 1}}, 0.0018, 0.4), znThick = L("ZnS", {{"Zn", 1}, {"S", 1}}, 4.1, 1.0);
    RLayer lead = L("PbO2", {{"Pb", 1}, {"O", 2}}, 9.4, 0.009);
    SAMPLES = {{steel}, {thick}, {thin, zn}, {steel, glass, zn}, {znThick, steel}, {glass, pb, air, znThick}, {pb, thick}, {zn, thin, zn}, {lead, steel, zn}};
    BEAMS = {{{17.4, 1}}, {{9.9, 1}, {30.0, 2}}, {{7.3, 1}, {60.0, 3}}};
}
static std::string show(const Setup & s, const Options & o)
{
    std::string r = "beam"; for (auto & p : s.beam) r += " " + num6(p.first); r += " sample"; for (auto & l : s.sample) r += " " + l.name + "(" + num6(l.t) + ")";
    return r + " angles " + num6(s.in) + "/" + num6(s.out) + " limit " + num6(o.limit) + (o.massFractions ? " mass fractions" : "");
}
struct Term { double v = 0, tol = 0; bool mayLack = false; };

static void judge(Run & r, int lib, const Setup & s, const std::string & el, const std::string & fam, int layer, const Options & o)
{
    Data & D = *DD[lib];
    XRF x; s.apply(x); r.step(); r.site("secondary"); r.note(el + " " + fam + " in layer " + str(layer) + " " + show(s, o));
    std::string at = el + " " + fam + " layer " + str(layer) + " " + show(s, o), d; int n = 0;
    auto bad = [&](const std::string & m) { if (n++ < 4) d += " " + m + ";"; };
    Result got = x.getMultilayerFluorescence(VS(1, el), *LIB[lib], std::vector<int>(1, layer), VS(1, fam), 1, o.solid, o.massFractions, o.limit);
    Result plain = x.getMultilayerFluorescence(VS(1, el), *LIB[lib], std::vector<int>(1, layer), VS(1, fam), 0, o.solid, o.massFractions);
    const RLayer & L1 = s.sample[layer]; double si = std::sin(s.in * PI / 180), so = std::sin(s.out * PI / 180), D1 = L1.rho * L1.t, scale = o.massFractions ? get(L1.comp, el) : 1.0;
    MMD * g = nullptr, * g0 = nullptr;
    if (got.count(el + " " + fam) && got[el + " " + fam].count(layer)) g = &got[el + " " + fam][layer];
    if (plain.count(el + " " + fam) && plain[el + " " + fam].count(layer)) g0 = &plain[el + " " + fam][layer];
    if (!g || !g0) { r.check(!g && !g0, "lines reported with and without enhancement", at); if (!g && !g0) return; }
    if (!g || !g0) return;
    std::map<std::string, std::map<std::string, Term> > want;
    auto rays = s.rays(); size_t nl = s.sample.size();
    for (auto & ray : rays)
    {
        VD weight(nl), mu(nl); double above = 0;
        for (size_t j = 0; j < nl; j++) { weight[j] = std::exp(-above); mu[j] = D.mu(s.sample[j].comp, ray.first); above += mu[j] * s.sample[j].rho * s.sample[j].t / si; }
        double w = beamWeight(D, s, ray.first, ray.second);
        for (size_t j = 0; j < nl; j++)
        {
            const RLayer & L2 = s.sample[j]; double D2 = L2.rho * L2.t;
            struct Src { std::string name; double e, rate; };
            std::vector<Src> src;
            for (auto & c : L2.comp) for (auto & l : D.factors(c.first, ray.first))
            {
                double rate = l.second.at("rate");
                if (rate * c.second <= 0 || (o.limit > 0 && rate < o.limit)) continue;
                src.push_back({c.first + " " + l.first, l.second.at("energy"), rate * c.second});
            }
            src.push_back({"coherent scattering", ray.first, D.mu(L2.comp, ray.first, "coherent")});
            for (auto & q : src)
            {
                if (q.e <= 0.05) continue;
                const MMD & f = D.factors(el, q.e);
                for (auto & line : *g)
                {
                    if (line.first.find("esc") != std::string::npos) continue;
                    auto it = f.find(line.first); if (it == f.end() || it->second.at("rate") <= 0) continue;
                    // this ray must be able to excite the line itself
                    const MMD & direct = D.factors(el, ray.first); auto dt = direct.find(line.first); if (dt == direct.end() || dt->second.at("rate") <= 0) continue;
                    double le = it->second.at("energy"), a = mu[layer] / si, b = D.mu(L1.comp, le) / so, m1 = D.mu(L1.comp, q.e), v, tol = 2e-5, abs;
                    Term & t = want[line.first][q.name + " " + (j < 10 ? "0" : "") + std::to_string(j)];
                    bool lack = false;
                    if ((int) j == layer)
                    {
                        v = intra(a, b, m1, D1); lack = (a + b) * D1 < 0.0101;
                        if ((a + b) * D1 > 9.99) tol = 1e-3;
                        abs = 1e-12 / (a * b);
                    }
                    else
                    {
                        double a2 = mu[j] / si, m2 = D.mu(L2.comp, q.e), x = 0;
                        for (int k = std::min<int>(j, layer) + 1; k < std::max<int>(j, layer); k++) x += s.sample[k].rho * s.sample[k].t * D.mu(s.sample[k].comp, q.e);
                        bool up = (int) j < layer;
                        if (s.in > 89.9) tol += 2e-5 * std::min(a2 * D2, 30.0);               // the code avoids a singularity by 0.99999 of the sine
                        v = inter(a2, b, m1, m2, D1, D2, x, up);
                        lack = weight[j] / weight[layer] < 1.01e-4 || (!up && std::exp(-std::min(b, m1) * D1) < 0.00101);
                        double S = a2 * m1 + b * m2, big = m2 / (a2 * S) * std::log1p(a2 / m2) + m1 / (b * S) * (1 + std::fabs(std::log(std::fabs(1 - b / m1) + 1e-12))) + 1 / (a2 * b);
                        abs = 1e-12 * big;
                    }
                    double k = scale * 0.5 / si * q.rate * w * weight[j] * it->second.at("rate");
                    t.v += k * v; t.tol += k * (v * tol + abs); if (lack) { t.mayLack = true; t.tol += k * v; }
                }
            }
        }
    }
    std::set<std::string> fixed = {"energy", "efficiency", "energy_threshold", "mu_1_i", "rate", "primary", "secondary", "massFraction"};
    for (auto & line : *g)
    {
        if (line.first.find("esc") != std::string::npos) continue;
        auto & h = line.second; double sum = 0, total = 0, ttol = 0;
        for (auto & t : want[line.first]) { total += t.second.v; ttol += t.second.tol; }
        for (auto & t : want[line.first])
        {
            auto i = h.find(t.first); double v = i == h.end() ? 0 : i->second;
            if (!(std::fabs(v - t.second.v) <= t.second.tol + 1e-12 * total + 1e-300)) bad(line.first + " by " + t.first + "=" + num(v) + " want " + num(t.second.v) + (t.second.mayLack ? " (or none)" : ""));
        }
        for (auto & i : h)
        {
            if (fixed.count(i.first)) continue;
            sum += i.second;
            if (!(i.second >= -1e-12 * total)) bad(line.first + " by " + i.first + " negative " + num(i.second));
            if (!want[line.first].count(i.first) && i.second != 0) bad(line.first + " enhanced by " + i.first + " which cannot excite it: " + num(i.second));
        }
        if (!(std::fabs(get(h, "secondary") - total) <= ttol + 1e-10 * total)) bad(line.first + " secondary=" + num(get(h, "secondary")) + " want " + num(total));
        if (!Run::close(get(h, "secondary"), sum, 1e-10, 1e-300)) bad(line.first + " secondary " + num(get(h, "secondary")) + " is not the sum of its terms " + num(sum));
        if (!g0->count(line.first)) { bad(line.first + " only with enhancement"); continue; }
        auto & p = g0->at(line.first);
        for (auto key : {"primary", "energy", "efficiency", "mu_1_i", "massFraction"}) if (get(h, key) != get(p, key)) bad(line.first + " " + key + " changed by the enhancement " + num(get(h, key)) + " was " + num(get(p, key)));
        double loss = get(p, "rate") > 0 ? get(p, "rate") / (get(p, "efficiency") * get(p, "primary")) : 1;
        if (get(p, "rate") > 0 && !Run::close(get(h, "rate"), loss * get(h, "efficiency") * (get(h, "primary") + get(h, "secondary")), 1e-9, 1e-300)) bad(line.first + " rate");
    }
    for (auto & line : *g0) if (!g->count(line.first)) bad(line.first + " lost with enhancement");
    r.check(d.empty(), "enhancement", d.empty() ? d : at + ":" + d);
}
static Main M;
int main(int argc, char ** argv)
{
    M.init = [] { initLibraries(2); menu(); DD[0] = new Data(0); DD[1] = new Data(1); };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.suite("set-ups", 9 * 3 * 4, [=](Run & r, int job) {
            Setup s; s.sample = SAMPLES[job % 9]; s.beam = BEAMS[job / 9 % 3]; auto a = ANGLES[job / 27]; s.in = a.first; s.out = a.second;
            int layer = r.choose((int) s.sample.size()), q = r.choose(T ? 9 : 5), mode = T ? (int) r.choose(4) : (job + q) % 4;
            static const std::vector<std::pair<std::string, std::string> > Q = {{"Fe", "K"}, {"Cr", "Ka"}, {"Ca", "K"}, {"S", "K"}, {"Pb", "L3"}, {"Si", "K"}, {"Pb", "M"}, {"Ni", "Kb"}, {"Fe", "L"}};
            Options o; o.massFractions = mode & 1; o.limit = mode == 2 ? 1.0 : 0;
            if (o.massFractions && get(s.sample[layer].comp, Q[q].first) == 0) o.massFractions = false;
            if (mode == 3) s.attenuators = {RLayer("Al", {{"Al", 1}}, 2.7, 0.002)};
            judge(r, mode == 3 ? 1 : 0, s, Q[q].first, Q[q].second, layer, o);
        });
        // samples of many layers
        M.suite("many layers", T ? 14 : 12, [=](Run & r, int job) {
            Setup s; s.in = 45; s.out = 30; s.beam = {{17.4, 1}}; int n = T ? 14 : 12;
            static const std::vector<std::pair<std::string, double> > K = {{"Cr", 7.2}, {"Zn", 7.1}, {"Fe", 7.9}, {"Ni", 8.9}};
            for (int i = 0; i < n; i++) s.sample.push_back(RLayer(K[(i * i + i / 3) % 4].first, {{K[(i * i + i / 3) % 4].first, 1}}, K[(i * i + i / 3) % 4].second, 2e-5 * (1 + i % 3)));
            Options o; o.limit = r.flip() ? 1.0 : 0; judge(r, 0, s, s.sample[job].name, "K", job, o);
        });
        // every element next to every other one
        M.suite("pairs of elements", 98, [=](Run & r, int job) {
            int other = r.choose(98); std::string a = ref::TABLE[job].symbol, b = ref::TABLE[other].symbol; if (a == b || (!T && (a[0] != b[0] || a.size() == b.size()) && (job * 7 + other) % 8)) return;
            int z = job + 1, mode = (job + b.size() + b[0]) % 3;
            Setup s; s.in = 40; s.out = 50; s.beam = {{mode == 1 ? 110.0 : 45.0, 1}};
            s.sample = {RLayer(a + b, {{a, 1}, {b, 1}}, 3.0, mode == 2 ? 0.05 : 0.001)};
            Options o; judge(r, 0, s, a, z < 40 ? "K" : z % 2 ? "L" : mode ? "M" : "K", 0, o);
        });
    });
}
