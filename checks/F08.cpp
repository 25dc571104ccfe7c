// F08: material registry and recursive resolution of compositions, against a
// map-based model.
#include "mc.hpp"
#include "reflibs.hpp"
#include <functional>
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::vector<std::string> VS;

static MD FORMULA(const std::string & n)
{
    static std::map<std::string, MD> F;
    if (F.empty())
    {
        std::map<std::string, double> m; for (auto & t : ref::TABLE) m[t.symbol] = t.mass;
        auto put = [&](const char * k, MD a) { double s = 0; for (auto & p : a) s += p.second * m[p.first]; for (auto & p : a) F[k][p.first] = p.second * m[p.first] / s; };
        put("Fe", {{"Fe", 1}}); put("Cr", {{"Cr", 1}}); put("Al", {{"Al", 1}}); put("H2O", {{"H", 2}, {"O", 1}});
        put("SiO2", {{"Si", 1}, {"O", 2}}); put("Fe2O3", {{"Fe", 2}, {"O", 3}});
    }
    auto i = F.find(n); return i == F.end() ? MD() : i->second;
}
struct Mat { MD comp; double density = 1, thickness = 1; std::string comment; };
typedef std::map<std::string, Mat> Reg;
static MD norm(MD c) { MD r; double s = 0; for (auto & p : c) s += p.second; if (s > 0) for (auto & p : c) if (p.second > 0) r[p.first] = p.second / s; return r; }

// composition by the model; empty = no answer (unknown, circular or undefined)
static MD resolve(const Reg & R, const Reg * add, const std::string & n, VS path, bool & mixed, bool inRegistry = false)
{
    MD f = FORMULA(n);
    if (f.size()) return f;
    if (add && inRegistry && add->count(n)) mixed = true;
    for (auto & p : path) if (p == n) return MD();
    const Mat * m = nullptr;
    if (add) { auto i = add->find(n); if (i != add->end()) { m = &i->second; if (inRegistry) mixed = true; } }
    bool reg = inRegistry;
    if (!m) { auto i = R.find(n); if (i == R.end()) return MD(); m = &i->second; reg = true; }
    MD r; path.push_back(n);
    for (auto & c : m->comp)
    {
        MD k = resolve(R, add, c.first, path, mixed, reg);
        if (k.empty()) return MD();
        for (auto & p : k) r[p.first] += p.second * c.second;
    }
    return r;
}
static bool same(const MD & got, const MD & want, std::string & d)
{
    double sum = 0;
    for (auto & p : want) if (!Run::close(ref::get(got, p.first), p.second, 1e-9, 1e-12)) d += " " + p.first + "=" + num(ref::get(got, p.first)) + " want " + num(p.second);
    for (auto & p : got) { sum += p.second; if (!want.count(p.first) && p.second != 0) d += " extra " + p.first; if (p.second != p.second) d += " nan"; }
    if (got.size() && !Run::close(sum, 1, 1e-9, 0)) d += " sum " + num(sum);
    return d.empty();
}

static const VS NAMES = {"M1", "M2", "alloy", "Fe"};       // Fe collides with the element
static const VS QUERY = {"M1", "M2", "alloy", "Fe", "H2O", "Nope", "SiO2", ""};
static const std::vector<MD> COMP = {
    {{"Fe", 0.7}, {"Cr", 0.3}}, {{"M2", 2.0}}, {{"M1", 1.0}, {"SiO2", 3.0}}, {{"M2", 1.0}, {"alloy", 1.0}},
    {{"Nope", 1.0}}, {{"H2O", 1.0}, {"Fe", 1.0}, {"M2", 2.0}}, {{"Al", 5.0}}};

static void observe(Run & r, Elements & L, const Reg & R)
{
    VS n = L.getMaterialNames(); std::sort(n.begin(), n.end());
    VS w; for (auto & p : R) w.push_back(p.first);
    r.check(n == w, "names", [&] { std::string s; for (auto & x : n) s += x + ","; s += " want "; for (auto & x : w) s += x + ","; return s; }());
    for (auto & p : R)
    {
        std::string d;
        if (throws([&] { Material m = L.getMaterialCopy(p.first); if (m.getName() != p.first) d += " name " + m.getName();
            MD c = m.getComposition(); if (p.second.comp.empty() != c.empty()) d += " emptiness"; same(c, p.second.comp, d);
            if (m.getDefaultDensity() != p.second.density) d += " density " + num(m.getDefaultDensity());
            if (m.getDefaultThickness() != p.second.thickness) d += " thickness " + num(m.getDefaultThickness());
            if (m.getComment() != p.second.comment) d += " comment " + m.getComment(); 
            const Material & q = L.getMaterial(p.first); if (q.getName() != p.first) d += " reference to another"; })) d += " threw";
        r.check(d.empty(), "stored material", p.first + d);
    }
    for (auto & q : QUERY)
    {
        bool mixed = false;
        MD want = resolve(R, nullptr, q, VS(), mixed), got;
        std::string d;
        bool th = throws([&] { got = L.getComposition(q); });
        if (want.empty()) { r.check(th || got.empty(), "composition of a name without one", "'" + q + "'"); }
        else r.check(!th && same(got, want, d), "composition", q + (th ? " threw" : d));
        if (!R.count(q))
        {
            r.check(throws([&] { L.getMaterialCopy(q); }) && throws([&] { L.getMaterial(q); }), "material that is not there", q);
        }
    }
    std::string s; for (auto & p : R) { s += p.first + ":"; for (auto & c : p.second.comp) s += c.first + num(c.second); s += "/" + num(p.second.density) + p.second.comment + ";"; }
    r.state(s);
}

struct Op { std::string name; std::function<bool(Elements &)> real; std::function<bool(Reg &)> model; };
static std::vector<Op> OPS;
static void define()
{
    auto add = [](const std::string & n, std::function<bool(Elements &)> f, std::function<bool(Reg &)> m) { OPS.push_back({n, f, m}); };
    for (auto & n : NAMES) for (size_t c = 0; c < COMP.size(); c++) for (int err = 0; err < 2; err++)
    {
        if (err && c % 3) continue;
        if (n == "Fe" && c > 1) continue;
        add("add(" + n + ", comp" + std::to_string(c) + (err ? ", strict)" : ", replace)"),
            [=](Elements & L) { Material m(n, 1.0 + c, 0.1 * (c + 1), "c" + std::to_string(c)); m.setComposition(COMP[c]); return throws([&] { L.addMaterial(m, err); }); },
            [=](Reg & R) { if (err && R.count(n)) return true; Mat m; m.comp = norm(COMP[c]); m.density = 1.0 + c; m.thickness = 0.1 * (c + 1); m.comment = "c" + std::to_string(c); R[n] = m; return false; });
    }
    for (auto & n : NAMES) for (int err = 0; err < 2; err++)
        add("define(" + n + (err ? ", strict)" : ", replace)"),
            [=](Elements & L) { return throws([&] { L.addMaterial(n, 7.5, 0.25, "new", err); }); },
            [=](Reg & R) { if (err && R.count(n)) return true; Mat m; m.density = 7.5; m.thickness = 0.25; m.comment = "new"; m.comp = FORMULA(n); R[n] = m; return false; });
    add("define('')", [](Elements & L) { return throws([&] { L.addMaterial("", 7.5, 0.25, "new", 0); }); }, [](Reg &) { return true; });
    for (auto & n : NAMES) for (int c : {0, 3, 5}) for (int v = 0; v < 2; v++)
        add("compose(" + n + ", comp" + std::to_string(c) + (v ? ", lists)" : ", map)"),
            [=](Elements & L) { VS k; std::vector<double> a; for (auto & p : COMP[c]) { k.push_back(p.first); a.push_back(p.second); }
                return throws([&] { if (v) L.setMaterialComposition(n, k, a); else L.setMaterialComposition(n, COMP[c]); }); },
            [=](Reg & R) { if (!R.count(n)) return true; R[n].comp = norm(COMP[c]); return false; });
    for (auto & n : NAMES) for (int v = 0; v < 2; v++)
        add("compose(" + n + (v ? ", one amount missing)" : ", negative amount)"),
            [=](Elements & L) { return throws([&] { if (v) L.setMaterialComposition(n, {"Fe", "Al"}, std::vector<double>(1, 1.0)); else L.setMaterialComposition(n, MD{{"Al", -1.0}, {"Fe", 1.5}}); }); },
            [](Reg &) { return true; });
    for (auto & n : NAMES)
        add("remove(" + n + ")", [=](Elements & L) { return throws([&] { L.removeMaterial(n); }); }, [=](Reg & R) { return R.erase(n) == 0; });
    add("remove all", [](Elements & L) { return throws([&] { L.removeMaterials(); }); }, [](Reg & R) { R.clear(); return false; });
    add("create without adding", [](Elements & L) { return throws([&] { Material m = L.createMaterial("alloy", 3.0, 4.0, "x"); m.setComposition(COMP[0]); }); }, [](Reg &) { return false; });
    add("alter a copy", [](Elements & L) { throws([&] { Material m = L.getMaterialCopy("M1"); m.setComposition(COMP[6]); m.setName("zz"); }); return false; }, [](Reg &) { return false; });
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] { initLibraries(1); };
    define();
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        // histories of registry operations, everything looked up after every step
        int depth = T ? 4 : 3; int nops = (int) OPS.size();
        M.suite("histories", nops * nops, [=](Run & r, int job) {
            Elements & L = *LIB[0]; L.removeMaterials(); Reg R;
            for (int i = 0; i < depth; i++)
            {
                int k = i == 0 ? job / nops : i == 1 ? job % nops : r.choose(nops);
                r.op(OPS[k].name);
                bool th = OPS[k].real(L), want = OPS[k].model(R);
                r.check(th == want, std::string(want ? "accepted: " : "refused: ") + OPS[k].name);
                if (i >= 1) observe(r, L, R);
            }
            L.removeMaterials();
        });
        // definitions that refer to each other in every way, with and without materials handed over with the question
        M.suite("references", 256, [=](Run & r, int job) {
            Elements & L = *LIB[0]; L.removeMaterials(); Reg R, A; std::vector<Material> add;
            static const std::vector<MD> C = {
                {}, {{"Fe", 1}}, {{"H2O", 0.25}, {"M1", 0.75}}, {{"M2", 1}, {"Cr", 1}}, {{"M3", 1}, {"Al", 4}}, {{"M1", 1}, {"M2", 2}, {"M3", 1}}, {{"M2", 1}, {"M3", 1}}, {{"SiO2", 1}, {"zz", 1}}};
            int c[6] = {job % 8, job / 8 % 8, r.choose(8), job / 64, r.choose(3), 0};
            for (int i = 0; i < 3; i++)
            {
                std::string n = "M" + std::to_string(i + 1); Mat m; m.comp = norm(C[c[i]]);
                if (c[i] == 0) continue;
                R[n] = m; Material x(n); x.setComposition(C[c[i]]); L.addMaterial(x);
            }
            // additional materials
            static const std::vector<std::pair<std::string, int> > AD = {{"", 0}, {"M3", 1}, {"zz", 1}, {"M2", 2}};
            static const std::vector<std::pair<std::string, int> > AD2 = {{"", 0}, {"M1", 7}, {"extra", 5}};
            for (auto p : {AD[c[3]], AD2[c[4]]})
            {
                if (p.first.empty()) continue;
                Material x(p.first); x.setComposition(C[p.second]); add.push_back(x); Mat m; m.comp = norm(C[p.second]); A[p.first] = m;
            }
            r.note("M1=" + std::to_string(c[0]) + " M2=" + std::to_string(c[1]) + " M3=" + std::to_string(c[2]) + " handed over " + std::to_string(c[3]) + "," + std::to_string(c[4]));
            r.step(); r.site("references");
            for (auto & q : VS{"M1", "M2", "M3", "zz", "extra", "Fe", "SiO2"})
            {
                bool mixed = false; MD want = resolve(R, add.size() ? &A : nullptr, q, VS(), mixed), got; std::string d;
                bool th = throws([&] { got = L.getComposition(q, add); });
                if (!mixed)
                {
                    if (want.empty()) r.check(th || got.empty(), "handed over:no composition", q);
                    else r.check(!th && same(got, want, d), "handed over:composition", q + (th ? " threw" : d));
                }
                // as the only component, and mixed with a formula
                MD w2; bool m2 = false; MD fe = resolve(R, add.size() ? &A : nullptr, "Fe2O3", VS(), m2);
                if (want.size()) { for (auto & p : want) w2[p.first] += p.second * 3.0 / 4.0; for (auto & p : fe) w2[p.first] += p.second / 4.0; }
                th = throws([&] { got = L.getComposition(MD{{q, 6.0}, {"Fe2O3", 2.0}}, add); }); d.clear();
                if (!mixed)
                {
                    if (want.empty()) r.check(th || got.empty(), "mixture:no composition", q);
                    else r.check(!th && same(got, w2, d), "mixture:composition", q + (th ? " threw" : d));
                }
                if (add.empty())
                {
                    // the attenuation of a material is answered exactly when it has a composition
                    std::map<std::string, double> mu; th = throws([&] { mu = L.getMassAttenuationCoefficients(q, 20.0); });
                    r.check(want.empty() == (th || mu.empty() || !(mu["total"] > 0)), "attenuation available", q);
                }
            }
            VS n = L.getMaterialNames(); r.check(n.size() == R.size(), "asking changed the registry");
            L.removeMaterials();
        });
        M.suite("chains", 40, [=](Run & r, int job) {
            // chains of definitions of every length, open or closed into a ring
            Elements & L = *LIB[0]; L.removeMaterials(); int n = 1 + job; int close = r.choose(4);
            r.note(std::to_string(n) + " links, end " + std::to_string(close)); r.step();
            for (int i = 0; i < n; i++)
            {
                Material m("chain" + std::to_string(i)); MD c; c["Fe"] = 0.5;
                std::string next = i + 1 < n ? "chain" + std::to_string(i + 1) : close == 0 ? "Cr" : close == 1 ? "chain0" : close == 2 ? "chain" + std::to_string(n / 2) : "none";
                c[next] += 0.5; m.setComposition(c); L.addMaterial(m);
            }
            MD got; bool th = throws([&] { got = L.getComposition("chain0"); }); std::string d;
            if (close == 0) { MD w; w["Fe"] = 1 - std::pow(0.5, n); w["Cr"] = std::pow(0.5, n); r.check(!th && same(got, w, d), "chain", d); }
            else r.check(th || got.empty(), "unresolvable chain");
            L.removeMaterials();
        });
    });
}
