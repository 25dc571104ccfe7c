// F10: attenuation of elements against an independent interpolation of the same
// tables: every element of the library at every node, edge and gap, and every
// small table with every edge position.
#include "mc.hpp"
#include "ref.hpp"
#include "fisx_elements.h"
#include "fisx_epdl97.h"
#include "newtable.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::vector<double> VD;
typedef std::map<std::string, VD> MV;

static const char * PROC[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other", "photoelectric", "coherent", "compton", "pair", "total"};
static std::string D;
static ref::Library * R0 = nullptr, * RB = nullptr;
static Elements * LW = nullptr;           // to be changed
static Elements * L0 = nullptr, * LB = nullptr, * LP = nullptr;
static EPDL97 * EP = nullptr;

static void compare(Run & r, MD got, const MD & want, const std::string & w, const std::string & at, double rtol = 1e-8, bool scattering = true)
{
    double t = ref::get(want, "total");
    for (auto & k : PROC)
    {
        if (!scattering && (k[0] == 'c' || k == std::string("pair") || k == std::string("total"))) continue;
        r.check(got.count(k), w + ":missing " + k);
        r.check(Run::close(got[k], want.at(k), rtol, 1e-13 * t), w + ":" + k, at + " got " + num(got[k]) + " want " + num(want.at(k)));
    }
}
static void consistent(Run & r, MD got, const MD & binding, double e, const std::string & w, const std::string & at)
{
    double ph = 0;
    for (int i = 0; i < 10; i++)
    {
        ph += got[PROC[i]];
        double b = ref::get(binding, PROC[i]);
        if (i < 9 && (b <= 0 || e < b)) r.check(got[PROC[i]] == 0.0, w + ":subshell excited below its edge", at + " " + PROC[i]);
        r.check(got[PROC[i]] >= 0.0, w + ":negative coefficient", at);
    }
    r.eq(got["photoelectric"], ph, w + ":sum of subshells", 1e-12);
    r.eq(got["total"], ph + got["coherent"] + got["compton"] + got["pair"], w + ":sum of processes", 1e-12);
    r.check(std::isfinite(got["total"]), w + ":not finite", at);
}
// scalar, vector in several orders, and again: the same numbers
static void forms(Run & r, const Element & e, const VD & q, const std::string & w)
{
    std::vector<VD> orders; orders.push_back(q); orders.push_back(VD(q.rbegin(), q.rend()));
    VD s; for (size_t k = 0; k < 3; k++) for (size_t i = k; i < q.size(); i += 3) s.push_back(q[i]);
    s.push_back(q[0]); s.push_back(q[0]); orders.push_back(s);
    for (auto & o : orders)
    {
        MV v = e.getMassAttenuationCoefficients(o);
        r.check(v["energy"] == o, w + ":vector energies");
        for (size_t i = 0; i < o.size(); i++)
        {
            MD m = e.getMassAttenuationCoefficients(o[i]);
            for (auto & k : PROC) { r.check(v[k].size() == o.size(), w + ":vector size"); r.check(v[k][i] == m[k], w + ":vector differs from scalar", std::string(k) + " at " + num(o[i])); }
        }
    }
    for (double x : q)
    {
        MD m = e.getMassAttenuationCoefficients(x), p = e.getPartialPhotoelectricMassAttenuationCoefficients(x);
        for (int i = 0; i < 10; i++) r.check(p[PROC[i]] == m[PROC[i]], w + ":partial query differs", PROC[i]);
    }
}
static VD queries(const VD & nodes, const MD & binding)
{
    std::set<double> q;
    for (size_t i = 0; i < nodes.size(); i++)
    {
        q.insert(nodes[i]);
        if (i + 1 < nodes.size() && nodes[i + 1] > nodes[i]) { q.insert(std::sqrt(nodes[i] * nodes[i + 1])); q.insert(nodes[i] + 0.9 * (nodes[i + 1] - nodes[i])); }
    }
    for (auto & b : binding) if (b.second > 0) { q.insert(b.second); q.insert(b.second * (1 + 1e-4)); q.insert(b.second * (1 - 1e-4)); q.insert(b.second * 1.02); q.insert(b.second * 0.98); }
    q.insert(nodes.front() * 0.5); q.insert(nodes.back() * 1.5);
    return VD(q.begin(), q.end());
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] {
        D = getenv("FISX_MC_DATA");
        R0 = new ref::Library(); R0->load(D);
        RB = new ref::Library(); RB->bindings(D + "/BindingEnergies.dat"); RB->crossSections(D + "/EPDL97_CrossSections.dat");
        L0 = new Elements(D); LW = new Elements(*L0); LB = new Elements(D, D + "/BindingEnergies.dat"); LP = new Elements(D, 1);
        EP = new EPDL97(D);
    };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.assumptions.push_back("EPDL97_CrossSections.dat is not part of the repository: a synthetic file with the same layout stands in for it");
        M.suite("library", 109 * 3, [](Run & r, int job) {
            int which = job % 3;
            Elements & L = which == 0 ? *L0 : which == 1 ? *LB : *LP;
            const ref::Element & e = (which == 0 ? R0 : RB)->el[R0->order[job / 3]];
            std::string w = which == 0 ? "default" : which == 1 ? "other binding energies" : "PyMca";
            const Element & x = L.getElement(e.name);
            MV t = x.getMassAttenuationCoefficients();
            VD q = queries(which == 2 ? t["energy"] : e.muE, e.binding);
            r.op(e.name + " of " + w + ", " + str(q.size()) + " energies");
            for (double E : q)
            {
                r.step();
                std::string at = e.name + " at " + num(E);
                MD got = x.getMassAttenuationCoefficients(E);
                r.eq(got["energy"], E, w + ":energy", 0, 0);
                consistent(r, got, e.binding, E, w, at);
                if (which < 2) compare(r, got, e.muAt(E), w, at);
                else
                {
                    for (auto & k : {"coherent", "compton", "pair"})
                    { ref::Curve c; c.x = t["energy"]; c.y = t[k]; r.eq(got[k], c.plain(E), w + ":" + k, 1e-9); }
                }
                MD g2 = L.getMassAttenuationCoefficients(e.name, E);
                for (auto & k : {"coherent", "compton", "pair", "photoelectric", "total"})
                    r.eq(g2[k], got[k], w + ":library query " + k, 1e-12);
                if (which == 0)
                {
                    MD g = EP->getMassAttenuationCoefficients(e.z, E); g["pair"] = g["pair"];
                    // the raw tables keep both points of a repeated energy apart, the element separates them by 1e-6
                    bool node = false; for (auto & b : e.binding) if (b.second > 0 && E >= b.second && E <= b.second * 1.001) node = true;
                    if (!node || E == e.muE.front()) compare(r, g, e.muAt(E), "EPDL97", at, 3e-4);
                    consistent(r, g, EP->getBindingEnergies(e.z), E, "EPDL97", at);
                    MD p = EP->getPhotoelectricWeights(e.z, E);
                    double ph = g["photoelectric"];
                    for (int i = 0; i < 10; i++)
                        if (p.count(PROC[i])) r.eq(p[PROC[i]], ph > 0 ? g[PROC[i]] / ph : 0.0, "EPDL97:photoelectric weight", 1e-12);
                }
            }
            // monotonic in the gaps, the partial of the shell steps up at its edge
            if (which < 2) forms(r, x, q, w);
            if (which == 0)
            {
                MV v = EP->getMassAttenuationCoefficients(e.z, q);
                for (size_t i = 0; i < q.size(); i++) { MD m = EP->getMassAttenuationCoefficients(e.z, q[i]); for (auto & k : PROC) r.check(v[k].size() == q.size() && v[k][i] == m[k], "EPDL97:vector differs from scalar"); }
            }
            r.state(w + e.name);
        });
        // the raw tables with binding energies of the user's own: every edge moved by every factor, the query on the edge itself
        M.suite("own binding energies", 109, [](Run & r, int job) {
            const ref::Element & e = R0->el[R0->order[job]];
            if (e.z > 100) return;
            MV raw = EP->getMassAttenuationCoefficients(e.z);
            const VD & x = raw["energy"];
            MD orig = EP->getBindingEnergies(e.z), moved = orig;
            static const VD factor = {1.0, 0.97, 1.03, 1.25, 0.8, 0.0};
            double f = factor[r.choose(factor.size())];
            int alternate = r.choose(2);                    // all edges alike, or every second one as it was
            int n = 0; for (auto & b : moved) if (!alternate || n++ % 2) b.second *= f;
            EP->setBindingEnergies(e.z, moved);
            r.op("edges of " + e.name + (alternate ? " (every second)" : "") + " times " + num6(f));
            MD back = EP->getBindingEnergies(e.z);
            for (auto & b : moved) r.eq(ref::get(back, b.first), b.second, "own binding energies:stored", 0, 0);
            std::set<double> q;
            for (auto * s : {&orig, &moved}) for (auto & b : *s) if (b.second > 0.0011) for (double x : {1.0, 1 + 1e-9, 1 - 1e-9, 1 + 2e-3, 1 - 2e-3, 1.05, 0.95}) q.insert(b.second * x);
            for (double E : q)
            {
                r.step();
                std::string at = e.name + " at " + num(E) + " edges times " + num6(f);
                MD g = EP->getMassAttenuationCoefficients(e.z, E); g["pair"] = g["pair"];
                consistent(r, g, moved, E, "own binding energies", at);
                // the excited subshell: interpolated, and extrapolated from its first two entries below where the table begins
                size_t i1 = 0; bool node = false;
                for (size_t i = 0; i < x.size(); i++) { if (x[i] < E) i1 = i; if (std::fabs(E - x[i]) <= x[i] * 1e-8) node = true; }
                if (!node && E > x.front() && E < x.back()) for (int i = 0; i < 9; i++)
                {
                    double b = ref::get(moved, PROC[i]); if (b <= 0 || E < b) continue;
                    const VD & y = raw[PROC[i]];
                    size_t k = i1; while (k < y.size() && y[k] <= 0) k++;
                    double want = 0;
                    if (k + 1 < y.size() && y[k + 1] > 0) want = y[k] * std::pow(y[k + 1] / y[k], std::log(E / x[k]) / std::log(x[k + 1] / x[k]));
                    r.check(Run::close(g[PROC[i]], want, 1e-8, 1e-13 * g["total"]), "own binding energies:value", at + " " + PROC[i] + " got " + num(g[PROC[i]]) + " want " + num(want));
                }
                for (int i = 0; i < 9; i++)
                {
                    double b = ref::get(moved, PROC[i]);
                    // excited at the edge itself as much as right above it
                    if (b > 0 && E == b && b >= 0.0011) { MD a = EP->getMassAttenuationCoefficients(e.z, E * (1 + 1e-9)); r.check((g[PROC[i]] > 0) == (a[PROC[i]] > 0), "own binding energies:at the edge", at + " " + PROC[i]); }
                }
                MD p = EP->getPhotoelectricWeights(e.z, E);
                for (int i = 0; i < 10; i++) if (p.count(PROC[i])) r.eq(p[PROC[i]], g["photoelectric"] > 0 ? g[PROC[i]] / g["photoelectric"] : 0.0, "own binding energies:photoelectric weight", 1e-12);
            }
            EP->setBindingEnergies(e.z, orig);
            r.state(r.log);
        });
        // a table of the user's own put into the library: every element, its edges shifted against the binding energies
        M.suite("library tables", 109, [T](Run & r, int job) {
            const ref::Element & e = R0->el[R0->order[job]];
            static const VD shift = {0.0, 0.004, -0.004, 0.06, -0.06, 0.099, -0.099, 0.2, -0.2, -0.0015};
            const VD start = {0.0005, 1.0, 2.9, 30.0, 0.5 * (e.muE[0] + e.muE[1])};
            double sh = shift[r.choose(shift.size())], from = start[r.choose(start.size())];
            int edges = r.choose(4), pair = T ? r.choose(2) : (job + edges) & 1;       // all the edges, none, the highest one only, all and every second one exact
            std::vector<double> eb; for (auto & s : ref::SHELLS()) if (ref::get(e.binding, s) + std::min(sh, 0.0) > 0.001) eb.push_back(ref::get(e.binding, s) + sh);
            if (edges == 3) { eb.clear(); int c = 0; for (auto & s : ref::SHELLS()) { double b = ref::get(e.binding, s) + (++c % 2 ? 0.0 : sh); if (ref::get(e.binding, s) > 0 && b > 0.001) eb.push_back(b); } }
            std::sort(eb.begin(), eb.end()); eb.erase(std::unique(eb.begin(), eb.end()), eb.end());
            if (edges == 1) eb.clear();
            if (edges == 2 && eb.size()) eb.assign(1, eb.back());
            std::vector<Xrow> X;
            auto value = [&](double x, bool above) {
                double f = 50; for (double b : eb) if (x > b || (x == b && above)) f *= 3;
                Xrow w; w.e = x; w.photo = f * std::pow(x, -2.7) * (1 + e.z); w.coh = 3.0 / x; w.com = 0.2 / (1 + 0.01 * x); w.pair = pair ? 1e-4 * x : 0.0; X.push_back(w); };
            double last = 0;
            for (double x = from; x < 120; x *= 1.31)
            {
                for (double b : eb) if (b > last && b <= x && b > from) { value(b, false); value(b, true); }
                if (std::find(eb.begin(), eb.end(), x) == eb.end()) value(x, false);
                last = x;
            }
            std::stable_sort(X.begin(), X.end(), [](const Xrow & a, const Xrow & b) { return a.e < b.e; });
            VD en, ph, co, cm, pr; for (auto & x : X) { en.push_back(x.e); ph.push_back(x.photo); co.push_back(x.coh); cm.push_back(x.com); pr.push_back(x.pair); }
            r.op(e.name + " shift " + num6(sh) + " from " + num6(from) + (pair ? " with" : " without") + " pair, edges " + str(edges));
            r.step();
            Elements & L = *LW;
            L.addElement(L0->getElement(e.name));
            struct Back { std::string n; ~Back() { LW->addElement(L0->getElement(n)); } } back{e.name};
            std::string w = "library table";
            try { L.setMassAttenuationCoefficients(e.name, en, ph, co, cm, pair ? pr : VD()); }
            catch (const std::exception & x) { r.check(false, w + ":refused", r.log + x.what()); return; }
            muNew(r, L, e, X, w);
            MV t = L.getMassAttenuationCoefficients(e.name);
            std::set<double> q;
            for (size_t i = 0; i < en.size(); i++) { q.insert(en[i]); if (i) q.insert(std::sqrt(en[i] * en[i - 1])); }
            for (auto & b : e.binding) if (b.second > 0) for (double f : {1.0, 1 - 1e-7, 1 + 1e-7, 1.003, 0.997}) q.insert(b.second * f);
            for (double b : eb) for (double f : {1.0, 1 - 1e-7, 1 + 1e-7, 1.001}) q.insert(b * f);
            const Element & x = L.getElement(e.name);
            for (double E : q)
            {
                std::string at = r.log + " at " + num(E);
                MD g; try { g = x.getMassAttenuationCoefficients(E); } catch (const std::exception & ex) { r.check(false, w + ":query refused", at + ": " + ex.what()); continue; }
                consistent(r, g, e.binding, E, w, at);
                // within one interval of the new table the scattering is the interpolation of its ends
                for (size_t i = 1; i < en.size(); i++)
                    if (E > en[i - 1] * (1 + 1e-5) && E < en[i] * (1 - 1e-5))
                    {
                        bool shifted = false;           // a repeated energy below its binding energy is moved up to it
                        for (size_t k : {i - 1, i}) for (auto & b : e.binding) if (std::fabs(en[k] - b.second) < 0.2001) shifted = true;
                        if (shifted) break;
                        for (auto & k : {"coherent", "compton", "pair"})
                        {
                            const VD & y = std::string(k) == "coherent" ? co : std::string(k) == "compton" ? cm : pr;
                            double want = y[i - 1] > 0 && y[i] > 0 ? y[i - 1] * std::pow(y[i] / y[i - 1], std::log(E / en[i - 1]) / std::log(en[i] / en[i - 1])) : 0.0;
                            r.check(Run::close(g[k], want, 1e-8, 1e-300), w + ":" + k, at + " got " + num(g[k]) + " want " + num(want));
                        }
                    }
            }
            // every other element is as it was
            for (int d : {-1, 1})
            {
                if (job + d < 0 || job + d >= 109) continue;
                std::string o = R0->el[R0->order[job + d]].name;
                r.check(L.getMassAttenuationCoefficients(o, 20.0) == L0->getMassAttenuationCoefficients(o, 20.0), w + ":another element changed", o);
            }
            r.state(r.log);
        });
        // files with such tables: columns found by their names, whatever their order; as if the tables were set one by one
        M.suite("table files", 24, [](Run & r, int job) {
            static const char * LAB[] = {"PhotonEnergy[keV]", "Rayleigh(coherent)[cm2/g]", "Compton(incoherent)[cm2/g]", "CoherentPlusIncoherent[cm2/g]", "Photoelectric[cm2/g]", "PairProduction[cm2/g]", "TotalCrossSection[cm2/g]"};
            int rot = job % 6, pairs = job / 6, n = 1 + r.choose(4), lower = r.flip(); if (n == 4) n = 111;       // more scans than elements
            std::string fn = std::string(getenv("FISX_MC_SCRATCH")) + "/f10_" + std::to_string(getpid()) + ".dat", w = "table file";
            std::ofstream o(fn.c_str()); o << "#F table\n\n";
            Elements A(*L0), B(*L0);
            for (int z = 1; z <= n; z++)
            {
                bool hasPair = pairs == 0 || (pairs == 1 && z % 2) || (pairs == 2 && z % 2 == 0); std::vector<int> col;
                for (int i = 0; i < 7; i++) { int c = rot < 3 ? (i + 2 * rot) % 7 : (7 - i + rot) % 7; if (c != 5 || hasPair) col.push_back(c); }
                std::vector<VD> rows; VD v[7]; int len = 3 + z % 3;
                for (int i = 0; i < len; i++)
                {
                    double e = 1.5 * std::pow(4.0, i) + 0.25 * z, x[7] = {e, 3.0 / e + z, 0.25 + 0.125 * i, 0, 1000.0 / (e * e) + 0.5 * z, 0.0625 * i, 0}; x[3] = x[1] + x[2]; x[6] = x[3] + x[4] + (hasPair ? x[5] : 0);
                    for (int c = 0; c < 7; c++) { std::ostringstream t; t.precision(17); t << x[c]; v[c].push_back(atof(t.str().c_str())); }
                }
                o << "#S " << z << " Z=" << z << "\n#N " << col.size() << "\n#L"; for (int c : col) { std::string l = LAB[c]; if (lower) std::transform(l.begin(), l.end(), l.begin(), ::tolower); o << "  " << l; }
                o << "\n"; o.precision(17); for (int i = 0; i < len; i++) { for (size_t c = 0; c < col.size(); c++) o << (c ? "  " : "") << v[col[c]][i]; o << "\n"; }
                o << "\n";
                if (z <= 109) B.setMassAttenuationCoefficients(R0->order[z - 1], v[0], v[4], v[1], v[2], hasPair ? v[5] : VD());
            }
            o.close(); r.op("columns " + str(rot) + " pair production " + str(pairs) + " scans " + str(n) + (lower ? " small letters" : "")); r.step();
            bool th = throws([&] { A.setMassAttenuationCoefficientsFile(fn); }); unlink(fn.c_str());
            if (!r.check(!th, w + ":refused", r.log)) return;
            for (int z = 1; z <= 109; z++)
            {
                std::string e = R0->order[z - 1]; MV a = A.getMassAttenuationCoefficients(e), b = B.getMassAttenuationCoefficients(e); std::string d;
                for (auto & p : b) if (a[p.first] != p.second) d += " " + p.first;
                if (z > n && b != L0->getMassAttenuationCoefficients(e)) d += " (not in the file)";
                r.check(d.empty(), w + ":other tables than those set one by one", r.log + " " + e + d);
            }
        });
        static const std::vector<VD> grids = {{2}, {1, 2}, {1, 2, 4}, {1, 2, 2, 4}, {1, 2, 4, 8}, {1, 2, 2, 4, 8}, {1, 2, 2, 4, 4, 8}, {1, 1.5, 2, 3, 4}};
        static const VD bind = {0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.9, 4.0, 9.0};
        M.suite("tables", (int) (grids.size() * bind.size()), [=](Run & r, int job) {
            const VD & g = grids[job / bind.size()];
            ref::Element m; Element e("Xx", 30);
            MD b; b["K"] = bind[job % bind.size()]; b["L1"] = b["K"] * 0.5; b["L2"] = 0.0;
            e.setBindingEnergies(b); m.setBinding(b);
            int kind = r.choose(2);          // vary the scattering tables, or the photoelectric ones
            VD v, base, zero(g.size(), 0.0);
            size_t n = g.size();
            for (size_t i = 0; i < n; i++) base.push_back(10.0 / (1 + i));
            static const VD val = {0.0, 3.0, 7.0};
            for (size_t i = 0; i < n; i++) v.push_back(val[(i < 5 || T) ? r.choose(3) : 1]);
            std::string s = "grid"; for (double x : g) s += " " + num6(x);
            s += " values"; for (double x : v) s += " " + num6(x);
            r.op(s + (kind ? " as partial" : " as scattering") + " K edge " + num6(b["K"]));
            VD rev(v.rbegin(), v.rend());
            if (kind == 0)
            {
                e.setMassAttenuationCoefficients(g, base, v, base, rev); m.setMu(g, base, v, base, rev);
                e.setPartialPhotoelectricMassAttenuationCoefficients("K", g, base); m.setPartial("K", g, base);
                e.setPartialPhotoelectricMassAttenuationCoefficients("all other", g, v); m.setPartial("all other", g, v);
            }
            else
            {
                e.setMassAttenuationCoefficients(g, base, base, base); m.setMu(g, base, base, base, VD());
                e.setPartialPhotoelectricMassAttenuationCoefficients("K", g, v); m.setPartial("K", g, v);
                e.setPartialPhotoelectricMassAttenuationCoefficients("L1", g, base); m.setPartial("L1", g, base);
                e.setPartialPhotoelectricMassAttenuationCoefficients("L2", g, base); m.setPartial("L2", g, base);
            }
            // a physical table is positive once a subshell is excited: the behaviour behind an inner zero is not specified
            bool gap = false, seen = false;
            if (kind == 1) for (size_t i = 0; i < n; i++) { double y = m.partial["K"].y[i]; if (y > 0) seen = true; else if (seen) gap = true; }
            MV raw = e.getMassAttenuationCoefficients();
            r.check(raw["energy"] == g && raw["coherent"] == (kind ? base : v) && raw["compton"] == base && raw["pair"] == (kind ? zero : rev) && raw["photoelectric"] == base, "stored table", s);
            // rubbish is refused and changes nothing
            VD up = {2, 1}, two = {1, 1}, one = {1};
            r.check(throws([&] { e.setMassAttenuationCoefficients(up, two, two, two, two); }), "descending energies accepted");
            r.check(throws([&] { e.setMassAttenuationCoefficients(two, one, two, two, two); }), "wrong length accepted");
            r.check(throws([&] { e.setMassAttenuationCoefficients(two, two, one, two, two); }), "wrong length accepted");
            r.check(throws([&] { e.setMassAttenuationCoefficients(two, two, two, one, two); }), "wrong length accepted");
            r.check(throws([&] { e.setMassAttenuationCoefficients(two, two, two, two, one); }), "wrong length accepted");
            r.check(throws([&] { e.setPartialPhotoelectricMassAttenuationCoefficients("K", up, two); }), "descending energies accepted");
            r.check(throws([&] { e.setPartialPhotoelectricMassAttenuationCoefficients("K", two, one); }), "wrong length accepted");
            r.check(throws([&] { e.setPartialPhotoelectricMassAttenuationCoefficients("Z9", two, two); }), "unknown subshell accepted");
            r.check(e.getMassAttenuationCoefficients() == raw, "refused table changed the stored one");
            static const VD q0 = {0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0, 2.3, 2.5, 3.0, 3.5, 3.9, 4.0, 5.0, 7.5, 8.0, 9.0, 12.0};
            VD q;
            for (double E : q0)
            {
                std::string at = s + " at " + num(E);
                MD got; bool th = throws([&] { got = e.getMassAttenuationCoefficients(E); });
                if (gap && th) continue;
                if (!r.check(!th, "query refused", at)) continue;
                q.push_back(E);
                consistent(r, got, b, E, "table", at);
                bool dup = std::count(g.begin(), g.end(), E) > 1;
                if (!gap) compare(r, got, m.muAt(E), kind ? "partial table" : "scattering table", at, 1e-8, !dup);
                // either of the two tabulated values for what has no edge
                if (dup)
                    for (auto & k : {"coherent", "compton", "pair"})
                    {
                        bool in = false;
                        for (size_t i = 0; i < n; i++) if (g[i] == E && got[k] == raw[k][i]) in = true;
                        r.check(in, std::string("repeated energy:") + k, at);
                    }
            }
            if (q.size()) forms(r, e, q, "table");
            r.state(r.log);
        });
    });
}
