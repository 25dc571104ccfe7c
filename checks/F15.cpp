// F15: subshell de-excitation data.  Every label/value list up to the bound, every
// history of updates, through every interface, against the reference subshell.
#include "mc.hpp"
#include "ref.hpp"
#include "fisx_shell.h"
#include "fisx_element.h"
using namespace mc;
using fisx::Shell;
using fisx::Element;
typedef std::vector<std::string> VS;
typedef std::vector<double> VD;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;

static void same(Run & r, const MD & got, const MD & want, const std::string & key)
{
    std::string d;
    for (auto & p : want) { auto i = got.find(p.first); if (i == got.end()) { if (p.second != 0) d += " missing " + p.first; } else if (!Run::close(i->second, p.second, 1e-10, 1e-13)) d += " " + p.first + "=" + num6(i->second) + " want " + num6(p.second); }
    for (auto & p : got) if (!want.count(p.first) && p.second != 0) d += " extra " + p.first + "=" + num6(p.second);
    r.check(d.empty(), key, d + " after " + r.log);
}
static MD less(MD m) { m.erase("TOTAL"); return m; }
static double sum(const MD & m) { double s = 0; for (auto & p : m) if (p.first != "TOTAL") s += p.second; return s; }
static MD shares(const MD & m) { MD q; double t = sum(m); for (auto & p : m) if (p.first != "TOTAL") q[p.first] = t != 0 ? p.second / t : 0.0; return q; }

static void observe(Run & r, const Shell & s, const ref::Shell & m, const std::string & w)
{
    MD f = s.getFluorescenceRatios();
    same(r, f, m.fluo(), w + ":radiative ratios");
    if (m.fluo().size()) r.eq(sum(f), 1.0, w + ":radiative ratios sum", 1e-12);
    same(r, shares(s.getRadiativeTransitions()), shares(m.rad), w + ":radiative transitions");
    same(r, shares(s.getNonradiativeTransitions()), shares(m.non), w + ":nonradiative transitions");
    same(r, less(s.getAugerRatios()), less(m.auger()), w + ":Auger ratios");
    MMD k = s.getCosterKronigRatios(), q = m.ck();
    for (auto & g : q) same(r, less(k[g.first]), less(g.second), w + ":Coster-Kronig ratios");
    for (auto & g : k)
    {
        r.check(q.count(g.first), w + ":Coster-Kronig group", g.first);
        double t = sum(g.second);
        if (t != 0) r.eq(t, 1.0, w + ":Coster-Kronig ratios sum", 1e-12);
    }
    MD c = s.getShellConstants();
    r.check(c == m.constants, w + ":constants", r.log);
    r.eq(s.getFluorescenceYield(), ref::get(m.constants, "omega"), w + ":fluorescence yield", 0, 0);
    double y = m.yields();
    for (auto & d : {"L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"})
    {
        r.site(w + ":transfer");
        MD t; bool th = throws([&] { t = s.getDirectVacancyTransferRatios(d); });
        r.check(th == (y > 1.0001), w + ":impossible yields", r.log);
        if (!th && y <= 1.0001) same(r, t, m.transfer(d), w + ":vacancy transfer");
    }
}
static void observeE(Run & r, Element & e, const std::string & n, const ref::Shell & m, const std::string & w)
{
    same(r, e.getFluorescenceRatios(n), m.fluo(), w + ":element radiative ratios");
    same(r, less(e.getAugerRatios(n)), less(m.auger()), w + ":element Auger ratios");
    MMD k = e.getCosterKronigRatios(n), q = m.ck();
    for (auto & g : q) same(r, less(k[g.first]), less(g.second), w + ":element Coster-Kronig ratios");
    same(r, shares(e.getRadiativeTransitions(n)), shares(m.rad), w + ":element radiative transitions");
    same(r, shares(e.getNonradiativeTransitions(n)), shares(m.non), w + ":element nonradiative transitions");
    MD c = e.getShellConstants(n);
    double all = 0;
    for (auto & p : m.constants) r.eq(ref::get(c, p.first, -9), p.second, w + ":element constant", 0, 0);
    for (auto & p : c) { all += p.second; if (!m.constants.count(p.first)) r.eq(p.second, 1.0 - m.yields(), w + ":derived constant " + p.first, 1e-12, 1e-12); }
    if (c.size() > m.constants.size()) r.eq(all, 1.0, w + ":yields sum", 1e-12);
}

static VS radPool(const std::string & n)
{
    VS v;
    std::string o = n == "K" ? "L" : "N";
    v.push_back(n + o + "2"); v.push_back(n + o + "3"); v.push_back(n + "N4");
    std::string low = n + "O1"; for (auto & c : low) c = (char) tolower(c);
    v.push_back(low);
    v.push_back("TOTAL");
    v.push_back(n == "K" ? "KO" : n + "P23");
    v.push_back(n == "K" ? "L3M5" : n == "L1" ? "L2M4" : "L1M3");       // belongs elsewhere
    v.push_back(n == "K" ? "XYZ12" : "KL3");
    return v;
}
static VS nonPool(const std::string & n)
{
    VS v; std::string f(1, n[0]);
    int i = n.size() == 2 ? n[1] - '0' : 0, max = n[0] == 'L' ? 3 : 5;
    if (n.size() == 2 && i < max)
    {
        v.push_back(n + "-" + f + std::to_string(i + 1) + "M4");
        v.push_back(n + "-" + f + std::to_string(i + 1) + "M5");
        v.push_back(n + "-" + f + std::to_string(max) + "N1");
    }
    else { v.push_back(n + "-M1M2"); v.push_back(n + "-M2M2"); v.push_back(n + "-M1L3"); }
    std::string o = n == "K" ? "L" : n[0] == 'L' ? "M" : "N";
    v.push_back(n + "-" + o + "1" + o + "2");
    std::string low = n + "-" + o + "3" + o + "3"; for (auto & c : low) c = (char) tolower(c);
    v.push_back(low);
    v.push_back("TOTAL");
    return v;
}
static std::string show(const VS & l, const VD & v)
{ std::string s; for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + l[i] + (i < v.size() ? "=" + num6(v[i]) : ""); return "{" + s + "}"; }

// hands the same lists over by one of the three interfaces
static bool give(Shell & s, int how, bool rad, const VS & l, const VD & v)
{
    if (how == 0) return !throws([&] { if (rad) s.setRadiativeTransitions(l, v); else s.setNonradiativeTransitions(l, v); });
    if (how == 1)
    {
        MD m; for (size_t i = 0; i < l.size() && i < v.size(); i++) m[l[i]] = v[i];
        return !throws([&] { if (rad) s.setRadiativeTransitions(m); else s.setNonradiativeTransitions(m); });
    }
    std::vector<const char *> c; for (auto & x : l) c.push_back(x.c_str());
    return !throws([&] { if (rad) s.setRadiativeTransitions(c.data(), v.data(), (int) c.size()); else s.setNonradiativeTransitions(c.data(), v.data(), (int) c.size()); });
}
static bool giveRef(ref::Shell & m, int how, bool rad, const VS & l, const VD & v)
{
    VS a = l; VD b = v;
    if (how == 1) { MD q; for (size_t i = 0; i < l.size() && i < v.size(); i++) q[l[i]] = v[i]; a.clear(); b.clear(); for (auto & p : q) { a.push_back(p.first); b.push_back(p.second); } }
    return rad ? m.setRad(a, b) : m.setNon(a, b);
}

int main(int argc, char ** argv)
{
    static Main M;
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        static const VD val = {0.0, 0.25, 2.0};
        int maxr = T ? 5 : 4, maxn = T ? 5 : 4;
        M.suite("radiative", 9 * 8, [=](Run & r, int job) {
            std::string n = ref::SHELLS()[job / 8];
            VS pool = radPool(n), l; VD v;
            int len = r.choose(maxr) + (job % 8 == 0 ? 0 : 1);
            if (len >= maxr) { r.abandon(); }
            for (int i = 0; i < len; i++)
            {
                l.push_back(pool[i == 0 ? job % 8 : r.choose(8)]);
                v.push_back(val[i < 2 ? r.choose(3) : 1]);
            }
            int how = r.choose(3);
            if (how == 0 && len && r.flip()) v.pop_back();
            Shell s(n); ref::Shell m(n);
            s.setRadiativeTransitions(VS(1, n + "P3"), VD(1, 3.0)); m.setRad(VS(1, n + "P3"), VD(1, 3.0));
            r.op(n + " radiative " + show(l, v) + " interface " + str(how));
            bool want = giveRef(m, how, true, l, v), got = give(s, how, true, l, v);
            r.check(want == got, want ? "valid radiative transitions refused" : "invalid radiative transitions accepted", r.log);
            observe(r, s, m, "radiative");
            r.state(r.log);
        });
        M.suite("nonradiative", 9 * 6, [=](Run & r, int job) {
            std::string n = ref::SHELLS()[job / 6];
            VS pool = nonPool(n), l; VD v;
            int len = r.choose(maxn) + (job % 6 == 0 ? 0 : 1);
            if (len >= maxn) r.abandon();
            for (int i = 0; i < len; i++)
            {
                l.push_back(pool[i == 0 ? job % 6 : r.choose(6)]);
                v.push_back(l.back() == "TOTAL" ? 40.0 : val[i < 2 ? r.choose(3) : 1]);
            }
            int how = r.choose(3);
            if (how == 0 && len && r.flip()) v.pop_back();
            Shell s(n); ref::Shell m(n);
            MD c; int k = 0; for (auto & p : m.constants) c[p.first] = p.first == "omega" ? 0.25 : 0.05 + 0.03 * k++;
            s.setShellConstants(c); m.setConstants(c);
            VS l0(1, n + "-N1N2"); VD v0(1, 3.0);
            s.setNonradiativeTransitions(l0, v0); m.setNon(l0, v0);
            r.op(n + " nonradiative " + show(l, v) + " interface " + str(how));
            bool want = giveRef(m, how, false, l, v), got = give(s, how, false, l, v);
            r.check(want == got, want ? "valid nonradiative transitions refused" : "invalid nonradiative transitions accepted", r.log);
            observe(r, s, m, "nonradiative");
            r.state(r.log);
        });
        M.suite("constants", 9, [=](Run & r, int job) {
            std::string n = ref::SHELLS()[job];
            Shell s(n); ref::Shell m(n);
            VS pool = {"omega", "f12", "f13", "f23", "f45", "f21", "g12", ""};
            for (int step = 0; step < 2; step++)
            {
                MD c; int len = r.choose(step ? (T ? 3 : 2) : 4);
                int from = 0;
                for (int i = 0; i < len; i++)
                {
                    if (from >= (int) pool.size()) r.abandon();
                    int k = from + r.choose((int) pool.size() - from);
                    static const VD cv = {0.0, 0.3, 0.8};
                    c[pool[k]] = cv[r.choose(step ? 2 : 3)]; from = k + 1;
                }
                std::string d; for (auto & p : c) d += p.first + "=" + num6(p.second) + " ";
                r.op(n + " constants " + d);
                bool want = m.setConstants(c), got = !throws([&] { s.setShellConstants(c); });
                r.check(want == got, want ? "valid constants refused" : "invalid constants accepted", r.log);
                VS l = nonPool(n); VD v = {1, 2, 3, 4, 5, 30}; s.setNonradiativeTransitions(l, v); m.setNon(l, v);
                VS k = radPool(n); k.resize(4); VD kv = {1, 2, 3, 4}; s.setRadiativeTransitions(k, kv); m.setRad(k, kv);
                observe(r, s, m, "constants");
            }
            r.state(r.log);
        });
        int depth = T ? 6 : 4;
        M.suite("histories", 9 * 9, [=](Run & r, int job) {
            std::string n = ref::SHELLS()[job / 9];
            VS rp = radPool(n), np = nonPool(n);
            Shell s(n); ref::Shell m(n);
            Element e("Xx", 50);
            MD b; for (auto & q : ref::SHELLS()) b[q] = 1.0; b["K"] = 20.0;
            e.setBindingEnergies(b);
            for (int d = 0; d < depth; d++)
            {
                int o = d == 0 ? job % 9 : r.choose(9);
                VS l; VD v; MD c; bool rad = false, shell = false;
                if (o == 0) { rad = true; l = {rp[0], rp[1]}; v = {1, 3}; }
                else if (o == 1) { rad = true; l = {rp[1], rp[2], rp[4]}; v = {2, 0, 9}; }
                else if (o == 2) { rad = true; l = {rp[0], rp[6]}; v = {5, 1}; }
                else if (o == 3) { l = {np[0], np[2], np[3]}; v = {1, 1, 6}; }
                else if (o == 4) { l = {np[3], np[1], np[5]}; v = {2, 1, 12}; }
                else if (o == 5) { rad = true; l = {rp[0], rp[1]}; v = {1}; }
                else if (o == 6) { l = {np[0], np[3]}; v = {7, 1, 1}; }
                else if (o == 7) { shell = true; c["omega"] = 0.4; if (m.constants.size() > 1) c[m.constants.begin()->first] = 0.2; }
                else { shell = true; c["omega"] = 0.1; c["f99"] = 0.1; }
                bool want, got, gotE;
                if (shell)
                {
                    r.op("constants " + str(o)); want = m.setConstants(c);
                    got = !throws([&] { s.setShellConstants(c); }); gotE = !throws([&] { e.setShellConstants(n, c); });
                }
                else
                {
                    r.op((rad ? "radiative " : "nonradiative ") + show(l, v)); want = giveRef(m, 0, rad, l, v);
                    got = give(s, 0, rad, l, v);
                    gotE = !throws([&] { if (rad) e.setRadiativeTransitions(n, l, v); else e.setNonradiativeTransitions(n, l, v); });
                }
                r.check(want == got && want == gotE, want ? "valid update refused" : "invalid update accepted", r.log);
                if (d >= depth - 2) { observe(r, s, m, "history"); observeE(r, e, n, m, "history"); }
            }
            r.state(r.log);
        });
        // names
        M.suite("names", 1, [=](Run & r, int) {
            static const VS names = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "", "L", "M", "K1", "L0", "L4", "M6", "M0", "N1", "k", "l1", "LA", "L12", "M", " K", "L-1"};
            std::string n = r.pick(names);
            r.op("Shell " + n);
            bool ok = std::find(ref::SHELLS().begin(), ref::SHELLS().end(), n) != ref::SHELLS().end();
            bool th = throws([&] { Shell s(n); });
            r.check(th == !ok, ok ? "valid subshell refused" : "invalid subshell accepted", n);
            if (ok) { Shell s(n); ref::Shell m(n); observe(r, s, m, "fresh"); }
            r.state(n);
        });
    });
}
