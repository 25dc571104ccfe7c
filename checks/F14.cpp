// F14: escape caches of the library and of the detector.  Histories of cache
// control, parameter and data changes; every answer is compared with fresh objects.
#include "mc.hpp"
#include "reflibs.hpp"
#include "fisx_detector.h"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;
static Elements * WORK = nullptr, * PLAIN = nullptr;
static Element * SI0 = nullptr;

struct Conf { MD comp; double et, it; int nt; double angle, thick; };
static std::vector<Conf> CONF = {
    {{{"Si", 1.0}}, 0.010, 1e-7, 4, 90.0, 0.0}, {{{"Ge", 1.0}}, 0.010, 1e-7, 4, 90.0, 0.0}, {{{"Si", 1.0}}, 0.010, 1e-2, 4, 90.0, 0.0},
    {{{"Si", 1.0}}, 0.010, 1e-7, 4, 30.0, 0.0}, {{{"Si", 1.0}}, 0.010, 1e-7, 4, 90.0, 1e-3}, {{{"Si", 0.5}, {"Ge", 0.5}}, 0.010, 1e-7, 4, 90.0, 0.0},
    {{{"Si", 0.25}, {"Ge", 0.75}}, 0.010, 1e-7, 4, 90.0, 0.0}, {{{"Si", 1.0}}, 0.5, 1e-7, 2, 90.0, 0.0}, {{{"Si", 1.0}}, 0.010, 1e-7, 4, 90.0, 2.5e-3}};
static const VD EN = {5.9, 12.0, 1.9};
static MMD ask(const Elements & L, const Conf & c, double e) { return L.getEscape(c.comp, e, c.et, c.it, c.nt, c.angle, c.thick); }
static bool same(const MMD & a, const MMD & b, std::string & d)
{
    for (auto & p : b) { auto i = a.find(p.first); if (i == a.end()) { d += " missing " + p.first; continue; } for (auto & q : p.second) if (!Run::close(ref::get(i->second, q.first), q.second, 1e-11, 0)) d += " " + p.first + "/" + q.first + " " + num(ref::get(i->second, q.first)) + " want " + num(q.second); }
    for (auto & p : a) if (!b.count(p.first)) d += " extra " + p.first;
    if (d.size() > 300) d = d.substr(0, 300);
    return d.empty();
}
// data changes; state 0 is the original data
static std::string change(Elements & L, int k, int & data)
{
    if (k == 0) { L.setMassAttenuationCoefficients("Si", VD{1.0, 1.8389, 1.84, 100.0}, VD{1000, 300, 3000, 0.1}, VD{2, 1, 1, 0.01}, VD{0.01, 0.1, 0.1, 0.2}, VD{0, 0, 0, 0}); data |= 1; return "attenuation of Si"; }
    if (k == 1) { Element e(*SI0); e.setShellConstants("K", MD{{"omega", 0.5}}); L.addElement(e); data = (data & ~1) | 2; return "other Si"; }
    if (k == 2) { L.addElement(*SI0); data &= ~3; return "original Si"; }
    if (k == 3) { L.setShellConstantsFile("K", D + "/KShellConstants.dat"); data = (data & ~2) | 4; return "K constants file"; }
    L.setShellRadiativeTransitionsFile("K", D + "/KShellRates.dat"); data |= 8; return "K rates file";
}
static const MMD & fresh(const std::vector<int> & ch, int conf, double e)
{
    static std::map<std::string, MMD> memo; std::string k; for (int c : ch) k += std::to_string(c); k += "/" + std::to_string(conf) + "/" + num6(e);
    auto i = memo.find(k); if (i != memo.end()) return i->second;
    static std::string loaded; static Elements * O = nullptr; std::string h; for (int c : ch) h += std::to_string(c);
    if (!O || loaded != h) { delete O; O = new Elements(*PLAIN); int d; for (int c : ch) change(*O, c, d); loaded = h; }
    for (int a = 0; a < (int) CONF.size(); a++) for (double x : EN) { std::string q = h + "/" + std::to_string(a) + "/" + num6(x); memo[q] = ask(*O, CONF[a], x); }
    return memo[k];
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] { initLibraries(1); PLAIN = LIB[0]; WORK = new Elements(*PLAIN); SI0 = new Element(PLAIN->getElement("Si")); };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough(); int NC = (int) CONF.size();
        // control: 0 enable, 1 disable, 2 clear, 3.. update with configuration, then queries
        auto control = [=](Run & r, Elements & L, int k, const std::vector<int> & done, bool & on) {
            if (k == 0) { r.op("enable"); L.setEscapeCacheEnabled(); on = true; }
            else if (k == 1) { r.op("disable"); L.setEscapeCacheEnabled(0); on = false; }
            else if (k == 2) { r.op("clear"); L.clearEscapeCache(); }
            else { const Conf & c = CONF[k - 3]; r.op("fill for " + std::to_string(k - 3)); L.updateEscapeCache(c.comp, k % 3 == 0 ? VD{5.9} : k % 3 == 1 ? VD{5.9, 12.0} : VD{12.0, 1.9, 12.0}, c.et, c.it, c.nt, c.angle, c.thick); }
            r.check((L.isEscapeCacheEnabled() != 0) == on, "enabled flag");
        };
        auto observe = [=](Run & r, Elements & L, const std::vector<int> & done, const std::string & w) {
            for (int c = 0; c < NC; c++) for (double e : EN)
            { std::string d; r.site("query"); r.check(same(ask(L, CONF[c], e), fresh(done, c, e), d), w, "configuration " + std::to_string(c) + " at " + num6(e) + d); }
        };
        int depth = T ? 5 : 4;
        M.suite("library", 2 * (NC + 3), [=](Run & r, int job) {
            Elements & L = *WORK; L.clearEscapeCache(); bool on = job % 2; L.setEscapeCacheEnabled(on); std::vector<int> none;
            r.note(on ? "on" : "off");
            for (int i = 0; i < depth - !on; i++) control(r, L, i == 0 ? job / 2 : r.choose(NC + 3), none, on);
            observe(r, L, none, "stale"); std::string s = r.log; r.state(s);
        });
        M.suite("library with data", 32, [=](Run & r, int job) {
            Elements L(*WORK); L.clearEscapeCache(); bool on = true; L.setEscapeCacheEnabled(1); std::vector<int> done; int data = 0;
            int n = T ? 4 : 3;
            for (int i = 0; i < n; i++)
            {
                int k = i == 0 ? job % 8 : i == 1 ? 2 * (job / 8) + r.choose(2) : r.choose(T ? 8 : 5);
                if (k >= 5) control(r, L, k == 5 ? 3 : k == 6 ? 8 : 1 - (int) on, done, on);
                else { r.op(change(L, k, data)); done.push_back(k); }
                if (i && k < 5) { if (i + 1 < n) { std::string d; r.check(same(ask(L, CONF[0], 5.9), fresh(done, 0, 5.9), d), "stale after a change of data", d); } else observe(r, L, done, "stale after a change of data"); }
                if (i == 0 || r.flip()) { r.op("fill again"); L.updateEscapeCache(CONF[0].comp, EN); }
            }
            observe(r, L, done, "stale after a change of data and fill"); r.state(r.log);
        });
        // detectors: parameters, labels, two libraries
        M.suite("detector", 2 * 13, [=](Run & r, int job) {
            Elements & L = *WORK; L.clearEscapeCache(); L.setEscapeCacheEnabled(job % 2);
            static Elements * OTHER = nullptr;
            if (!OTHER) { OTHER = new Elements(*PLAIN); int d; change(*OTHER, 0, d); }
            Detector d("Si", 2.33, 0.05); int comp = 0; double it = 1e-7; int n = T ? 4 : 3;
            // what is stored under each label: answers of the moment they were asked
            std::map<std::string, std::map<double, MMD> > stored;
            r.note(job % 2 ? "library cache on" : "library cache off");
            bool before = r.flip();
            auto now = [&](const Elements & l, double e) -> MMD {
                static std::map<std::string, MMD> memo; std::string mk = std::to_string(comp) + num6(it) + num6(e) + (&l == OTHER ? "o" : "p"); auto mi = memo.find(mk); if (mi != memo.end()) return mi->second;
                Detector f("none", 2.33, 0.05); if (comp == 0) f.setMaterial("Si"); else if (comp == 1) f.setMaterial("GaAs"); else { Material m("zz"); m.setComposition(VS{"Ge"}, VD{1}); f.setMaterial(m); } f.setMinimumEscapePeakIntensity(it); Elements & p = &l == OTHER ? *OTHER : *PLAIN; return memo[mk] = f.getEscape(e, p); };
            if (before) { r.note("after an answer was stored"); L.updateEscapeCache(CONF[0].comp, EN); stored["label"][5.9] = d.getEscape(5.9, L, "label"); }
            for (int i = 0; i < n; i++)
            {
                int k = i == 0 ? job / 2 : r.choose(13);
                if (k == 0) { r.op("material GaAs"); d.setMaterial("GaAs"); comp = 1; stored.clear(); }
                else if (k == 1) { r.op("material Si"); d.setMaterial("Si"); comp = 0; stored.clear(); }
                else if (k == 2) { r.op("own material Ge"); Material m("x"); m.setComposition(VS{"Ge"}, VD{2}); d.setMaterial(m); comp = 2; stored.clear(); }
                else if (k == 3) { r.op("threshold 1e-2"); d.setMinimumEscapePeakIntensity(1e-2); it = 1e-2; stored.clear(); }
                else if (k == 4) { r.op("threshold 1e-7"); d.setMinimumEscapePeakIntensity(1e-7); it = 1e-7; stored.clear(); }
                else if (k == 5) { r.op("clear"); d.clearEscapePeakCache(); stored.clear(); }
                else if (k == 6) { r.op("fill library"); L.updateEscapeCache(CONF[0].comp, EN); }
                else if (k == 7) { r.op("fill library for a threshold"); L.updateEscapeCache(CONF[2].comp, EN, 0.010, 1e-2); }
                else
                {
                    // labelled questions: update, stored, other library, other label
                    std::string label = k == 12 ? "other" : "label"; const Elements & l = k == 11 ? *OTHER : L; int upd = k == 8 || k == 11 ? 1 : 0; double e = k == 10 ? 12.0 : 5.9;
                    r.op("ask " + label + " at " + num6(e) + (upd ? " updating" : " stored") + (k == 11 ? " with another library" : ""));
                    MMD want;
                    if (upd) stored.clear();
                    if (stored[label].count(e)) want = stored[label][e]; else want = stored[label][e] = now(l, e);
                    std::string q; r.check(same(d.getEscape(e, l, label, upd), want, q), upd ? "updated answer of a label" : "stored answer of a label", q);
                }
                if (i && i + 1 < n) continue;
                for (double e : {5.9, 12.0})
                {
                    std::string q; r.check(same(d.getEscape(e, L), now(L, e), q), "detector, stale", q);
                    if (i + 1 == n) { q.clear(); r.check(same(d.getEscape(e, *OTHER), now(*OTHER, e), q), "detector with another library, stale", q); q.clear(); Detector c(d); r.check(same(c.getEscape(e, L, "new label"), now(L, e), q), "new label", q); }
                }
            }
            std::string s = std::to_string(comp) + num6(it); for (auto & p : stored) { s += p.first; for (auto & q : p.second) s += num6(q.first) + std::to_string(q.second.size()); } r.state(s);
        });
    });
}
