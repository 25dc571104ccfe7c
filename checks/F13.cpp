// F13: caches of an element.  Histories of cache control, data changes and queries;
// every answer is compared with the one of an element that never cached anything.
#include "mc.hpp"
#include "reflibs.hpp"
#include <functional>
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::map<std::string, MD> MMD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

static const VD ES = {0.5, 7.2, 15.0};     // queried energies
static void put(MD & o, const std::string & k, const MD & m) { for (auto & p : m) o[k + "/" + p.first] = p.second; }
static void put(MD & o, const std::string & k, const MMD & m)
{ for (auto & p : m) for (auto & q : p.second) if (q.second != 0 && (q.first != "energy" || ref::get(p.second, "rate") != 0)) o[k + "/" + p.first + "/" + q.first] = q.second; }

// the answers of an element to a set of questions; an exception is an answer as well
static MD ask(const Element & e)
{
    MD o;
    auto tryit = [&](const std::string & k, std::function<void()> f) { if (throws(f)) o[k + " threw"] = 1; };
    for (auto en : ES)
    {
        std::string k = "@" + num6(en);
        tryit("mu" + k, [&] { put(o, "mu" + k, e.getMassAttenuationCoefficients(en)); });
        tryit("partial" + k, [&] { put(o, "partial" + k, e.getPartialPhotoelectricMassAttenuationCoefficients(en)); });
        tryit("vacancies" + k, [&] { put(o, "vacancies" + k, e.getInitialPhotoelectricVacancyDistribution(en)); });
        tryit("factors" + k, [&] { put(o, "factors" + k, e.getPhotoelectricExcitationFactors(en, 1.0)); });
        tryit("weighted factors" + k, [&] { put(o, "weighted factors" + k, e.getPhotoelectricExcitationFactors(en, 0.25)); put(o, "heavy factors" + k, e.getPhotoelectricExcitationFactors(en, 3.0)); });
        tryit("lines" + k, [&] { put(o, "lines" + k, e.getEmittedXRayLines(en)); });
    }
    tryit("mu of all", [&] { auto m = e.getMassAttenuationCoefficients(ES); for (auto & p : m) for (size_t i = 0; i < p.second.size(); i++) o["mu of all/" + p.first + std::to_string(i)] = p.second[i]; });
    tryit("factors of all", [&] { auto v = e.getPhotoelectricExcitationFactors(ES, VD{0.1, 0.2, 0.3}); for (size_t i = 0; i < v.size(); i++) put(o, "factors of all" + std::to_string(i), v[i]); });
    tryit("vacancies of all", [&] { auto m = e.getInitialPhotoelectricVacancyDistribution(ES); for (auto & p : m) for (size_t i = 0; i < p.second.size(); i++) o["vacancies of all/" + p.first + std::to_string(i)] = p.second[i]; });
    int n = 0;
    for (auto & d : std::vector<MD>{{{"K", 1.0}}, {{"L1", 0.5}, {"M1", 2.0}}, {{"K", 0.0}}})
    {
        std::string k = std::to_string(n++);
        tryit("cascade" + k, [&] { put(o, "cascade" + k, e.getCascadeModifiedVacancyDistribution(d)); });
        for (int c = 0; c < 4; c += n == 1 ? 1 : 3) tryit("x-rays" + k, [&] { put(o, "x-rays" + k + std::to_string(c), e.getXRayLinesFromVacancyDistribution(d, c & 1, c >> 1)); });
    }
    return o;
}
static std::string diff(const MD & got, const MD & want, std::string & what)
{
    std::string d; double scale = 0; int n = 0;
    for (auto & p : want) scale = std::max(scale, std::fabs(p.second));
    auto bad = [&](const std::string & k, const std::string & t) { if (n++ < 4) d += " " + k + " " + t; if (what.empty()) what = k.substr(0, k.find_first_of("@/0123456789")); };
    for (auto & p : want) { auto i = got.find(p.first); if (i == got.end()) { if (std::fabs(p.second) > 1e-15) bad(p.first, "missing"); } else if (!Run::close(i->second, p.second, 1e-10, 1e-18)) bad(p.first, num(i->second) + " want " + num(p.second)); }
    for (auto & p : got) if (!want.count(p.first) && std::fabs(p.second) > 1e-15) bad(p.first, "is extra");
    return d;
}

// data changes: (name, applied to an element, refused?)
struct Change { std::string name; std::function<void(Element &)> f; };
static std::vector<Change> CH;
static void define()
{
    auto add = [](const std::string & n, std::function<void(Element &)> f) { CH.push_back({n, f}); };
    add("attenuation", [](Element & e) { e.setMassAttenuationCoefficients(VD{0.1, 7.0, 7.2, 100.0}, VD{1000, 40, 300, 0.2}, VD{5, 1, 1, 0.01}, VD{0.01, 0.1, 0.1, 0.2}); });
    add("attenuation with pair production", [](Element & e) { e.setMassAttenuationCoefficients(VD{0.1, 1.0, 100.0}, VD{800, 40, 0.1}, VD{4, 1, 0.02}, VD{0.01, 0.1, 0.25}, VD{0, 0, 0.5}); });
    add("K photoelectric", [](Element & e) { double b = e.getBindingEnergies().at("K"); e.setPartialPhotoelectricMassAttenuationCoefficients("K", VD{b, b * 3, 200.0}, VD{500, 30, 0.3}); });
    add("L1 photoelectric", [](Element & e) { double b = e.getBindingEnergies().at("L1"); e.setPartialPhotoelectricMassAttenuationCoefficients("L1", VD{b, b * 3, 200.0}, VD{100, 8, 0.1}); });
    add("binding energies", [](Element & e) { MD b = e.getBindingEnergies(); b["K"] *= 1.0625; b["L1"] *= 1.03125; e.setBindingEnergies(b); });
    add("binding energies as lists", [](Element & e) { MD b = e.getBindingEnergies(); VS k; VD v; for (auto & p : b) { k.push_back(p.first); v.push_back(p.second * 0.9375); } e.setBindingEnergies(k, v); });
    add("shell constants K", [](Element & e) { e.setShellConstants("K", MD{{"omega", 0.125}}); });
    add("shell constants L1", [](Element & e) { e.setShellConstants("L1", MD{{"omega", 0.0625}, {"f12", 0.25}, {"f13", 0.5}}); });
    add("radiative K", [](Element & e) { e.setRadiativeTransitions("K", VS{"KL2", "KL3", "KM3"}, VD{1, 1, 0.5}); });
    add("radiative M1 as map", [](Element & e) { e.setRadiativeTransitions("L1", MD{{"L1M2", 3.0}, {"L1M3", 1.0}}); });
    add("Auger K", [](Element & e) { e.setNonradiativeTransitions("K", VS{"K-L1L1", "K-L2M1"}, VD{0.5, 0.5}); });
    add("Coster-Kronig L1 as map", [](Element & e) { e.setNonradiativeTransitions("L1", MD{{"L1-L2M1", 0.5}, {"L1-M1M1", 1.5}}); });
    add("other photoelectric", [](Element & e) { e.setPartialPhotoelectricMassAttenuationCoefficients("all other", VD{0.1, 7.0, 200.0}, VD{70, 9, 0.05}); });
    // refused
    add("refused attenuation", [](Element & e) { e.setMassAttenuationCoefficients(VD{0.1, 1.0}, VD{800}, VD{4, 1}, VD{0.01, 0.1}); });
    add("refused photoelectric", [](Element & e) { e.setPartialPhotoelectricMassAttenuationCoefficients("K", VD{1, 2}, VD{1}); });
    add("refused constants", [](Element & e) { e.setShellConstants("K", MD{{"nonsense", 0.125}}); });
    add("refused radiative", [](Element & e) { e.setRadiativeTransitions("K", VS{"L1M3"}, VD{1}); });
    add("refused Auger", [](Element & e) { e.setNonradiativeTransitions("K", VS{"K-L1L1"}, VD{1, 2}); });
    add("refused binding", [](Element & e) { e.setBindingEnergies(VS{"K"}, VD{1, 2}); });
    // irrelevant for the answers
    add("mass", [](Element & e) { e.setAtomicMass(33.0); });
}
static const int NCHANGE = 20, NCACHE = 12;
struct Cached { std::set<double> stored; bool on = false; };

static std::string cacheOp(int k, Element & e, Cached & c)
{
    switch (k)
    {
        case 0: e.setCacheEnabled(); c.on = true; return "enable";
        case 1: e.setCacheEnabled(0); c.on = false; return "disable";
        case 2: e.fillCache(VD{7.2, 15.0, 3.0}); c.stored = {7.2, 15.0, 3.0}; return "fill(7.2,15,3)";
        case 3: e.fillCache(VD{0.5}); c.stored = {0.5}; return "fill(0.5)";
        case 4: e.updateCache(VD{90.0, 7.2, 15.0}); c.stored.insert(90.0); c.stored.insert(7.2); c.stored.insert(15.0); return "update(90,7.2,15)";
        case 5: e.clearCache(); c.stored.clear(); return "clear";
        case 6: e.setCascadeCacheEnabled(); return "enable cascade";
        case 7: e.setCascadeCacheEnabled(0); return "disable cascade";
        case 8: e.fillCascadeCache(); return "fill cascade";
        case 9: e.emptyCascadeCache(); return "empty cascade";
        case 10: e.fillCache(VD()); c.stored.clear(); return "fill()";
        default: e.updateCache(VD{15.0, 15.0}); c.stored.insert(15.0); return "update(15,15)";
    }
}
static Element small(int which)
{
    if (which == 0) return LIB[0]->getElementCopy("Fe");
    if (which == 1) return LIB[0]->getElementCopy("Pb");
    Element e("Xx", 40);
    MD b; b["K"] = 7.112; b["L1"] = 0.9; b["L2"] = 0.75; b["L3"] = 0.7; b["M1"] = 0.1; b["M2"] = 0.06; b["M3"] = 0.05; e.setBindingEnergies(b);
    e.setMassAttenuationCoefficients(VD{0.05, 0.7, 0.9, 7.112, 7.113, 200}, VD{5000, 900, 800, 50, 400, 0.2}, VD{5, 2, 2, 1, 1, 0.01}, VD{0.01, 0.05, 0.05, 0.1, 0.1, 0.15});
    e.setPartialPhotoelectricMassAttenuationCoefficients("K", VD{7.112, 200.0}, VD{350, 0.15});
    e.setPartialPhotoelectricMassAttenuationCoefficients("L1", VD{0.9, 200.0}, VD{300, 0.05});
    e.setPartialPhotoelectricMassAttenuationCoefficients("L3", VD{0.7, 200.0}, VD{400, 0.02});
    e.setShellConstants("K", MD{{"omega", 0.5}}); e.setShellConstants("L1", MD{{"omega", 0.25}}); e.setShellConstants("L3", MD{{"omega", 0.125}});
    e.setRadiativeTransitions("K", MD{{"KL2", 1}, {"KL3", 2}}); e.setRadiativeTransitions("L1", MD{{"L1M3", 1}}); e.setRadiativeTransitions("L3", MD{{"L3M1", 1}});
    e.setNonradiativeTransitions("K", MD{{"K-L1L1", 1}, {"K-L2L3", 1}}); e.setNonradiativeTransitions("L1", MD{{"L1-L3M1", 1}});
    return e;
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] { initLibraries(1); };
    define();
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        // oracle: answers of an uncached element after a list of data changes
        auto oracle = [](int which, const std::vector<int> & ch) -> const MD & {
            static std::map<std::string, MD> memo;
            std::string k = std::to_string(which); for (int c : ch) k += "," + std::to_string(c);
            auto i = memo.find(k); if (i != memo.end()) return i->second;
            Element e = small(which);
            for (int c : ch) { try { CH[c].f(e); } catch (const std::exception &) {} }
            return memo[k] = ask(e);
        };
        int depth0 = T ? 4 : 3, NOP = NCACHE + NCHANGE, W = T ? 3 : 2;
        M.suite("element", W * 4 * NOP, [=](Run & r, int job) {
            int which = (job / NOP / 4 + 2) % 3, start = job / NOP % 4, first = job % NOP;       // user-defined, Fe, (Pb)
            Element e = small(which); Cached c; std::vector<int> done; int depth = which == 2 ? depth0 : depth0 - 1;
            r.note(which == 2 ? "user-defined" : which ? "Pb" : "Fe");
            if (start & 1) { r.note("cache on and filled"); e.setCacheEnabled(); e.fillCache(ES); c.on = true; c.stored.insert(ES.begin(), ES.end()); }
            if (start & 2) { r.note("cascade cache on"); e.setCascadeCacheEnabled(); }
            int len = 1 + r.choose(depth);
            for (int i = 0; i < len; i++)
            {
                int k = i == 0 ? first : r.choose(i == depth - 1 ? NCACHE + 13 : NOP + 1);
                if (k < NCACHE)
                {
                    r.op(cacheOp(k, e, c));
                    r.check(e.getCacheSize() == (int) c.stored.size(), "cache size", std::to_string(e.getCacheSize()) + " want " + std::to_string(c.stored.size()));
                }
                else if (k == NOP) r.op("ask everything");
                else
                {
                    int q = k - NCACHE; r.op(CH[q].name);
                    bool th = throws([&] { CH[q].f(e); });
                    r.check(th == (CH[q].name.substr(0, 7) == "refused"), "acceptance of " + CH[q].name);
                    if (!th) done.push_back(q);
                    int n = e.getCacheSize();
                    if (!th && CH[q].name != "mass") { r.check(n == 0, "results kept over a change of " + CH[q].name); c.stored.clear(); }
                    else { r.check(n == 0 || n == (int) c.stored.size(), "cache size after " + CH[q].name); if (n == 0) c.stored.clear(); }
                }
                r.check((e.isCacheEnabled() != 0) == c.on, "enabled flag");
                if (i + 1 < len && k < NOP) continue;
                r.site("queries after " + r.log);
                std::string what, d = diff(ask(e), oracle(which, done), what);
                r.check(d.empty(), "stale:" + what, d);
                // asking again, and asking a copy, changes nothing
                if (i + 1 == len && (k % 5) == 0) { Element f(e); what.clear(); d = diff(ask(f), oracle(which, done), what); r.check(d.empty(), "stale in a copy:" + what, d); }
            }
            std::string s; for (double x : c.stored) s += num6(x) + ","; for (int q : done) s += " " + std::to_string(q); r.state(s + (c.on ? "on" : "off") + std::to_string(e.isCascadeCacheFilled() > 0) + std::to_string(which));
        });
        // the same through a library; the files behind the data are exchanged
        M.suite("library", 16, [=](Run & r, int job) {
            static const VS NAME = {"Fe", "Pb"};
            Elements & L = *LIB[0]; int n = T ? 3 : 2; std::vector<int> files;
            static std::map<std::string, MD> memo;
            auto change = [](Elements & L, int k) {
                switch (k)
                {
                    case 0: L.setShellConstantsFile("K", D + "/KShellConstants.dat"); break;
                    case 1: L.setShellRadiativeTransitionsFile("L", D + "/LShellRates.dat"); break;
                    case 2: L.setShellNonradiativeTransitionsFile("K", D + "/EADL97_KShellNonradiativeRates.dat"); break;
                    case 3: L.setMassAttenuationCoefficients("Fe", VD{1.0, 7.0, 7.2, 100.0}, VD{1000, 40, 300, 0.2}, VD{5, 1, 1, 0.01}, VD{0.01, 0.1, 0.1, 0.2}, VD{0, 0, 0, 0}); break;
                    default: L.setShellConstantsFile("M", D + "/MShellConstants.dat");
                }
            };
            Elements work(L); Elements plain(L); std::string key;
            int state = job % 8; r.note("caches " + std::to_string(state));
            for (auto & s : NAME)
            {
                if (state & 1) work.setElementCascadeCacheEnabled(s, 1);
                if (state & 2) work.setCacheEnabled(s, 1);
                if (state & 4) work.fillCache(s, ES);
            }
            for (int i = 0; i < n; i++)
            {
                int k = i == 0 ? (job / 8) + 2 * r.choose(6) : r.choose(12);
                if (k < 5) { r.op("data " + std::to_string(k)); change(work, k); change(plain, k); key += std::to_string(k); }
                else for (auto & s : NAME)
                {
                    if (k == 5) { r.op("fill " + s); work.fillCache(s, ES); r.check(work.getCacheSize(s) == 3, "library cache size"); }
                    else if (k == 6) { r.op("update " + s); work.updateCache(s, VD{33.0, 15.0}); }
                    else if (k == 7) { r.op("clear " + s); work.clearCache(s); r.check(work.getCacheSize(s) == 0, "library cache size after clearing"); }
                    else if (k == 8) { r.op("disable " + s); work.setCacheEnabled(s, 0); r.check(work.isCacheEnabled(s) == 0, "library flag"); }
                    else if (k == 9) { r.op("enable " + s); work.setCacheEnabled(s); r.check(work.isCacheEnabled(s) == 1, "library flag"); }
                    else if (k == 10) { r.op("cascade cache of " + s); work.fillElementCascadeCache(s); r.check(work.isElementCascadeCacheFilled(s) > 0, "cascade cache filled"); work.setElementCascadeCacheEnabled(s); }
                    else { r.op("empty cascade of " + s); work.emptyElementCascadeCache(s); r.check(work.isElementCascadeCacheFilled(s) == 0, "cascade cache emptied"); }
                }
                for (auto & s : NAME)
                {
                    const Element & e = work.getElement(s); r.site("library queries after " + r.log);
                    std::string mk = s + key; if (!memo.count(mk)) memo[mk] = ask(plain.getElement(s));
                    std::string what, d = diff(ask(e), memo[mk], what); r.check(d.empty(), "library, stale:" + what, s + d);
                    MD a, b; put(a, "factors", work.getExcitationFactors(s, 15.0)); put(b, "factors", plain.getExcitationFactors(s, 15.0)); put(a, "mu", work.getMassAttenuationCoefficients(s + "2O", 15.0)); put(b, "mu", plain.getMassAttenuationCoefficients(s + "2O", 15.0));
                    what.clear(); d = diff(a, b, what); r.check(d.empty(), "library query, stale:" + what, s + d);
                }
            }
            for (auto & s : {"Nope", ""})
                r.check(throws([&] { work.fillCache(s, ES); }) && throws([&] { work.updateCache(s, ES); }) && throws([&] { work.clearCache(s); }) && throws([&] { work.setCacheEnabled(s); }) && throws([&] { work.getCacheSize(s); }) && throws([&] { work.setElementCascadeCacheEnabled(s); }) && throws([&] { work.fillElementCascadeCache(s); }), "unknown element accepted");
        });
    });
}
