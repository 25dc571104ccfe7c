// F03: a configuration file leaves the calculator as the equivalent explicit calls do.
#include "mc.hpp"
#include "reflibs.hpp"
#include "fisx_xrf.h"
#include <unistd.h>
using namespace mc;
using fisx::XRF; using fisx::Layer; using fisx::Detector; using fisx::Material; using fisx::TransmissionTable;
typedef std::vector<double> VD; typedef std::vector<std::string> VS;

// ---- an experiment in the abstract -------------------------------------------
struct CRay { std::string e; double w; int scatter, flag; };
struct CMat { std::string name; VS comp; VD frac; double d, t; std::string comment; bool given; };      // given: density and thickness are in the file
struct CLay { std::string key, material; double d, t, fill; int flag; bool old; };
struct CTab { std::string name; VD e, t; int use; std::string comment; };
struct Conf {
    std::vector<CRay> rays; bool weights = true, scatters = true, flags = true;
    std::vector<CMat> mats; std::vector<CLay> filters, att, layers; std::vector<CTab> uf, ua;
    int matrixFlag = 1; bool multi = false; CLay matrix; double in = 45, out = 45, scat = 90; int useScat = 0;
    bool hasDet = false; CLay det; double distance = -1, area = -1; bool valid = true; std::string broken;
};
static std::string n12(double v) { char b[40]; snprintf(b, sizeof b, "%.12g", v); return b; }
static std::string list(const VS & v, const std::string & sep) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? sep : "") + v[i]; return s; }
static std::string list(const VD & v, const std::string & sep) { VS s; for (double x : v) s.push_back(n12(x)); return list(s, sep); }
enum { PLAIN, CRLF, REVERSED, COMMENTS, RESULT, UPPER, TIGHT, CONTINUED, EXTRA, STYLES };
typedef std::pair<std::string, std::vector<std::pair<std::string, std::string> > > Section;

static std::vector<Section> sections(const Conf & c, int style)
{
    std::vector<Section> o; std::string sep = style == TIGHT ? "," : ", ";
    { VS e, w, s, f; for (auto & r : c.rays) { e.push_back(r.e); w.push_back(n12(r.w)); s.push_back(str(r.scatter)); f.push_back(str(r.flag)); }
      Section k; k.first = style == RESULT ? "result.config" : "fit"; k.second.push_back({"energy", list(e, sep)});
      if (c.weights) k.second.push_back({"energyweight", list(w, sep)}); if (c.scatters) k.second.push_back({"energyscatter", list(s, sep)}); if (c.flags) k.second.push_back({"energyflag", list(f, sep)});
      k.second.push_back({"linearfitflag", "0"}); o.push_back(k); }
    for (auto & m : c.mats) { Section k; k.first = "Materials." + m.name; if (m.comment.size()) k.second.push_back({"Comment", m.comment}); k.second.push_back({"CompoundList", list(m.comp, sep)}); k.second.push_back({m.frac.size() == 1 ? "CompoundFraction" : "CompoundFractions", list(m.frac, sep)});
        if (m.given) { k.second.push_back({"Density", n12(m.d)}); k.second.push_back({"Thickness", n12(m.t)}); } o.push_back(k); }
    auto tab = [&](const CTab & t, const std::string & p) { Section k; k.first = p + "." + t.name; k.second = {{"use", str(t.use)}, {"energy", list(t.e, sep)}, {"transmission", list(t.t, sep)}}; if (t.comment.size()) k.second.push_back({"comment", t.comment}); o.push_back(k); };
    for (auto & t : c.uf) tab(t, "UserBeamFilters"); for (auto & t : c.ua) tab(t, "UserAttenuators");
    { Section k; k.first = "attenuators";
      auto lay = [&](const CLay & l) { VS v = {str(l.flag), l.material, n12(l.d), n12(l.t)}; if (!l.old) v.push_back(n12(l.fill)); k.second.push_back({l.key, list(v, sep)}); };
      for (auto & l : c.filters) lay(l); for (auto & l : c.att) lay(l);
      VS v = {str(c.matrixFlag), c.multi ? "MULTILAYER" : c.matrix.material, n12(c.matrix.d), n12(c.matrix.t), n12(c.in), n12(c.out), str(c.useScat), n12(c.scat)};
      k.second.push_back({"Matrix", list(v, sep)});
      if (c.hasDet) lay(c.det);
      o.push_back(k); }
    if (c.layers.size()) { Section k; k.first = "multilayer"; for (auto & l : c.layers) k.second.push_back({l.key, list(VS{str(l.flag), l.material, n12(l.d), n12(l.t)}, sep)}); o.push_back(k); }
    if (c.distance >= 0 || c.area >= 0) { Section k; k.first = "concentrations"; k.second.push_back({"usematrix", "0"}); if (c.distance >= 0) k.second.push_back({"distance", n12(c.distance)}); if (c.area >= 0) k.second.push_back({"area", n12(c.area)}); o.push_back(k); }
    return o;
}
static std::string render(const Conf & c, int style)
{
    auto s = sections(c, style);
    if (style == REVERSED)
    {   // the order of the materials and tables among themselves is kept, it is visible
        std::vector<Section> o; std::map<std::string, std::vector<Section> > g; VS order;
        for (auto & k : s) { std::string p = k.first.substr(0, k.first.find('.')); if (!g.count(p)) order.push_back(p); g[p].push_back(k); }
        std::reverse(order.begin(), order.end()); for (auto & p : order) for (auto & k : g[p]) o.push_back(k); s = o;
        for (auto & k : s) std::reverse(k.second.begin(), k.second.end());
    }
    std::string t, nl = style == CRLF ? "\r\n" : "\n";
    if (style == COMMENTS) t += "# a comment" + nl + nl;
    for (auto & k : s)
    {
        std::string name = k.first;
        if (style == UPPER) { size_t d = name.find('.'); for (size_t i = 0; i < name.size() && (i < d || name.compare(0, 6, "result") == 0); i++) name[i] = toupper(name[i]); }
        if (style == EXTRA) t += "[other." + k.first + "]" + nl + "energy = 99" + nl;
        t += "[" + name + "]" + nl;
        for (auto & p : k.second)
        {
            std::string key = p.first, v = p.second;
            if (style == UPPER && (name.compare(0, 9, "MATERIALS") == 0 || name.compare(0, 4, "USER") == 0 || name.compare(0, 4, "CONC") == 0)) for (auto & x : key) x = toupper(x);
            if (style == CONTINUED) { size_t q = v.find(", "); if (q != std::string::npos && q % 2) v = v.substr(0, q + 1) + nl + "    " + v.substr(q + 2); }
            t += key + (style == TIGHT ? "=" : style == EXTRA ? "   =  " : " = ") + v + (style == COMMENTS && v.find(' ') != std::string::npos ? "   # " + key : "") + nl;
            if (style == COMMENTS) t += "; " + nl;
        }
        if (style != TIGHT) t += nl;
    }
    if (style == TIGHT) t.erase(t.size() - 1);
    return t + c.broken;
}
// ---- the equivalent explicit calls ---------------------------------------------
static void explicitly(const Conf & c, XRF & x)
{
    VD e, w; std::vector<int> ch;
    for (auto & r : c.rays) if ((!c.flags || r.flag > 0) && r.e != "None") { e.push_back(atof(r.e.c_str())); w.push_back(c.weights ? r.w : 1.0); ch.push_back(c.scatters ? std::max(r.scatter, 0) : 1); }
    x.setBeam(e, w, ch);
    auto lay = [&](const CLay & l, double fill) { std::string key; for (char k : l.key) if (k != ' ') key += k; Layer y(key, l.d, l.t, fill); y.setMaterial(l.material); for (auto & m : c.mats) if (m.name == l.material) { Material k(m.name, m.given ? m.d : 1.0, m.given ? m.t : 1.0, m.comment); k.setComposition(m.comp, m.frac); y.setMaterial(k); } return y; };
    std::vector<Layer> f, a, s; std::vector<TransmissionTable> uf, ua;
    for (auto & l : c.filters) if (l.flag) f.push_back(lay(l, l.old ? 1.0 : l.fill));
    for (auto & l : c.att) if (l.flag) a.push_back(lay(l, l.old ? 1.0 : l.fill));
    std::sort(f.begin(), f.end(), [](const Layer & p, const Layer & q) { return p.getName() < q.getName(); });           // a section is a map: its keys have no order
    std::sort(a.begin(), a.end(), [](const Layer & p, const Layer & q) { return p.getName() < q.getName(); });
    if (c.matrixFlag)
    {
        if (c.multi)
        {
            std::vector<std::pair<int, const CLay *> > o; for (auto & l : c.layers) if (l.flag) o.push_back({atoi(l.key.c_str() + 5), &l});
            std::sort(o.begin(), o.end()); for (auto & p : o) s.push_back(lay(*p.second, 1.0));
        }
        else s.push_back(lay(c.matrix, 1.0));
        x.setGeometry(c.in, c.out, c.useScat ? c.scat : c.in + c.out);
    }
    auto tab = [](const CTab & t) { TransmissionTable k; k.setTransmissionTable(t.e, t.t, t.name, t.comment); return k; };
    for (auto & t : c.uf) if (t.use) uf.push_back(tab(t)); for (auto & t : c.ua) if (t.use) ua.push_back(tab(t));
    x.setBeamFilters(f); x.setAttenuators(a); x.setUserBeamFilters(uf); x.setUserAttenuators(ua); if (s.size()) x.setSample(s);
    Detector d;
    if (c.hasDet && c.det.flag) { d = Detector(c.det.key, c.det.d, c.det.t, c.det.old ? 1.0 : c.det.fill); d.setMaterial(c.det.material); for (auto & m : c.mats) if (m.name == c.det.material) { Material k(m.name, m.given ? m.d : 1.0, m.given ? m.t : 1.0, m.comment); k.setComposition(m.comp, m.frac); d.setMaterial(k); } }
    if (c.distance >= 0) d.setDistance(c.distance); if (c.area >= 0) d.setActiveArea(c.area);
    x.setDetector(d);
}
// ---- everything a calculator shows about itself ------------------------------------
static std::string show(const std::map<std::string, double> & m) { std::string s; for (auto & p : m) s += p.first + ":" + n12(p.second) + " "; return s; }
static std::string show(const Layer & l)
{
    std::string s = "<" + l.getName() + "> d " + n12(l.getDensity()) + " t " + n12(l.getThickness()) + " fill " + n12(l.getFunnyFactor());
    if (l.hasMaterialComposition()) { Material m = l.getMaterial(); s += " own " + m.getName() + " " + show(m.getComposition()) + n12(m.getDefaultDensity()) + " " + n12(m.getDefaultThickness()) + " " + m.getComment(); }
    else s += " named " + l.getMaterialName();
    return s;
}
static std::string show(const TransmissionTable & t) { std::string s = t.getName() + "|" + t.getComment() + "|"; for (auto & p : t.getTransmissionTable()) s += n12(p.first) + ":" + n12(p.second) + " "; return s; }
typedef std::vector<std::pair<std::string, std::string> > Shown;
static Shown dump(const XRF & x, bool materials = true)
{
    Shown o; auto b = x.getBeam().getBeamAsDoubleVectors(); std::string s; for (auto & v : b) s += list(v, " ") + " / ";
    o.push_back({"beam", s});
    auto layers = [&](const char * w, const std::vector<Layer> & v) { std::string s = str(v.size()) + " "; for (auto & l : v) s += show(l) + "; "; o.push_back({w, s}); };
    layers("beam filters", x.getBeamFilters()); layers("sample", x.getSample()); layers("attenuators", x.getAttenuators());
    s = ""; for (auto & t : x.getUserBeamFilters()) s += show(t) + "; "; o.push_back({"user beam filters", s}); s = ""; for (auto & t : x.getUserAttenuators()) s += show(t) + "; "; o.push_back({"user attenuators", s});
    const Detector & d = x.getDetector(); o.push_back({"detector", show((const Layer &) d) + " distance " + n12(d.getDistance()) + " diameter " + n12(d.getDiameter())});
    o.push_back({"geometry", n12(x.getAlphaIn()) + " " + n12(x.getAlphaOut()) + " " + n12(x.getScatteringAngle())}); o.push_back({"reference layer", str(x.getReferenceLayer())});
    if (materials) { s = ""; for (auto m : x.getMaterials()) s += m.getName() + " " + show(m.getComposition()) + n12(m.getDefaultDensity()) + " " + n12(m.getDefaultThickness()) + " " + m.getComment() + "; "; o.push_back({"materials", s}); }
    return o;
}
static std::string materials(const Conf & c)
{
    std::string s;
    for (auto & m : c.mats) { std::map<std::string, double> k; double t = 0; for (size_t i = 0; i < m.comp.size(); i++) { k[m.comp[i]] += m.frac[i]; t += m.frac[i]; } for (auto & p : k) p.second /= t; s += m.name + " " + show(k) + n12(m.given ? m.d : 1) + " " + n12(m.given ? m.t : 1) + " " + m.comment + "; "; }
    return s;
}
static void same(Run & r, const XRF & got, const Shown & want, const std::string & w, const std::string & text)
{
    Shown g = dump(got);
    for (size_t i = 0; i < want.size(); i++) if (g[i].second != want[i].second) r.fail(w + ":" + want[i].first, g[i].second + "\n want " + want[i].second + "\n" + text);
    r.check(true, w);
}
static Shown expected(const Conf & c) { XRF x; explicitly(c, x); Shown s = dump(x, false); s.push_back({"materials", materials(c)}); return s; }
static std::string scratch;
static std::string file(const std::string & t, const std::string & tag = "a")
{
    std::string name = scratch + "/conf_" + std::to_string(getpid()) + tag + ".cfg"; FILE * f = fopen(name.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); return name;
}
// ---- menus ---------------------------------------------------------------------
static std::vector<std::vector<CRay> > RAYS; static std::vector<std::vector<CMat> > MATS; static std::vector<std::vector<CLay> > FILT, ATT, MULTI; static std::vector<CLay> SINGLE, DET; static std::vector<std::vector<CTab> > UF, UA; static std::vector<Conf> BROKEN;
static void menu()
{
    RAYS = {{{"17.4", 1, 1, 1}}, {{"20", 3, 1, 1}, {"12.5", 1, 0, 1}, {"None", 1, 1, 1}}, {{"9", 2, 1, 0}, {"8.5", 2, 1, 1}, {"8.5", 6, 0, 1}, {"33", 1, -1, 1}}, {{"10", 0.25, 0, 1}, {"11", 5, 1, 0}, {"2", 0.5, 1, 1}, {"None", 1, 1, 0}, {"None", 7, 0, 0}}};
    CMat brass{"brass", {"Cu", "Zn"}, {7, 3}, 8.5, 0.01, "an alloy", true}, kap{"Kapton 2.5", {"C22H10N2O5"}, {1}, 1.42, 0.0025, "", true}, mix{"Mix", {"brass", "SiO2", "brass"}, {0.5, 1, 0.5}, 3, 0.02, "nested", true}, bare{"Bare", {"Fe"}, {1}, 1, 1, "", false}, over{"Fe", {"Fe", "C"}, {99, 1}, 7.7, 0.1, "steel", true};
    MATS = {{}, {brass, kap}, {kap, mix, brass, bare}, {over, bare, brass, mix}};
    FILT = {{}, {{"BeamFilter0", "Al", 2.7, 0.01, 1, 1, false}}, {{"BeamFilter0", "Al", 2.7, 0.01, 1, 0, false}, {"BeamFilter1", "brass", 8, 0.001, 0.5, 1, false}}, {{"BeamFilter2", "Kapton 2.5", 0, 0.002, 1, 1, false}, {"BeamFilter10", "Cu", 8.9, 0.0001, 0.75, 1, true}, {"BeamFilter1", "Fe", 7.8, 0.001, 1, 1, false}}};
    ATT = {{}, {{"atmosphere", "Bare", 0.001, 5, 1, 1, false}}, {{"deadlayer", "Si", 2.3, 0.0001, 1, 1, false}, {"absorber", "-", 0, 0, 1, 0, false}, {"window", "Mix", 0, 0, 0.5, 1, false}, {"contact", "Fe", 7.8, 1e-5, 1, 1, true}, {"Filter 6", "H2O", 1, 0.1, 1, 1, false}}};
    SINGLE = {{"Matrix", "Fe", 7.8, 0.01, 1, 1, false}, {"Matrix", "Mix", 0, 0, 1, 1, false}, {"Matrix", "CaCO3", 2.7, 0.1, 1, 1, false}};
    MULTI = {{{"Layer0", "brass", 0, 0.002, 1, 1, false}}, {{"Layer0", "Fe", 7.8, 0.001, 1, 1, false}, {"Layer1", "Mix", 2, 0, 1, 0, false}, {"Layer2", "SiO2", 2.2, 0.01, 1, 1, false}}, {{"Layer10", "Pb", 11, 0.1, 1, 1, false}, {"Layer2", "Bare", 7.8, 0.001, 1, 1, false}, {"Layer1", "brass", 8, 0.0001, 1, 1, false}, {"Layer9", "Kapton 2.5", 0, 0, 1, 1, false}}};
    DET = {{"Detector", "Si", 2.33, 0.05, 1, 1, false}, {"Detector", "brass", 0, 0, 0.9, 1, false}, {"Detector", "Ge", 5.3, 0.4, 1, 0, false}, {"Detector", "CdTe", 5.85, 0.1, 1, 1, true}};
    UF = {{}, {{"filter", {1, 10, 30}, {0.1, 0.5, 1}, 1, "about"}}, {{"other", {5, 6}, {0, 1}, 0, ""}, {"Filter 1.5", {2, 20}, {1, 0.5}, 1, ""}, {"last", {1, 2, 2, 3}, {0.25, 0.5, 1, 1}, 1, "step"}}};
    UA = {{}, {{"filter", {3, 4}, {0.3, 0.4}, 1, ""}, {"off", {1, 2}, {0.5, 0.5}, 0, "unused"}}};
}
static std::string describe(const Conf & c) { return render(c, PLAIN); }
static Conf make(int ray, int mode, int mat, int filt, int att, int sample, int geo, int det, int conc, int uf, int ua)
{
    Conf c; c.rays = RAYS[ray]; c.mats = MATS[mat]; c.filters = FILT[filt]; c.att = ATT[att];
    c.weights = !(mode & 1); c.scatters = !(mode & 2); c.flags = !(mode & 4);
    if (sample < 3) c.matrix = SINGLE[sample]; else if (sample < 6) { c.multi = true; c.layers = MULTI[sample - 3]; c.matrix = {"Matrix", "MULTILAYER", 0, 0, 1, 1, false}; } else { c.matrix = SINGLE[0]; c.matrixFlag = 0; c.layers = MULTI[1]; }
    c.in = geo == 0 ? 45 : geo == 1 ? 10 : 90; c.out = geo == 0 ? 45 : geo == 1 ? 72.5 : 30; c.useScat = geo == 2; c.scat = geo == 2 ? 110 : 90;
    if (det < 4) { c.hasDet = true; c.det = DET[det]; }
    if (conc & 1) c.distance = 2.5; if (conc & 2) c.area = 0.3;
    c.uf = UF[uf]; c.ua = UA[ua];
    return c;
}
static fisx::Elements * WITH[4];      // libraries that know the materials of the configuration
static void fluorescence(Run & r, XRF & a, XRF & b, int mat, const std::string & text)
{
    VS el = {"Fe", "Cu", "Ca", "Pb", "Zn", "Si"}, fam = {"K", "K", "K", "L", "Ka", "K"}; std::vector<int> lay(6, -1);
    auto run = [&](XRF & x, fisx::Elements & L, std::string & e) { std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > > o; try { o = x.getMultilayerFluorescence(el, L, lay, fam, 1, 1, 1); } catch (std::exception & k) { e = "error"; } return o; };
    std::string ea, eb; auto p = run(a, *LIB[0], ea), q = run(b, *WITH[mat], eb); r.step();
    r.check(ea == eb, "fluorescence:accepted by one only", text);
    r.check(p == q, "fluorescence:other rates", text);
}
static Main M;
int main(int argc, char ** argv)
{
    const char * sc = getenv("FISX_MC_SCRATCH"); scratch = sc ? sc : "/tmp"; menu();
    M.init = [] { initLibraries(1); for (int k = 0; k < 4; k++) { WITH[k] = new fisx::Elements(*LIB[0]); for (auto & m : MATS[k]) if (m.name != "Fe") { Material q(m.name, m.d, m.t); q.setComposition(m.comp, m.frac); WITH[k]->addMaterial(q); } } };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.suite("experiments", 4 * 7 * 4, [=](Run & r, int job) {
            int ray = job % 4, sample = job / 4 % 7, mat = job / 28;
            int filt = r.choose(4), att = r.choose(3 - 1 + 0) , det = r.choose(5), conc = r.choose(4), uf = r.choose(3), ua = r.choose(2);
            att = (att + (filt + det) % 2) % 3;
            int geo = T ? r.choose(3) : (filt + det + conc) % 3, mode = T ? r.choose(8) : (filt + 2 * det + conc * 3 + uf) % 8;
            Conf c = make(ray, mode, mat, filt, att, sample, geo, det, conc, uf, ua);
            std::string text = render(c, PLAIN); r.site("experiment"); r.step();
            XRF x; bool th = throws([&] { x.readConfigurationFromFile(file(text)); });
            if (!r.check(!th, "valid configuration refused", text)) return;
            same(r, x, expected(c), "experiment", text);
            if ((ray + filt + att + det + conc + uf + ua) % (T ? 5 : 29) == 0) { XRF y; explicitly(c, y); fluorescence(r, x, y, mat, text); XRF z(file(text)); same(r, z, dump(x), "constructor", text); }
            r.state(text);
        });
        // the same experiment written differently
        M.suite("spellings", STYLES * 4, [=](Run & r, int job) {
            int style = job % STYLES, ray = job / STYLES, sample = r.choose(7), mat = r.choose(4), filt = r.choose(4), det = r.choose(5), turn = r.choose(T ? 6 : 2);
            Conf c = make(ray, (turn * 3 + det) % 8, mat, filt, (filt + turn) % 3, sample, (turn + mat) % 3, det, (det + filt) % 4, (turn + sample) % 3, (turn + filt) % 2);
            std::string text = render(c, style); r.site("spelling"); r.step();
            XRF x; bool th = throws([&] { x.readConfigurationFromFile(file(text)); });
            if (!r.check(!th, "valid configuration refused, style " + str(style), text)) return;
            same(r, x, expected(c), "style " + str(style), text);
        });
        // whatever was loaded or set before
        M.suite("histories", 14 * 14, [=](Run & r, int job) {
            static std::vector<Conf> C = {make(0, 0, 1, 1, 1, 0, 0, 0, 3, 1, 1), make(2, 0, 3, 3, 2, 5, 2, 1, 0, 2, 0), make(1, 7, 0, 0, 0, 2, 1, 4, 2, 0, 0), make(3, 0, 2, 2, 1, 6, 1, 2, 1, 1, 1)};
            static std::vector<Conf> B;
            if (B.empty())
            {
                Conf k = C[1]; k.rays = {{"-3", 1, 1, 1}}; B.push_back(k);
                k = C[1]; k.rays[1].w = -1; B.push_back(k);
                k = C[1]; k.mats[2].frac = {1, -2}; B.push_back(k);
                k = C[1]; k.uf[2].e = {3, 2, 1, 0}; B.push_back(k);
                k = C[1]; k.distance = -0.0; B.push_back(k);
                k = C[1]; k.broken = "\n[unfinished\n"; B.push_back(k);
                k = C[1]; k.mats[0].frac = {1}; B.push_back(k);
            }
            XRF x; Shown now = dump(x); std::string hist;
            int n = T ? 4 : 3;
            for (int i = 0; i < n; i++)
            {
                int o = i == 0 ? job % 14 : i == 1 ? job / 14 : r.choose(18);
                if (o < 4) { hist += " load " + str(o); r.op("load " + str(o)); bool th = throws([&] { x.readConfigurationFromFile(file(render(C[o], o), "b")); }); r.check(!th, "valid configuration refused", hist); now = expected(C[o]); }
                else if (o < 11) { int k = o - 4; hist += " refused " + str(k); r.op("refused " + str(k)); bool th = throws([&] { x.readConfigurationFromFile(file(render(B[k], PLAIN), "b")); }); r.check(th, "broken configuration accepted", str(k)); }
                else if (o == 11) { hist += " missing"; r.op("missing file"); r.check(throws([&] { x.readConfigurationFromFile(scratch + "/there is none"); }), "missing file accepted"); }
                else if (o == 12) { hist += " other format"; r.op("other format"); r.check(throws([&] { x.readConfigurationFromFile(file("[attenuators]\nMatrix = 1, Fe, 1, 1, 45, 45, 0, 90\n", "b")); }), "file without fit section accepted"); }
                else
                {
                    hist += " explicit " + str(o); r.op("explicit " + str(o));
                    if (o == 13) { x.setBeam(VD{5, 3}, VD{1, 1}); x.setGeometry(20, 30, 40); }
                    if (o == 14) x.setSample(std::vector<Layer>{Layer("Au", 19, 1), Layer("Pb", 11, 1)}, 1);
                    if (o == 15) { Detector d("Si", 2.3, 0.1); d.setActiveArea(4); x.setDetector(d); }
                    if (o == 16) { x.setBeamFilters({Layer("Cu", 9, 1)}); x.setAttenuators({Layer("Al", 2.7, 1), Layer("Be", 1.8, 1)}); }
                    if (o == 17) { TransmissionTable t; t.setTransmissionTable(VD{1, 2}, VD{0, 1}); x.setUserBeamFilters({t}); x.setUserAttenuators({t, t}); }
                    Shown g = dump(x);
                    // only what was set changes
                    static const std::map<int, std::set<std::string> > TOUCH = {{13, {"beam", "geometry"}}, {14, {"sample", "reference layer"}}, {15, {"detector"}}, {16, {"beam filters", "attenuators"}}, {17, {"user beam filters", "user attenuators"}}};
                    for (size_t k = 0; k < g.size(); k++) if (TOUCH.at(o).count(g[k].first)) now[k] = g[k];
                }
                same(r, x, now, "history", hist);
            }
            r.state(hist);
        });
    });
    for (auto t : {"a", "b"}) unlink((scratch + "/conf_" + std::to_string(getpid()) + t + ".cfg").c_str());
}
