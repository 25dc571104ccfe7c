// F01: spec-format files.  Every file made of up to N line tokens, in both
// line-ending styles, with and without a final newline; every row and label
// format of the menu; every sequence of loads on one reader; every case also
// under an emulated comma-decimal locale (strtod is interposed below).
#include "mc.hpp"
#include "fisx_simplespecfile.h"
#include <locale.h>
using namespace mc;
using fisx::SimpleSpecfile;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;

static bool commaLocale = false;
static double cStrtod(const char * s, char ** e)
{
    static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t) 0);
    return strtod_l(s, e, c);
}
extern "C" double strtod(const char * s, char ** e) noexcept
{
    if (!commaLocale) return cStrtod(s, e);
    std::string k(s);
    for (auto & ch : k) { if (ch == '.') ch = '\x01'; else if (ch == ',') ch = '.'; }
    char * end; double v = cStrtod(k.c_str(), &end);
    if (e) *e = (char *) s + (end - k.c_str());
    return v;
}

struct Scan { bool hasLabels = false; VS labels; std::vector<VD> rows; bool ragged = false; };

struct Line { std::string text; int kind; VS labels; VD nums; };   // 0 scan 1 header 2 labels 3 data 4 blank

static std::vector<Scan> model(const std::vector<Line> & l)
{
    std::vector<Scan> s; bool in = false;
    for (auto & x : l)
    {
        if (x.kind == 0) { s.push_back(Scan()); in = true; }
        else if (x.kind == 4) in = false;
        else if (!in) continue;
        else if (x.kind == 2) { if (!s.back().hasLabels) { s.back().hasLabels = true; s.back().labels = x.labels; } }
        else if (x.kind == 3)
        {
            if (s.back().rows.size() && s.back().rows[0].size() != x.nums.size()) s.back().ragged = true;
            s.back().rows.push_back(x.nums);
        }
    }
    return s;
}

static std::string scratch;
static std::string writeFile(const std::vector<Line> & l, bool crlf, bool last, const char * tag)
{
    std::string name = scratch + "/f" + std::to_string(getpid()) + tag, t;
    for (size_t i = 0; i < l.size(); i++)
    {
        t += l[i].text;
        if (i + 1 < l.size() || last) t += crlf ? "\r\n" : "\n";
    }
    FILE * f = fopen(name.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    return name;
}
static std::string show(const std::vector<Line> & l) { std::string s; for (auto & x : l) s += x.text + "\\n"; return s; }

static void observe(Run & r, SimpleSpecfile & f, const std::vector<Scan> & m, const std::string & w)
{
    r.check(f.getNumberOfScans() == (int) m.size(), w + ":number of scans", std::to_string(f.getNumberOfScans()) + " instead of " + std::to_string(m.size()));
    int n = std::min(f.getNumberOfScans(), (int) m.size());
    std::string canon;
    for (int i = n - 1; i >= 0; i--)
    {
        VS lab; std::vector<VD> d;
        bool tl = throws([&] { lab = f.getScanLabels(i); });
        r.check(tl == !m[i].hasLabels, w + ":label line", m[i].hasLabels ? "labels not found" : "labels invented");
        if (!tl && m[i].hasLabels)
        {
            std::string a, b; for (auto & x : lab) a += "<" + x + ">"; for (auto & x : m[i].labels) b += "<" + x + ">";
            r.check(a == b, w + ":labels", a + " instead of " + b);
            canon += b;
        }
        bool td = throws([&] { d = f.getScanData(i); });
        r.check(td == m[i].ragged, w + ":row lengths", m[i].ragged ? "rows of different lengths accepted" : "rows refused");
        if (!td && !m[i].ragged)
        {
            if (r.check(d.size() == m[i].rows.size(), w + ":number of rows", std::to_string(d.size()) + " instead of " + std::to_string(m[i].rows.size())))
                for (size_t k = 0; k < d.size(); k++)
                {
                    if (!r.check(d[k].size() == m[i].rows[k].size(), w + ":number of columns")) continue;
                    for (size_t c = 0; c < d[k].size(); c++) { r.eq(d[k][c], m[i].rows[k][c], w + ":value", 1e-15, 0); canon += num6(d[k][c]) + ","; }
                }
        }
        canon += m[i].ragged ? "R/" : "/";
    }
    const int bad[] = {-1, (int) m.size(), (int) m.size() + 5};
    for (int b : bad)
    {
        r.check(throws([&] { f.getScanLabels(b); }), w + ":labels of an absent scan");
        r.check(throws([&] { f.getScanData(b); }), w + ":data of an absent scan");
    }
    r.state(canon);
}

static Line mk(const std::string & t, int k, VS l = VS(), VD d = VD()) { Line x; x.text = t; x.kind = k; x.labels = l; x.nums = d; return x; }

int main(int argc, char ** argv)
{
    static Main M;
    const char * sc = getenv("FISX_MC_SCRATCH"); scratch = sc ? sc : "/tmp";
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        static const std::vector<Line> TOK = {
            mk("#S 1 first", 0), mk("#N 2", 1), mk("#L A  B b", 2, {"A", "B b"}), mk("1 2", 3, {}, {1, 2}),
            mk("3.5e-1  -4.25", 3, {}, {0.35, -4.25}), mk("", 4), mk("#C note 3 4", 1), mk("7", 3, {}, {7}),
            mk("#L Z", 2, {"Z"})};
        int len = T ? 7 : 5;
        int nt = (int) TOK.size();
        M.suite("files", nt * nt, [=](Run & r, int job) {
            std::vector<Line> l; l.push_back(TOK[job / nt]); l.push_back(TOK[job % nt]);
            int n = r.choose(len - 1);
            for (int i = 0; i < n; i++) l.push_back(TOK[r.choose(i > 3 || (!T && i > 1) ? 6 : nt)]);
            std::vector<Scan> m = model(l);
            r.note(show(l));
            for (int v = 0; v < 4; v += (!T && n > 2) ? 3 : 1)
            {
                r.op(std::string(v & 1 ? "CRLF" : "LF") + (v & 2 ? "" : " no final newline") + " " + show(l));
                commaLocale = (v == 1);
                SimpleSpecfile f(writeFile(l, v & 1, v & 2, "a"));
                observe(r, f, m, v & 1 ? "crlf" : "lf");
                commaLocale = false;
            }
        });
        static const std::vector<std::pair<std::string, double> > NUM = {
            {"1", 1}, {"-2", -2}, {"+3", 3}, {"0.5", 0.5}, {".25", .25}, {"5.", 5}, {"1e3", 1e3}, {"1.5E-3", 1.5e-3},
            {"-1.25e+02", -125}, {"123456789.123456789", 123456789.123456789}, {"0.00000", 0}, {"2.22507e-308", 2.22507e-308}};
        static const VS SEP = {" ", "  ", "\t", " \t "};
        M.suite("rows", 12, [=](Run & r, int job) {
            int cols = 1 + r.choose(3);
            Line a; a.kind = 3; a.nums.push_back(NUM[job].second);
            std::string lead = r.choose(2) ? "  " : "", tail = r.choose(2) ? " " : "";
            a.text = lead + NUM[job].first;
            std::string sep = r.pick(SEP);
            for (int i = 1; i < cols; i++) { auto & p = NUM[r.choose(i > 1 && !T ? 3 : 12)]; a.text += sep + p.first; a.nums.push_back(p.second); }
            a.text += tail;
            std::vector<Line> l = {mk("#F x", 1), mk("", 4), mk("#S 3  scan", 0), mk("#N 3", 1), a, a, mk("", 4), mk("#S 4", 0), a};
            std::vector<Scan> m = model(l);
            for (int v = 0; v < 4; v++)
            {
                r.op("row <" + a.text + ">" + (v & 1 ? " CRLF" : "") + (v & 2 ? " comma locale" : ""));
                SimpleSpecfile f(writeFile(l, v & 1, true, "r"));
                commaLocale = v & 2;
                observe(r, f, m, v & 2 ? "row in comma locale" : "row");
                commaLocale = false;
            }
        });
        static const VS LAB = {"A", "First label", "E[keV]", "x y z", "ab", "all other", "#", "K"};
        M.suite("labels", 8, [=](Run & r, int job) {
            int n = 1 + r.choose(T ? 4 : 3);
            std::string sep = r.choose(2) ? "   " : "  ", lead = r.choose(2) ? "  " : " ", tail = r.choose(3) == 1 ? "  " : "";
            Line a; a.kind = 2; a.text = "#L" + lead + LAB[job]; a.labels.push_back(LAB[job]);
            for (int i = 1; i < n; i++) { a.labels.push_back(r.pick(LAB)); a.text += sep + a.labels.back(); }
            a.text += tail;
            std::vector<Line> l = {mk("#S 3  scan", 0), mk("#D today", 1), a, mk("1 2", 3, {}, {1, 2})};
            std::vector<Scan> m = model(l);
            for (int v = 0; v < 4; v++)
            {
                r.op("labels <" + a.text + ">" + (v & 1 ? " CRLF" : ""));
                SimpleSpecfile f(writeFile(l, v & 1, v & 2, "l"));
                observe(r, f, m, "labels");
            }
        });
        // many scans / many rows: offsets
        M.suite("long files", T ? 40 : 12, [=](Run & r, int job) {
            int scans = 1 + job * 3, rows = r.choose(4) * 7, crlf = r.choose(2), pre = r.choose(3), blank = 1 + r.choose(2);
            std::vector<Line> l;
            for (int i = 0; i < pre; i++) { l.push_back(mk("#F name 12345", 1)); if (i) l.push_back(mk("", 4)); }
            for (int s = 0; s < scans; s++)
            {
                l.push_back(mk("#S " + std::to_string(s) + " scan", 0));
                if (s % 3) l.push_back(mk("#U0 text", 1));
                l.push_back(mk("#L c" + std::to_string(s) + "  d", 2, {"c" + std::to_string(s), "d"}));
                for (int k = 0; k < rows + s % 4; k++) { double a = s * 1000 + k, b = 0.125 * k; l.push_back(mk(num(a) + "  " + num(b), 3, {}, {a, b})); }
                for (int b = 0; b < blank; b++) l.push_back(mk("", 4));
            }
            r.op("file of " + std::to_string(scans) + " scans");
            SimpleSpecfile f(writeFile(l, crlf, true, "g"));
            observe(r, f, model(l), "long");
        });
        // one reader, several loads
        M.suite("reloads", 6, [=](Run & r, int job) {
            std::vector<std::vector<Line> > menu(6);
            menu[0] = {TOK[0], TOK[2], TOK[3], TOK[4], TOK[5], TOK[0], TOK[8], TOK[7]};
            menu[1] = {TOK[6], TOK[5], TOK[0], TOK[8], TOK[7], TOK[7]};
            menu[2] = {TOK[6]};
            menu[3] = {};
            menu[4] = {TOK[0], TOK[3], TOK[7]};
            SimpleSpecfile f;
            for (int k = 0; k < 3; k++)
            {
                int o = k ? r.choose(6) : job;
                if (o == 5) { r.op("load absent file"); bool t = throws([&] { f.setFileName(scratch + "/not_there.dat"); }); if (!t) observe(r, f, std::vector<Scan>(), "absent file"); continue; }
                r.op("load " + show(menu[o]));
                f.setFileName(writeFile(menu[o], k == 1, true, k == 0 ? "x" : k == 1 ? "y" : "z"));
                observe(r, f, model(menu[o]), "reload");
                SimpleSpecfile g(f); observe(r, g, model(menu[o]), "copy");
            }
        });
    });
}
