// F02: INI text.  Every text of up to N line tokens against a reference reader,
// every lookup in both case modes, typed value lists, pairs of loads.
#include "mc.hpp"
#include "fisx_simpleini.h"
using namespace mc;
using fisx::SimpleIni;
typedef std::vector<std::string> VS;
typedef std::map<std::string, std::string> MS;

static std::string scratch;
static std::string writeFile(const std::string & t, const char * tag)
{
    std::string name = scratch + "/i" + std::to_string(getpid()) + tag;
    FILE * f = fopen(name.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    return name;
}
static std::string trim(const std::string & s)
{
    size_t a = 0, b = s.size();
    while (a < b && isspace((unsigned char) s[a])) a++;
    while (b > a && isspace((unsigned char) s[b - 1])) b--;
    return s.substr(a, b - a);
}
static std::string up(std::string s) { for (auto & c : s) c = toupper(c); return s; }

struct Model {
    VS sections; std::map<std::string, MS> content; bool bad = false;
    static bool uncomment(const std::string & s, std::string & o)
    {
        bool q = false; o.clear();
        for (char c : s)
        {
            if (c == '"') q = !q;
            else if (!q && (c == '#' || c == ';')) break;
            o += c;
        }
        return !q;
    }
    static size_t eqpos(const std::string & s)
    { bool q = false; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '"') q = !q; else if (!q && s[i] == '=') return i; } return std::string::npos; }
    static std::string noblank(const std::string & s)
    { std::string o; bool q = false; for (char c : s) { if (c == '"') q = !q; if (q || !isspace((unsigned char) c)) o += c; } return o; }
    Model() {}
    Model(const VS & lines)
    {
        std::string sec, key; bool haveSec = false, haveKey = false;
        for (auto & raw : lines)
        {
            std::string l = trim(raw), u;
            if (l.empty()) continue;
            if (l[0] == '[')
            {
                if (std::count(l.begin(), l.end(), '[') != 1 || std::count(l.begin(), l.end(), ']') != 1) { bad = true; return; }
                sec = l.substr(1, l.find(']') - 1); haveSec = true; haveKey = false;
                sections.push_back(sec); continue;
            }
            if (!uncomment(l, u)) { bad = true; return; }
            if (trim(u).empty()) { haveKey = false; continue; }
            size_t e = eqpos(u);
            if (e != std::string::npos)
            { key = noblank(u.substr(0, e)); haveKey = true; content[haveSec ? sec : ""][key] = trim(u.substr(e + 1)); }
            else if (haveKey && haveSec) content[sec][key] += trim(u);
        }
    }
    MS section(const std::string & k, bool cs) const
    {
        auto it = content.find(k);
        if (it != content.end()) return it->second;
        if (!cs)
            for (auto & s : sections)
                if (up(s) == up(k)) { auto j = content.find(s); return j == content.end() ? MS() : j->second; }
        return MS();
    }
    VS subs(const std::string & p, bool cs) const
    {
        if (p.empty()) return sections;
        VS o;
        for (auto & s : sections)
        {
            std::string a = s, b = p + ".";
            if (!cs) { a = up(a); b = up(b); }
            if (a.compare(0, b.size(), b) == 0) o.push_back(s);
        }
        return o;
    }
};
static std::string join(const VS & v) { std::string s; for (auto & x : v) s += "<" + x + ">"; return s; }
static std::string joinm(const MS & v) { std::string s; for (auto & x : v) s += x.first + "=<" + x.second + "> "; return s; }

static const VS PARENTS = {"Materials", "materials", "Fit", "fit", "Mat", "Materials.Air", "absent", ""};
static const VS QUERY = {"fit", "FIT", "Fit", "Materials", "Materials.Air", "MATERIALS.AIR", "Materials.water", "materials.Water", "absent", "fix", "Materials.Gold ore"};

static void observe(Run & r, SimpleIni & f, const Model & m, const std::string & w)
{
    r.check(f.getSections() == m.sections, w + ":sections", join(f.getSections()) + " instead of " + join(m.sections));
    for (int cs = 0; cs < 2; cs++)
    {
        for (auto & p : PARENTS)
        {
            VS d; d.push_back("stale");
            f.getSubsections(p, d, cs);
            VS e = m.subs(p, cs);
            r.check(d == e, w + (cs ? ":subsections (exact)" : ":subsections (any case)"), "of '" + p + "': " + join(d) + " instead of " + join(e));
        }
        for (auto & q : QUERY)
        {
            MS g = f.readSection(q, cs), e = m.section(q, cs);
            r.check(joinm(g) == joinm(e), w + (cs ? ":section (exact)" : ":section (any case)"), "'" + q + "': " + joinm(g) + " instead of " + joinm(e));
        }
    }
    std::string c = join(m.sections);
    for (auto & s : m.content) c += s.first + ":" + joinm(s.second);
    r.state(c);
}

int main(int argc, char ** argv)
{
    static Main M;
    const char * sc = getenv("FISX_MC_SCRATCH"); scratch = sc ? sc : "/tmp";
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        static const VS TOK = {"[fit]", "a = 1, 2", "   3, 4 5 ", "b=x y", "[Materials.Air]", "# comment", "", "a = 5 # c",
            "[FIT]", "c = \"q # ; = q\"", "[Materials]", "A = 9 ; no", "[materials.water]", "long key = v=w", "[fix]", "  7 # tail", "[bad", "d = \"open"};
        int len = T ? 6 : 5, nt = (int) TOK.size();
        M.suite("texts", nt * nt, [=](Run & r, int job) {
            int n = r.choose(len - 1);
            VS l; l.push_back(TOK[job / nt]); l.push_back(TOK[job % nt]);
            for (int i = 0; i < n; i++) l.push_back(TOK[r.choose(i >= 2 ? (i >= 3 ? 8 : T ? 12 : 5) : i == 1 && !T ? 12 : 16)]);
            Model m(l);
            for (int crlf = 0; crlf < 2; crlf++)
            {
                std::string t;
                for (size_t i = 0; i < l.size(); i++) t += l[i] + (i + 1 == l.size() && crlf == 0 && n % 2 ? "" : crlf ? "\r\n" : "\n");
                r.op(t);
                std::string name = writeFile(t, "a");
                SimpleIni f; bool th = throws([&] { f.readFileName(name); });
                r.check(th == m.bad, m.bad ? "malformed line accepted" : "valid text refused");
                if (!th && !m.bad) observe(r, f, m, "text");
                if (th && m.bad) observe(r, f, Model(), "refused text");
            }
        });
        M.suite("reloads", 7, [=](Run & r, int job) {
            static const std::vector<VS> MENU = {
                {"[fit]", "a=1", "b=2", "[Materials.Air]", "Comment=air"}, {"[fit]", "b=3"}, {"[Materials.Air]", "a=7", "[FIT]", "b=8"},
                {"x=1"}, {}, {"[fit]", "a=1", "[zz", "b=2"}};
            SimpleIni f; Model m;
            for (int k = 0; k < (T ? 4 : 3); k++)
            {
                int o = k ? r.choose(7) : job;
                bool th;
                if (o == 6) { r.op("absent file"); th = throws([&] { f.readFileName(scratch + "/not_there.ini"); }); r.check(th, "absent file accepted"); }
                else
                {
                    std::string t; for (auto & x : MENU[o]) t += x + "\n";
                    r.op("load " + t);
                    Model n(MENU[o]);
                    th = throws([&] { f.readFileName(writeFile(t, k % 2 ? "x" : "y")); });
                    r.check(th == n.bad, "acceptance");
                    if (!n.bad) m = n;
                }
                observe(r, f, m, "reload");
            }
        });
        static const VS ITEMS = {"1", " -2.5", "1e3 ", "abc", "", "0", "Air", "two words", "3 "};
        M.suite("value lists", 9 * 2, [=](Run & r, int job) {
            char sep = job / 9 ? '.' : ',';
            std::vector<std::string> it; it.push_back(ITEMS[job % 9]);
            int n = r.choose(4);
            for (int i = 0; i < n; i++) it.push_back(r.pick(ITEMS));
            if (sep == '.') for (auto & x : it) if (x.find('.') != std::string::npos) return;
            std::string t; for (size_t i = 0; i < it.size(); i++) t += (i ? std::string(1, sep) : "") + it[i];
            r.op("split <" + t + ">");
            if (it.back().empty()) it.pop_back();     // nothing follows the last separator
            std::vector<double> d; std::vector<int> q; VS s;
            SimpleIni::parseStringAsMultipleValues(t, d, -7.5, sep);
            SimpleIni::parseStringAsMultipleValues(t, q, -7, sep);
            SimpleIni::parseStringAsMultipleValues(t, s, std::string("dflt"), sep);
            r.check(d.size() == it.size() && q.size() == it.size() && s.size() == it.size(), "number of values", std::to_string(d.size()) + " for " + t);
            for (size_t i = 0; i < it.size() && i < d.size() && i < q.size() && i < s.size(); i++)
            {
                char * e; std::string k = trim(it[i]); double v = strtod(k.c_str(), &e);
                bool isnum = e != k.c_str();
                r.eq(d[i], isnum ? v : -7.5, "float value", 1e-15, 0);
                if (k != "1e3") r.check(q[i] == (isnum ? (int) v : -7), "integer value", std::to_string(q[i]) + " from " + k);
                r.check(s[i] == (k.empty() ? "dflt" : k), "string value", s[i] + " from <" + it[i] + ">");
            }
            if (it.size() == 1)
            {
                double x = 99; SimpleIni::parseStringAsSingleValue(t, x, -3.0);
                char * e; std::string k = trim(it[0]); double v = strtod(k.c_str(), &e);
                r.eq(x, e != k.c_str() ? v : -3.0, "single value", 1e-15, 0);
            }
            r.state(t);
        });
    });
}
