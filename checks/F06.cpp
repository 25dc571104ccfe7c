// F06: chemical formulas.  Every string over an alphabet of formula pieces up to a
// length, every formula tree up to a size in all its equivalent spellings.
#include "mc.hpp"
#include "reflibs.hpp"
using namespace mc;
using namespace fisx;
typedef std::map<std::string, double> MD;
typedef std::vector<std::string> VS;

static std::map<std::string, double> MASS;

// independent recursive descent parser: atoms per formula; ok = well formed, doubt = number written in an unusual way
struct Parser {
    const std::string & s; size_t p = 0; bool ok = true, doubt = false;
    Parser(const std::string & t) : s(t) {}
    double number()
    {
        size_t a = p; int dots = 0;
        while (p < s.size() && (isdigit((unsigned char) s[p]) || s[p] == '.')) { if (s[p] == '.') dots++; p++; }
        if (p == a) return 1.0;
        std::string t = s.substr(a, p - a);
        if (dots > 1 || t == ".") { ok = false; return 0; }
        if (t[0] == '.' || t.back() == '.') doubt = true;
        return strtod(t.c_str(), nullptr);
    }
    MD seq(int depth)
    {
        MD r; bool any = false;
        while (ok && p < s.size() && s[p] != ')')
        {
            MD one;
            if (s[p] == '(')
            {
                p++; one = seq(depth + 1);
                if (!ok) return r;
                if (p >= s.size() || s[p] != ')') { ok = false; return r; }
                p++;
            }
            else if (isupper((unsigned char) s[p]))
            {
                size_t a = p++;
                while (p < s.size() && islower((unsigned char) s[p])) p++;
                std::string n = s.substr(a, p - a);
                if (!MASS.count(n)) { ok = false; return r; }
                one[n] = 1.0;
            }
            else { ok = false; return r; }
            double f = number();
            for (auto & q : one) r[q.first] += q.second * f;
            any = true;
        }
        if (!any) ok = false;
        if (depth == 0 && p < s.size()) ok = false;
        return r;
    }
};
static MD fractions(const MD & atoms)
{
    MD r; double t = 0;
    for (auto & q : atoms) t += q.second * MASS[q.first];
    if (t > 0) for (auto & q : atoms) if (q.second > 0) r[q.first] = q.second * MASS[q.first] / t;
    return r;
}
static bool same(const MD & got, const MD & want, std::string & d, double rtol)
{
    double sum = 0; MD g;
    for (auto & p : got) { if (!(p.second >= 0)) d += " negative " + p.first; if (p.second > 0) g.insert(p); sum += p.second; }
    if (got.size() && !Run::close(sum, 1.0, 1e-9, 0)) d += " sum " + num(sum);
    for (auto & p : want) { auto i = g.find(p.first); if (i == g.end()) { if (p.second > 1e-9) d += " missing " + p.first; } else if (!Run::close(i->second, p.second, rtol, 1e-12)) d += " " + p.first + "=" + num(i->second) + " want " + num(p.second); }
    for (auto & p : g) if (!want.count(p.first)) d += " extra " + p.first;
    return d.empty();
}
static void judge(Run & r, const Elements & L, const std::string & s, const std::string & w)
{
    Parser p(s); MD atoms = p.seq(0); MD want;
    if (p.ok) want = fractions(atoms);
    r.site("formula '" + s + "'");
    MD got; bool th = throws([&] { got = L.getCompositionFromFormula(s); });
    if (!r.check(!th, w + ":formula query threw", s)) return;
    std::string d;
    if (p.doubt && got.empty()) return;
    r.check(same(got, want, d, 1e-9), w + (p.ok ? ":fractions" : ":not a formula"), "'" + s + "'" + d);
    // the numbers of atoms
    MD a; th = throws([&] { a = L.parseFormula(s); });
    r.check(!th, w + ":parser threw", s);
    if (p.ok && !th)
    {
        d.clear();
        for (auto & q : atoms) if (!Run::close(ref::get(a, q.first), q.second, 1e-9, 1e-12)) d += " " + q.first + "=" + num(ref::get(a, q.first)) + " want " + num(q.second);
        for (auto & q : a) if (!atoms.count(q.first) && q.second != 0) d += " extra " + q.first;
        r.check(d.empty(), w + ":atoms", "'" + s + "'" + d);
    }
    // and by the general query
    MD c; th = throws([&] { c = L.getComposition(s); });
    d.clear();
    if (p.ok || !th) r.check(!th && same(c, want, d, 1e-9), w + ":composition query", "'" + s + "'" + d);
    r.state(s);
}

// a formula tree with all its spellings
struct Node { std::string sym; std::vector<Node> kids; int count; };
static const char * COUNTS[] = {"", "2", "0.5", "12", "1.25", "0.00001", "3000000", "7", "0.1"};
static Node build(Run & r, int depth, int & budget, int force)
{
    Node n; static const VS SY = {"O", "Fe", "H", "C", "Co", "S", "Si"};
    int k = force >= 0 ? std::min(force, 2) : depth > 0 ? r.choose(3) : r.choose(2);
    if (k < 2) { n.sym = SY[(k + budget * 2) % 7]; budget--; }
    else
    {
        int m = force >= 0 ? force - 1 : 1 + r.choose(2);
        for (int i = 0; i < m && budget > 0; i++) n.kids.push_back(build(r, depth - 1, budget, -1));
    }
    n.count = n.sym.size() ? r.choose(3) : (r.flip() ? std::min(8, 2 + depth + budget) : 0);
    return n;
}
static std::string spell(const Node & n, bool rev, bool ones, bool wrap)
{
    std::string s;
    if (n.sym.size()) s = n.sym;
    else
    {
        std::vector<std::string> v; for (auto & k : n.kids) v.push_back(spell(k, rev, ones, wrap));
        if (rev) std::reverse(v.begin(), v.end());
        for (auto & x : v) s += x;
        s = "(" + s + ")";
    }
    std::string c = COUNTS[n.count];
    if (c.empty() && ones) c = "1";
    s += c;
    if (wrap) s = "(" + s + ")";
    return s;
}

int main(int argc, char ** argv)
{
    static Main M;
    M.init = [] { initLibraries(1); for (auto & t : ref::TABLE) MASS[t.symbol] = t.mass; };
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        int depth = T ? 3 : 2;
        M.suite("trees", 14, [=](Run & r, int job0) {
            // (2 leaves or groups at the top, 2 levels) and (3, 1) are split over several jobs
            int job = job0 < 8 ? job0 : 5 + 2 * (job0 % 2), part = job0 < 8 ? 0 : (job0 - 8) / 2 + 1;
            int budget = T ? 4 : 3;
            std::vector<Node> top; int n = 1 + job % 3;
            for (int i = 0; i < n && budget > 0; i++) top.push_back(build(r, job / 3 == 0 ? 0 : job / 3 == 1 ? 1 : depth, budget, i == 0 && (job == 5 || job == 7) ? part : -1));
            auto all = [&](bool rev, bool ones, bool wrap) {
                VS v; for (auto & t : top) v.push_back(spell(t, rev, ones, wrap));
                if (rev) std::reverse(v.begin(), v.end());
                std::string s; for (auto & x : v) s += x; return s;
            };
            std::string s0 = all(0, 0, 0);
            r.note("'" + s0 + "'"); r.step();
            judge(r, *LIB[0], s0, "tree");
            MD base = LIB[0]->getCompositionFromFormula(s0);
            for (int k = 1; k < 8; k++)
            {
                std::string s = all(k & 1, k & 2, k & 4);
                MD g = LIB[0]->getCompositionFromFormula(s);
                std::string d;
                r.check(same(g, base, d, 1e-9), "tree:equivalent spelling", s0 + " and " + s + d);
            }
        });
        static const VS PIECE = {"Fe", "O", "H", "2", ".", "(", ")", "0.5", " ", "x", "e", "Xx"};
        int maxw = T ? 5 : 4;
        M.suite("words", 144, [=](Run & r, int job) {
            std::string s = PIECE[job / 12];
            int n = r.choose(maxw);
            if (n == 0) { if (job % 12) return; }
            else { s += PIECE[job % 12]; for (int i = 1; i < n; i++) s += r.pick(PIECE); }
            r.note("'" + s + "'"); r.step();
            judge(r, *LIB[0], s, "word");
        });
        M.suite("characters", 16, [=](Run & r, int job) {
            static const std::string A = "FeO2()1.0sC-+ \t,";
            std::string s(1, A[job]); int n = r.choose(T ? 5 : 4);
            for (int i = 0; i < n; i++) s += A[r.choose((int) A.size())];
            r.note("'" + s + "'"); r.step();
            judge(r, *LIB[0], s, "characters");
        });
        M.suite("symbols", 109, [=](Run & r, int job) {
            std::string a = ref::TABLE[job].symbol;
            std::string b = ref::TABLE[r.choose(109)].symbol;
            int k = r.choose(6);
            std::string s = k == 0 ? a + b : k == 1 ? a + "3" + b : k == 2 ? a + b + "0.25" : k == 3 ? "(" + a + "2" + b + ")7" : k == 4 ? a + "(" + b + "4)2" : a;
            r.note("'" + s + "'"); r.step();
            judge(r, *LIB[0], s, "symbols");
        });
        // counts of every size, in every place
        M.suite("counts", 20, [=](Run & r, int job) {
            static const VS C = {"", "1", "2", "10", "99", "0.5", "0.25", "1.0", "00002", "0.1", "0.0001", "0.0000001", "123456789", "1234567.125", "0.333333333333", "3.14159265358979", "100000000000", "2.50", "7", "0"};
            std::string c = C[job], d = r.pick(C);
            int k = r.choose(5);
            std::string s = k == 0 ? "Fe" + c + "O" + d : k == 1 ? "(Fe" + c + "O)" + d : k == 2 ? "H(FeO" + c + ")" + d + "C2" : k == 3 ? "((Fe" + c + "S)" + d + "O)3" : "(Fe)" + c + "(O)" + d;
            r.note("'" + s + "'"); r.step();
            judge(r, *LIB[0], s, "counts");
        });
        // longer formulas: sequences of counted symbols and groups, with repetitions
        M.suite("sequences", 36, [=](Run & r, int job) {
            static const VS P = {"C2", "H", "O3", "(OH)2", "Na", "C"};
            std::string s = P[job % 6] + P[job / 6]; int n = 2 + r.choose(T ? 5 : 4); for (int i = 2; i < n; i++) s += r.pick(P);
            r.note("'" + s + "'"); r.step();
            judge(r, *LIB[0], s, "sequence");
        });
        // names of the element table itself, added elements
        M.suite("added elements", 1, [=](Run & r, int) {
            Elements L(*LIB[0]);
            Element e("Qz", 120); e.setAtomicMass(10.0);
            MASS["Qz"] = 10.0;
            L.addElement(e);
            for (auto & s : {"Qz", "Qz2", "QzO2", "(Qz3Fe)2H", "Q", "Qzz"}) { r.op(s); judge(r, L, s, "added"); }
            MASS.erase("Qz");
            for (auto & n : {"Unob1um", "lead", "Fe-55", "Co60*"})           // names which are no symbols
            {
                Element f(n, 121); f.setAtomicMass(10.0); L.addElement(f); MD g = L.getCompositionFromFormula(n), h = L.getComposition(n);
                r.check(g.size() == 1 && g[n] == 1 && h == g, "added element with a long name", n);
            }
            judge(r, *LIB[0], "QzO2", "not added");
        });
    });
}
