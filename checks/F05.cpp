// F05: beams.  Every list of rays over a small grid, every legal and illegal
// length of the optional vectors, every pair of descriptions.
#include "mc.hpp"
#include "fisx_beam.h"
#include "fisx_xrf.h"
using namespace mc;
using fisx::Beam;
typedef std::vector<double> VD;
typedef std::vector<int> VI;

struct Ray4 {
    double e, w, c, d;
    bool operator<(const Ray4 & o) const
    { return e != o.e ? e < o.e : w != o.w ? w < o.w : c != o.c ? c < o.c : d < o.d; }
};
typedef std::vector<Ray4> Model;

// false: must be refused
static bool model(const VD & e, const VD & w, const VI & c, const VD & d, Model & m)
{
    size_t n = e.size();
    if (n && ((w.size() > 1 && w.size() != n) || (c.size() > 1 && c.size() != n) || (d.size() > 1 && d.size() != n)))
        return false;
    Model k; double tot = 0;
    for (size_t i = 0; i < n; i++)
    {
        Ray4 x; x.e = e[i];
        x.w = w.empty() ? 1.0 : w.size() == 1 ? w[0] : w[i];
        x.c = c.empty() ? 1 : c.size() == 1 ? c[0] : c[i];
        x.d = d.empty() ? 0.0 : d.size() == 1 ? d[0] : d[i];
        tot += x.w; k.push_back(x);
    }
    if (tot > 0) for (auto & x : k) x.w /= tot;
    std::sort(k.begin(), k.end());
    m = k;
    return true;
}

static std::string show(const VD & e, const VD & w, const VI & c, const VD & d)
{
    std::string s = "E[";
    for (double x : e) s += num6(x) + " "; s += "] W[";
    for (double x : w) s += num6(x) + " "; s += "] C[";
    for (int x : c) s += std::to_string(x) + " "; s += "] D[";
    for (double x : d) s += num6(x) + " ";
    return s + "]";
}

static void observeVec(Run & r, const std::vector<std::vector<double> > & v, const Model & m, const std::string & k)
{
    if (!r.check(v.size() >= 4, k + ":four vectors")) return;
    Model g;
    for (int j = 0; j < 4; j++)
        if (!r.check(v[j].size() == m.size(), k + ":number of rays", std::to_string(v[j].size()) + " rays instead of " + std::to_string(m.size()))) return;
    double sum = 0, want = 0;
    for (size_t i = 0; i < m.size(); i++)
    {
        Ray4 x; x.e = v[0][i]; x.w = v[1][i]; x.c = v[2][i]; x.d = v[3][i];
        if (i) r.check(v[0][i] >= v[0][i - 1], k + ":ascending energies");
        g.push_back(x); sum += x.w; want += m[i].w;
    }
    std::sort(g.begin(), g.end());
    std::string canon;
    for (size_t i = 0; i < m.size(); i++)
    {
        r.eq(g[i].e, m[i].e, k + ":energy", 0, 0);
        r.eq(g[i].w, m[i].w, k + ":weight", 1e-12);
        r.eq(g[i].c, m[i].c, k + ":characteristic flag", 0, 0);
        r.eq(g[i].d, m[i].d, k + ":divergency", 0, 0);
        canon += num6(m[i].e) + "/" + num6(m[i].w) + "/" + num6(m[i].c) + "/" + num6(m[i].d) + " ";
    }
    r.eq(sum, want, k + ":sum of weights", 1e-12);
    r.state(canon);
}
static void observe(Run & r, Beam & b, const Model & m, const std::string & k)
{
    observeVec(r, b.getBeamAsDoubleVectors(), m, k);
    const std::vector<fisx::Ray> & rays = b.getBeam();
    std::vector<std::vector<double> > v(4);
    for (auto & x : rays) { v[0].push_back(x.energy); v[1].push_back(x.weight); v[2].push_back(x.characteristic); v[3].push_back(x.divergency); }
    observeVec(r, v, m, k + ":rays");
    std::ostringstream o; o << b;      // printing must not change it
    observeVec(r, b.getBeamAsDoubleVectors(), m, k + ":after printing");
}

static VI lenChoices(int n) { VI l; l.push_back(0); l.push_back(1); if (n > 1) l.push_back(n); if (n > 2) l.push_back(n - 1); l.push_back(n + 1 < 2 ? 2 : n + 1); return l; }

int main(int argc, char ** argv)
{
    static Main M;
    return M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        static const VD E = {1.0, 2.0, 5.5, 20.0};
        static const VD W = {0.0, 0.5, 3.0};
        static const VD D = {0.0, 0.25, -1.5, 2.0, 3.0};
        static const VI C = {0, 1, 7, 1, 0};
        M.suite("descriptions", T ? 5 * 16 : 4 * 16, [=](Run & r, int job) {
            int n = job / 16;
            VD e, w, d; VI c;
            if (n == 0 && job % 16) return;
            if (n > 0) { e.push_back(E[(job % 16) / 4]); if (n == 1 && job % 4) return; }
            if (n > 1) e.push_back(E[job % 4]);
            while ((int) e.size() < n) e.push_back(r.pick(E));
            VI L = lenChoices(n);
            int lw = r.pick(L), lc = r.pick(L), ld = r.pick(L);
            int vw = lw;
            for (int i = 0; i < vw; i++) w.push_back(i < 4 ? r.pick(W) : 1.0);
            for (int i = 0; i < lc; i++) c.push_back(C[i]);
            for (int i = 0; i < ld; i++) d.push_back(D[i + 1 < 5 ? i + 1 : 0]);
            Model m; bool ok = model(e, w, c, d, m);
            Beam b;
            r.op("setBeam " + show(e, w, c, d));
            bool th = throws([&] { b.setBeam(e, w, c, d); });
            r.check(th == !ok, ok ? "valid beam refused" : "beam with mismatched lengths accepted", r.log);
            if (th) { m.clear(); }
            observe(r, b, m, "fresh");
            // through the calculator
            fisx::XRF x; x.setSingleEnergyBeam(3.25, 0.125);
            Model mx(1); mx[0].e = 3.25; mx[0].w = 1; mx[0].c = 1; mx[0].d = 0.125;
            bool thx = throws([&] { x.setBeam(e, w, c, d); });
            r.check(thx == !ok, "calculator: acceptance differs", r.log);
            if (ok) mx = m;
            observeVec(r, x.getBeam().getBeamAsDoubleVectors(), mx, "calculator");
            // pointer interfaces with complete vectors
            if (ok && n > 0 && (lw == 0 || lw == n) && (lc == 0 || lc == n) && (ld == 0 || ld == n))
            {
                Beam p; VD cd(c.begin(), c.end());
                r.op("pointers");
                p.setBeam(n, &e[0], lw ? &w[0] : (double *) 0, lc ? &c[0] : (int *) 0, ld ? &d[0] : (double *) 0);
                observe(r, p, m, "pointers");
                Beam q;
                r.op("pointers to double flags");
                q.setBeam(n, &e[0], lw ? &w[0] : (double *) 0, lc ? &cd[0] : (double *) 0, ld ? &d[0] : (double *) 0);
                observe(r, q, m, "double pointers");
            }
        });
        // histories over a menu of descriptions, on one object and its copies
        int depth = T ? 4 : 3;
        M.suite("histories", 9, [=](Run & r, int job) {
            Beam b; Model m; fisx::XRF x; 
            for (int k = 0; k < depth; k++)
            {
                int o = k == 0 ? job : r.choose(9);
                VD e, w, d; VI c; bool ok = true;
                switch (o)
                {
                case 0: e = {5, 3, 9}; w = {1, 2, 1}; c = {1, 0, 5}; d = {0.1, 0.2, 0.3}; break;
                case 1: e = {7}; break;
                case 2: e = {4, 4}; w = {1, 3}; break;
                case 3: e = {2, 1}; w = {2}; c = {3}; d = {0.5}; break;
                case 4: e = {8, 6, 4, 2}; w = {1, 1, 1}; break;
                case 5: e = {8, 6, 4, 2}; w = {1, 1, 1, 1}; d = {1, 2}; break;
                case 6: break;
                default: break;
                }
                if (o < 7)
                {
                    Model k2; ok = model(e, w, c, d, k2);
                    r.op("setBeam " + show(e, w, c, d));
                    bool th = throws([&] { b.setBeam(e, w, c, d); });
                    r.check(th == !ok, ok ? "valid beam refused" : "beam with mismatched lengths accepted", r.log);
                    if (!th) m = k2;
                }
                else if (o == 7)
                { r.op("single 6.5"); b.setSingleEnergyBeam(6.5, 0.75); m.assign(1, Ray4()); m[0].e = 6.5; m[0].w = 1; m[0].c = 1; m[0].d = 0.75; }
                else
                { r.op("hand over a copy"); x.setBeam(b); Beam cp(b); cp.setSingleEnergyBeam(99); observeVec(r, x.getBeam().getBeamAsDoubleVectors(), m, "handed over"); }
                observe(r, b, m, "history");
            }
        });
    });
}
