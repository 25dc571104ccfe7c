// Bounded-exhaustive explorer used by every check of this framework.
//
// A check is a set of suites.  A suite is a number of root configurations
// (jobs) and a function that runs ONE execution, taking every decision through
// Run::choose().  The explorer re-runs the function until the tree of decisions
// below every job has been walked completely (stateless depth-first search);
// jobs are distributed over forked worker processes.  Nothing is sampled.
//
// Each worker publishes its current decision path in shared memory, so a crash
// or a hang of the code under test is attributed to the exact path, is reported
// as a violation, and the exploration resumes behind it.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

enum { MAXDEPTH = 512, MAXWORKERS = 16, SITELEN = 512 };

struct Shared {
    std::atomic<int> nextJob;
    std::atomic<int> stop;
    std::atomic<int> found;                // violations so far
    struct W {
        std::atomic<uint64_t> beat;        // progress counter
        std::atomic<int> job;              // -1 when idle
        int depth;
        int choice[MAXDEPTH];
        int arity[MAXDEPTH];
        char site[SITELEN];
        uint64_t executions, transitions, comparisons, branches;
        int ended;                         // the worker came to its regular end
    } w[MAXWORKERS];
};

inline std::string jstr(const std::string & s)
{
    std::string o = "\"";
    char b[8];
    for (size_t i = 0; i < s.size(); i++)
    {
        unsigned char c = (unsigned char) s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\r') o += "\\r";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

inline std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
inline std::string num6(double x) { char b[40]; snprintf(b, 40, "%.10g", x); return b; }
template<class T> inline std::string str(const T & x) { std::ostringstream o; o << x; return o.str(); }

struct Abandon {};   // thrown by Run::abandon

class Run {
public:
    Shared::W * w = nullptr;
    std::vector<int> prefix, arity;
    size_t pos = 0;
    std::string log;              // human readable trace of this execution
    bool verbose = false;
    int failures = 0;
    bool replaying = false;
    std::unordered_set<uint64_t> * states = nullptr;
    std::function<void(const std::string &, const std::string &)> onFail;

    int choose(int n)
    {
        int c;
        if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
        if (pos < prefix.size())
        {
            c = prefix[pos];
            if (arity[pos] == 0) arity[pos] = n;      // resumed or replayed path
            if (arity[pos] != n || c >= n)
            {
                fprintf(stderr, "mc: non-deterministic harness (arity %d became %d)\n", arity[pos], n);
                abort();
            }
        }
        else
        {
            prefix.push_back(0);
            arity.push_back(n);
            c = 0;
            if (n > 1) w->branches++;
        }
        if (pos < MAXDEPTH) { w->choice[pos] = c; w->arity[pos] = n; w->depth = (int) pos + 1; }
        pos++;
        w->beat.fetch_add(1, std::memory_order_relaxed);
        return c;
    }
    template<class T> const T & pick(const std::vector<T> & v) { return v[choose((int) v.size())]; }
    bool flip() { return choose(2) == 1; }

    // one step of the explored history
    void op(const std::string & s)
    {
        w->transitions++;
        if (log.size()) log += "; ";
        log += s;
        site(s);
    }
    void step() { w->transitions++; }
    void note(const std::string & s) { if (log.size()) log += "; "; log += s; }
    // where a crash from here on should be attributed
    void site(const std::string & s)
    {
        size_t n = std::min(s.size(), (size_t) SITELEN - 1);
        memcpy(w->site, s.data(), n); w->site[n] = 0;
        w->beat.fetch_add(1, std::memory_order_relaxed);
    }
    void state(const std::string & s) { states->insert(std::hash<std::string>()(s)); }
    void state(uint64_t h) { states->insert(h); }

    void fail(const std::string & key, const std::string & detail)
    {
        failures++;
        onFail(key, detail);
    }
    bool check(bool ok, const std::string & key, const std::string & detail = "")
    {
        w->comparisons++;
        if (!ok) fail(key, detail);
        return ok;
    }
    static bool close(double a, double b, double rtol, double atol)
    {
        if (a == b) return true;
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (std::isinf(a) || std::isinf(b)) return false;
        return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
    }
    bool eq(double got, double want, const std::string & key, double rtol = 1e-9, double atol = 1e-300)
    {
        w->comparisons++;
        if (close(got, want, rtol, atol)) return true;
        fail(key, "got " + num(got) + " want " + num(want));
        return false;
    }
    void abandon() { throw Abandon(); }
};

struct Suite {
    std::string name;
    int jobs;
    std::function<void(Run &, int)> fn;
};

class Main {
public:
    std::vector<Suite> suites;
    std::function<void()> init;              // executed in every worker
    std::string tier = "quick";
    bool thorough() const { return tier == "thorough"; }
    int hangSeconds = 60;
    std::chrono::steady_clock::time_point began; double enoughSeconds = 200;       // how long to go on when something is broken already
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - began).count(); }
    std::map<std::string, std::string> args;
    std::vector<std::string> assumptions;

    void suite(const std::string & n, int jobs, std::function<void(Run &, int)> f)
    { if (jobs <= 0) { fprintf(stderr, "suite %s has no jobs\n", n.c_str()); abort(); } Suite s; s.name = n; s.jobs = jobs; s.fn = f; suites.push_back(s); }

    int main(int argc, char ** argv, std::function<void(Main &)> define)
    {
        for (int i = 1; i + 1 < argc; i += 2) args[argv[i]] = argv[i + 1];
        if (args.count("--tier")) tier = args["--tier"];
        define(*this);
        if (args.count("--replay")) return replay();
        return explore();
    }

private:
    Shared * sh = nullptr;
    std::vector<std::pair<int, int> > jobs;     // suite, job index
    struct Viol { std::string key, detail, log, choices; int suite, job; uint64_t count; std::string kind; };

    static std::string joinc(const int * c, int n)
    { std::string s; for (int i = 0; i < n; i++) { if (i) s += ","; s += std::to_string(c[i]); } return s; }

    void makeJobs()
    {
        for (size_t s = 0; s < suites.size(); s++)
            for (int j = 0; j < suites[s].jobs; j++) jobs.push_back(std::make_pair((int) s, j));
    }

    void runOne(Run & r, int suite, int job)
    {
        r.pos = 0; r.log.clear(); r.w->depth = 0;
        try { suites[suite].fn(r, job); }
        catch (const Abandon &) {}
        catch (const std::exception & e)
        { r.fail("unexpected-exception:" + suites[suite].name, std::string(r.w->site) + " threw " + e.what()); }
    }

    int replay()
    {
        std::string spec = args["--replay"];        // suite:job:c,c,c
        size_t a = spec.find(':'), b = spec.find(':', a + 1);
        std::string sname = spec.substr(0, a);
        int job = atoi(spec.substr(a + 1, b - a - 1).c_str());
        Shared * s = new Shared();
        Run r; r.w = &s->w[0]; r.verbose = true; r.replaying = true;
        std::unordered_set<uint64_t> st; r.states = &st;
        std::stringstream ss(spec.substr(b + 1)); std::string t;
        while (std::getline(ss, t, ',')) if (t.size()) { r.prefix.push_back(atoi(t.c_str())); r.arity.push_back(0); }
        int bad = 0;
        r.onFail = [&](const std::string & k, const std::string & d)
        { bad++; printf("FAIL key=%s\n  %s\n", k.c_str(), d.c_str()); fflush(stdout); };
        if (init) init();
        for (size_t i = 0; i < suites.size(); i++)
            if (suites[i].name == sname) runOne(r, (int) i, job);
        printf("TRACE %s\n%s\n", r.log.c_str(), bad ? "REPRODUCED" : "NOT-REPRODUCED");
        return bad ? 1 : 0;
    }

    std::string dir;
    std::string wfile(int k, const char * ext) { return dir + "/w" + std::to_string(k) + ext; }

    void worker(int k, int resumeJob, std::vector<int> resumePrefix, std::vector<int> resumeArity)
    {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        int ef = open(wfile(k, ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(ef, 2);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        Run r; r.w = &sh->w[k];
        std::unordered_set<uint64_t> st; r.states = &st;
        std::map<std::string, int> perKey;
        std::ofstream vf(wfile(k, ".viol").c_str(), std::ios::app);
        std::ofstream sf(wfile(k, ".samples").c_str(), std::ios::app);
        int curS = 0, curJ = 0;
        r.onFail = [&](const std::string & key, const std::string & detail)
        {
            int n = ++perKey[key]; sh->found++;
            if (n > 3 || perKey.size() > 400) return;
            vf << "{\"key\":" << jstr(key) << ",\"detail\":" << jstr(detail) << ",\"suite\":"
               << jstr(suites[curS].name) << ",\"job\":" << curJ << ",\"choices\":"
               << jstr(joinc(r.w->choice, std::min(r.w->depth, (int) MAXDEPTH))) << ",\"log\":" << jstr(r.log) << "}\n";
            vf.flush();
        };
        auto finish = [&](int code)
        {
            std::ofstream o(wfile(k, ".states").c_str(), std::ios::app | std::ios::binary);
            for (uint64_t h : st) o.write((const char *) &h, 8);
            for (auto & p : perKey) if (p.second > 3) vf << "{\"more\":" << jstr(p.first) << ",\"n\":" << (p.second - 3) << "}\n";
            o.close(); vf.flush(); sf.flush();
            r.w->ended = 1;
            _exit(code);
        };
        try { r.site("library set-up"); if (init) init(); }
        catch (const std::exception & e)
        { r.onFail("set-up-failed", std::string("library set-up threw ") + e.what()); sh->stop = 1; finish(0); }
        while (!sh->stop)
        {
            int j;
            if (resumeJob >= 0) j = resumeJob;
            else j = sh->nextJob.fetch_add(1);
            if (j >= (int) jobs.size()) break;
            curS = jobs[j].first; curJ = jobs[j].second;
            r.prefix = resumePrefix; r.arity = resumeArity; resumeJob = -1;
            resumePrefix.clear(); resumeArity.clear();
            r.w->job = j;
            uint64_t n = 0;
            if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
            while (true)
            {
                runOne(r, curS, curJ);
                r.w->executions++; n++;
                if (((n == 1) && (curJ < 2 || curJ == suites[curS].jobs / 2)) || (n == 777 && curJ == 0))
                    sf << jstr(suites[curS].name + "#" + std::to_string(curJ) + ": " + r.log.substr(0, 400)) << "\n";
                if ((int) r.prefix.size() > (int) r.pos) { r.prefix.resize(r.pos); r.arity.resize(r.pos); }
                if (!advance(r.prefix, r.arity)) break;
                if (sh->found && elapsed() > enoughSeconds) sh->stop = 1;      // what is broken is known: no need to go on
                if (sh->stop) break;
            }
            if (sh->found && elapsed() > enoughSeconds) sh->stop = 1;
            r.w->job = -1;
        }
        finish(0);
    }

    static bool advance(std::vector<int> & p, std::vector<int> & a)
    {
        while (!p.empty())
        {
            if (++p.back() < a.back()) return true;
            p.pop_back(); a.pop_back();
        }
        return false;
    }

    int explore()
    {
        int nw = args.count("--workers") ? atoi(args["--workers"].c_str()) : 8;
        dir = args["--dir"];
        std::string out = args["--out"];
        makeJobs();
        if ((int) jobs.size() < nw) nw = std::max(1, (int) jobs.size());
        sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void *) sh, 0, sizeof(Shared));
        auto t0 = std::chrono::steady_clock::now(); began = t0;
        std::vector<pid_t> pid(nw, 0);
        std::vector<uint64_t> beat(nw, 0);
        std::vector<std::chrono::steady_clock::time_point> last(nw, t0);
        std::ofstream cf(dir + "/crashes");
        auto spawn = [&](int k, int rj, std::vector<int> rp, std::vector<int> ra)
        {
            fflush(stdout); fflush(stderr);
            sh->w[k].job = -1; sh->w[k].ended = 0;
            pid_t p = fork();
            if (p == 0) worker(k, rj, rp, ra);
            pid[k] = p; last[k] = std::chrono::steady_clock::now(); beat[k] = sh->w[k].beat;
        };
        for (int k = 0; k < nw; k++) spawn(k, -1, std::vector<int>(), std::vector<int>());
        int alive = nw, crashes = 0; bool complete = true;
        while (alive > 0)
        {
            usleep(5000);
            for (int k = 0; k < nw; k++)
            {
                if (!pid[k]) continue;
                int st; std::string kind;
                pid_t p = waitpid(pid[k], &st, WNOHANG);
                auto now = std::chrono::steady_clock::now();
                if (p == 0)
                {
                    uint64_t b = sh->w[k].beat;
                    if (b != beat[k]) { beat[k] = b; last[k] = now; continue; }
                    if (std::chrono::duration<double>(now - last[k]).count() < hangSeconds) continue;
                    kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0);
                    kind = "hang";
                }
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->w[k].ended) { pid[k] = 0; alive--; continue; }
                else kind = "crash";
                // the execution in progress broke: report it and resume behind it
                Shared::W & w = sh->w[k];
                crashes++; sh->found++;
                std::string err;
                {
                    std::ifstream ef(wfile(k, ".err").c_str()); std::string l; int n = 0;
                    while (n < 12 && std::getline(ef, l))
                        if (l.find("runtime error") != std::string::npos || l.find("ERROR:") != std::string::npos ||
                            l.find("Assert") != std::string::npos || l.find("mc:") != std::string::npos ||
                            l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos ||
                            (l.find("    #") == 0 && n < 8))
                        { err += l + " | "; n++; }
                }
                int j = w.job;
                int depth = std::min(w.depth, (int) MAXDEPTH);
                std::vector<int> rp(w.choice, w.choice + depth), ra(w.arity, w.arity + depth);
                cf << "{\"key\":" << jstr(kind + ":" + w.site) << ",\"detail\":"
                   << jstr((WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : std::string("exit ") + std::to_string(WEXITSTATUS(st))) + " " + err)
                   << ",\"suite\":" << jstr(j >= 0 ? suites[jobs[j].first].name : "init") << ",\"job\":" << (j >= 0 ? jobs[j].second : 0)
                   << ",\"choices\":" << jstr(joinc(w.choice, depth)) << ",\"log\":" << jstr(w.site) << "}\n";
                cf.flush();
                w.executions++;
                pid[k] = 0; alive--;
                if (j < 0 || crashes > 60) { sh->stop = 1; complete = false; continue; }
                if (advance(rp, ra)) spawn(k, j, rp, ra);
                else spawn(k, -1, std::vector<int>(), std::vector<int>());
                alive++;
            }
        }
        if (sh->stop) complete = false;
        cf.close();
        uint64_t ex = 0, tr = 0, cmp = 0, br = 0;
        for (int k = 0; k < nw; k++)
        { ex += sh->w[k].executions; tr += sh->w[k].transitions; cmp += sh->w[k].comparisons; br += sh->w[k].branches; }
        std::unordered_set<uint64_t> all;
        for (int k = 0; k < nw; k++)
        {
            std::ifstream f(wfile(k, ".states").c_str(), std::ios::binary); uint64_t h;
            while (f.read((char *) &h, 8)) all.insert(h);
        }
        std::ofstream o(out.c_str());
        o << "{\"executions\":" << ex << ",\"transitions\":" << tr << ",\"comparisons\":" << cmp << ",\"branches\":" << br
          << ",\"states\":" << all.size() << ",\"jobs\":" << jobs.size() << ",\"complete\":" << (complete ? "true" : "false")
          << ",\"suites\":{";
        for (size_t i = 0; i < suites.size(); i++) o << (i ? "," : "") << jstr(suites[i].name) << ":" << suites[i].jobs;
        o << "},\"assumptions\":[";
        for (size_t i = 0; i < assumptions.size(); i++) o << (i ? "," : "") << jstr(assumptions[i]);
        o << "],\"violations\":[";
        bool first = true; std::string l;
        for (int k = -1; k < nw; k++)
        {
            std::ifstream f((k < 0 ? dir + "/crashes" : wfile(k, ".viol")).c_str());
            while (std::getline(f, l)) if (l.size()) { o << (first ? "\n" : ",\n") << l; first = false; }
        }
        o << "],\"samples\":[";
        first = true; int ns = 0;
        for (int k = 0; k < nw; k++)
        {
            std::ifstream f(wfile(k, ".samples").c_str()); int n = 0;
            while (n < 3 && ns < 12 && std::getline(f, l)) { o << (first ? "\n" : ",\n") << l; first = false; n++; ns++; }
        }
        o << "],\"seconds\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "}\n";
        return 0;
    }
};

// runs a statement and tells what it threw
template<class F> std::string thrown(F f)
{
    try { f(); }
    catch (const std::exception & e) { return std::string("E:") + e.what(); }
    return "";
}
template<class F> bool throws(F f)
{
    try { f(); }
    catch (const std::exception &) { return true; }
    return false;
}

} // namespace mc
