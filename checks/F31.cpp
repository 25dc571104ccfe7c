// F31: two threads with their own objects.  The library is compiled with every memory
// access reported to the runtime below (the calls the thread sanitizer inserts), which
//  - finds the memory both threads touch and at least one of them writes,
//  - runs the two threads under a scheduler that switches exactly at such accesses.
// Without conflicting accesses all interleavings are equivalent to running one thread
// after the other (one Mazurkiewicz trace); otherwise the schedules are enumerated.
#include "mc.hpp"
#include "fisx_xrf.h"
#include "fisx_elements.h"
#include "fisx_detector.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
#include "fisx_epdl97.h"
#include "fisx_math.h"
#include "fisx_version.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
using namespace mc;

// ================================ the runtime ==================================
namespace rt {
static const size_t ARENA = (size_t) 3 << 30, STACK = (size_t) 64 << 20;
static char * arena[3], * stackBase[2]; static size_t top[3];       // 0, 1: the threads' own memory; 2: shared on purpose
static __thread int owner = -1, tid = -1;                        // whose memory new blocks are; which thread runs
static bool on = false, logging = false, scheduling = false;
static bool done[2]; static sem_t turn[2]; static int guardDepth[2], locks[2];
static std::unordered_set<uintptr_t> * W = nullptr;              // the words in conflict
static uint64_t seen[2], stopAt[2];                              // accesses to them so far, next switch
struct Hit { unsigned f; uintptr_t pc; };
enum { RD = 1, WR = 2, SYNCRD = 4, SYNCWR = 8 };
static std::unordered_map<uintptr_t, Hit> * table[2];
static std::vector<uintptr_t> * pcs[2];
struct Out { volatile int finished; int deadlock; uint64_t nRecords, nPc[2]; char result[2][1 << 20]; struct Rec { uintptr_t word; unsigned f; int t; uintptr_t pc; } rec[1 << 20]; uintptr_t pc[2][1 << 18]; };
static Out * out;
static int (*realLock)(pthread_mutex_t *), (*realTry)(pthread_mutex_t *), (*realUnlock)(pthread_mutex_t *);

static void setup()
{
    for (int i = 0; i < 3; i++) { arena[i] = (char *) mmap((void *) (0x100000000000ull + (uint64_t) i * 0x10000000000ull), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (arena[i] == MAP_FAILED) abort(); }
    for (int i = 0; i < 2; i++) { stackBase[i] = (char *) mmap((void *) (0x180000000000ull + (uint64_t) i * 0x10000000000ull), STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (stackBase[i] == MAP_FAILED) abort(); }
}
inline int arenaOf(uintptr_t a) { uintptr_t k = a - 0x100000000000ull; return k < 3 * 0x10000000000ull && (k & 0xffffffffffull) < ARENA ? (int) (k >> 40) : -1; }
static void handOver(int t) { int o = 1 - t; if (done[o]) return; sem_post(&turn[o]); while (sem_wait(&turn[t])) { } }
static void note(uintptr_t word, bool write, bool sync, uintptr_t pc)
{
    int t = tid; Hit & h = (*table[t])[word]; if (!h.f || write) h.pc = pc; h.f |= write ? (sync ? SYNCWR : WR) : (sync ? SYNCRD : RD);
}
// entering a critical section is a point where the other thread may go on
static void section(uintptr_t pc)
{
    int t = tid;
    if (t < 0 || !on || !W || locks[t] || guardDepth[t]) return;
    if (logging && pcs[t]->size() < (1 << 18)) { tid = -1; int keep = owner; owner = -1; pcs[t]->push_back(pc); owner = keep; tid = t; }
    if (scheduling && ++seen[t] == stopAt[t]) handOver(t);
}
static void access(uintptr_t a, size_t n, bool write, uintptr_t pc, bool atomic = false)
{
    int t = tid;
    if (t < 0 || !on) return;
    if (a - (uintptr_t) stackBase[t] < STACK) return;
    bool own = arenaOf(a) == t;
    if (own && !W) return;
    tid = -1;                                                    // what the runtime does itself is not watched
    int keep = owner; owner = -1;
    for (uintptr_t w = a >> 3; w <= (a + (n ? n - 1 : 0)) >> 3; w++)
    {
        if (W && !W->count(w)) continue;
        if ((locks[t] > 0 || guardDepth[t] > 0) && !logging) continue;                // inside a critical section the other thread could only wait
        if (logging) { tid = t; note(w, write, atomic || guardDepth[t] > 0 || locks[t] > 0, pc); tid = -1; if (W && !locks[t] && !guardDepth[t] && pcs[t]->size() < (1 << 18)) pcs[t]->push_back(pc); }
        if (scheduling && ++seen[t] == stopAt[t]) { owner = keep; tid = t; handOver(t); tid = -1; owner = -1; }
    }
    owner = keep; tid = t;
}
} // namespace rt
using rt::access;
#define PC ((uintptr_t) __builtin_return_address(0))
extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t);
static void * bump(size_t n, size_t al = 16) { int o = rt::owner; rt::top[o] = (rt::top[o] + al - 1) / al * al; size_t need = (n + 31) / 16 * 16; if (rt::top[o] + need > rt::ARENA) { fprintf(stderr, "mc: arena exhausted\n"); abort(); } char * p = rt::arena[o] + rt::top[o] + 16; if (al > 16) p = rt::arena[o] + rt::top[o] + al; ((size_t *) p)[-1] = n; rt::top[o] += need + al; return p; }
void * malloc(size_t n) { return rt::owner < 0 ? __libc_malloc(n) : bump(n); }
void free(void * p) { if (p && rt::arenaOf((uintptr_t) p) < 0) __libc_free(p); }
void * calloc(size_t a, size_t b) { if (rt::owner < 0) return __libc_calloc(a, b); return bump(a * b); }                     // fresh pages are zero
void * realloc(void * p, size_t n) { if (rt::owner < 0 && (!p || rt::arenaOf((uintptr_t) p) < 0)) return __libc_realloc(p, n); if (p && rt::arenaOf((uintptr_t) p) < 0) return __libc_realloc(p, n); void * q = malloc(n); if (p) memcpy(q, p, std::min(n, ((size_t *) p)[-1])); return q; }
void * memalign(size_t a, size_t n) { return rt::owner < 0 ? __libc_memalign(a, n) : bump(n, a); }
void * aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n) { *p = memalign(a, n); return 0; }

void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void * p) { access((uintptr_t) p, n, false, PC); } void __tsan_write##n(void * p) { access((uintptr_t) p, n, true, PC); } \
    void __tsan_unaligned_read##n(void * p) { access((uintptr_t) p, n, false, PC); } void __tsan_unaligned_write##n(void * p) { access((uintptr_t) p, n, true, PC); } \
    void __tsan_read_write##n(void * p) { access((uintptr_t) p, n, true, PC); } void __tsan_unaligned_read_write##n(void * p) { access((uintptr_t) p, n, true, PC); } \
    void __tsan_volatile_read##n(void * p) { access((uintptr_t) p, n, false, PC); } void __tsan_volatile_write##n(void * p) { access((uintptr_t) p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void ** p, void *) { access((uintptr_t) p, 8, true, PC); } void __tsan_vptr_read(void ** p) { access((uintptr_t) p, 8, false, PC); }
void __tsan_read_range(void * p, unsigned long n) { if (n) access((uintptr_t) p, n, false, PC); } void __tsan_write_range(void * p, unsigned long n) { if (n) access((uintptr_t) p, n, true, PC); }
void * __tsan_memcpy(void * d, const void * s, size_t n) { if (n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return memcpy(d, s, n); }
void * __tsan_memmove(void * d, const void * s, size_t n) { if (n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return memmove(d, s, n); }
void * __tsan_memset(void * d, int c, size_t n) { if (n) access((uintptr_t) d, n, true, PC); return memset(d, c, n); }
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T * p, int) { access((uintptr_t) p, n / 8, false, PC, true); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##n##_store(volatile T * p, T v, int) { access((uintptr_t) p, n / 8, true, PC, true); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T * p, T v, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T * p, T v, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T * p, T v, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T * p, T v, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T * p, T v, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T * p, T v, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T * p, T c, T v, int, int) { access((uintptr_t) p, n / 8, true, PC, true); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T * p, T * c, T v, int, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T * p, T * c, T v, int, int) { access((uintptr_t) p, n / 8, true, PC, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); } void __tsan_atomic_signal_fence(int) {}

// locks: a thread that has to wait gives way to the other one
static void wait() { int t = rt::tid; if (rt::done[1 - t]) { rt::out->deadlock = 1; _exit(0); } rt::handOver(t); }
int pthread_mutex_trylock(pthread_mutex_t * m) { if (!rt::realTry) rt::realTry = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_trylock"); int r = rt::realTry(m); if (!r && rt::tid >= 0) rt::locks[rt::tid]++; return r; }
int pthread_mutex_lock(pthread_mutex_t * m)
{
    if (!rt::realLock) rt::realLock = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (rt::tid < 0 || !rt::on) return rt::realLock(m);
    rt::section(PC);
    for (int n = 0; pthread_mutex_trylock(m); n++) { if (n > 1000) { rt::out->deadlock = 1; _exit(0); } wait(); }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m) { if (!rt::realUnlock) rt::realUnlock = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock"); if (rt::tid >= 0 && rt::locks[rt::tid] > 0) rt::locks[rt::tid]--; return rt::realUnlock(m); }
int __cxa_guard_acquire(uint64_t * g) { volatile char * b = (volatile char *) g; if (b[0]) return 0; while (b[1]) { if (rt::tid < 0) abort(); wait(); if (b[0]) return 0; } b[1] = 1; if (rt::tid >= 0) rt::guardDepth[rt::tid]++; return 1; }
void __cxa_guard_release(uint64_t * g) { volatile char * b = (volatile char *) g; b[0] = 1; b[1] = 0; if (rt::tid >= 0) rt::guardDepth[rt::tid]--; }
void __cxa_guard_abort(uint64_t * g) { volatile char * b = (volatile char *) g; b[1] = 0; if (rt::tid >= 0) rt::guardDepth[rt::tid]--; }
}

// ================================ the programs ===================================
using namespace fisx;
typedef std::vector<double> VD; typedef std::vector<std::string> VS; typedef std::map<std::string, double> MD;
static std::string D, scratch;
static Elements * OWN[2], * COMMON;
struct Text { std::string s; Text & operator<<(double v) { char b[40]; snprintf(b, sizeof b, "%.17g ", v); s += b; return *this; } Text & operator<<(const std::string & v) { s += v + " "; return *this; }
    Text & operator<<(const char * v) { s += v; s += ' '; return *this; }
    template<class K, class V> Text & operator<<(const std::map<K, V> & m) { for (auto & p : m) { *this << p.first; *this << p.second; } return *this; }
    template<class V> Text & operator<<(const std::vector<V> & m) { for (auto & p : m) *this << p; return *this; }
    template<class K, class V> Text & operator<<(const std::pair<K, V> & p) { return *this << p.first << p.second; } };
static void describe(XRF & x, int t)
{
    x.setBeam(t ? VD{17.4, 9.2} : VD{20.0, 8.4, 30.0}, t ? VD{3, 1} : VD{1, 1, 2}); x.setGeometry(t ? 45 : 60, t ? 45 : 20);
    x.setBeamFilters({Layer("Al", 2.7, t ? 0.01 : 0.02)}); x.setAttenuators({Layer(t ? "C22H10N2O5" : "Be", 1.5, 0.003)});
    if (t) x.setSample({Layer("FeCr", 7, 0.0005), Layer("CuZn", 8, 0.002)}); else x.setSample({Layer("CaFe2O4", 5, 0.001), Layer("NiCu", 8.5, 0.001)}, 1);
    Detector d(t ? "Si" : "Ge", t ? 2.33 : 5.3, 0.05); d.setActiveArea(0.5); d.setDistance(2.0 + t); x.setDetector(d);
}
static void fluorescence(int t, Elements & L, Text & o, int secondary)
{
    XRF x; describe(x, t);
    VS e = t ? VS{"Fe", "Cu"} : VS{"Ca", "Fe", "Ni"}; VS f(e.size(), "K"); std::vector<int> l(e.size(), -1);
    o << x.getMultilayerFluorescence(e, L, l, f, secondary, 1, t);
    o << x.getMultilayerFluorescence(t ? VS{"Cr K 0"} : VS{"Ca K", "Cu K 1"}, L, 0);
    for (int i = 0; i < 2; i++) o << x.getGeometricEfficiency(i);
}
static std::string temporary(const std::string & text, int t, const char * ext) { std::string n = scratch + "/t" + str(getpid()) + "_" + str(t) + ext; FILE * f = fopen(n.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f); return n; }
static const int PROGRAMS = 12; static const char * PNAME[PROGRAMS] = {"fluorescence", "tertiary fluorescence", "escape peaks", "one element", "attenuation", "materials and formulas", "files", "configuration", "functions", "beam and tables", "a library", "changing a library"};
static std::string program(int p, int t, Elements & L)
{
    Text o;
    auto tried = [&](const char * what, std::function<void()> f) { try { f(); } catch (std::exception & e) { o << what << e.what(); } };
    switch (p)
    {
        case 0: fluorescence(t, L, o, 1); break;
        case 1: fluorescence(t, L, o, 2); break;
        case 2: {
            Detector d(t ? "Si" : "CdTe", t ? 2.33 : 5.85, 0.05); d.setMinimumEscapePeakIntensity(t ? 1e-6 : 1e-5);
            for (double e : VD{5.0, 12.0, 40.0}) { o << d.getEscape(e + t, L, "", 1); o << d.getEscape(e, L, "label", 0); }
            Elements & M = L; M.setEscapeCacheEnabled(t); if (t) M.updateEscapeCache(MD{{"Ge", 1.0}}, VD{20.0, 30.0}); o << M.getEscape(MD{{"Ge", 1.0}}, 20.0); o << M.getEscape(MD{{"Si", 1.0}, {"O", 2.0}}, 11.0); M.clearEscapeCache();
            break; }
        case 3: {
            Element e = L.getElement(t ? "Pb" : "Fe");
            for (const char * s : {"K", "L1", "L3", "M2"}) { MD v; v[s] = 1; tried("distribution", [&] { o << e.getCascadeModifiedVacancyDistribution(v); }); tried("emission", [&] { o << e.getXRayLinesFromVacancyDistribution(v); }); }
            e.setCacheEnabled(1); for (double E : VD{8.0, 15.0, 100.0}) { o << e.getMassAttenuationCoefficients(E + t); } e.fillCache(VD{3, 4, 5.5}); o << e.getMassAttenuationCoefficients(VD{3, 4, 5.5, 6})["total"]; o << e.getCacheSize();
            e.emptyCascadeCache(); e.fillCascadeCache(); MD v; v["K"] = 1; o << e.getCascadeModifiedVacancyDistribution(v); o << e.getEmittedXRayLines(90.0); o << e.getBindingEnergies();
            tried("refused", [&] { e.setBindingEnergies(MD{{"Q", 1}}); }); break; }
        case 4: {
            for (double E : VD{1.0, 7.2, 33.0}) { o << L.getMassAttenuationCoefficients(t ? "Fe" : "Au", E); o << L.getMassAttenuationCoefficients(t ? "H2O" : "PbSO4", E); }
            o << L.getMassAttenuationCoefficients(MD{{"Fe", 0.25 + t}, {"SiO2", 1.5}}, VD{2, 20, 200}); L.setElementCascadeCacheEnabled("Fe", 1); o << L.getExcitationFactors("Fe", VD{10.0, 20.0}, VD{1.0, 2.0});
            o << L.getPeakFamilies(t ? "Pb" : "Cd", 16.0); o << L.getPeakFamilies(VS{"Fe", "Au"}, 15.0); EPDL97 k(D + ""); o << k.getMassAttenuationCoefficients(t ? 26 : 82, 10.0)["total"]; break; }
        case 5: {
            for (const char * f : {"H2O", "Ca5(PO4)3F", "CuSO4(H2O)5", "Fe0.25Ni1.75", "(Na2O)2(SiO2)3", "notaformula", "(", "Xx2"}) o << L.getComposition(std::string(f) + (t ? "" : "")) << f;
            Material m(t ? "glass" : "steel", 2.5, 0.01, "made here"); m.setComposition(t ? VS{"SiO2", "Na2O"} : VS{"Fe", "Cr", "C"}, t ? VD{70, 30} : VD{70, 28, 2}); L.addMaterial(m, 0); o << L.getComposition(t ? "glass" : "steel") << L.getMaterialNames();
            tried("again", [&] { L.addMaterial(m, 1); }); Layer l("x", 1.0 + t, 0.01); l.setMaterial(m); o << l.getTransmission(VD{5, 10, 20}, L, 30.0) << l.getComposition(L); o << l.getPeakFamilies(15.0, L); L.removeMaterials(); o << L.getMaterialNames(); o << L.getComposition(t ? "glass" : "steel"); break; }
        case 6: {
            SimpleIni i(temporary(t ? "[a]\nk = 1, 2,\n  3 # c\n[b.c]\nx = y z\n" : "[b]\nq = 5\n\n[Materials.Air]\nDensity = 0.001\n", t, ".ini")); o << i.getSections(); for (auto & s : VS{"a", "b", "b.c", "materials.air"}) o << i.readSection(s, false);
            VD v; SimpleIni::parseStringAsMultipleValues(std::string(t ? "1.5, 2, x" : "7 ,8.25"), v, -1.0); o << v;
            SimpleSpecfile s(temporary(t ? "#S 1 scan\n#N 2\n#L a  b\n1 2\n3 4\n\n" : "#S 5 other\n#N 3\n#L x  y y  z\n1 2 3\n4 5.5 6e3\n\n#S 6 last\n#L q\n9\n", t, ".dat")); o << s.getNumberOfScans(); for (int k = 0; k < s.getNumberOfScans(); k++) { o << s.getScanLabels(k) << s.getScanData(k); }
            tried("beyond", [&] { s.getScanData(17); }); tried("not there", [&] { SimpleIni k("/nonexistent/file"); }); break; }
        case 7: {
            std::string c = t ? "[fit]\nenergy = 20, 12\nenergyweight = 3, 1\nenergyscatter = 1, 0\nenergyflag = 1, 1\n[Materials.Glass]\nCompoundList = SiO2, Na2O\nCompoundFraction = 0.7, 0.3\nDensity = 2.4\nThickness = 0.1\n[attenuators]\nMatrix = 1, MULTILAYER, 0, 0, 40, 50, 0, 90\nBeamFilter0 = 1, Al, 2.7, 0.01, 1\nDetector = 1, Si, 2.33, 0.05, 1\n[multilayer]\nLayer0 = 1, Fe, 7.8, 0.0001\nLayer1 = 1, Glass, 2.4, 0.001\n[concentrations]\ndistance = 3\narea = 0.2\n"
                : "[fit]\nenergy = 17.4\nenergyweight = 1\nenergyscatter = 1\nenergyflag = 1\n[Materials.Brass]\nCompoundList = Cu, Zn\nCompoundFraction = 7, 3\nDensity = 8.5\nThickness = 0.1\n[UserBeamFilters.f]\nuse = 1\nenergy = 1, 30\ntransmission = 0.5, 1\n[attenuators]\nMatrix = 1, Brass, 8.5, 0.001, 45, 45, 0, 90\natmosphere = 1, He, 0.0001, 5, 1\n";
            XRF x; x.readConfigurationFromFile(temporary(c, t, ".cfg")); o << x.getMultilayerFluorescence(t ? VS{"Fe K", "Si K"} : VS{"Cu K", "Zn K"}, L, 1, 1, 1); auto b = x.getBeam().getBeamAsDoubleVectors(); for (auto & v : b) o << v; o << x.getAlphaIn() << (double) x.getMaterials().size();
            tried("broken", [&] { x.readConfigurationFromFile(temporary("[other]\nx=1\n", t, ".bad")); }); break; }
        case 8: {
            double m = 1 + t; for (double x : VD{1e-6, 0.3, 0.999, 1.0, 1.5, 12, 80, 700}) { o << Math::E1(x * m) << Math::En(2, x * m) << Math::En(5, x) << Math::erf(x / m) << Math::erfc(x) << Math::deBoerD(x); }
            for (double a : VD{0.5, 3, 40}) { o << Math::deBoerL0(a, a * m, 2.0, 7.0, 0.01) << Math::deBoerX(a, m, 0.1, 0.2, 0.3, 0.4, 0.0); tried("domain", [&] { o << Math::E1(-a); }); } o << fisxVersion(); break; }
        case 9: {
            Beam b; b.setBeam(t ? VD{3, 1, 2} : VD{10, 5}, t ? VD{1, 1, 2} : VD{3, 1}); for (auto & v : b.getBeamAsDoubleVectors()) o << v; b.setSingleEnergyBeam(7.0 + t); for (auto & v : b.getBeamAsDoubleVectors()) o << v; tried("lengths", [&] { b.setBeam(VD{1, 2, 3}, VD{1, 2}); });
            TransmissionTable k; k.setTransmissionTable(t ? VD{1, 2, 2, 5} : VD{4, 8}, t ? VD{0, 0.2, 0.8, 1} : VD{0.5, 0.75}, "name", "about"); for (double x : VD{0.5, 1.5, 2, 4, 6, 9}) o << k.getTransmission(x); o << k.getTransmission(VD{6, 1, 3}) << k.getName(); tried("order", [&] { k.setTransmissionTable(VD{2, 1}, VD{0, 0}); }); o << k.getTransmissionTable();
            Layer l(t ? "Fe" : "SiO2", 2, 0.01, 0.75); o << l.getTransmission(12.0, L, 40.0) << l.getComposition(L) << l.getMassAttenuationCoefficients(12.0, L); break; }
        case 10: { Elements e(D, (short) t); o << e.getElementNames(); for (auto & s : VS{"Fe", "Pb", "O"}) { o << e.getElement(s).getBindingEnergies() << e.getMassAttenuationCoefficients(s, 11.0) << e.getRadiativeTransitions(s, "L3") << e.getShellConstants(s, "K"); } Elements k(e); o << k.getMassAttenuationCoefficients("Pb", 90.0); break; }
        default: {
            Elements e(L); const char * s = t ? "Fe" : "Cu"; e.setShellRadiativeTransitionsFile("L", D + "/LShellRates.dat"); o << e.getRadiativeTransitions(s, "L3"); e.setMassAttenuationCoefficients(s, VD{1, 10, 100}, VD{5, 0.5, 0.05}, VD{1, 1, 1}, VD{0.5, 0.4, 0.3}, VD{0, 0, 0}); o << e.getMassAttenuationCoefficients(s, 20.0) << L.getMassAttenuationCoefficients(s, 20.0); o << e.getExcitationFactors(s, 20.0);
            Element u(t ? "Zz" : "Yy", 120); u.setAtomicMass(300 + t); tried("add", [&] { e.addElement(u); o << (double) e.isElementNameDefined("Zz") << e.getComposition(t ? "ZzO2" : "Yy"); }); break; }
    }
    return o.s;
}

// ================================ executions =====================================
struct Job { int p, q; bool common; };
static Elements & library(int t, bool common) { return common ? *COMMON : *OWN[t]; }
static void body(int t, const Job & j, bool scheduled)
{
    rt::owner = t; rt::tid = scheduled ? t : t;
    std::string r;
    try { r = program(t == 0 ? j.p : j.q, t, library(t, j.common)); } catch (std::exception & e) { r = std::string("threw ") + e.what(); }
    rt::tid = -1; rt::owner = -1;
    size_t n = std::min(r.size(), sizeof rt::out->result[t] - 1); memcpy(rt::out->result[t], r.data(), n); rt::out->result[t][n] = 0;
}
static Job JOB; static bool SCHED;
static void * threadMain(void * a)
{
    int t = (int) (intptr_t) a;
    while (sem_wait(&rt::turn[t])) { }
    body(t, JOB, SCHED);
    rt::done[t] = true;
    if (!rt::done[1 - t]) sem_post(&rt::turn[1 - t]);
    return nullptr;
}
struct Outcome { bool crashed = false, deadlock = false; int status = 0; std::string result[2]; };
// runs both programs (or one) in a forked copy of the process; first: who begins; stops: after how many conflicting accesses the other continues
static Outcome execute(const Job & j, int first, bool logging, std::unordered_set<uintptr_t> * W, uint64_t stop0, uint64_t stop1, int only = -1)
{
    rt::out->finished = 0; rt::out->deadlock = 0; rt::out->nRecords = 0; rt::out->nPc[0] = rt::out->nPc[1] = 0; rt::out->result[0][0] = rt::out->result[1][0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0)
    {
        alarm(60);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
        rt::W = W; rt::logging = logging; rt::scheduling = !logging && W; rt::stopAt[0] = stop0; rt::stopAt[1] = stop1; rt::seen[0] = rt::seen[1] = 0; JOB = j;
        for (int t = 0; t < 2; t++) { rt::table[t] = new std::unordered_map<uintptr_t, rt::Hit>(); rt::pcs[t] = new std::vector<uintptr_t>(); rt::done[t] = only >= 0 && only != t; sem_init(&rt::turn[t], 0, 0); }
        pthread_t h[2]; rt::on = true;
        for (int t = 0; t < 2; t++) if (!rt::done[t]) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, rt::stackBase[t], rt::STACK); if (pthread_create(&h[t], &a, threadMain, (void *) (intptr_t) t)) _exit(9); }
        sem_post(&rt::turn[only >= 0 ? only : first]);
        for (int t = 0; t < 2; t++) if (only < 0 || only == t) pthread_join(h[t], nullptr);
        rt::on = false;
        uint64_t n = 0;
        if (logging) for (int t = 0; t < 2; t++) { for (auto & p : *rt::table[t]) if (n < (1 << 20)) rt::out->rec[n++] = {p.first, p.second.f, t, p.second.pc}; for (auto pc : *rt::pcs[t]) rt::out->pc[t][rt::out->nPc[t]++] = pc; }
        rt::out->nRecords = n; rt::out->finished = 1; _exit(0);
    }
    Outcome o; int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) { }
    o.status = st; o.deadlock = rt::out->deadlock; o.crashed = !rt::out->finished && !o.deadlock;
    for (int t = 0; t < 2; t++) o.result[t] = rt::out->result[t];
    return o;
}
struct Plan { bool ready = false; int failed = 0; std::string alone[2], trouble; std::vector<std::pair<std::string, std::string> > bad; std::unordered_set<uintptr_t> conflicts; std::vector<uint64_t> stops; size_t nA = 0, nB = 0; std::string where; std::set<uintptr_t> own; };
static std::string name(uintptr_t pc) { Dl_info i; if (dladdr((void *) pc, &i) && i.dli_sname) return i.dli_sname; char b[40]; snprintf(b, sizeof b, "+%lx", (long) (pc - (uintptr_t) &execute)); return b; }
static void prepare(Plan & P, const Job & j, bool thorough)
{
    P.ready = true;
    for (int t = 0; t < 2; t++) { Outcome o = execute(j, t, false, nullptr, 0, 0, t); P.alone[t] = o.result[t]; if (o.crashed || o.deadlock) { P.bad.push_back({"alone", "crashed alone, status " + str(o.status)}); return; } }
    // all words outside the own stack and memory
    struct Two { unsigned f[2] = {0, 0}; uintptr_t pc[2] = {0, 0}; };
    std::unordered_map<uintptr_t, Two> m; std::unordered_set<uintptr_t> foreign;
    for (int round = 0; round < 2; round++)
    {
        Outcome o = execute(j, 0, true, round ? &foreign : nullptr, 0, 0);
        if (o.crashed || o.deadlock) { P.bad.push_back({"one after the other", "status " + str(o.status)}); return; }
        for (int t = 0; t < 2; t++) if (o.result[t] != P.alone[t]) P.bad.push_back({"one after the other: other result", PNAME[t ? j.q : j.p]});
        m.clear();
        for (uint64_t i = 0; i < rt::out->nRecords; i++) { auto & r = rt::out->rec[i]; Two & k = m[r.word]; k.f[r.t] |= r.f; k.pc[r.t] = r.pc; if (!round) foreign.insert(r.word); }
        if (!round && foreign.empty()) break;
    }
    for (auto & p : m)
    {
        unsigned a = p.second.f[0], b = p.second.f[1]; const unsigned ANYW = rt::WR | rt::SYNCWR;
        if (!a || !b || !((a | b) & ANYW)) continue;
        P.conflicts.insert(p.first); if (P.where.size() < 300) P.where += name(p.second.pc[0]) + "/" + name(p.second.pc[1]) + " ";
        // containers and strings in use by both threads, without any protection
        int ar = rt::arenaOf(p.first << 3);
        if (ar >= 0 && ar < 2 && ((a & rt::WR) || (b & rt::WR))) P.bad.push_back({"unprotected memory in use by both threads", name(p.second.pc[0]) + " and " + name(p.second.pc[1])});
    }
    if (P.conflicts.empty()) return;
    Outcome o = execute(j, 0, true, &P.conflicts, 0, 0);
    P.nA = rt::out->nPc[0]; P.nB = rt::out->nPc[1];
    // where to interrupt the first thread: the first and last accesses of every place in the code
    std::map<uintptr_t, std::vector<uint64_t> > by; for (size_t i = 0; i < P.nA; i++) by[rt::out->pc[0][i]].push_back(i + 1);
    std::set<uint64_t> s; size_t keep = thorough ? 6 : 2;
    for (auto & p : by) { for (size_t i = 0; i < p.second.size() && i < keep; i++) s.insert(p.second[i]); s.insert(p.second.back()); s.insert(p.second[p.second.size() / 2]); }
    for (auto v : s) if (P.stops.size() < (thorough ? 400u : 16u)) P.stops.push_back(v);
}
static std::map<int, Plan> PLANS;
static const std::vector<uint64_t> SECOND = {0, 1, 2, 3, 5, 9, 17, 65, 513};
static Main M;
static void explore(Run & r, int key, const Job & j, bool T)
{
    Plan & P = PLANS[key]; std::string at = std::string(PNAME[j.p]) + " | " + PNAME[j.q] + (j.common ? ", one library" : "");
    r.site(at); r.note(at);
    if (!P.ready) { prepare(P, j, T); r.step(); r.step(); r.step(); for (auto & b : P.bad) { if (j.common && b.first[0] == 'u') continue; r.fail(b.first, at + ": " + b.second); } r.check(P.alone[0].size() > 20 && P.alone[1].size() > 20, "a program without answer", at); r.state(at + P.where); }
    r.check(true, "pair");
    if (P.failed > 3) return;                                  // this pair is broken already
    if (P.stops.empty()) { r.note(" no conflicting access: one trace"); return; }
    if (!T && !r.replaying && M.elapsed() > 450) { r.note(" no time left for the schedules"); return; }
    uint64_t a = P.stops[r.choose(P.stops.size())], b = SECOND[r.choose(T ? SECOND.size() : 4)];
    Outcome o = execute(j, 0, false, &P.conflicts, a, b); r.step();
    std::string s = at + ": switch after " + str(a) + " and " + str(b) + " of " + str(P.nA) + " and " + str(P.nB) + " conflicting accesses at " + P.where;
    if (o.crashed || o.deadlock || o.result[0] != P.alone[0] || o.result[1] != P.alone[1]) P.failed++;
    if (o.crashed) r.fail("crash under a schedule", s + " status " + str(o.status));
    else if (o.deadlock) r.fail("threads block each other", s);
    else for (int t = 0; t < 2; t++) r.check(o.result[t] == P.alone[t], "other result under a schedule", s + " thread " + str(t));
}
int main(int argc, char ** argv)
{
    rt::setup(); const char * sc = getenv("FISX_MC_SCRATCH"); scratch = sc ? sc : "/tmp";
    M.hangSeconds = 300;
    M.init = [] {
        D = getenv("FISX_MC_DATA");
        using namespace rt;
        out = (Out *) mmap(0, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (out == MAP_FAILED) abort();      // every worker has its own
        for (int t = 0; t < 3; t++) { rt::owner = t; Elements * e = new Elements(D); (t < 2 ? OWN[t] : COMMON) = e; rt::owner = -1; }
    };
    M.main(argc, argv, [](Main & M) {
        bool T = M.thorough();
        M.suite("own libraries", PROGRAMS * PROGRAMS, [=](Run & r, int job) { explore(r, job, Job{job % PROGRAMS, job / PROGRAMS, false}, T); });
        // programs that only ask questions may also share the library
        static const int ASK[] = {0, 1, 3, 7, 9, 10};
        M.suite("one library", 36, [=](Run & r, int job) { explore(r, 1000 + job, Job{ASK[job % 6], ASK[job / 6], true}, T); });
    });
}
