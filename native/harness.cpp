// Simulator side of the C++ worker: every source of nondeterminism of the
// Monte Carlo process (clock, entropy, signals, exit) and the observation
// points the oracles need are routed here through `ld --wrap`; /repo itself
// carries no hook.  Nothing in this file changes what the worker computes.
#include <Python.h>
#include <time.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <string.h>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <random>
#include <stdexcept>
#include "environment/environment.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "utility/dictionary.h"
#include "utility/pyglue/pywrapper.h"
#include "estimator/estimator.h"

// own complex type: the project's headers put `using namespace std` and a
// global `real` in scope, which <complex> would clash with
struct cplx {
    double r, i;
    cplx(double a = 0, double b = 0) : r(a), i(b) {}
    cplx& operator+=(const cplx& o) { r += o.r; i += o.i; return *this; }
    cplx& operator-=(const cplx& o) { r -= o.r; i -= o.i; return *this; }
    cplx& operator*=(const cplx& o) { double t = r * o.r - i * o.i; i = r * o.i + i * o.r; r = t; return *this; }
};
static cplx operator-(cplx a, const cplx& b) { return a -= b; }
static cplx operator*(cplx a, const cplx& b) { return a *= b; }
static cplx operator/(cplx a, double b) { return cplx(a.r / b, a.i / b); }
static double cabs_(const cplx& a) { return hypot(a.r, a.i); }
static std::ostream& operator<<(std::ostream& os, const cplx& a) { return os << "(" << a.r << "," << a.i << ")"; }
typedef void (*kf_sighandler)(int);

extern "C" {
struct kf_callbacks {
    long (*time)();                        // node's wall clock, a scheduling point
    long (*log_time)();                    // node's wall clock, not a scheduling point
    long (*clock)();
    unsigned (*entropy)();
    void (*signal)(int, void*);
    void (*exit)(int);                     // never returns
    void (*event)(const char*, int, double); // (name, 0 before/1 after, value)
};
static kf_callbacks CB;
static EnvMonteCarlo* ENV = nullptr;
static long long HOPS = 0, MEASURES = 0, CHECKS = 0;
static long long MAX_HOPS = -1, COUNTER0 = 0, DONE_AT_MEASURE = 0;
static int CHECK_EVERY = 0;  // 0: never, n: check the diagram every n-th update
static int SHADOW = 0;
static std::string VIOLATION, ERRTEXT;
static int SAW_WORM, SAW_ORDER0, SAW_DELTA, SAW_POLAR, SAW_GAMMA, MAXORD;
static double ORDER_COUNT[32];
static unsigned long long PATH_HASH = 1469598103934665603ULL;

void kf_set_callbacks(kf_callbacks* cb) { CB = *cb; }
void kf_set_checks(int every, int shadow) { CHECK_EVERY = every; SHADOW = shadow; }
long long kf_hops() { return HOPS; }
long long kf_measures() { return MEASURES; }
long long kf_checks() { return CHECKS; }
const char* kf_violation() { return VIOLATION.c_str(); }
void kf_clear_violation() { VIOLATION.clear(); }
const char* kf_error() { return ERRTEXT.c_str(); }
unsigned long long kf_path_hash() { return PATH_HASH; }
int kf_stat(int i)
{
    int s[] = { SAW_WORM, SAW_ORDER0, SAW_DELTA, SAW_POLAR, SAW_GAMMA, MAXORD };
    return s[i];
}
int kf_has_env() { return ENV != nullptr; }
}

// ---------------------------------------------------------------- invariants
// Independent statement of what a valid sampled diagram is.  Only the data of
// the diagram and the published G/W arrays (handed over by the simulator, as
// plain memory in file layout) are used; none of the project's own checks or
// index maps are called.
struct Arrays {
    int sub, L[2], vol, nt;
    double beta;
    const cplx* G;    // [2][sub][2][sub][vol][nt]
    const cplx* WS;   // [4][sub][4][sub][vol][nt]
    const cplx* WD;   // [4][sub][4][sub][vol]
    bool have;
};
static Arrays A = { 0 };
extern "C" void kf_set_arrays(int sub, int l0, int l1, int nt, double beta, const void* g, const void* ws, const void* wd)
{
    A.sub = sub; A.L[0] = l0; A.L[1] = l1; A.vol = l0 * l1; A.nt = nt; A.beta = beta;
    A.G = (const cplx*)g; A.WS = (const cplx*)ws; A.WD = (const cplx*)wd; A.have = g != nullptr;
}
static int coordOf(const Site& a, const Site& b)
{
    int d0 = ((b.Coordinate[0] - a.Coordinate[0]) % A.L[0] + A.L[0]) % A.L[0];
    int d1 = ((b.Coordinate[1] - a.Coordinate[1]) % A.L[1] + A.L[1]) % A.L[1];
    return d0 * A.L[1] + d1;
}
static int tauBin(double d)
{
    if (d < 0) d += A.beta;
    int b = (int)floor(d / A.beta * A.nt);
    // at d<0 tiny, d+beta rounds to beta: the last bin
    return b >= A.nt ? A.nt - 1 : b;
}
static cplx lookG(const Site& a, const Site& b, double ta, double tb, int sa, int sb)
{
    long i = ((((long)(sa * A.sub + a.Sublattice) * 2 + sb) * A.sub + b.Sublattice) * A.vol + coordOf(a, b)) * A.nt + tauBin(tb - ta);
    return A.G[i] * (tb > ta ? 1.0 : -1.0);
}
static cplx lookW(const Site& a, const Site& b, double ta, double tb, int pa, int pb, bool delta)
{
    long i = (((long)(pa * A.sub + a.Sublattice) * 4 + pb) * A.sub + b.Sublattice) * A.vol + coordOf(a, b);
    if (delta) return A.WD[i];
    return A.WS[i * A.nt + tauBin(tb - ta)];
}
static bool nearly(cplx a, cplx b, double rel)
{
    double m = std::max(cabs_(a), cabs_(b));
    return cabs_(a - b) <= rel * m + 1e-300;
}
static cplx C(const Complex& c) { return cplx(c.Re, c.Im); }
static cplx FULLWEIGHT;

static std::string checkDiagram(EnvMonteCarlo* E, bool quiescent)
{
    std::ostringstream os;
#define BAD(x) do { os << x; return os.str(); } while (0)
    diag::Diagram& D_ = E->Diag;
    int n = D_.Order;
    if (n < 0 || n > E->Para.Order) BAD("order " << n << " outside [0," << E->Para.Order << "]");
    if (n == 0 && D_.Worm.Exist) BAD("worm exists in the normalization sector");
    double ph = cabs_(C(D_.Phase));
    if (!(fabs(ph - 1.0) < 1e-6)) BAD("|phase| = " << ph);
    if (n == 0) {
        SAW_ORDER0 = 1;
        double vol = (double)E->Para.Lat.Vol * E->Para.Lat.SublatVol;
        if (!nearly(C(D_.Weight), cplx(vol, 0), 1e-9)) BAD("order-0 weight " << C(D_.Weight) << " is not the normalization weight " << vol);
        if (cabs_(C(D_.Phase) - cplx(1, 0)) > 1e-6) BAD("order-0 phase " << C(D_.Phase));
        return "";
    }
    if (D_.G.HowMany() != 2 * n || D_.W.HowMany() != n || D_.Ver.HowMany() != 2 * n)
        BAD("order " << n << " with " << D_.G.HowMany() << " G, " << D_.W.HowMany() << " W, " << D_.Ver.HowMany() << " vertices");
    bool worm = D_.Worm.Exist;
    std::map<diag::Vertex*, int> vi;
    for (int i = 0; i < 2 * n; i++) {
        diag::Vertex* v = D_.Ver(i);
        if (v->Name != i) BAD("vertex name " << v->Name << " at slot " << i);
        if (vi.count(v)) BAD("vertex listed twice");
        vi[v] = i;
        if (v->R.Sublattice < 0 || v->R.Sublattice >= E->Para.Lat.SublatVol) BAD("vertex sublattice out of lattice");
        for (int d = 0; d < 2; d++)
            if (v->R.Coordinate[d] < 0 || v->R.Coordinate[d] >= E->Para.Lat.Size[d]) BAD("vertex coordinate out of lattice");
        if (!(v->Tau >= 0 && v->Tau <= E->Para.Beta)) BAD("vertex time " << v->Tau << " outside [0,beta]");
    }
    if (worm) {
        if (!vi.count(D_.Worm.Ira) || !vi.count(D_.Worm.Masha)) BAD("worm end is not a vertex of the diagram");
        if (D_.Worm.Ira == D_.Worm.Masha) BAD("worm ends coincide");
        if (D_.Worm.dSpin != 1 && D_.Worm.dSpin != -1) BAD("worm spin " << D_.Worm.dSpin);
    }
    cplx prod(1, 0);
    int measG = 0, measW = 0, gammaG = 0, gammaW = 0;
    std::map<int, int> gk, wk;
    std::vector<int> indeg(2 * n, 0), outdeg(2 * n, 0), wdeg(2 * n, 0);
    std::vector<int> knet(2 * n, 0);
    std::vector<int> nextv(2 * n, -1);
    bool gamma = D_.HasGammaGW != 0;
    for (int i = 0; i < 2 * n; i++) {
        diag::GLine* g = D_.G(i);
        if (g->Name != i) BAD("G line name " << g->Name << " at slot " << i);
        diag::Vertex *a = g->nVer[IN], *b = g->nVer[OUT];
        if (!vi.count(a) || !vi.count(b)) BAD("G line end is not a vertex of the diagram");
        if (a->nG[OUT] != g || b->nG[IN] != g) BAD("G line and its end vertices disagree");
        outdeg[vi[a]]++; indeg[vi[b]]++;
        nextv[vi[a]] = vi[b];
        knet[vi[a]] -= g->K.K; knet[vi[b]] += g->K.K;
        if (gk[g->K.K]++) BAD("two G lines carry the same momentum " << g->K.K << " (reducible)");
        if (abs(g->K.K) > MAX_K) BAD("G momentum out of range");
        if (!D_.GHash[g->K.index()]) BAD("G momentum " << g->K.K << " not registered");
        if (a->_spin[OUT] != b->_spin[IN]) BAD("spin changes along a G line");
        if (g->IsMeasure) { measG++; if (D_.GMeasure != g) BAD("measuring G line is not the recorded one"); }
        if (g->IsGGGammaG) gammaG++;
        if (A.have && !g->IsGGGammaG) {
            cplx w = g->IsMeasure ? cplx(1, 0) : lookG(a->R, b->R, a->Tau, b->Tau, a->_spin[OUT], b->_spin[IN]);
            if (!nearly(w, C(g->Weight), 1e-9)) BAD("G line weight " << C(g->Weight) << " but the loaded G gives " << w);
        }
        if (cabs_(C(g->Weight)) == 0) BAD("G line with zero weight");
        prod *= C(g->Weight);
    }
    for (int i = 0; i < n; i++) {
        diag::WLine* w = D_.W(i);
        if (w->Name != i) BAD("W line name " << w->Name << " at slot " << i);
        diag::Vertex *a = w->nVer[IN], *b = w->nVer[OUT];
        if (!vi.count(a) || !vi.count(b)) BAD("W line end is not a vertex of the diagram");
        if (a == b) BAD("W line starts and ends on one vertex");
        if (a->nW != w || b->nW != w) BAD("W line and its end vertices disagree");
        if (a->Dir != IN || b->Dir != OUT) BAD("vertex direction on W line wrong");
        wdeg[vi[a]]++; wdeg[vi[b]]++;
        knet[vi[a]] -= w->K.K; knet[vi[b]] += w->K.K;
        int ak = abs(w->K.K);
        if (ak > MAX_K) BAD("W momentum out of range");
        if (w->K.K == 0) BAD("W line carries zero momentum (reducible)");
        if (wk[ak]++) BAD("two W lines carry the same momentum " << ak << " (reducible)");
        if (!D_.WHash[ak]) BAD("W momentum " << w->K.K << " not registered");
        bool touches = worm && (a == D_.Worm.Ira || a == D_.Worm.Masha || b == D_.Worm.Ira || b == D_.Worm.Masha);
        if (w->IsWorm != touches) BAD("W line worm flag " << w->IsWorm << " but it " << (touches ? "does" : "does not") << " touch a worm end");
        if (w->IsDelta && a->Tau != b->Tau) BAD("instantaneous W line with different end times");
        if (w->IsDelta && w->IsMeasure) BAD("measuring W line is instantaneous");
        if (w->IsDelta) SAW_DELTA = 1;
        if (w->IsMeasure) { measW++; if (D_.WMeasure != w) BAD("measuring W line is not the recorded one"); }
        if (w->IsWWGammaW) gammaW++;
        if (A.have && !w->IsWWGammaW) {
            int pa = a->_spin[IN] * 2 + a->_spin[OUT], pb = b->_spin[IN] * 2 + b->_spin[OUT];
            if (touches) pa = pb = 3;
            cplx x = w->IsMeasure ? cplx(1, 0) : lookW(a->R, b->R, a->Tau, b->Tau, pa, pb, w->IsDelta);
            if (!nearly(x, C(w->Weight), 1e-9)) BAD("W line weight " << C(w->Weight) << " but the loaded W gives " << x);
        }
        if (cabs_(C(w->Weight)) == 0) BAD("W line with zero weight");
        prod *= C(w->Weight);
    }
    if (gamma ? (measG + measW > 1) : (measG + measW != 1)) BAD("number of measuring lines is " << measG + measW);
    if (!gamma && (measG == 1) != D_.MeasureGLine) BAD("kind of measuring line disagrees with the recorded sector");
    if (!gamma && (gammaG || gammaW)) BAD("gamma line outside the gamma sector");
    if (gamma && (gammaG + gammaW != 1)) BAD("number of gamma lines is " << gammaG + gammaW);
    for (int i = 0; i < 2 * n; i++) {
        if (indeg[i] != 1 || outdeg[i] != 1 || wdeg[i] != 1) BAD("vertex " << i << " has " << indeg[i] << " in, " << outdeg[i] << " out, " << wdeg[i] << " W");
        diag::Vertex* v = D_.Ver(i);
        // convention: the W line flows out of its IN vertex into its OUT vertex;
        // the worm carries K from Ira to Masha
        int k = knet[i];
        if (worm && v == D_.Worm.Ira) k -= D_.Worm.K.K;
        if (worm && v == D_.Worm.Masha) k += D_.Worm.K.K;
        if (k % (2 * MAX_K + 1) != 0) BAD("momentum not conserved at vertex " << i << " (excess " << k << ")");
    }
    // spin conservation: at each W line spin in equals spin out, unless a worm
    // end sits on it, where dSpin is injected at Ira and removed at Masha.
    for (int i = 0; i < n; i++) {
        diag::WLine* w = D_.W(i);
        int net = 0;
        for (int e = 0; e < 2; e++) {
            diag::Vertex* v = w->nVer[e];
            net += (int)v->_spin[IN] - (int)v->_spin[OUT];
            if (worm && v == D_.Worm.Ira) net -= D_.Worm.dSpin;
            if (worm && v == D_.Worm.Masha) net += D_.Worm.dSpin;
        }
        if (net != 0) BAD("spin not conserved across a W line (excess " << net << ")");
    }
    // fermion loops
    int loops = 0;
    std::vector<char> seen(2 * n, 0);
    for (int i = 0; i < 2 * n; i++)
        if (!seen[i]) { loops++; for (int j = i; !seen[j]; j = nextv[j]) seen[j] = 1; }
    (void)loops;
    // momentum registers hold exactly the momenta in use
    int cg = 0, cw = 0;
    if (quiescent) {
        for (int i = 0; i < 2 * MAX_K + 1; i++) cg += D_.GHash[i];
        for (int i = 0; i < MAX_K + 1; i++) cw += D_.WHash[i];
        if (cg != 2 * n || cw != n) BAD("registered momenta: " << cg << " G, " << cw << " W for order " << n);
    }
    double s = D_.SignFermiLoop;
    if (s != 1.0 && s != -1.0) BAD("fermi loop sign " << s);
    // Order-1 reference: one loop-free closed line of two G; each Reconnect
    // changes the number of loops by one, so the sign is fixed by the parity
    // of the number of loops.
    double want = (loops % 2 == 1) ? 1.0 : -1.0;
    if (s != want) BAD("fermi loop sign " << s << " with " << loops << " loops");
    prod *= s * (n % 2 == 0 ? 1.0 : -1.0);
    FULLWEIGHT = prod;
    if (!nearly(prod, C(D_.Weight), 1e-5)) BAD("stored weight " << C(D_.Weight) << " but its lines give " << prod);
    if (cabs_(prod / cabs_(prod) - C(D_.Phase)) > 1e-5) BAD("stored phase " << C(D_.Phase) << " but its lines give " << prod / cabs_(prod));
    SAW_WORM |= worm; SAW_POLAR |= !D_.MeasureGLine; SAW_GAMMA |= gamma;
    if (n > MAXORD) MAXORD = n;
    return "";
}
extern "C" const char* kf_check_now(int quiescent)
{
    static std::string s;
    s = ENV ? checkDiagram(ENV, quiescent != 0) : "";
    return s.c_str();
}

// ------------------------------------------------------------ shadow account
// What the files must say if every measurement step is recorded exactly once.
struct Shadow {
    std::vector<cplx> S, P;
    double nS, nP;
    std::vector<double> worm, phy;
    double cS, cP;
    int order, sub, vol, nt;
    bool on;
};
static Shadow SH = { };
static void shadowInit(EnvMonteCarlo* E)
{
    SH.order = E->Para.Order; SH.sub = E->Para.Lat.SublatVol; SH.vol = E->Para.Lat.Vol; SH.nt = E->Para.MaxTauBin;
    size_t s2 = (size_t)SH.order * 4 * SH.sub * SH.sub * SH.vol * SH.nt;
    SH.S.assign(s2, 0); SH.P.assign(s2 * 4, 0);
    SH.worm.assign(SH.order + 1, 0); SH.phy.assign(SH.order + 1, 0);
    SH.nS = SH.nP = SH.cS = SH.cP = 0; SH.on = true;
}
static void shadowMeasure(EnvMonteCarlo* E)
{
    if (!SH.on) shadowInit(E);
    diag::Diagram& D_ = E->Diag;
    int n = D_.Order;
    double rw = 1.0 / E->Para.OrderReWeight[n];
    bool gamma = D_.HasGammaGW != 0;
    if (D_.Worm.Exist) {
        SH.worm[n] += 1;
        if (!gamma) (D_.MeasureGLine ? SH.cS : SH.cP) += 1;
        return;
    }
    SH.phy[n] += 1;
    ORDER_COUNT[n] += 1;
    if (n > 0 && !gamma) (D_.MeasureGLine ? SH.cS : SH.cP) += 1;
    if (n == 0) { (D_.MeasureGLine ? SH.nS : SH.nP) += rw; SAW_ORDER0 = 1; return; }
    if (gamma) return;
    if (D_.MeasureGLine) {
        diag::Vertex *a = D_.GMeasure->nVer[OUT], *b = D_.GMeasure->nVer[IN];
        int sa = a->_spin[IN], sb = b->_spin[OUT];
        double dt = b->Tau - a->Tau;
        size_t i = (((((size_t)(n - 1) * 2 + sa) * SH.sub + a->R.Sublattice) * 2 + sb) * SH.sub + b->R.Sublattice) * SH.vol + coordOf(a->R, b->R);
        SH.S[i * SH.nt + tauBin(dt)] += C(D_.Phase) * rw * (b->Tau > a->Tau ? 1.0 : -1.0);
    } else {
        diag::Vertex *a = D_.WMeasure->nVer[OUT], *b = D_.WMeasure->nVer[IN];
        int pa = a->_spin[IN] * 2 + a->_spin[OUT], pb = b->_spin[IN] * 2 + b->_spin[OUT];
        size_t i = (((((size_t)(n - 1) * 4 + pa) * SH.sub + a->R.Sublattice) * 4 + pb) * SH.sub + b->R.Sublattice) * SH.vol + coordOf(a->R, b->R);
        SH.P[i * SH.nt + tauBin(b->Tau - a->Tau)] -= C(D_.Phase) * rw;
    }
}
extern "C" {
// what: 0 S,1 P array pointers; sizes
void* kf_shadow_ptr(int what) { return what == 0 ? (void*)SH.S.data() : (void*)SH.P.data(); }
long kf_shadow_size(int what) { return what == 0 ? SH.S.size() : SH.P.size(); }
double kf_shadow_num(int what, int i)
{
    switch (what) {
    case 0: return SH.nS;
    case 1: return SH.nP;
    case 2: return SH.cS;
    case 3: return SH.cP;
    case 4: return i < (int)SH.worm.size() ? SH.worm[i] : 0;
    case 5: return i < (int)SH.phy.size() ? SH.phy[i] : 0;
    }
    return 0;
}
int kf_shadow_on() { return SH.on; }
void kf_shadow_reset() { if (ENV) shadowInit(ENV); }
double kf_order_count(int i) { return ORDER_COUNT[i]; }

PyObject* kf_state()
{
    try {
        Dictionary d;
        if (ENV) {
            d["Para"] = ENV->Para.ToDict();
            d["Config"] = ENV->Diag.ToDict();
            d["Statis"] = ENV->Weight.ToDict(weight::SigmaPolar);
            d["Monitor"] = ENV->MarkovMonitor.ToDict();
            if (ENV->Para.runGamma3) d["Gamma"] = ENV->Weight.ToDict(weight::GammaGWStatis);
            Dictionary x;
            x["Order"] = ENV->Diag.Order;
            x["PhaseRe"] = ENV->Diag.Phase.Re; x["PhaseIm"] = ENV->Diag.Phase.Im;
            x["WeightRe"] = ENV->Diag.Weight.Re; x["WeightIm"] = ENV->Diag.Weight.Im;
            x["HasGammaGW"] = ENV->Diag.HasGammaGW;
            x["Worm"] = ENV->Diag.Worm.Exist;
            x["MeasureGLine"] = ENV->Diag.MeasureGLine;
            x["Counter"] = ENV->Para.Counter;
            x["Version"] = ENV->Para.Version;
            x["Beta"] = ENV->Para.Beta;
            x["OrderReWeight"] = ENV->Para.OrderReWeight;
            x["OrderTimeRatio"] = ENV->Para.OrderTimeRatio;
            x["WormSpaceReweight"] = ENV->Para.WormSpaceReweight;
            x["PolarReweight"] = ENV->Para.PolarReweight;
            d["Live"] = x;
        }
        return Python::CastToPy(d).Get(Python::NewRef);
    } catch (std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
PyObject* kf_weights_gw()
{
    try {
        Dictionary d = ENV->Weight.ToDict(weight::GW);
        return Python::CastToPy(d).Get(Python::NewRef);
    } catch (std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
double kf_reweight(int what, int i)
{
    if (!ENV) return 0;
    switch (what) {
    case 0: return i < (int)ENV->Para.OrderReWeight.size() ? ENV->Para.OrderReWeight[i] : -1;
    case 1: return ENV->Para.WormSpaceReweight;
    case 2: return ENV->Para.PolarReweight;
    case 3: return ENV->Para.GammaGReweight;
    case 4: return ENV->Para.GammaWReweight;
    case 5: return ENV->Para.Version;
    case 6: return ENV->Para.Beta;
    case 7: return ENV->Para.Counter;
    case 8: return ENV->Para.Order;
    case 9: return ENV->Diag.Order;
    case 10: return ENV->Diag.Worm.Exist;
    case 11: return ENV->Diag.HasGammaGW;
    }
    return 0;
}
}

// --------------------------------------------------------------------- seams
extern "C" {
time_t __wrap_time(time_t* t)
{
    time_t r = CB.time ? CB.time() : 0;
    if (t) *t = r;
    return r;
}
time_t kf_log_time(time_t* t)
{
    time_t r = CB.log_time ? CB.log_time() : 0;
    if (t) *t = r;
    return r;
}
clock_t __wrap_clock() { return CB.clock ? CB.clock() : 0; }
kf_sighandler __wrap_signal(int s, kf_sighandler h)
{
    if (CB.signal) CB.signal(s, (void*)h);
    return SIG_DFL;
}
void __wrap_exit(int code)
{
    if (CB.exit) CB.exit(code);
    for (;;) pause();
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return CB.entropy ? CB.entropy() : 12345u; }
void __wrap_Py_Initialize() {}
void __wrap_Py_InitializeEx(int) {}
void __wrap_Py_Finalize() {}

void __real__ZN13EnvMonteCarloC1ERKN4para3JobEb(EnvMonteCarlo*, const para::Job&, bool);
void __wrap__ZN13EnvMonteCarloC1ERKN4para3JobEb(EnvMonteCarlo* self, const para::Job& j, bool b)
{
    __real__ZN13EnvMonteCarloC1ERKN4para3JobEb(self, j, b);
    ENV = self;
}
}
#define EV(name, when, val) do { if (CB.event) CB.event(name, when, val); } while (0)
template <typename F>
static bool around(const char* name, F f)
{
    EV(name, 0, 0);
    bool r;
    try {
        r = f();
    } catch (...) {
        EV(name, 2, 0);
        throw;
    }
    EV(name, 1, r);
    return r;
}
extern "C" {
void __real__ZN13EnvMonteCarlo4SaveEv(EnvMonteCarlo*);
void __wrap__ZN13EnvMonteCarlo4SaveEv(EnvMonteCarlo* s) { around("Save", [&] { __real__ZN13EnvMonteCarlo4SaveEv(s); return true; }); }
bool __real__ZN13EnvMonteCarlo4LoadEv(EnvMonteCarlo*);
bool __wrap__ZN13EnvMonteCarlo4LoadEv(EnvMonteCarlo* s) { return around("Load", [&] { bool r = __real__ZN13EnvMonteCarlo4LoadEv(s); COUNTER0 = s->Para.Counter; return r; }); }
bool __real__ZN13EnvMonteCarlo8BuildNewEv(EnvMonteCarlo*);
bool __wrap__ZN13EnvMonteCarlo8BuildNewEv(EnvMonteCarlo* s) { return around("BuildNew", [&] { bool r = __real__ZN13EnvMonteCarlo8BuildNewEv(s); COUNTER0 = s->Para.Counter; return r; }); }
bool __real__ZN13EnvMonteCarlo15ListenToMessageEv(EnvMonteCarlo*);
bool __wrap__ZN13EnvMonteCarlo15ListenToMessageEv(EnvMonteCarlo* s) { return around("Listen", [&] { return __real__ZN13EnvMonteCarlo15ListenToMessageEv(s); }); }
void __real__ZN13EnvMonteCarlo19AdjustOrderReWeightEv(EnvMonteCarlo*);
void __wrap__ZN13EnvMonteCarlo19AdjustOrderReWeightEv(EnvMonteCarlo* s) { around("Reweight", [&] { __real__ZN13EnvMonteCarlo19AdjustOrderReWeightEv(s); return true; }); }
void __real__ZN2mc13MarkovMonitor18PrintOrderReWeightEv(mc::MarkovMonitor*);
void __wrap__ZN2mc13MarkovMonitor18PrintOrderReWeightEv(mc::MarkovMonitor* s) { around("Print", [&] { __real__ZN2mc13MarkovMonitor18PrintOrderReWeightEv(s); return true; }); }

void __real__ZN2mc6Markov3HopEi(mc::Markov*, int);
void __wrap__ZN2mc6Markov3HopEi(mc::Markov* m, int n)
{
    if (CHECK_EVERY <= 0) {
        __real__ZN2mc6Markov3HopEi(m, n);
        HOPS += n;
        return;
    }
    for (int i = 0; i < n; i++) {
        __real__ZN2mc6Markov3HopEi(m, 1);
        HOPS++;
        if (HOPS % CHECK_EVERY == 0 && VIOLATION.empty()) {
            CHECKS++;
            std::string s = checkDiagram(ENV, HOPS % (16 * CHECK_EVERY) == 0);
            if (!s.empty()) {
                VIOLATION = s;
                EV("violation", 0, (double)HOPS);
            }
        }
    }
}
void __real__ZN2mc13MarkovMonitor7MeasureEv(mc::MarkovMonitor*);
void __wrap__ZN2mc13MarkovMonitor7MeasureEv(mc::MarkovMonitor* m)
{
    MEASURES++;
    if (SHADOW && ENV) {
        // thermalisation first, then Sweep updates from one measurement to the next
        long long done = std::max(HOPS, (long long)ENV->Para.Counter - COUNTER0);
        double need = ENV->Para.Sweep * (MEASURES == 1 ? (double)ENV->Para.Toss : 1.);
        if (done - DONE_AT_MEASURE < need) EV("early-measurement", (int)(done - DONE_AT_MEASURE), need);
        DONE_AT_MEASURE = done;
        shadowMeasure(ENV);
    }
    if (ENV) {
        unsigned long long h = PATH_HASH;
        h = (h ^ (unsigned)(ENV->Diag.Order * 4 + ENV->Diag.Worm.Exist * 2 + ENV->Diag.MeasureGLine)) * 1099511628211ULL;
        PATH_HASH = h;
    }
    __real__ZN2mc13MarkovMonitor7MeasureEv(m);
}

}
int RunTest() { return 0; }
int kf_sim_main(int argc, const char** argv);
// what earlier calls leave on the stack is arbitrary: seeded per run
static __attribute__((noinline)) void dirty_stack(int v)
{
    volatile char b[3 << 20];
    for (unsigned i = 0; i < sizeof(b); i++) b[i] = (char)v;
}
extern "C" int kf_run(const char* infile, int garbage)
{
    dirty_stack(garbage);
    const char* argv[] = { "simulator.exe", "-f", infile };
    try {
        return ::kf_sim_main(3, argv);
    } catch (std::exception& e) {
        ERRTEXT = e.what();
        return 1001;
    } catch (...) {
        ERRTEXT = "unknown exception";
        return 1002;
    }
}

// ----------------------------------------------------- estimator direct access
// (used by the history driver of the reweighting/estimator property)

// ------------------------------------------------------------ data-file layer
// A C++ program writing and reading data files through Dictionary.  Contents
// come in and go out as [(key, type code, value)]; the conversions to and from
// that form are written here, independent of the project's own glue.
template <typename T> struct own { };
template <> struct own<int> { static int in(PyObject* o) { return (int)PyLong_AsLong(o); } static PyObject* out(int v) { return PyLong_FromLong(v); } };
template <> struct own<unsigned> { static unsigned in(PyObject* o) { return (unsigned)PyLong_AsUnsignedLong(o); } static PyObject* out(unsigned v) { return PyLong_FromUnsignedLong(v); } };
template <> struct own<long> { static long in(PyObject* o) { return PyLong_AsLong(o); } static PyObject* out(long v) { return PyLong_FromLong(v); } };
template <> struct own<unsigned long> { static unsigned long in(PyObject* o) { return PyLong_AsUnsignedLong(o); } static PyObject* out(unsigned long v) { return PyLong_FromUnsignedLong(v); } };
template <> struct own<long long> { static long long in(PyObject* o) { return PyLong_AsLongLong(o); } static PyObject* out(long long v) { return PyLong_FromLongLong(v); } };
template <> struct own<unsigned long long> { static unsigned long long in(PyObject* o) { return PyLong_AsUnsignedLongLong(o); } static PyObject* out(unsigned long long v) { return PyLong_FromUnsignedLongLong(v); } };
template <> struct own<bool> { static bool in(PyObject* o) { return o == Py_True; } static PyObject* out(bool v) { return PyBool_FromLong(v); } };
template <> struct own<double> { static double in(PyObject* o) { return PyFloat_AsDouble(o); } static PyObject* out(double v) { return PyFloat_FromDouble(v); } };
template <> struct own<std::string> { static std::string in(PyObject* o) { return PyUnicode_AsUTF8(o); } static PyObject* out(const std::string& v) { return PyUnicode_DecodeUTF8(v.data(), v.size(), "replace"); } };
template <> struct own<Complex> {
    static Complex in(PyObject* o) { return Complex(PyComplex_RealAsDouble(o), PyComplex_ImagAsDouble(o)); }
    static PyObject* out(const Complex& v) { return PyComplex_FromDoubles(v.Re, v.Im); }
};
template <typename T> struct own<std::vector<T>> {
    static std::vector<T> in(PyObject* o)
    {
        std::vector<T> v;
        for (Py_ssize_t i = 0; i < PyList_Size(o); i++) v.push_back(own<T>::in(PyList_GetItem(o, i)));
        return v;
    }
    static PyObject* out(const std::vector<T>& v)
    {
        PyObject* l = PyList_New(0);
        for (size_t i = 0; i < v.size(); i++) {
            PyObject* e = own<T>::out(v[i]);
            PyList_Append(l, e);
            Py_DECREF(e);
        }
        return l;
    }
};
template <> struct own<Vec<int>> {
    static Vec<int> in(PyObject* o)
    {
        Vec<int> v;
        for (int i = 0; i < v.size(); i++) v[i] = own<int>::in(PyList_GetItem(o, i));
        return v;
    }
    static PyObject* out(const Vec<int>& v)
    {
        PyObject* l = PyList_New(0);
        for (int i = 0; i < v.size(); i++) {
            PyObject* e = own<int>::out(v[i]);
            PyList_Append(l, e);
            Py_DECREF(e);
        }
        return l;
    }
};
static std::vector<std::vector<char>*> IO_BUF; // array memory must outlive the file write
static Dictionary io_in(PyObject* spec);
static void io_set(Dictionary& d, const std::string& key, const std::string& c, PyObject* v)
{
#define IO_CASE(code, T) if (c == code) { d[key] = own<T>::in(v); return; }
#define IO_TYPES(X) X("i", int) X("u", unsigned) X("l", long) X("U", unsigned long) X("q", long long) X("Q", unsigned long long) \
    X("b", bool) X("d", double) X("s", std::string) X("c", Complex) X("vi", std::vector<int>) X("vl", std::vector<long>) X("vd", std::vector<double>) \
    X("vs", std::vector<std::string>) X("vc", std::vector<Complex>) X("vec", Vec<int>)
    IO_TYPES(IO_CASE)
    if (c == "R") {
        RandomFactory r;
        std::istringstream is(own<std::string>::in(v));
        is >> r;
        d[key] = r;
        return;
    }
    if (c == "D") {
        d[key] = io_in(v);
        return;
    }
    if (c == "ad" || c == "ac") { // value: (shape list, bytes)
        std::vector<unsigned> shape = own<std::vector<unsigned>>::in(PyTuple_GetItem(v, 0));
        PyObject* b = PyTuple_GetItem(v, 1);
        std::vector<char>* buf = new std::vector<char>(PyBytes_AsString(b), PyBytes_AsString(b) + PyBytes_Size(b));
        IO_BUF.push_back(buf);
        if (c == "ad") d[key] = Python::ArrayObject((double*)buf->data(), shape, (int)shape.size());
        else d[key] = Python::ArrayObject((Complex*)buf->data(), shape, (int)shape.size());
        return;
    }
    throw std::logic_error("bad code " + c);
}
static Dictionary io_in(PyObject* spec)
{
    Dictionary d;
    for (Py_ssize_t i = 0; i < PyList_Size(spec); i++) {
        PyObject* t = PyList_GetItem(spec, i);
        io_set(d, PyUnicode_AsUTF8(PyTuple_GetItem(t, 0)), PyUnicode_AsUTF8(PyTuple_GetItem(t, 1)), PyTuple_GetItem(t, 2));
    }
    return d;
}
static PyObject* io_out(const Dictionary& d, PyObject* spec);
static PyObject* io_get(const Dictionary& d, const std::string& key, const std::string& c, PyObject* sub)
{
#define IO_GET(code, T) if (c == code) return own<T>::out(d.Get<T>(key));
    IO_TYPES(IO_GET)
    IO_GET("vvd", std::vector<std::vector<double>>)
    if (c == "R") {
        RandomFactory r = d.Get<RandomFactory>(key);
        std::ostringstream os;
        os << r;
        return own<std::string>::out(os.str());
    }
    if (c == "P") { d.Get<Python::AnyObject>(key); Py_RETURN_NONE; } // a type only Python has
    if (c == "D") return io_out(d.Get<Dictionary>(key), sub);
    if (c == "ad" || c == "ac") {
        auto a = d.Get<Python::ArrayObject>(key);
        auto shape = a.Shape();
        size_t n = a.Size() * (c == "ad" ? sizeof(double) : sizeof(Complex));
        char* p = c == "ad" ? (char*)a.Data<double>() : (char*)a.Data<Complex>();
        return Py_BuildValue("(NN)", own<std::vector<unsigned>>::out(std::vector<unsigned>(shape.begin(), shape.end())), PyBytes_FromStringAndSize(p, n));
    }
    throw std::logic_error("bad code " + c);
}
static PyObject* io_out(const Dictionary& d, PyObject* spec)
{
    PyObject* r = PyList_New(0);
    for (Py_ssize_t i = 0; i < PyList_Size(spec); i++) {
        PyObject* t = PyList_GetItem(spec, i);
        PyObject* v = io_get(d, PyUnicode_AsUTF8(PyTuple_GetItem(t, 0)), PyUnicode_AsUTF8(PyTuple_GetItem(t, 1)), PyTuple_GetItem(t, 2));
        PyObject* e = Py_BuildValue("(OON)", PyTuple_GetItem(t, 0), PyTuple_GetItem(t, 1), v);
        PyList_Append(r, e);
        Py_DECREF(e);
    }
    size_t n = 0;
    for (auto& e : d) { (void)e; n++; }
    if (n != (size_t)PyList_Size(spec)) throw std::logic_error("the file holds other entries than were written");
    return r;
}
extern "C" {
void kf_io_init() { Python::ArrayInitialize(); }
// 0 done, 1 the error class callers handle (IOInvalid), 2 anything else
int kf_io_save(const char* path, int big, PyObject* spec)
{
    int r = 2;
    ERRTEXT = "";
    try {
        Dictionary d = io_in(spec);
        if (big) d.BigSave(path);
        else d.Save(path, "w");
        r = 0;
    } catch (IOInvalid& e) { ERRTEXT = e.what(); r = 1; }
    catch (std::exception& e) { ERRTEXT = e.what(); }
    for (auto b : IO_BUF) { memset(b->data(), 0x5a, b->size()); delete b; }
    IO_BUF.clear();
    return r;
}
PyObject* kf_io_load(const char* path, int big, PyObject* spec)
{
    ERRTEXT = "";
    try {
        Dictionary d;
        if (big) d.BigLoad(path);
        else d.Load(path);
        return Py_BuildValue("(iN)", 0, io_out(d, spec));
    } catch (IOInvalid& e) { ERRTEXT = e.what(); return Py_BuildValue("(is)", 1, e.what()); }
    catch (std::exception& e) { ERRTEXT = e.what(); return Py_BuildValue("(is)", 2, e.what()); }
}
}
