// Reference implementation of COLD, written from the algorithm description (Zhu et al. 2020) and
// the documented conventions of pycold.  It is the oracle of the checks and shares no code with
// /repo: observations live in a vector that is erased from, all statistics are double precision,
// the robust fit is the system GSL's, the lasso is an own coordinate descent.
//
// Every numerical decision goes through Rule::gt, which can add a relative jitter: the checks rerun
// the model with jitter to tell a disagreement about the rule from a tie that rounding decides.
#include <gsl/gsl_multifit.h>
#include <gsl/gsl_errno.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <array>
#include <vector>

namespace {
const int NB = 7;
const int DET[5] = {1, 2, 3, 4, 5};           // green, red, nir, swir1, swir2
const double TWOPI = 6.283185307179587;
const double YEAR = 365.25;
const int LAUNCH = 723742;                    // Landsat 4 launch

struct Rule {
    uint64_t s; double eps;
    double u() {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return (double)(s >> 11) / 9007199254740992.0 * 2 - 1;
    }
    bool lt(double a, double b) { return eps == 0 ? a < b : a * (1 + eps * u()) < b; }
    bool gt(double a, double b) { return eps == 0 ? a > b : a * (1 + eps * u()) > b; }
    double wiggle(double v) { return eps == 0 ? v : v * (1 + eps * u()); }
};

struct Obs { int t; std::array<double, NB> y; };
typedef std::vector<Obs> Series;

struct Fit { double c[8]; double rmse; std::vector<double> res; };

// ---- harmonic lasso -------------------------------------------------------------------------
// columns (in single precision as documented: float dates, float angular frequency)
void columns(int t, int df, double *x) {
    float w = (float)(TWOPI / YEAR), ft = (float)t;
    x[0] = ft;
    if (df >= 4) { x[1] = cosf(w * ft); x[2] = sinf(w * ft); }
    if (df >= 6) { x[3] = cosf(2 * w * ft); x[4] = sinf(2 * w * ft); }
    if (df >= 8) { x[5] = cosf(3 * w * ft); x[6] = sinf(3 * w * ft); }
}

double predict(const double *c, int df, int t) {
    float w = (float)(TWOPI / YEAR), ft = (float)t;
    double v = c[0] + c[1] * ft / 10000.0;
    if (df >= 4) v += c[2] * cosf(ft * w) + c[3] * sinf(ft * w);
    if (df >= 6) v += c[4] * cosf(ft * (2 * w)) + c[5] * sinf(ft * (2 * w));
    if (df >= 8) v += c[6] * cosf(ft * (3 * w)) + c[7] * sinf(ft * (3 * w));
    return v;
}

// jittered runs stop a little earlier or later: on an ill-conditioned design that decides the split between columns
double lasso_stop = 1e-4;
void set_lasso_stop(Rule &R) { lasso_stop = R.eps > 0 ? 1e-4 * std::pow(2.0, R.u()) : 1e-4; }

// penalty 20 on standardised columns, stopping rule 1e-4 on standardised coefficients,
// full cycles alternating with cycles over the active set
void lasso(const std::vector<std::vector<float>> &X, const std::vector<float> &Y, double lambda, double *out) {
    const double thr = lasso_stop;
    int p = X.size(), n = Y.size();
    std::vector<std::vector<double>> z(p, std::vector<double>(n));
    std::vector<double> m(p), sd(p), a(p, 0.0), g(p, 0.0);
    std::vector<int> use(p, 0);
    for (int j = 0; j < p; j++) {
        for (int i = 1; i < n; i++) if (X[j][i] != X[j][0]) { use[j] = 1; break; }
        if (!use[j]) continue;
        double s = 0;
        for (int i = 0; i < n; i++) s += X[j][i];
        m[j] = s / n;
        double v = 0;
        for (int i = 0; i < n; i++) { z[j][i] = (X[j][i] - m[j]) / std::sqrt((double)n); v += z[j][i] * z[j][i]; }
        sd[j] = std::sqrt(v);
        for (int i = 0; i < n; i++) z[j][i] /= sd[j];
    }
    double ym = 0, ys = 0;
    for (int i = 0; i < n; i++) ym += Y[i];
    ym /= n;
    std::vector<double> yy(n);
    for (int i = 0; i < n; i++) { yy[i] = (Y[i] - ym) / std::sqrt((double)n); ys += yy[i] * yy[i]; }
    ys = std::sqrt(ys);
    out[0] = ym;
    for (int j = 0; j < p; j++) out[j + 1] = 0;
    if (!(ys > 0)) return;
    for (int i = 0; i < n; i++) yy[i] /= ys;
    std::vector<std::vector<double>> C(p, std::vector<double>(p, 0.0));
    for (int j = 0; j < p; j++) if (use[j]) {
        for (int i = 0; i < n; i++) g[j] += yy[i] * z[j][i];
        for (int k = 0; k < p; k++) if (use[k]) for (int i = 0; i < n; i++) C[j][k] += z[j][i] * z[k][i];
        C[j][j] = 1.0;
    }
    double lam = lambda / ys;
    std::vector<int> order;                  // in order of entry
    std::vector<int> in(p, 0);
    auto step = [&](int k, double &dlx) {
        double old = a[k], u = g[k] + old, v = std::fabs(u) - lam;
        a[k] = v > 0 ? std::copysign(v, u) : 0.0;
        if (a[k] == old) return;
        if (!in[k]) { in[k] = 1; order.push_back(k); }
        double d = a[k] - old;
        dlx = std::max(dlx, std::fabs(d));
        for (int j = 0; j < p; j++) g[j] -= C[j][k] * d;
    };
    for (int it = 0; it < 100000; it++) {
        double dlx = 0;
        for (int k = 0; k < p; k++) if (use[k]) step(k, dlx);
        if (dlx < thr) break;
        for (int it2 = 0; it2 < 100000; it2++) {
            dlx = 0;
            std::vector<int> act = order;
            for (int k : act) step(k, dlx);
            if (dlx < thr) break;
        }
    }
    double a0 = ym;
    for (int j = 0; j < p; j++) if (use[j]) { out[j + 1] = ys * a[j] / sd[j]; a0 -= out[j + 1] * m[j]; }
    out[0] = a0;
}

Fit fit(const Series &s, int from, int to, int df, int band) {       // [from, to)
    int n = to - from;
    std::vector<std::vector<float>> X(df - 1, std::vector<float>(n));
    std::vector<float> Y(n);
    for (int i = 0; i < n; i++) {
        double x[8];
        columns(s[from + i].t, df, x);
        for (int j = 0; j < df - 1; j++) X[j][i] = (float)x[j];
        Y[i] = (float)s[from + i].y[band];
    }
    Fit f;
    double c[8];
    lasso(X, Y, 20.0, c);
    for (int k = 0; k < 8; k++) f.c[k] = k < df ? c[k] : 0.0;
    f.c[1] *= 10000.0;
    double ss = 0;
    for (int i = 0; i < n; i++) {
        double r = s[from + i].y[band] - predict(f.c, df, s[from + i].t);
        f.res.push_back(r);
        ss += r * r;
    }
    f.rmse = std::sqrt(ss / (n - df));
    return f;
}

// ---- robust screening ------------------------------------------------------------------------
// over less than a year the two frequencies coincide: the columns are dependent and the outcome is rounding noise,
// of which jittered runs draw other samples
std::vector<double> robust(Rule &R, const Series &s, int from, int to, int band, double years) {
    int n = to - from;
    bool noisy = R.eps > 0 && std::ceil(years) <= 1;
    double ulp = noisy ? 2.3e-16 * std::pow(16.0, std::fabs(R.u())) : 0;     // one to sixteen units in the last place
    double w = TWOPI / YEAR, w2 = w / (double)(int)std::ceil((float)years);
    gsl_matrix *X = gsl_matrix_alloc(n, 5), *cov = gsl_matrix_alloc(5, 5);
    gsl_vector *y = gsl_vector_alloc(n), *c = gsl_vector_alloc(5);
    for (int i = 0; i < n; i++) {
        double t = s[from + i].t;
        gsl_matrix_set(X, i, 0, 1); gsl_matrix_set(X, i, 1, cos(w * t)); gsl_matrix_set(X, i, 2, sin(w * t));
        gsl_matrix_set(X, i, 3, cos(w2 * t)); gsl_matrix_set(X, i, 4, sin(w2 * t));
        if (noisy) for (int j = 1; j < 5; j++) gsl_matrix_set(X, i, j, gsl_matrix_get(X, i, j) * (1 + ulp * R.u()));
        gsl_vector_set(y, i, s[from + i].y[band]);
    }
    gsl_multifit_robust_workspace *ws = gsl_multifit_robust_alloc(gsl_multifit_robust_bisquare, n, 5);
    gsl_multifit_robust_maxiter(5, ws);
    gsl_multifit_robust(X, y, c, cov, ws);
    std::vector<double> r(n);
    for (int i = 0; i < n; i++) {
        double p = 0;
        for (int j = 0; j < 5; j++) p += gsl_matrix_get(X, i, j) * gsl_vector_get(c, j) * (noisy ? 1 + ulp * R.u() : 1);
        r[i] = s[from + i].y[band] - p;
    }
    gsl_multifit_robust_free(ws);
    gsl_matrix_free(X); gsl_matrix_free(cov); gsl_vector_free(y); gsl_vector_free(c);
    return r;
}

bool g_degenerate;      // a robust fit on a rank-deficient design: outcome is rounding noise

std::vector<char> screen(Rule &R, const Series &s, int from, int to, const double *minr) {   // [from,to)
    double years = (double)(float)((float)(s[to - 1].t - s[from].t) / YEAR);
    if (std::ceil(years) <= 1) g_degenerate = true;
    std::vector<double> g = robust(R, s, from, to, 1, years), w = robust(R, s, from, to, 4, years);
    std::vector<char> bad(to - from, 0);
    for (int i = 0; i < to - from; i++)
        bad[i] = R.gt(std::fabs(g[i]), 4.42f * minr[1]) || R.gt(std::fabs(w[i]), 4.42f * minr[4]);
    return bad;
}

double median(std::vector<double> v) {
    std::sort(v.begin(), v.end());
    size_t n = v.size();
    return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}

double mean_angle(const std::vector<std::array<double, 5>> &v) {
    if (v.size() < 2) return 0;
    double s = 0;
    for (size_t i = 0; i + 1 < v.size(); i++) {
        double p = 0, a = 0, b = 0;
        for (int k = 0; k < 5; k++) { p += v[i][k] * v[i + 1][k]; a += v[i][k] * v[i][k]; b += v[i + 1][k] * v[i + 1][k]; }
        double c = p / (std::sqrt(a) * std::sqrt(b));
        if (c > 1) c = 1;
        if (c < -1) c = -1;
        s += std::acos(c) * 180.0 / M_PI;
    }
    return s / (v.size() - 1);
}

double angle_weight(double a) { return a < 45 ? 1.0 : a > 90 ? 0.0 : 1.0 - (a - 45) / 45.0; }

// mid-pivot Hoare quicksort: the order it gives to equal keys is part of the documented behaviour
void qsort_keys(std::vector<float> &k, std::vector<int> &idx, int l, int r) {
    int i = l, j = r;
    float pv = k[(l + r) / 2];
    while (i <= j) {
        while (k[i] < pv) i++;
        while (k[j] > pv) j--;
        if (i <= j) { std::swap(k[i], k[j]); std::swap(idx[i], idx[j]); i++; j--; }
    }
    if (l < i - 1) qsort_keys(k, idx, l, i - 1);
    if (i < r) qsort_keys(k, idx, i, r);
}
int terms(int n) { return n < 18 ? 4 : n < 24 ? 6 : 8; }
}  // namespace

extern "C" {
struct Rec { int t_start, t_end, t_break, num_obs, category, prob; double coefs[7][8], rmse[7], mag[7]; };
struct Cm { int n, start, interval; short *v, *d; double *vd; int *nd; double *nv; int nn, nmax; };
}

namespace {
void note_cm(Cm *cm, Rule &R, int date, double minmag, double angle, int *oob) {
    if (!cm || cm->n <= 0) return;
    int k = (date - cm->start) / cm->interval;
    if (date < cm->start || k >= cm->n) { (*oob)++; return; }
    double x = angle_weight(angle) * minmag * 100;
    if (cm->nn < cm->nmax) { cm->nd[cm->nn] = date; cm->nv[cm->nn++] = x; }
    double r = std::round(x);
    if (r > 32767) r = 32767;
    if (r > cm->v[k]) { cm->v[k] = (short)r; cm->d[k] = (short)(date - LAUNCH); }
    if (x > cm->vd[k]) cm->vd[k] = x;
}

struct Detector {
    Series s; Rule R; double tcg; int conse; double gap; Cm *cm;
    double minr[NB]; std::vector<Rec> out; int oob = 0; bool zero_scale = false;
    struct Test { std::vector<std::array<double, 5>> v; std::vector<double> mag; std::vector<std::array<double, NB>> raw; };

    std::array<double, NB> diff(const Fit *f, int df, int i) {
        std::array<double, NB> d;
        for (int b = 0; b < NB; b++) d[b] = s[i].y[b] - predict(f[b].c, df, s[i].t);
        return d;
    }
    static double norm2(const std::array<double, 5> &v) { double x = 0; for (double q : v) x += q * q; return x; }
    std::array<double, 5> normalise(const std::array<double, NB> &d, const double *scale) {
        std::array<double, 5> v;
        for (int k = 0; k < 5; k++) {
            double m = std::max(minr[DET[k]], scale[k]);
            if (!(m > 0)) zero_scale = true;
            v[k] = d[DET[k]] / m;
        }
        return v;
    }
    double med_band(const std::vector<std::array<double, NB>> &raw, int from, int b) {
        std::vector<double> q;
        for (size_t i = from; i < raw.size(); i++) q.push_back(raw[i][b]);
        return median(q);
    }
    void put_fit(Rec &r, const Fit *f) {
        for (int b = 0; b < NB; b++) { std::memcpy(r.coefs[b], f[b].c, sizeof f[b].c); r.rmse[b] = f[b].rmse; }
    }
    void fit_all(Fit *f, int from, int to, int df) { for (int b = 0; b < NB; b++) f[b] = fit(s, from, to, df, b); }

    void run() {
        for (int b = 0; b < NB; b++) {
            std::vector<double> d;
            for (size_t i = 1; i < s.size(); i++) d.push_back(std::fabs(s[i].y[b] - s[i - 1].y[b]));
            minr[b] = d.empty() ? 0 : median(d);
        }
        // lo..hi: zero-based half-open window of the model being initialised / extended
        int lo = 0, hi = 12, dense = 0;
        bool train = false;
        Fit f[NB];
        Test T;
        Rec cur; std::memset(&cur, 0, sizeof cur);
        int fitted_at = 0, df = 8, fit_lo = 0, fit_hi = 0, skip_n = 0;
        bool first = false;
        for (;; hi++) {
            if (hi > (int)s.size() - conse) break;
            double span = (double)(float)((float)(s[hi - 1].t - s[lo].t) / YEAR);
            if (hi - lo < 12 || span < 1.0) continue;
            if (!train) {
                int maxgap = 0;
                for (int k = lo; k + 1 < hi; k++) maxgap = std::max(maxgap, s[k + 1].t - s[k].t);
                if (maxgap > gap) { lo++; dense = lo; continue; }
                std::vector<char> bad = screen(R, s, lo, hi + conse, minr);
                int kept = 0;
                for (int k = 0; k < hi - lo; k++) kept += !bad[k];
                if (kept < 12) continue;
                Series s2(s.begin(), s.begin() + lo);
                for (int k = lo; k < (int)s.size(); k++) if (k >= hi || !bad[k - lo]) s2.push_back(s[k]);
                double span2 = (s2[lo + kept - 1].t - s2[lo].t) / YEAR;
                if (span2 < 1) continue;
                s = s2;
                hi = lo + kept;
                fit_all(f, lo, hi, 4);
                double q = 0;
                for (int k = 0; k < 5; k++) {
                    int b = DET[k];
                    double m = std::max(minr[b], f[b].rmse);
                    double v = std::fabs(f[b].c[1] * (s[hi - 1].t - s[lo].t) / m / 10000.0) +
                               std::max(std::fabs(f[b].res.front() / m), std::fabs(f[b].res.back() / m));
                    q += v * v;
                }
                if (R.gt(q, tcg)) { lo++; continue; }
                train = true;
                first = true;
                // extend backwards
                int floor_i;
                if (out.empty()) floor_i = dense;
                else {
                    floor_i = 0;
                    while (floor_i < (int)s.size() && s[floor_i].t < out.back().t_break) floor_i++;
                }
                std::vector<std::array<double, NB>> raw;
                double scale[5];
                for (int k = 0; k < 5; k++) scale[k] = f[DET[k]].rmse;
                for (int i = lo - 1; i >= floor_i; i--) {
                    int m = std::min(conse, i - floor_i + 1);
                    raw.clear();
                    std::vector<std::array<double, 5>> v;
                    double mn = 9999, first_mag = 0;
                    for (int k = 0; k < m; k++) {
                        raw.push_back(diff(f, 4, i - k));
                        v.push_back(normalise(raw.back(), scale));
                        double q2 = norm2(v.back());
                        if (k == 0) first_mag = q2;
                        mn = std::min(mn, q2);
                    }
                    double ang = mean_angle(v);
                    if (m >= conse) note_cm(cm, R, s[i + 1].t, mn, ang, &oob);
                    if (R.gt(mn, tcg) && R.lt(ang, 45)) break;
                    if (R.gt(first_mag, 30.8562)) { s.erase(s.begin() + i); hi--; }
                    lo = i;
                }
                if (out.empty() && lo - dense >= 6) {
                    Fit e[NB];
                    for (int b = 0; b < NB; b++) e[b] = fit(s, dense, lo, 4, b);
                    Rec r; std::memset(&r, 0, sizeof r);
                    r.t_start = s[dense].t; r.t_end = s[lo - 1].t; r.t_break = s[lo].t;
                    r.category = 14; r.prob = 100; r.num_obs = lo - dense;
                    for (int b = 0; b < NB; b++) r.mag[b] = -med_band(raw, 0, b);
                    put_fit(r, e);
                    out.push_back(r);
                }
            }
            // monitoring
            int n = hi - lo;
            if (skip_n == 0) skip_n = n;
            df = terms(n);
            if (first || n <= 24) {
                first = false;
                fitted_at = hi; fit_lo = lo; fit_hi = hi;
                fit_all(f, lo, hi, df);
                std::memset(&cur, 0, sizeof cur);
                cur.t_start = s[lo].t; cur.t_end = s[hi - 1].t; cur.num_obs = n; cur.category = df;
                put_fit(cur, f);
                double scale[5];
                for (int k = 0; k < 5; k++) scale[k] = f[DET[k]].rmse;
                T = Test();
                for (int k = 0; k < conse; k++) {
                    T.raw.push_back(diff(f, df, hi + k));
                    T.v.push_back(normalise(T.raw.back(), scale));
                    T.mag.push_back(norm2(T.v.back()));
                }
            } else {
                if (hi - fitted_at >= 1 && hi - fitted_at > (int)(skip_n * 0.03)) {
                    fitted_at = hi; skip_n = n; fit_lo = lo; fit_hi = hi;
                    fit_all(f, lo, hi, df);
                    put_fit(cur, f);
                    cur.num_obs = n; cur.category = df;
                }
                cur.t_end = s[hi - 1].t;
                int nr = 3 * cur.category;
                // residuals nearest in season to the observation under test
                int m = fit_hi - fit_lo, tt = s[hi + conse - 1].t;
                std::vector<float> key(m);
                std::vector<int> idx(m);
                for (int k = 0; k < m; k++) {
                    int d = s[fit_lo + k].t - tt;
                    key[k] = (float)std::fabs(std::round((float)d / YEAR) * YEAR - (float)d);
                    if (R.eps > 0) key[k] += (float)(1e-3 * R.u());
                    idx[k] = k;
                }
                qsort_keys(key, idx, 0, m - 1);
                double scale[5];
                for (int k = 0; k < 5; k++) {
                    double ss = 0;
                    for (int q = 0; q < nr; q++) { double r = f[DET[k]].res[idx[q]]; ss += r * r; }
                    scale[k] = std::sqrt(ss) / std::sqrt((double)(nr - cur.category));
                }
                T.raw.erase(T.raw.begin()); T.v.erase(T.v.begin()); T.mag.erase(T.mag.begin());
                T.raw.push_back(diff(f, df, hi + conse - 1));
                T.v.push_back(normalise(T.raw.back(), scale));
                T.mag.push_back(norm2(T.v.back()));
            }
            double ang = mean_angle(T.v), mn = 9999;
            for (double q : T.mag) mn = std::min(mn, q);
            note_cm(cm, R, s[hi].t, mn, ang, &oob);
            if (R.gt(mn, tcg) && R.lt(ang, 45)) {
                cur.t_break = s[hi].t; cur.prob = 100;
                for (int b = 0; b < NB; b++) cur.mag[b] = med_band(T.raw, 0, b);
                out.push_back(cur);
                lo = hi; train = false; skip_n = 0;
            } else if (R.gt(T.mag[0], 30.8562)) {
                s.erase(s.begin() + hi);
                hi--;
            }
        }
        int n = s.size();
        if (train) {
            int stable = conse;
            for (int k = conse - 1; k >= 0; k--) {
                std::vector<std::array<double, 5>> v(T.v.begin() + k, T.v.end());
                double ang = mean_angle(v);
                if (!R.gt(T.mag[k], tcg) || !R.lt(ang, 45)) { stable = k + 1; break; }
            }
            cur.prob = (int)((double)(conse - stable) * 100.0 / conse);
            cur.t_end = s[n - 1 - conse + stable].t;
            if (conse > stable) {
                cur.t_break = s[n - conse + stable].t;
                for (int b = 0; b < NB; b++) cur.mag[b] = med_band(T.raw, stable, b);
            }
            out.push_back(cur);
        } else {
            int from = 0;
            if (!out.empty()) while (from < n && s[from].t < out.back().t_break) from++;
            if (n - from >= 6) {
                std::vector<char> bad = screen(R, s, from, n, minr);
                Series s2(s.begin(), s.begin() + from);
                for (int k = from; k < n; k++) if (!bad[k - from]) s2.push_back(s[k]);
                s = s2;
            }
            n = s.size();
            if (n - from >= 6) {
                Rec r; std::memset(&r, 0, sizeof r);
                fit_all(f, from, n, 4);
                r.t_start = out.empty() ? s[0].t : out.back().t_break;
                r.t_end = s[n - 1].t; r.num_obs = n - from; r.category = 24;
                put_fit(r, f);
                out.push_back(r);
            }
        }
    }
};

bool in_range(const long *const *b, const long *t, int i, bool c2, long qa) {
    if (!(b[0][i] > -200 && b[0][i] < 10000)) return false;
    for (int k = 1; k < 6; k++) if (!(b[k][i] > 0 && b[k][i] < 10000)) return false;
    long v = (t[i] == 0 || c2) ? 0 : t[i] * 10 - 27320;
    return v > -9320 && v < 7070 && qa < 255;
}

Obs make_obs(const long *dates, const long *const *b, const long *t, int i, bool c2) {
    Obs o;
    o.t = (int)dates[i];
    for (int k = 0; k < 6; k++) o.y[k] = (float)b[k][i];
    o.y[6] = (c2 && t[i] == 0) ? 0.0 : (double)(t[i] * 10 - 27320);
    return o;
}

int sparse(const Series &raw_all, bool snow, bool c2, int nraw, Rec *r) {
    // raw_all: the observations the fallback may use, in date order
    std::memset(r, 0, sizeof *r);
    if (snow) {
        int n = raw_all.size();
        if (n < 12) return 0;
        for (int b = 0; b < NB; b++) {
            Series q;
            for (const Obs &o : raw_all)
                if (b < 6 ? (o.y[b] > 0 && o.y[b] < 10000) : (o.y[b] > -9320 && o.y[b] < 7070)) q.push_back(o);
            if ((int)q.size() < 12) { r->coefs[b][0] = b < 6 ? 10000 : NAN; r->rmse[b] = 0; continue; }
            Fit f = fit(q, 0, q.size(), 4, b);
            std::memcpy(r->coefs[b], f.c, sizeof f.c);
            r->rmse[b] = f.rmse;
        }
        r->t_start = raw_all.front().t; r->t_end = raw_all.back().t; r->num_obs = n; r->category = 54;
        return 1;
    }
    Series u;
    for (const Obs &o : raw_all) if (u.empty() || o.t != u.back().t) u.push_back(o);
    if (u.empty()) return 0;
    std::vector<double> g;
    for (const Obs &o : u) g.push_back(o.y[1]);
    double md = median(g);
    Series q;
    for (const Obs &o : u) if (o.y[1] < md + 400.0) q.push_back(o);
    if (q.size() < 12) return 0;
    for (int b = 0; b < NB; b++) {
        Fit f = fit(q, 0, q.size(), 4, b);
        std::memcpy(r->coefs[b], f.c, sizeof f.c);
        r->rmse[b] = f.rmse;
    }
    r->t_start = q.front().t; r->t_end = q.back().t; r->num_obs = q.size(); r->category = 44;
    return 1;
}

struct Prepared { Series s; int clear, snow; };
Prepared prepare(int n, const long *dates, const long *const *b, const long *qa, bool c2) {
    Prepared p; p.clear = p.snow = 0;
    for (int i = 0; i < n; i++) {
        if (qa[i] == 0 || qa[i] == 1) p.clear++;
        if (qa[i] == 3) p.snow++;
        if (qa[i] < 2 && in_range(b, b[6], i, c2, qa[i]))
            if (p.s.empty() || p.s.back().t != dates[i]) p.s.push_back(make_obs(dates, b, b[6], i, c2));
    }
    return p;
}
int fallback(int n, const long *dates, const long *const *b, const long *qa, bool c2, const Prepared &p, Rec *r) {
    double pct = p.snow / (p.snow + p.clear + 0.01);
    bool snow = (float)pct > 0.75;
    Series all;
    for (int i = 0; i < n; i++) {
        bool take = snow ? (qa[i] == 3 || qa[i] < 2) : in_range(b, b[6], i, c2, qa[i]);
        if (!take) continue;
        Obs o = make_obs(dates, b, b[6], i, false);
        if (c2) o.y[6] = 0;
        all.push_back(o);
    }
    return sparse(all, snow, c2, n, r);
}
}  // namespace

extern "C" {
// returns the number of records; *flags: 1 = sparse fallback, 2 = degenerate robust design, 4 = CM slot outside
int ref_cold(int n, const long *dates, const long *const *b, const long *qa, double tcg, int conse, int c2, double gap,
             int cm_n, int cm_start, int cm_interval, short *cmv, short *cmd, double *cmvd,
             int *note_d, double *note_v, int note_max, int *note_n,
             uint64_t jseed, double jeps, Rec *out, int maxrec, int *flags, int *nclear) {
    gsl_set_error_handler_off();
    *flags = 0;
    *note_n = 0;
    g_degenerate = false;
    Prepared p = prepare(n, dates, b, qa, c2);
    *nclear = p.s.size();
    if (n == 0) return 0;
    if (p.clear < 24) {
        *flags |= 1;
        Rec r;
        int k = fallback(n, dates, b, qa, c2, p, &r);
        if (k) out[0] = r;
        return k;
    }
    Cm cm = {cm_n, cm_start, cm_interval, cmv, cmd, cmvd, note_d, note_v, 0, note_max};
    Detector D;
    D.s = p.s; D.R.s = jseed * 0x9E3779B97F4A7C15ull + 0x1234567ull; D.R.eps = jeps;
    for (int i = 0; i < 8 && jeps > 0; i++) D.R.u();
    set_lasso_stop(D.R);
    D.tcg = (float)tcg; D.conse = conse; D.gap = gap; D.cm = cm_n > 0 ? &cm : nullptr;
    D.run();
    *note_n = cm.nn;
    if (g_degenerate) *flags |= 2;
    if (D.oob) *flags |= 4;
    if (D.zero_scale) *flags |= 8;
    int k = std::min((int)D.out.size(), maxrec);
    for (int i = 0; i < k; i++) out[i] = D.out[i];
    return D.out.size();
}

int ref_fit(int n, const int *t, const double *y, int df, double *c, double *rmse, double *res) {
    Series s(n);
    for (int i = 0; i < n; i++) { s[i].t = t[i]; s[i].y[0] = y[i]; }
    Fit f = fit(s, 0, n, df, 0);
    std::memcpy(c, f.c, sizeof f.c);
    *rmse = f.rmse;
    for (int i = 0; i < n; i++) res[i] = f.res[i];
    return 0;
}
double ref_predict(const double *c, int t) { return predict(c, 8, t); }

// reconstruction from given break dates
int ref_obcold(int n, const long *dates, const long *const *b, const long *qa, const long *brk, int nbrk, int conse,
               int c2, uint64_t jseed, double jeps, Rec *out, int maxrec, int *flags, int *nclear) {
    gsl_set_error_handler_off();
    *flags = 0;
    g_degenerate = false;
    if (n == 0) return 0;
    Rule R; R.s = jseed * 0x9E3779B97F4A7C15ull + 0x7654321ull; R.eps = jeps;
    for (int i = 0; i < 8 && jeps > 0; i++) R.u();
    set_lasso_stop(R);
    Prepared p = prepare(n, dates, b, qa, c2);
    *nclear = p.s.size();
    std::vector<Rec> rec;
    auto use_fallback = [&]() {
        *flags |= 1;
        Rec r;
        if (fallback(n, dates, b, qa, c2, p, &r)) rec.push_back(r);
    };
    if (p.clear < 24) use_fallback();
    else {
        Series s = p.s;
        double minr[NB];
        for (int k = 0; k < NB; k++) {
            std::vector<double> d;
            for (size_t i = 1; i < s.size(); i++) d.push_back(std::fabs(s[i].y[k] - s[i - 1].y[k]));
            minr[k] = d.empty() ? 0 : median(d);
        }
        std::vector<long> bl(brk, brk + nbrk), use;
        std::sort(bl.begin(), bl.end());
        long last = 0;
        for (long q : bl) if (q > 0 && q - last >= YEAR) { use.push_back(q); last = q; }
        auto locate = [&](const Series &v, long d) {
            int best = 0; long bd = 1L << 60;
            for (int i = 0; i < (int)v.size(); i++) { long x = std::labs(v[i].t - d); if (x < bd) { bd = x; best = i; } }
            return best;
        };
        int lo = 0;
        for (size_t j = 0; j <= use.size(); j++) {
            bool lastseg = j == use.size();
            int hi = lastseg ? (int)s.size() : locate(s, use[j]);
            if (hi - lo < 6) continue;
            if (hi - lo >= 12 && !lastseg) {
                double years = (double)(float)((float)(s[hi - 1].t - s[lo].t + 1) / YEAR);
                if (std::ceil(years) <= 1) g_degenerate = true;
                std::vector<double> g = robust(R, s, lo, hi, 1, years), w = robust(R, s, lo, hi, 4, years);
                Series kept;
                for (int i = lo; i < hi; i++)
                    if (!(R.gt(std::fabs(g[i - lo]), 4.42f * minr[1]) || R.gt(std::fabs(w[i - lo]), 4.42f * minr[4])))
                        kept.push_back(s[i]);
                int m = kept.size();
                if (m < 6) continue;
                int df = terms(m);
                Fit f[NB];
                for (int k : DET) f[k] = fit(kept, 0, m, df, k);
                Series kept2;
                for (int i = 0; i < m; i++) {
                    double q = 0;
                    for (int k : DET) { double v = f[k].res[i] / std::max(minr[k], f[k].rmse); q += v * v; }
                    if (!R.gt(q, 15.0863)) kept2.push_back(kept[i]);
                }
                if (kept2.size() < 6) continue;
                Series s2(s.begin(), s.begin() + lo);
                s2.insert(s2.end(), kept2.begin(), kept2.end());
                s2.insert(s2.end(), s.begin() + hi, s.end());
                s = s2;
            }
            hi = lastseg ? (int)s.size() : locate(s, use[j]);
            int df = terms(hi - lo);
            Rec r; std::memset(&r, 0, sizeof r);
            Fit f[NB];
            for (int k = 0; k < NB; k++) f[k] = fit(s, lo, hi, df, k);
            r.t_start = s[lo].t; r.t_end = s[hi - 1].t; r.num_obs = hi - lo; r.category = df;
            for (int k = 0; k < NB; k++) { std::memcpy(r.coefs[k], f[k].c, sizeof f[k].c); r.rmse[k] = f[k].rmse; }
            if (!lastseg) {
                int m = std::min(conse, (int)s.size() - hi);
                for (int k = 0; k < NB; k++) {
                    std::vector<double> d;
                    for (int i = 0; i < m; i++) d.push_back(s[hi + i].y[k] - predict(f[k].c, df, s[hi + i].t));
                    r.mag[k] = median(d);
                }
                r.t_break = s[hi].t; r.prob = 100;
                lo = hi;
            }
            rec.push_back(r);
        }
        if (rec.empty()) use_fallback();
    }
    if (!rec.empty()) {
        rec.back().prob = 0; rec.back().t_break = 0;
        for (int k = 0; k < NB; k++) rec.back().mag[k] = 0;
    }
    if (g_degenerate) *flags |= 2;
    int k = std::min((int)rec.size(), maxrec);
    for (int i = 0; i < k; i++) out[i] = rec[i];
    return rec.size();
}
}
