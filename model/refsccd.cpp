// Reference implementation of S-CCD (Ye et al. 2021), written from the algorithm description and the
// documented state (monitoring / queue modes).  One call maps (state, batch of observations) to the
// next state, so every update can be checked on its own.  Shares only the harmonic lasso, the robust
// screening and the median with refcold.cpp; the Kalman filter is a plain double-precision one.
#include "refcold.cpp"

namespace {
const int SB = 6, MAXQ = 240, SLOTS = 8;
typedef std::array<double, SB> Six;
struct Mat6 { double a[6][6]; };

struct Kalman {                              // local linear trend + two harmonics, one day per step
    double H = 0; Mat6 P; double T[6][6];
    static Rule *noise;                      // jittered runs disturb the single-precision coefficients
    Kalman() {
        std::memset(&P, 0, sizeof P);
        std::memset(T, 0, sizeof T);
        T[0][0] = T[0][1] = T[1][1] = 1;
        for (int h = 1; h <= 2; h++) {
            double w = TWOPI / YEAR * h;
            int i = 2 * h;
            T[i][i] = T[i + 1][i + 1] = std::cos(w); T[i][i + 1] = std::sin(w); T[i + 1][i] = -std::sin(w);
        }
    }
    void drift() {                           // one day without an observation
        Mat6 m, r;
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
            m.a[i][j] = 0;
            for (int k = 0; k < 6; k++) m.a[i][j] += T[i][k] * P.a[k][j];
        }
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
            r.a[i][j] = i == j ? (i == 1 ? 0.1 / 1e6 : 0.1) : 0;
            for (int k = 0; k < 6; k++) r.a[i][j] += m.a[i][k] * T[j][k];
        }
        P = r;
    }
    static void to_state(const double *c, int t, double *a) {
        double w = TWOPI / YEAR;
        a[0] = c[0] + t * c[1] / 10000.0; a[1] = c[1] / 10000.0;
        for (int h = 1; h <= 2; h++) {
            double x = std::cos(w * h * t), y = std::sin(w * h * t);
            a[2 * h] = c[2 * h] * x + c[2 * h + 1] * y;
            a[2 * h + 1] = -c[2 * h] * y + c[2 * h + 1] * x;
        }
    }
    static void to_coefs(const double *a, int t, double *c) {
        const double ulp = 2e-7;
        double w = TWOPI / YEAR;
        c[0] = a[0] - a[1] * t; c[1] = a[1] * 10000.0;
        for (int h = 1; h <= 2; h++) {
            double x = std::cos(w * h * t), y = std::sin(w * h * t);
            c[2 * h] = x * a[2 * h] - y * a[2 * h + 1];
            c[2 * h + 1] = x * a[2 * h + 1] + y * a[2 * h];
        }
        for (int k = 0; k < 6; k++) c[k] = (float)c[k] * (noise ? 1 + ulp * (2 * noise->u() - 1) : 1);
    }
    // absorb observation y of day t, then drift to day next; returns false when there is no day in between
    bool absorb(double *c, int t, int next, double y, double &v) {
        if (next <= t) return false;
        double a[6], k[6], z[6] = {1, 0, 1, 0, 1, 0}, F = H, yy = 0;
        to_state(c, t, a);
        for (int i = 0; i < 6; i++) { k[i] = 0; for (int j = 0; j < 6; j++) k[i] += P.a[i][j] * z[j]; }
        for (int i = 0; i < 6; i++) { F += z[i] * k[i]; yy += z[i] * a[i]; }
        v = y - yy;
        if (F > 1e-14) {
            for (int i = 0; i < 6; i++) a[i] += v / F * k[i];
            for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) P.a[i][j] -= k[i] * k[j] / F;
        }
        double b[6];
        for (int i = 0; i < 6; i++) { b[i] = 0; for (int j = 0; j < 6; j++) b[i] += T[i][j] * a[j]; }
        to_coefs(b, t + 1, c);
        for (int d = t; d < next; d++) drift();
        return true;
    }
};
Rule *Kalman::noise = nullptr;
}  // namespace

extern "C" {
struct SRec { int t_start, t_break, num_obs; double coefs[6][6], rmse[6], mag[6]; };
struct SPin { int t_break; double coefs[6][6]; int obs[6][8], date[8]; double norm_cm[8], angle[8]; };
struct SModel { int t_start, num_obs, obs[6][8], date[8], conse_last; double cov[6][36], coefs[6][6], H[6], sum[6], norm_cm, angle; };
struct SState { int mode, nrec, nq, npin, has_model; SModel m; int qd[240], q[6][240], min_rmse[6]; };
}

namespace {
struct Scan {
    Series s; Rule R; double tcg, gate, pred; int conse; bool pinpoint;
    SState *st; SRec *rec; SPin *pin; int maxrec;
    bool zero_scale = false;
    Kalman kf[SB];
    double cft[SB][8], sum[SB];
    int processed = 0, t_start = 0;

    double minr(int b) { return st->min_rmse[b]; }
    // the running model is evaluated in double precision, the lasso fit of the initialisation in single
    double value(const double *c, int t, bool fit) {
        if (fit) return predict(c, 6, t);
        double w = TWOPI / YEAR, x = t;
        return (float)(c[0] + c[1] * x / 10000.0 + c[2] * cos(x * w) + c[3] * sin(x * w) + c[4] * cos(x * (2 * w)) + c[5] * sin(x * (2 * w)));
    }

    struct Win { std::vector<std::array<double, 5>> v; std::vector<double> mag; std::vector<Six> raw; };
    Win window(const double (*c)[8], const double *scale, int from, int step, int m, bool fit) {
        Win w;
        for (int k = 0; k < m; k++) {
            const Obs &o = s[from + step * k];
            Six d; std::array<double, 5> v; double q = 0;
            for (int b = 0; b < SB; b++) d[b] = o.y[b] - value(c[b], o.t, fit);
            for (int j = 0; j < 5; j++) {
                double mx = std::max(minr(DET[j]), scale[DET[j]]);
                if (!(mx > 0)) zero_scale = true;
                v[j] = d[DET[j]] / mx;
                q += v[j] * v[j];
            }
            w.raw.push_back(d); w.v.push_back(v); w.mag.push_back(q);
        }
        return w;
    }
    static double angle_of(const Win &w, int m) {
        return mean_angle(std::vector<std::array<double, 5>>(w.v.begin(), w.v.begin() + m));
    }
    static double med6(const std::vector<Six> &r, int b) {
        std::vector<double> q;
        for (const Six &x : r) q.push_back(x[b]);
        return median(q);
    }

    enum { AGAIN, READY };
    int i = 0, i_start = 0, i_dense = 0, prev_break = 0;

    int initialise() {
        int gap = 0;
        for (int k = i_start; k < i; k++) gap = std::max(gap, s[k + 1].t - s[k].t);
        if (gap > YEAR) { i_start++; i_dense++; return AGAIN; }
        double mr[NB];
        for (int b = 0; b < SB; b++) mr[b] = minr(b);
        int end = std::min(i + conse, (int)s.size());
        std::vector<char> bad = screen(R, s, i_start, end, mr);
        int kept = 0;
        for (int k = 0; k <= i - i_start; k++) kept += !bad[k];
        if (kept < 18) return AGAIN;
        Series s2(s.begin(), s.begin() + i_start);
        for (int k = i_start; k < (int)s.size(); k++) if (k > i || !bad[k - i_start]) s2.push_back(s[k]);
        int last = i_start + kept - 1;
        if ((s2[last].t - s2[i_start].t) / YEAR < 1) return AGAIN;
        s = s2;
        i = last;
        double c4[SB][8], rm[SB], q = 0;
        for (int b = 0; b < SB; b++) {
            Fit f = fit(s, i_start, i + 1, 4, b);
            std::memcpy(c4[b], f.c, sizeof f.c);
            rm[b] = f.rmse;
            if (b == 0) continue;
            double m = std::max(minr(b), f.rmse);
            if (!(m > 0)) zero_scale = true;
            double v = std::fabs(f.c[1] * (s[i].t - s[i_start].t) / m / 10000.0) +
                       std::max(std::fabs(f.res.front() / m), std::fabs(f.res.back() / m));
            q += v * v;
        }
        if (R.gt(q, tcg)) { i_start++; return AGAIN; }
        if (st->nrec == 0) prev_break = i_dense;
        for (int k = i_start - 1; k >= prev_break; k--) {
            int m = std::min(conse, k - prev_break + 1);
            Win w = window(c4, rm, k, -1, m, true);
            double mn = 9999;
            for (double x : w.mag) mn = std::min(mn, x);
            if (R.gt(mn, tcg) && R.lt(angle_of(w, m), 45)) break;
            if (R.gt(w.mag[0], 30.8562)) { s.erase(s.begin() + k); i--; }
            i_start = k;
        }
        if (st->nrec == 0 && i_start - i_dense >= 6) {
            SRec r; std::memset(&r, 0, sizeof r);
            r.t_start = s[0].t; r.t_break = s[i_start].t; r.num_obs = i_start - prev_break;
            int m = std::min(conse, i_start - i_dense);
            Win w = window(c4, rm, i_start - 1, -1, m, true);
            for (int b = 0; b < SB; b++) {
                Fit f = fit(s, i_dense, i_start + 1, 4, b);
                for (int k = 0; k < 6; k++) r.coefs[b][k] = f.c[k];
                r.rmse[b] = f.rmse;
                r.mag[b] = -med6(w.raw, b);
            }
            if (st->nrec < maxrec) rec[st->nrec] = r;
            st->nrec++;
            prev_break = i_start;
        }
        return READY;
    }

    void start_filter(int b, int from, int to, double h) {      // [from, to]
        Kalman &k = kf[b];
        if (R.eps > 0) {                     // jittered runs: as if the lasso had stopped a little earlier or later
            double w = TWOPI / YEAR, shift = 0;
            for (int c = 1; c < 6; c++) {
                double d = cft[b][c] * 5e-3 * (2 * R.u() - 1), m = 0;
                for (int j = from; j <= to; j++) {
                    double x = w * (c / 2) * s[j].t;
                    m += c == 1 ? s[j].t / 10000.0 : c % 2 ? std::sin(x) : std::cos(x);
                }
                cft[b][c] += d;
                shift += d * m / (to - from + 1);
            }
            cft[b][0] -= shift;
        }
        k.H = (float)h;
        std::memset(&k.P, 0, sizeof k.P);
        for (int j = 0; j < 6; j++) k.P.a[j][j] = j == 1 ? 1e4 / 1e6 : 1e4;
        int years = (int)std::ceil((s[to].t - s[from].t + 1) / YEAR), n = to - from + 1;
        std::vector<int> t;
        std::vector<double> y;
        for (int j = 0; j < n; j++) { t.push_back((int)(s[from + j].t - years * YEAR)); y.push_back(s[from + j].y[b]); }
        for (int j = 0; j <= n; j++) {
            int p = std::min(from + j, (int)s.size() - 1);
            t.push_back(s[p].t); y.push_back(s[p].y[b]);
        }
        sum[b] = 0;
        double v = 0;
        for (int j = 0; j < 2 * n; j++) {
            k.absorb(cft[b], t[j], t[j + 1], y[j], v);
            if (j >= n) sum[b] = std::min(4294967295.0, sum[b] + std::floor(v * v));
        }
    }

    void put_slots(int from) {
        for (int k = 0; k < SLOTS; k++) {
            bool in = k < conse;
            st->m.date[k] = in ? s[from + k].t - LAUNCH : 0;
            for (int b = 0; b < SB; b++) st->m.obs[b][k] = in ? (int)s[from + k].y[b] : 0;
        }
    }
    void put_model() {
        for (int b = 0; b < SB; b++) {
            for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) st->m.cov[b][x * 6 + y] = kf[b].P.a[x][y];
            for (int k = 0; k < 6; k++) st->m.coefs[b][k] = cft[b][k];
            st->m.H[b] = kf[b].H;
            st->m.sum[b] = sum[b];
        }
        st->m.t_start = t_start - LAUNCH;
        st->m.num_obs = processed;
        st->has_model = 1;
    }

    std::vector<double> year_best;
    int year_of(int t) { return (int)std::max((t - 723546) / YEAR, 0.0); }

    void run() {
        int mode = st->mode;
        bool train = mode % 10 == 1, detected = false;
        std::memset(cft, 0, sizeof cft);
        std::memset(sum, 0, sizeof sum);
        if (train) {
            for (int b = 0; b < SB; b++) {
                for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) kf[b].P.a[x][y] = st->m.cov[b][x * 6 + y];
                for (int k = 0; k < 6; k++) cft[b][k] = st->m.coefs[b][k];
                kf[b].H = st->m.H[b];
                sum[b] = st->m.sum[b];
            }
            t_start = st->m.t_start + LAUNCH;
            processed = st->m.num_obs;
        } else t_start = s[0].t;
        if (pinpoint) year_best.assign(year_of(s.back().t) + 2, 0.0);
        while (i + conse <= (int)s.size() - 1) {
            if (!train) {
                double span = (s[i].t - s[i_start].t) / YEAR;
                if (i - i_start + 1 < 18 || span < 1 || initialise() == AGAIN) { i++; continue; }
                for (int b = 0; b < SB; b++) {
                    Fit f = fit(s, i_start, i + 1, 6, b);
                    for (int k = 0; k < 8; k++) cft[b][k] = (float)f.c[k];
                    start_filter(b, i_start, i, f.rmse * f.rmse);
                }
                processed = i - i_start + 1;
                t_start = s[i_start].t;
                train = true;
                i++;
                continue;
            }
            double scale[SB];
            for (int b = 0; b < SB; b++) scale[b] = std::sqrt(sum[b] / (processed - 6));
            Win w = window(cft, scale, i, 1, conse, false);
            double mn = 9999;
            bool broke = true;
            int reach = 0;
            for (; reach < conse; reach++) {
                mn = std::min(mn, w.mag[reach]);
                if (pinpoint ? (reach < 3 && R.lt(mn, gate)) : R.lt(mn, tcg)) { broke = false; break; }
            }
            if (pinpoint && reach >= 3) {
                double &best = year_best[year_of(s[i].t)];
                int at = best == 0 ? st->npin : st->npin - 1;
                if (R.gt(mn, best)) {
                    SPin p; std::memset(&p, 0, sizeof p);
                    p.t_break = s[i].t;
                    double m2 = 999999;
                    for (int k = 0; k < conse; k++) {
                        m2 = std::min(m2, w.mag[k] * 100);
                        p.norm_cm[k] = m2;
                        p.angle[k] = angle_of(w, k + 1) * 100;
                    }
                    for (int k = 0; k < SLOTS; k++) if (i + k < (int)s.size()) {
                        p.date[k] = s[i + k].t - LAUNCH;
                        for (int b = 0; b < SB; b++) p.obs[b][k] = (int)s[i + k].y[b];
                    }
                    for (int b = 0; b < SB; b++) for (int k = 0; k < 6; k++) p.coefs[b][k] = cft[b][k];
                    if (at < maxrec) pin[at] = p;
                    if (best == 0) st->npin++;
                    best = mn;
                }
            }
            if (broke && R.lt(mn, tcg)) broke = false;
            double ang = 0;
            if (broke) {
                ang = angle_of(w, conse);
                if (R.gt(ang, 45)) broke = false;
            }
            if (broke) {
                SRec r; std::memset(&r, 0, sizeof r);
                r.t_start = t_start; r.t_break = s[i].t; r.num_obs = processed;
                for (int b = 0; b < SB; b++) {
                    r.rmse[b] = scale[b];
                    r.mag[b] = med6(w.raw, b);
                    for (int k = 0; k < 6; k++) r.coefs[b][k] = cft[b][k];
                }
                if (st->nrec < maxrec) rec[st->nrec] = r;
                st->nrec++;
                i_start = prev_break = i;
                train = false;
                put_model();
                put_slots(i);
                st->m.norm_cm = mn * 100; st->m.angle = ang * 100; st->m.conse_last = conse;
                if (mode != 0) detected = true;
                i++;
            } else if (R.gt(w.mag[0], 25.7448)) {
                for (int b = 0; b < SB; b++) for (int d = s[i].t; d < s[i + 1].t; d++) kf[b].drift();
                s.erase(s.begin() + i);
            } else {
                for (int b = 0; b < SB; b++) {
                    double v = 0;
                    kf[b].absorb(cft[b], s[i].t, s[i + 1].t, s[i].y[b], v);
                    sum[b] = std::min(4294967295.0, std::floor(sum[b] + v * v));
                }
                processed++;
                i++;
            }
        }
        int n = s.size(), next = mode;
        if (mode == 0) next = train ? 1 : 12;
        else if (detected) next = mode / 10 == 1 ? 12 : 5;
        else if (mode % 10 == 2) { if (train) next = 1; }
        else if (mode == 5) {
            if (s[std::max(n - conse, 0)].t - (st->m.date[0] + LAUNCH) < 15) prev_break = 0;
            else next = 12;
        }
        st->nq = 0;
        if (next % 10 == 1) {
            put_model();
            put_slots(i);
            double scale[SB];
            int df = processed < 18 ? 4 : 6;
            for (int b = 0; b < SB; b++) scale[b] = std::sqrt(sum[b] / (processed - df));
            Win w = window(cft, scale, n - 1, -1, conse, false);
            st->m.norm_cm = st->m.angle = -9999; st->m.conse_last = 0;
            if (next / 10 == 1 && conse > 1) {
                int ok = 0;
                for (double q : w.mag) ok += R.lt(q, pred);
                if ((double)ok / conse > 0.5) next -= 10;
            }
            int m = 0;
            while (m < conse && R.gt(w.mag[m], gate)) m++;
            if (m > 0) {
                double mn = 999999;
                for (int k = 0; k < m; k++) mn = std::min(mn, w.mag[k] * 100);
                st->m.norm_cm = mn; st->m.angle = angle_of(w, m) * 100; st->m.conse_last = m;
            }
        } else {
            if (next != 5) st->has_model = 0;
            int from = prev_break;
            if (n - from > MAXQ) from = n - MAXQ;
            for (int k = from; k < n; k++) put_queue(k);
        }
        st->mode = next;
    }
    void put_queue(int k) {
        st->qd[st->nq] = s[k].t - LAUNCH;
        for (int b = 0; b < SB; b++) st->q[b][st->nq] = (int)s[k].y[b];
        st->nq++;
    }
    // permanent snow: a running filter, no change detection
    void run_snow() {
        int n = s.size();
        if (st->mode != 3) {
            if (n < 18) {
                st->mode = 4;
                st->nq = 0;
                for (int k = 0; k < n; k++) put_queue(k);
                return;
            }
            for (int b = 0; b < SB; b++) {
                Fit f = fit(s, 0, n, 4, b);
                for (int k = 0; k < 8; k++) cft[b][k] = (float)f.c[k];
                start_filter(b, 0, n - 1, f.rmse);
            }
            st->m.t_start = s[0].t - LAUNCH;
            st->m.num_obs = n;
        } else {
            for (int b = 0; b < SB; b++) {
                for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) kf[b].P.a[x][y] = st->m.cov[b][x * 6 + y];
                for (int k = 0; k < 6; k++) cft[b][k] = st->m.coefs[b][k];
                kf[b].H = st->m.H[b];
                sum[b] = st->m.sum[b];
                for (int k = 0; k < n - SLOTS; k++) {
                    double v = 0;
                    kf[b].absorb(cft[b], s[k].t, s[k + 1].t, s[k].y[b], v);
                    sum[b] = std::min(4294967295.0, sum[b] + std::floor(v * v));
                }
            }
            st->m.num_obs += n - SLOTS;
        }
        int ts = st->m.t_start, no = st->m.num_obs;
        put_model();
        st->m.t_start = ts; st->m.num_obs = no;
        int keep = conse;
        conse = SLOTS;
        put_slots(n - SLOTS);
        conse = keep;
        st->m.norm_cm = st->m.angle = -9999; st->m.conse_last = 0;
        st->mode = 3;
        st->nq = 0;
    }
};
}  // namespace

extern "C" {
// rec/pin: buffers; rec holds st->nrec records on entry (untouched).  flags: 2 degenerate design, 8 zero scale
// returns 0, or -1 when the state cannot serve this conse
int ref_sccd(int n, const long *dates, const long *const *b, const long *qa, double tcg, double gate, double pred,
             int conse, int c2, int pinpoint, uint64_t jseed, double jeps, SState *st, SRec *rec, SPin *pin, int maxrec,
             int *flags) {
    gsl_set_error_handler_off();
    *flags = 0;
    g_degenerate = false;
    Scan S;
    S.R.s = jseed * 0x9E3779B97F4A7C15ull + 0x1234567ull; S.R.eps = jeps;
    for (int k = 0; k < 8 && jeps > 0; k++) S.R.u();
    set_lasso_stop(S.R);
    Kalman::noise = jeps > 0 ? &S.R : nullptr;
    S.tcg = (float)tcg; S.gate = gate; S.pred = pred; S.conse = conse; S.pinpoint = pinpoint;
    S.st = st; S.rec = rec; S.pin = pin; S.maxrec = maxrec;
    st->npin = 0;
    int mode = st->mode;
    int clear = 0, snow = 0;
    for (int i = 0; i < n; i++) { clear += qa[i] == 0 || qa[i] == 1; snow += qa[i] == 3; }
    bool is_snow = mode == 0 ? !(snow / (snow + clear + 0.01) < 0.75) : (mode == 3 || mode == 4);
    auto stored = [&](int date, const int *y0, int stride) {
        Obs o; o.t = date + LAUNCH; o.y[6] = 0;
        for (int k = 0; k < SB; k++) o.y[k] = y0[k * stride];
        S.s.push_back(o);
    };
    if (mode == 4 || mode == 2 || mode == 12 || mode == 5) {
        for (int k = 0; k < st->nq; k++) stored(st->qd[k], &st->q[0][k], 240);
    } else if (mode == 3 || mode % 10 == 1) {
        for (int k = 0; k < SLOTS && (k == 0 || st->m.date[k] != 0); k++) stored(st->m.date[k], &st->m.obs[0][k], 8);
        if ((int)S.s.size() < conse) return -1;
    }
    size_t old = S.s.size();
    for (int i = 0; i < n; i++) {
        if (is_snow ? !(qa[i] == 3 || qa[i] < 2) : !(qa[i] < 2 && in_range(b, b[6], i, c2, qa[i]))) continue;
        if (!S.s.empty() && dates[i] <= S.s.back().t) continue;
        Obs o; o.t = (int)dates[i]; o.y[6] = 0;
        for (int k = 0; k < SB; k++) o.y[k] = (float)b[k][i];
        S.s.push_back(o);
    }
    if (is_snow) S.run_snow();
    else if (S.s.size() > old) {
        if (mode == 0 && st->nrec == 0)
            for (int k = 0; k < SB; k++) {
                std::vector<double> d;
                for (size_t i = 1; i < S.s.size(); i++) d.push_back(std::fabs(S.s[i].y[k] - S.s[i - 1].y[k]));
                st->min_rmse[k] = d.empty() ? (int)S.s[0].y[k] : (int)median(d);
            }
        S.run();
    }
    if (g_degenerate) *flags |= 2;
    if (S.zero_scale) *flags |= 8;
    return 0;
}
}
