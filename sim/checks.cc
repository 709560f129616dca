// Workloads, oracles, search, minimisation and replay for the properties C01..C14 (see DESIGN.md).
#include "sim.h"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cmath>
#include <functional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

extern "C" const int cfg_maxv, cfg_hybrid;
extern "C" const char cfg_name[];
#define MAXV cfg_maxv
#define HYB cfg_hybrid
#define CONFIG cfg_name
using std::string;
using std::vector;
using std::pair;

static const double EPS_UB = std::sqrt((double) MAXV) * 1.27 / 1000.0;
static const i64 LIMIT = 600000000;
extern i64 total_runs;

// ================================================================ the report
struct Report {
    bool header = false, cycle = false, complete = false, interrupted = false;
    double elapsed = -1, cost = 0, prob = 0, reach = 0;
    string cost_text;
    unsigned gen = 0, expl = 0, level = 0, node = 0, node_level = 0;
    bool tree = false, sub = false, bounds = false;
    string type, mst;
    double ghosh = -1, sub_ub = -1;
    int fixed = -1, mandatory = -1, forbidden = -1, headers = 0;
    int cand = -1, count = -1;
    vector<pair<int, int>> edges;
    vector<double> upd, upd_time;
    vector<string> upd_text;
    vector<i64> upd_pos;           // offset of the improvement line in the file
    string cycle_text;
};
static Report parse_report(const string &s) {
    Report r;
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        bool whole = e != string::npos;
        string l = s.substr(p, whole ? e - p : string::npos);
        size_t at = p;
        p = whole ? e + 1 : s.size();
        double a, b; char f[16]; int c; unsigned g, x, lv;
        const char *t;
        if (sscanf(l.c_str(), "Updated best value: %lf, at time: %lf", &a, &b) == 2 && whole) {
            r.upd.push_back(a); r.upd_time.push_back(b); r.upd_pos.push_back(at);
            size_t q = l.find(": ") + 2;
            r.upd_text.push_back(l.substr(q, l.find(',', q) - q));
        } else if ((t = strstr(l.c_str(), "Optimal tour found"))) {
            r.headers++;
            r.header = sscanf(t, "Optimal tour found with candidate node = %d, elapsed time = %lfs and interrupted = %15s", &c, &a, f) == 3;
            if (r.header) { r.cand = c; r.elapsed = a; r.interrupted = !strcmp(f, "TRUE"); }
        } else if (sscanf(l.c_str(), "B-&-B tree with generated BBNodes = %u,  explored BBNodes = %u and max tree level = %u", &g, &x, &lv) == 3) {
            r.gen = g; r.expl = x; r.level = lv; r.tree = true;
        } else if (sscanf(l.c_str(), "MST solved with: %15s", f) == 1) { r.mst = f;
        } else if (sscanf(l.c_str(), "GHOSH_UB = %lf, SUBPROBLEM_UB = %lf", &a, &b) == 2) { r.bounds = true; r.ghosh = a; r.sub_ub = b;
        } else if (sscanf(l.c_str(), "Number of fixed edges = %d", &c) == 1) { r.fixed = c;
        } else if (l.find(" Mandatory edges:") != string::npos) { r.mandatory = atoi(l.c_str());
        } else if (l.compare(0, 10, "SUBPROBLEM") == 0) {
            const char *q = strstr(l.c_str(), "cost = ");
            if (q) { r.cost = atof(q + 7); r.cost_text = string(q + 7, strcspn(q + 7, ",")); }
            if ((q = strstr(l.c_str(), "prob_tour = "))) r.prob = atof(q + 12);
            if ((q = strstr(l.c_str(), "time to obtain = "))) r.reach = atof(q + 17);
            if ((q = strstr(l.c_str(), "type = "))) r.type = string(q + 7, strcspn(q + 7, ","));
            const char *q2 = strstr(l.c_str(), "level of the BB tree = "), *q3 = strstr(l.c_str(), "BBNode number = ");
            if (q2 && q3) { r.sub = true; r.node_level = (unsigned) atol(q2 + 23); r.node = (unsigned) strtoul(q3 + 16, nullptr, 10); }
        } else if (sscanf(l.c_str(), "Cycle with %d edges:", &c) == 1) {
            r.cycle = true; r.count = c; r.cycle_text = l;
            size_t q = l.find(':') + 1;
            int u, v, n;
            while (q < l.size() && sscanf(l.c_str() + q, " %d <-> %d%n", &u, &v, &n) == 2) {
                r.edges.push_back({u, v});
                q += n;
                while (q < l.size() && (l[q] == ',' || l[q] == ' ')) q++;
            }
        } else if (l.find("Forbidden edges:") != string::npos && whole) { r.forbidden = atoi(l.c_str()); r.complete = r.header && r.cycle; }
    }
    return r;
}
// the report with the measured times left out
static string normal(const string &s) {
    string o;
    size_t i = 0;
    static const char *keys[] = {"elapsed time = ", "at time: ", "time to obtain = "};
    while (i < s.size()) {
        bool hit = false;
        for (auto k : keys) {
            size_t n = strlen(k);
            if (s.compare(i, n, k) == 0) {
                o += k; o += '#'; i += n;
                while (i < s.size() && strchr("0123456789.+-einfa", s[i])) i++;
                hit = true; break;
            }
        }
        if (!hit) o += s[i++];
    }
    return o;
}
static bool holds_tour(const string &s) { return s.find("Cycle with") != string::npos || s.find("Optimal tour found") != string::npos; }

// ================================================================ the input file: a strict second reader
struct Matrix {
    enum { WELL, BROKEN, GRAY } cls = GRAY;
    string why;
    int n = 0;
    vector<double> W, P;      // n*n; P from the row of the lower-numbered city
    vector<pair<double, double>> xy;
    bool sym_p = true;
    double w(int i, int j) const { return W[i * n + j]; }
    double p(int i, int j) const { return i < j ? P[i * n + j] : P[j * n + i]; }
};
static bool number(const char *&c, double *v) {
    const char *b = c;
    if (*c == '-' || *c == '+') c++;
    int d = 0;
    while (isdigit((unsigned char) *c)) { c++; d++; }
    if (*c == '.') { c++; while (isdigit((unsigned char) *c)) { c++; d++; } }
    if (!d) return false;
    if (*c == 'e' || *c == 'E') {
        const char *q = c + 1;
        if (*q == '-' || *q == '+') q++;
        if (!isdigit((unsigned char) *q)) return false;
        while (isdigit((unsigned char) *q)) q++;
        c = q;
    }
    *v = strtod(string(b, c).c_str(), nullptr);
    return true;
}
static bool strict_pair(const string &t, double *a, double *b) {
    const char *c = t.c_str();
    if (*c++ != '(') return false;
    if (!number(c, a)) return false;
    if (c[0] != ',' || c[1] != ' ') return false;
    c += 2;
    if (!number(c, b)) return false;
    return c[0] == ')' && !c[1];
}
static bool surely_damaged(string t) {
    while (!t.empty() && strchr(" \r\t", t.back())) t.pop_back();
    while (!t.empty() && strchr(" \t", t[0])) t.erase(0, 1);
    if (t.empty()) return false;
    if (t[0] != '(' || t.back() != ')' || std::count(t.begin(), t.end(), '(') != 1 || std::count(t.begin(), t.end(), ')') != 1) return true;
    size_t c = t.find(',');
    if (c == string::npos) return true;
    auto digits = [](const string &s) { for (char ch : s) if (isdigit((unsigned char) ch)) return true; return false; };
    string l = t.substr(0, c), r = t.substr(c);
    if (l.find_first_of("nNiI") != string::npos || r.find_first_of("nNiI") != string::npos) return false;
    return !digits(l) || !digits(r);
}
static Matrix read_matrix(const string &s) {
    Matrix m;
    bool gray = false;
    auto broken = [&](const char *w) { if (m.cls != Matrix::BROKEN) { m.cls = Matrix::BROKEN; m.why = w; } };
    vector<vector<pair<double, double>>> rows;
    size_t p = 0;
    int line = 0, rowcount = 0;
    bool empty_seen = false, sure_rows = true;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        bool whole = e != string::npos;
        string raw = s.substr(p, whole ? e - p : string::npos);
        p = whole ? e + 1 : s.size();
        if (!whole) gray = true;
        string l = raw.c_str();                    // up to the first NUL
        if (l.size() != raw.size()) gray = true;
        vector<string> tok;
        size_t q = 0;
        while (q <= l.size()) {
            size_t x = l.find(';', q);
            string t = l.substr(q, x == string::npos ? string::npos : x - q);
            if (!t.empty()) tok.push_back(t);
            else if (x != string::npos) gray = true;
            if (x == string::npos) break;
            q = x + 1;
        }
        if (tok.empty() && line) { gray = true; if (raw.empty()) { empty_seen = true; line++; continue; } }
        vector<pair<double, double>> v;
        for (auto &t : tok) {
            double a = 0, b = 0;
            if (!strict_pair(t, &a, &b)) { gray = true; if (surely_damaged(t)) broken("damaged pair"); }
            v.push_back({a, b});
        }
        if (!line) {
            m.n = (int) v.size();
            m.xy = v;
            if (!m.n) { gray = true; }
        } else {
            rowcount++;
            if ((int) v.size() != m.n) {
                bool odd = false;   // tokens of blanks only: leave it open
                for (auto &t : tok) if (t.find_first_not_of(" \r\t") == string::npos) odd = true;
                if (!odd) broken("row of another length"); else sure_rows = false;
            }
            rows.push_back(v);
        }
        line++;
    }
    if (!line) broken("empty file");
    if (m.n > MAXV) broken("more cities than the build allows");
    if (sure_rows && rowcount != m.n) broken(rowcount < m.n ? "rows missing" : "rows too many");
    if (m.cls == Matrix::BROKEN) return m;
    if (m.n < 3 || gray || empty_seen) return m;
    m.W.resize(m.n * m.n); m.P.resize(m.n * m.n);
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) { m.W[i * m.n + j] = rows[i][j].first; m.P[i * m.n + j] = rows[i][j].second; }
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) {
        if (m.w(i, j) != m.w(j, i) || m.w(i, j) < 0 || !(m.w(i, j) < 1e90) || (i == j && m.w(i, j) != 0)) return m;
        double pr = m.P[i * m.n + j];
        if (!(pr >= 0 && pr <= 1)) return m;
        if (m.P[i * m.n + j] != m.P[j * m.n + i]) m.sym_p = false;
    }
    m.cls = Matrix::WELL;
    return m;
}

// ================================================================ reference answers
static const double INF = 1e300;
static double optimum(const Matrix &m) {     // Held and Karp; INF: no Hamiltonian cycle
    int n = m.n, k = n - 1;
    vector<double> d((size_t) k << k, INF);
    auto at = [&](int S, int i) -> double & { return d[(size_t) S * k + i]; };
    for (int i = 0; i < k; i++) if (m.w(0, i + 1) > 0) at(1 << i, i) = m.w(0, i + 1);
    for (int S = 1; S < (1 << k); S++)
        for (int i = 0; i < k; i++) {
            double x = at(S, i);
            if (x >= INF) continue;
            for (int j = 0; j < k; j++) if (!(S >> j & 1)) {
                double w = m.w(i + 1, j + 1);
                if (w > 0 && x + w < at(S | 1 << j, j)) at(S | 1 << j, j) = x + w;
            }
        }
    double best = INF;
    for (int i = 0; i < k; i++) if (m.w(i + 1, 0) > 0) best = std::min(best, at((1 << k) - 1, i) + m.w(i + 1, 0));
    return best;
}
static bool ties(const Matrix &m, bool probs) {
    vector<double> v;
    for (int i = 0; i < m.n; i++) for (int j = i + 1; j < m.n; j++) v.push_back(probs ? m.p(i, j) : m.w(i, j));
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++) if (v[i] - v[i - 1] <= 1e-12) return true;
    return false;
}
static bool complete_graph(const Matrix &m) {
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (i != j && !(m.w(i, j) > 0)) return false;
    return true;
}
static double greedy(const Matrix &m, int start, bool probs) {
    vector<bool> seen(m.n, false);
    int c = start;
    double sum = 0;
    seen[c] = true;
    for (int k = 1; k < m.n; k++) {
        int b = -1;
        for (int j = 0; j < m.n; j++) if (!seen[j] && (b < 0 || (probs ? m.p(c, j) > m.p(c, b) : m.w(c, j) < m.w(c, b)))) b = j;
        sum += m.w(c, b); seen[b] = true; c = b;
    }
    return sum + m.w(c, start);
}

// ================================================================ cases
struct Case { string check, input; vector<Env> envs; u64 seed = 0; };
struct Verdict { string cls, detail; explicit operator bool() const { return !cls.empty(); } };

static string env_text(const Env &e) {
    static const Env d;
    std::ostringstream o;
    auto num = [&](const char *k, i64 v, i64 dv) { if (v != dv) o << k << "=" << v << " "; };
    auto pairs = [&](const char *k, const vector<pair<i64, i64>> &v) { if (!v.empty()) { o << k << "="; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i].first << ":" << v[i].second; o << " "; } };
    auto list = [&](const char *k, const vector<i64> &v) { if (!v.empty()) { o << k << "="; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << " "; } };
#define NUM(f) num(#f, (i64) e.f, (i64) d.f);
#define ALLNUM(X) X(c0) X(tick) X(atick) X(wseed) X(hpoison) X(spoison) X(afail_from) X(alimit) X(rchunk) X(rerr_off) X(rerrno) X(iopen_errno) X(iclose_errno) \
    X(obuf) X(oshort) X(werr_off) X(werrno) X(wonce) X(capacity) X(oopen_errno) X(oclose_errno) X(prior) X(deep)
    ALLNUM(NUM)
    pairs("jumps", e.jumps); pairs("ajumps", e.ajumps); list("cfail", e.cfail); list("afail", e.afail);
    return o.str();
}
static Env env_parse(const string &s) {
    Env e;
    std::istringstream in(s);
    string t;
    auto list = [](const string &v) { vector<i64> r; std::istringstream i(v); string x; while (std::getline(i, x, ',')) r.push_back(atoll(x.c_str())); return r; };
    auto pairs = [](const string &v) { vector<pair<i64, i64>> r; std::istringstream i(v); string x; while (std::getline(i, x, ',')) r.push_back({atoll(x.c_str()), atoll(x.c_str() + x.find(':') + 1)}); return r; };
    while (in >> t) {
        size_t q = t.find('=');
        string k = t.substr(0, q), v = t.substr(q + 1);
#define SET(f) if (k == #f) e.f = (decltype(e.f)) strtoll(v.c_str(), nullptr, 10);
        ALLNUM(SET)
        if (k == "wseed") e.wseed = strtoull(v.c_str(), nullptr, 10);
        if (k == "jumps") e.jumps = pairs(v);
        if (k == "ajumps") e.ajumps = pairs(v);
        if (k == "cfail") e.cfail = list(v);
        if (k == "afail") e.afail = list(v);
    }
    return e;
}

// runs of the current case, remembered
static std::unordered_map<string, Outcome> memo;
static std::unordered_set<u64> seen_hashes;
static vector<u64> nontrivial_hashes;
static i64 fired_total[F_N], fired_runs[F_N], nontrivial, sim_time, ends[16];
static const string *cur_input;
static const Outcome &run(const string &input, const Env &e) {
    if (cur_input == nullptr || *cur_input != input) { memo.clear(); static string keep; keep = input; cur_input = &keep; }
    string k = env_text(e);
    auto i = memo.find(k);
    if (i != memo.end()) return i->second;
    if (memo.size() > 4000) memo.clear();
    Outcome o = sim_run(input, e);
    bool any = false;
    for (int f = 0; f < F_N; f++) { fired_total[f] += o.fired[f]; fired_runs[f] += o.fired[f] > 0; if (f != F_POISON && f != F_PRIOR) any |= o.fired[f] > 0; }
    sim_time += o.elapsed;
    ends[o.kind]++;
    if (seen_hashes.insert(o.hash).second && (any || o.elapsed > 0 || (o.con.size() > 20 && input.compare(0, 5, "!lib ") == 0))) { nontrivial++; nontrivial_hashes.push_back(o.hash); }
    return memo[k] = o;
}
static bool no_answer(const Outcome &o) { return o.kind == K_CAP || o.kind == K_MEMCAP; }
// the search saw at least `t` microseconds between its first and some later read
static i64 seen_elapsed(const Outcome &o) {
    i64 m = 0;
    if (o.log.empty()) return 0;
    for (auto &r : o.log) if (r.value >= 0) m = std::max(m, r.value - o.log[0].value);
    return m;
}
static bool clock_failed(const Env &e) { return !e.cfail.empty(); }
static bool mem_fault(const Env &e) { return !e.afail.empty() || e.afail_from || e.alimit; }
static bool io_fault(const Env &e) { return e.rerr_off >= 0 || e.iopen_errno || e.iclose_errno || e.werr_off >= 0 || e.capacity >= 0 || e.oopen_errno || e.oclose_errno; }

static string fmt(const char *f, ...) {
    char b[2000];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    return b;
}

// ================================================================ oracles
static string tour_error(const Report &r, const Matrix &m, vector<int> *order = nullptr) {
    if (!r.cycle) return "no cycle in the report";
    if (r.count != m.n || (int) r.edges.size() != m.n) return fmt("cycle of %d edges (%d listed) for %d cities", r.count, (int) r.edges.size(), m.n);
    vector<int> seen(m.n, 0);
    for (int i = 0; i < m.n; i++) {
        int u = r.edges[i].first, v = r.edges[i].second;
        if (u < 0 || v < 0 || u >= m.n || v >= m.n) return fmt("city %d <-> %d does not exist", u, v);
        if (v != r.edges[(i + 1) % m.n].first) return fmt("cycle is not connected after edge %d", i);
        if (u == v || !(m.w(u, v) > 0)) return fmt("there is no edge %d <-> %d", u, v);
        if (seen[u]++) return fmt("city %d is visited twice", u);
    }
    return "";
}
static Verdict bad(const string &c, const string &d) { return Verdict{c, d}; }

static Verdict eval_C01(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL) return {};
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        if (!o.ok()) continue;
        string t = tour_error(parse_report(o.out), m);
        if (!t.empty()) return bad("invalid tour", t + " [" + env_text(e) + "]");
    }
    return {};
}
static Verdict eval_C02(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL || !m.sym_p) return {};
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        if (!o.ok()) continue;
        Report r = parse_report(o.out);
        if (!r.cycle) continue;
        double w = 0, p = 0;
        bool legal = !r.edges.empty();
        for (auto &x : r.edges) {
            if (x.first < 0 || x.second < 0 || x.first >= m.n || x.second >= m.n || x.first == x.second) { legal = false; break; }
            w += m.w(x.first, x.second); p += m.p(x.first, x.second);
        }
        if (!legal) continue;     // C01's business
        if (std::fabs(r.cost - w) > 1.5e-6 + 1e-9 * std::fabs(w)) return bad("wrong cost", fmt("reported %.6f, edges sum to %.6f", r.cost, w) + " [" + env_text(e) + "]");
        double want = HYB ? p / r.edges.size() : 0;
        if (std::fabs(r.prob - want) > 2e-6) return bad("wrong probability", fmt("reported %.6f, mean of the edges is %.6f", r.prob, want) + " [" + env_text(e) + "]");
    }
    return {};
}
static Verdict eval_C03(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL || m.n > 20) return {};
    double opt = -1;
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        if (!o.ok()) continue;
        Report r = parse_report(o.out);
        if (!r.header || !r.cycle || r.interrupted) continue;
        if (opt < 0) opt = optimum(m);
        if (r.cost > opt + EPS_UB + 2e-6 + 1e-9 * opt) return bad("not optimal", fmt("interrupted = FALSE, cost %.6f, but a tour costs %.6f (tolerance %.6f)", r.cost, opt, EPS_UB) + " [" + env_text(e) + "]");
    }
    return {};
}
static Env no_clock(Env e) { Env d; e.c0 = d.c0; e.tick = 0; e.atick = 0; e.jumps.clear(); e.ajumps.clear(); e.cfail.clear(); return e; }
static Verdict eval_C04(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL) return {};
    vector<std::pair<i64, i64>> cuts;       // read index at which the limit has passed, explored
    vector<std::pair<i64, i64>> acuts;      // allocation event
    for (auto &e : c.envs) {
        if (clock_failed(e) || mem_fault(e) || io_fault(e)) continue;
        const Outcome &ref = run(c.input, no_clock(e));
        if (!ref.ok()) continue;            // no tour, or no answer
        Report rr = parse_report(ref.out);
        const Outcome &o = run(c.input, e);
        if (o.kind == K_HANG || o.kind == K_CAP) return bad("does not stop", "the search went on after the limit [" + env_text(e) + "]");
        if (o.kind != K_EXIT) continue;
        Report r = parse_report(o.out);
        i64 el = seen_elapsed(o);
        if (el < LIMIT) {
            if (o.ok() && (r.interrupted || r.expl != rr.expl || r.gen != rr.gen))
                return bad("cut short before the limit", fmt("%.3f s of processor time had passed at most, explored %u of %u", el / 1e6, r.expl, rr.expl) + " [" + env_text(e) + "]");
            if (!o.ok()) return bad("cut short before the limit", fmt("%.3f s of processor time had passed at most, and no report", el / 1e6) + " [" + env_text(e) + "]");
            continue;
        }
        // one jump over the whole limit: where did the search stop?
        if (!o.ok() || !r.header || e.tick || e.atick) continue;
        if (e.jumps.size() == 1 && e.ajumps.empty() && e.jumps[0].second >= LIMIT + 1000000 && o.fired[F_CLOCK_JUMP]) cuts.push_back({e.jumps[0].first, r.expl});
        if (e.ajumps.size() == 1 && e.jumps.empty() && e.ajumps[0].second >= LIMIT + 1000000 && o.fired[F_ACLOCK]) acuts.push_back({e.ajumps[0].first, r.expl});
    }
    std::sort(cuts.begin(), cuts.end());
    std::sort(acuts.begin(), acuts.end());
    for (size_t i = 0; i < cuts.size(); i++) {
        if (cuts[i].first == 2 && cuts[i].second > 0) return bad("limit ignored", fmt("the limit had passed before the first subproblem, and %lld were explored", (long long) cuts[i].second));
        if (i && cuts[i].second - cuts[i - 1].second > cuts[i].first - cuts[i - 1].first)
            return bad("limit ignored", fmt("limit passed by clock read %lld: %lld subproblems explored; by read %lld: %lld", (long long) cuts[i - 1].first, (long long) cuts[i - 1].second, (long long) cuts[i].first, (long long) cuts[i].second));
    }
    for (size_t i = 1; i < acuts.size(); i++)
        if (acuts[i].second - acuts[i - 1].second > acuts[i].first - acuts[i - 1].first)
            return bad("limit ignored", fmt("limit passed by allocation event %lld: %lld subproblems explored; by event %lld: %lld", (long long) acuts[i - 1].first, (long long) acuts[i - 1].second, (long long) acuts[i].first, (long long) acuts[i].second));
    return {};
}
static Verdict eval_C05(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL) return {};
    for (auto &e : c.envs) {
        if (mem_fault(e) || io_fault(e)) continue;
        const Outcome &ref = run(c.input, no_clock(e));
        if (!ref.ok()) continue;
        Report rr = parse_report(ref.out);
        if (!rr.header) continue;
        if (rr.interrupted) return bad("flag set without a cut", "the clock stood still and the report says interrupted");
        const Outcome &o = run(c.input, e);
        if (!o.ok()) continue;
        Report r = parse_report(o.out);
        if (!r.header) continue;
        if (o.left > 0 && !r.interrupted && (!r.cycle || o.least < r.cost - EPS_UB * 1.001 - 2e-6 - 1e-9 * r.cost)) return bad("cut not flagged", fmt("%lld subproblems still waiting, one of value %.6f, interrupted = FALSE", (long long) o.left, o.least) + " [" + env_text(e) + "]");
        if (o.left == 0 && r.interrupted) return bad("flag set without a cut", "no subproblem was waiting, interrupted = TRUE [" + env_text(e) + "]");
        if (r.expl < rr.expl && !r.interrupted) return bad("cut not flagged", fmt("explored %u of %u subproblems, interrupted = FALSE", r.expl, rr.expl) + " [" + env_text(e) + "]");
        if (clock_failed(e)) continue;
        if (seen_elapsed(o) < LIMIT && r.interrupted) return bad("flag set without a cut", fmt("at most %.3f s had passed", seen_elapsed(o) / 1e6) + " [" + env_text(e) + "]");
        // the limit is first seen when all the work is done
        if (r.interrupted && o.log.size() && o.log[0].value >= 0) {
            bool late = true;
            for (auto &x : o.log) if (x.value - o.log[0].value >= LIMIT && x.aseq < ref.aseq) late = false;
            if (late && r.expl == rr.expl) return bad("flag set without a cut", "the limit passed after the last subproblem was done [" + env_text(e) + "]");
        }
    }
    return {};
}
static Verdict eval_C06(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL || !complete_graph(m) || ties(m, false) || (HYB && ties(m, true))) return {};
    double nn = INF, pn = INF;
    for (int s = 0; s < m.n; s++) { nn = std::min(nn, greedy(m, s, false)); if (HYB) pn = std::min(pn, greedy(m, s, true)); }
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        if (!o.ok()) continue;
        Report r = parse_report(o.out);
        if (!r.header || !r.cycle) continue;
        for (size_t i = 1; i < r.upd.size(); i++)
            if (!(r.upd[i] < r.upd[i - 1])) return bad("improvement that is none", fmt("%.6f after %.6f", r.upd[i], r.upd[i - 1]) + " [" + env_text(e) + "]");
        if (!r.upd.empty() && std::fabs(r.cost - r.upd.back()) > 1.5e-6 + 1e-12 * r.cost) return bad("report is not the last improvement", fmt("reported %.6f, last improvement %.6f", r.cost, r.upd.back()) + " [" + env_text(e) + "]");
        if (r.cost > nn + 2e-6 + 1e-9 * nn) return bad("worse than nearest neighbour", fmt("reported %.6f, nearest neighbour %.6f", r.cost, nn) + " [" + env_text(e) + "]");
        if (HYB && r.cost > pn + 2e-6 + 1e-9 * pn) return bad("worse than most probable neighbour", fmt("reported %.6f, most probable neighbour %.6f", r.cost, pn) + " [" + env_text(e) + "]");
    }
    return {};
}
static Verdict eval_C07(const Case &c) {
    if (c.envs.empty()) return {};
    if (read_matrix(c.input).cls != Matrix::WELL) return {};
    const Outcome b = run(c.input, c.envs[0]);
    if (b.kind != K_EXIT || seen_elapsed(b) >= LIMIT || clock_failed(c.envs[0])) return {};
    Report rb = parse_report(b.out);
    std::map<size_t, string> by_prefix;
    if (rb.header) by_prefix[rb.upd.size()] = rb.cost_text + rb.cycle_text;
    for (size_t i = 1; i < c.envs.size(); i++) {
        const Env &e = c.envs[i];
        if (mem_fault(e) || io_fault(e)) continue;
        const Outcome &o = run(c.input, e);
        if (no_answer(o)) continue;
        if (o.kind != K_EXIT) return bad("different end", "one run ends with " + b.end() + ", the other with " + o.end() + " [" + env_text(e) + "]");
        bool cut = seen_elapsed(o) >= LIMIT || clock_failed(e);
        if (!cut) {
            if (o.status != b.status) return bad("different end", fmt("exit status %d and %d", b.status, o.status) + " [" + env_text(e) + "]");
            if (normal(o.out) != normal(b.out)) return bad("different report", "[" + env_text(e) + "]\n" + normal(b.out).substr(0, 700) + "\n--- and ---\n" + normal(o.out).substr(0, 700));
        } else {
            if (!o.ok() || !rb.header) continue;
            Report r = parse_report(o.out);
            if (!r.header) continue;
            if (r.upd.size() > rb.upd.size()) return bad("not a prefix", "more improvements than the full run [" + env_text(e) + "]");
            for (size_t k = 0; k < r.upd.size(); k++) if (r.upd_text[k] != rb.upd_text[k]) return bad("not a prefix", fmt("improvement %d is ", (int) k + 1) + r.upd_text[k] + ", in the full run " + rb.upd_text[k] + " [" + env_text(e) + "]");
            if (r.expl > rb.expl || r.gen > rb.gen) return bad("not a prefix", fmt("explored %u generated %u, full run %u and %u", r.expl, r.gen, rb.expl, rb.gen) + " [" + env_text(e) + "]");
            string t = r.cost_text + r.cycle_text;
            auto k = by_prefix.find(r.upd.size());
            if (k == by_prefix.end()) by_prefix[r.upd.size()] = t;
            else if (k->second != t) return bad("not a prefix", "another tour after the same improvements: " + t + " / " + k->second + " [" + env_text(e) + "]");
            if (!r.upd.empty() && r.cost_text != r.upd_text.back()) return bad("not a prefix", "reports " + r.cost_text + " instead of the last improvement " + r.upd_text.back() + " [" + env_text(e) + "]");
        }
    }
    return {};
}
static Verdict eval_C08(const Case &c) {
    Matrix m = read_matrix(c.input);
    for (auto &e : c.envs) {
        if (mem_fault(e) || clock_failed(e) || e.oopen_errno || e.oclose_errno || e.werr_off >= 0 || e.capacity >= 0 || e.iclose_errno) continue;
        const Outcome &o = run(c.input, e);
        bool hurt = o.fired[F_READ_ERR] || o.fired[F_IOPEN];
        if (m.cls == Matrix::BROKEN || hurt) {
            if (no_answer(o)) continue;
            string what = hurt ? string("reading failed") : m.why;
            if (o.kind != K_EXIT) return bad("bad input not refused", what + ", and the run ended with " + o.end() + " [" + env_text(e) + "]");
            if (o.status == 0) return bad("bad input not refused", what + ", and the exit status is 0 [" + env_text(e) + "]");
            if (holds_tour(o.out)) return bad("bad input not refused", what + ", and there is a report [" + env_text(e) + "]");
        } else {
            Env w = e; w.rchunk = 0; w.rerr_off = -1; w.iopen_errno = 0;
            const Outcome b = run(c.input, w);
            const Outcome &o2 = run(c.input, e);
            if (no_answer(b) || no_answer(o2)) continue;
            if (b.kind != o2.kind || b.status != o2.status || normal(b.out) != normal(o2.out))
                return bad("split of the reads matters", "ends: " + b.end() + " / " + o2.end() + " [" + env_text(e) + "]");
        }
    }
    return {};
}
static Env no_output_fault(Env e) { Env d; e.obuf = d.obuf; e.oshort = 0; e.werr_off = -1; e.wonce = 0; e.capacity = -1; e.oopen_errno = e.oclose_errno = 0; e.prior = 0; return e; }
static Verdict eval_C09(const Case &c) {
    for (auto &e : c.envs) {
        const Outcome b = run(c.input, no_output_fault(e));
        if (!b.ok()) continue;
        const Outcome &o = run(c.input, e);
        bool hurt = o.fired[F_WRITE_ERR] || o.fired[F_ENOSPC] || o.fired[F_OOPEN] || o.fired[F_OCLOSE];
        if (no_answer(o)) continue;
        if (hurt) {
            if (o.ok()) return bad("failed output, exit status 0", fmt("%d of %d bytes are in the file", (int) o.out.size(), (int) b.out.size()) + " [" + env_text(e) + "]");
        } else {
            if (!o.ok()) return bad("no report without a fault", o.end() + " [" + env_text(e) + "]");
            if (o.out != b.out) return bad("report not whole", fmt("%d bytes instead of %d", (int) o.out.size(), (int) b.out.size()) + " [" + env_text(e) + "]");
            if (!parse_report(o.out).complete || o.out.find("Optimal tour found") != o.out.rfind("Optimal tour found")) return bad("report not whole", "[" + env_text(e) + "]");
        }
    }
    return {};
}
static Env no_mem_fault(Env e) { e.afail.clear(); e.afail_from = 0; e.alimit = 0; return e; }
static Verdict eval_C10(const Case &c) {
    for (auto &e : c.envs) {
        const Outcome b = run(c.input, no_mem_fault(e));
        if (b.kind != K_EXIT) continue;
        const Outcome &o = run(c.input, e);
        if (!o.fired[F_ALLOC] && !o.fired[F_ALIMIT]) continue;
        if (no_answer(o)) return bad("no end after a failed allocation", o.end() + " [" + env_text(e) + "]");
        if (o.kind != K_EXIT) return bad("crash after a failed allocation", o.end() + " [" + env_text(e) + "]");
        if (o.status == 0) {
            if (b.status != 0 || normal(o.out) != normal(b.out)) return bad("another report after a failed allocation", "[" + env_text(e) + "]");
        } else {
            if (holds_tour(o.out)) return bad("report after a failed allocation", "[" + env_text(e) + "]");
            if (o.err.empty() && o.con.empty()) return bad("silent after a failed allocation", "[" + env_text(e) + "]");
        }
    }
    return {};
}
static Verdict eval_C11(const Case &c) {
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        if (o.kind == K_SIGNAL || o.kind == K_HEAP || o.kind == K_SAN) {
            string s = o.san;
            string head;
            for (const char *k : {"ERROR: AddressSanitizer: ", "runtime error: ", "WARNING: MemorySanitizer: "}) { size_t p = s.find(k); if (p != string::npos) head = s.substr(p, s.find('\n', p) - p); }
            return bad("memory error", o.end() + " " + head + " [" + env_text(e) + "]\n" + s.substr(0, 1500));
        }
    }
    return {};
}
static Verdict eval_C12(const Case &c) {
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        if (o.kind == K_MEMCAP) return bad("memory grows without bound", o.end() + " [" + env_text(e) + "]");
        if (o.kind == K_HEAP && o.status <= 2) return bad("released twice", o.san + " [" + env_text(e) + "]");
        if (!o.ok()) continue;
        if (o.live) return bad("not released", fmt("%lld of %lld blocks are still allocated at exit", (long long) o.live, (long long) o.nalloc) + " [" + env_text(e) + "]");
        if (o.open_files) return bad("not closed", fmt("%lld files are still open at exit", (long long) o.open_files) + " [" + env_text(e) + "]");
        Report r = parse_report(o.out);
        i64 bound = (i64) r.expl + 2 + (MAXV * MAXV / 50 + MAXV + 27) + 2 * MAXV * MAXV + 64;
        if (r.header && o.peak > bound) return bad("too much memory in use", fmt("%lld blocks at once for %u explored subproblems", (long long) o.peak, r.expl) + " [" + env_text(e) + "]");
    }
    return {};
}
static Verdict eval_C13(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL || m.n > 20) return {};
    bool feasible = optimum(m) < INF;
    for (auto &e : c.envs) {
        if (mem_fault(e) || io_fault(e)) continue;
        const Outcome &o = run(c.input, e);
        if (o.kind == K_CAP || o.kind == K_MEMCAP) continue;
        if (!feasible) {
            if (o.kind != K_EXIT) return bad("infeasible instance", "no Hamiltonian cycle, and the run ends with " + o.end() + " [" + env_text(e) + "]");
            if (o.status == 0) return bad("infeasible instance", "no Hamiltonian cycle, and the exit status is 0 [" + env_text(e) + "]");
            if (holds_tour(o.out)) return bad("infeasible instance", "no Hamiltonian cycle, and a tour is reported [" + env_text(e) + "]");
            continue;
        }
        bool cut = seen_elapsed(o) >= LIMIT || clock_failed(e);
        if (!cut) {
            if (!o.ok()) return bad("tour missed", "there is a Hamiltonian cycle, and the run ends with " + o.end() + " [" + env_text(e) + "]");
            if (!holds_tour(o.out)) return bad("tour missed", "no tour in the report [" + env_text(e) + "]");
        } else if (o.kind == K_EXIT) {
            Report r = parse_report(o.out);
            if (o.status != 0 && holds_tour(o.out)) return bad("no tour known", "exit status is not 0, and a tour is in the output [" + env_text(e) + "]");
            if (o.status == 0 && (!r.cycle || r.edges.empty() || !(r.cost < 1e200))) return bad("no tour known", "exit status is 0, and there is no tour in the report [" + env_text(e) + "]");
            if (o.status == 0 && !tour_error(r, m).empty()) return bad("no tour known", "exit status is 0, and the cycle is not a tour: " + tour_error(r, m) + " [" + env_text(e) + "]");
        } else return bad("no tour known", o.end() + " [" + env_text(e) + "]");
    }
    return {};
}
static double tol(double us) { return 2.5e-6 + 2.5e-13 * us; }   // printed digits, and a float holds the microseconds
static int match_read(const Outcome &o, double sec, int from, int to) {
    for (int i = from; i <= to && i < (int) o.log.size(); i++)
        if (std::fabs(sec * 1e6 - (double) (o.log[i].value - o.log[0].value)) <= tol((double) (o.log[i].value - o.log[0].value)) * 1e6) return i;
    return -1;
}
static Verdict eval_C14(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL) return {};
    for (auto &e : c.envs) {
        if (mem_fault(e) || io_fault(e) || clock_failed(e)) continue;
        const Outcome o = run(c.input, e);
        if (!o.ok() || o.log.empty()) continue;
        Report r = parse_report(o.out);
        if (!r.header || !r.cycle) continue;
        int last = (int) o.log.size() - 1;
        string at = " [" + env_text(e) + "]";
        int k0 = last;
        while (k0 > 0 && o.log[k0 - 1].aseq >= o.last_malloc) k0--;
        int k = match_read(o, r.elapsed, k0, last);
        if (k < 0) return bad("wrong elapsed time", fmt("reported %.6f s; the clock showed %.6f s since the start when the search ended", r.elapsed, (o.log[last].value - o.log[0].value) / 1e6) + at);
        double prev = 0;
        for (size_t i = 0; i < r.upd.size(); i++) {
            double t = r.upd_time[i], slack = tol(t * 1e6);
            if (t + slack < prev) return bad("times decrease", fmt("%.6f s after %.6f s", t, prev) + at);
            if (t > r.elapsed + slack) return bad("time beyond the end", fmt("%.6f s, elapsed %.6f s", t, r.elapsed) + at);
            if (match_read(o, t, 0, last) < 0) return bad("wrong improvement time", fmt("%.6f s was never shown by the clock", t) + at);
            if (e.obuf <= 1)   // written at once: the time must be that of the moment
                for (auto &w : o.writes) if (w.pos > r.upd_pos[i]) {
                    double now = (double) (w.cpu - o.log[0].value);
                    if (std::fabs(t * 1e6 - now) > tol(now) * 1e6 + 2 * (e.tick + e.atick))
                        return bad("wrong improvement time", fmt("logged %.6f s at %.6f s", t, now / 1e6) + at);
                    break;
                }
            prev = t;
        }
        if (r.reach > r.elapsed + tol(r.elapsed * 1e6)) return bad("time beyond the end", fmt("time to obtain %.6f s, elapsed %.6f s", r.reach, r.elapsed) + at);
        if (!r.upd_time.empty() && r.reach > r.upd_time.back() + tol(r.reach * 1e6)) return bad("taken up after it was solved", fmt("time to obtain %.6f s, found at %.6f s", r.reach, r.upd_time.back()) + at);
        int q = match_read(o, r.reach, 0, last);
        if (q < 0) return bad("wrong time to obtain", fmt("%.6f s was never shown by the clock", r.reach) + at);
        // was the subproblem of the reported tour really taken up at that moment? Let the limit pass just after, and just before
        if (!r.upd.empty() && e.tick > 0 && e.jumps.empty() && e.ajumps.empty() && e.tick * (last + 2) + e.atick * o.aseq < LIMIT / 2 && q + 2 <= last + 1) {
            Env x = e; x.tick = x.atick = 0;
            x.jumps = {{q + 2, 2 * LIMIT}};
            const Outcome a = run(c.input, x);
            if (a.ok() && a.fired[F_CLOCK_JUMP] && parse_report(a.out).cycle_text != r.cycle_text)
                return bad("wrong time to obtain", fmt("at %.6f s the subproblem of the tour was not taken up yet", r.reach) + at);
            if (q >= 1 && o.log[q].aseq - o.log[q - 1].aseq >= 3) {
                x.jumps = {{q, 2 * LIMIT}};
                const Outcome d = run(c.input, x);
                if (d.ok() && d.fired[F_CLOCK_JUMP] && parse_report(d.out).cycle_text == r.cycle_text && parse_report(d.out).upd.size() == r.upd.size())
                    return bad("wrong time to obtain", fmt("the subproblem of the tour was taken up before %.6f s", r.reach) + at);
            }
        }
    }
    return {};
}
static double one_tree(const Matrix &m, int v) {       // complete graphs
    vector<double> key(m.n, INF);
    vector<bool> in(m.n, false);
    double sum = 0;
    key[v ? 0 : 1] = 0;
    for (int k = 0; k < m.n - 1; k++) {
        int b = -1;
        for (int i = 0; i < m.n; i++) if (i != v && !in[i] && (b < 0 || key[i] < key[b])) b = i;
        in[b] = true; sum += key[b];
        for (int i = 0; i < m.n; i++) if (i != v && !in[i]) key[i] = std::min(key[i], m.w(b, i));
    }
    double x = INF, y = INF;
    for (int i = 0; i < m.n; i++) if (i != v) { double w = m.w(v, i); if (w < x) { y = x; x = w; } else if (w < y) y = w; }
    return sum + x + y;
}
// the mean probability of the one-tree of v if that is the only minimal one, otherwise -1; complete graphs
static double one_tree_prob(const Matrix &m, int v, vector<std::pair<int, int>> *edges = nullptr) {
    int n = m.n;
    vector<std::pair<double, std::pair<int, int>>> es;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != v && j != v) es.push_back({m.w(i, j), {i, j}});
    std::sort(es.begin(), es.end());
    vector<double> far(n * n, -1);                     // heaviest edge between two in the tree so far
    vector<int> part(n);
    for (int i = 0; i < n; i++) part[i] = i;
    double sum = 0;
    for (auto &e : es) {
        int a = e.second.first, b = e.second.second;
        if (part[a] == part[b]) { if (e.first < far[a * n + b] + 1e-9 * (1 + e.first)) return -1; continue; }
        sum += m.p(a, b);
        if (edges) edges->push_back({a, b});
        int pa = part[a], pb = part[b];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != v && j != v && part[i] == pa && part[j] == pb)
            far[i * n + j] = far[j * n + i] = std::max(e.first, std::max(i == a ? -1 : far[i * n + a], j == b ? -1 : far[b * n + j]));
        for (int i = 0; i < n; i++) if (part[i] == pb) part[i] = pa;
    }
    vector<std::pair<double, int>> near;
    for (int i = 0; i < n; i++) if (i != v) near.push_back({m.w(v, i), i});
    std::sort(near.begin(), near.end());
    if (near.size() > 2 && near[2].first < near[1].first + 1e-9 * (1 + near[1].first)) return -1;
    if (edges) for (int k = 0; k < 2; k++) edges->push_back({std::min(v, near[k].second), std::max(v, near[k].second)});
    return (sum + m.p(v, near[0].second) + m.p(v, near[1].second)) / n;
}
static Verdict eval_C15(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL) return {};
    bool kruskal = strchr(CONFIG, 'k') != nullptr;
    for (auto &e : c.envs) {
        if (mem_fault(e) || io_fault(e)) continue;
        const Outcome &o = run(c.input, e);
        if (!o.ok()) continue;
        Report r = parse_report(o.out);
        string at = " [" + env_text(e) + "]";
        if (!r.header || r.headers != 1 || !r.cycle || !r.complete || !r.tree || !r.sub || !r.bounds || r.mst.empty() || r.fixed < 0 || r.mandatory < 0 || r.forbidden < 0)
            return bad("incomplete report", at + "\n" + o.out.substr(0, 1500));
        if (r.cand < 0 || r.cand >= m.n) return bad("no such candidate node", fmt("%d of %d cities", r.cand, m.n) + at);
        if ((r.mst == "Kruskal") != kruskal || (r.mst == "Prim") == kruskal) return bad("wrong spanning-tree algorithm", r.mst + at);
        if (std::fabs(r.ghosh - 1000 * EPS_UB) > 2e-6 || std::fabs(r.sub_ub - EPS_UB) > 2e-6) return bad("wrong bounds", fmt("%.6f and %.6f", r.ghosh, r.sub_ub) + at);
        if (r.expl > r.gen) return bad("more explored than generated", fmt("%u of %u", r.expl, r.gen) + at);
        if (r.gen % 2 == 0) return bad("odd subproblem out", fmt("the root and pairs of children make %u", r.gen) + at);
        if (!r.interrupted && !r.expl) return bad("nothing explored", "interrupted = FALSE and no subproblem was explored" + at);
        // a node at level k has 2(k-1) nodes at the levels 2..k, and every level takes a decision on another edge
        if (r.level < 1 || r.gen < 2 * r.level - 1 || (int) r.level > 1 + m.n * (m.n - 1) / 2) return bad("impossible depth", fmt("%u levels with %u subproblems", r.level, r.gen) + at);
        if (r.expl + 1 < r.level && r.level > 1) return bad("impossible depth", fmt("%u levels with %u explored", r.level, r.expl) + at);
        bool nn = r.type == "CLOSED_NEAREST_NEIGHBOR" || r.type == "CLOSED_NEAREST_NEIGHBOR_HYBRID";
        if (!nn && r.type != "CLOSED_SUBGRADIENT" && r.type != "CLOSED_1TREE") return bad("wrong type of the reported subproblem", r.type + at);
        if (!HYB && r.type == "CLOSED_NEAREST_NEIGHBOR_HYBRID") return bad("wrong type of the reported subproblem", r.type + at);
        if (nn != r.upd.empty()) return bad("wrong type of the reported subproblem", fmt("%s after %d improvements", r.type.c_str(), (int) r.upd.size()) + at);
        if (nn != (r.node == 0) || nn != (r.node_level == 0)) return bad("wrong place of the reported subproblem", fmt("%s with number %u at level %u", r.type.c_str(), r.node, r.node_level) + at);
        if (r.node > r.gen || r.node_level > r.level) return bad("wrong place of the reported subproblem", fmt("number %u of %u, level %u of %u", r.node, r.gen, r.node_level, r.level) + at);
        if ((r.node == 1) != (r.node_level == 1)) return bad("wrong place of the reported subproblem", fmt("number %u at level %u", r.node, r.node_level) + at);
        if (r.node > 1 && r.node < 2 * r.node_level - 2) return bad("wrong place of the reported subproblem", fmt("number %u at level %u", r.node, r.node_level) + at);
        if (nn && (r.mandatory || r.forbidden)) return bad("wrong place of the reported subproblem", fmt("nearest neighbour tour with %d mandatory and %d forbidden edges", r.mandatory, r.forbidden) + at);
        if (r.node == 1 && complete_graph(m)) {             // the root is closed by its first one-tree, or later, by the subgradient method
            vector<std::pair<int, int>> es;
            if (one_tree_prob(m, r.cand, &es) >= 0) {
                vector<int> degree(m.n, 0);
                for (auto &x : es) degree[x.first]++, degree[x.second]++;
                bool tour = std::all_of(degree.begin(), degree.end(), [](int d) { return d == 2; });
                if (tour != (r.type == "CLOSED_1TREE")) return bad("wrong type of the reported subproblem", fmt("%s, and the first one-tree is %s", r.type.c_str(), tour ? "a tour" : "no tour") + at);
            }
        }
        if (!nn && r.mandatory >= m.n && r.type != "CLOSED_1TREE") return bad("wrong type of the reported subproblem", fmt("%s, and all of its %d edges were mandatory", r.type.c_str(), m.n) + at);
        if (r.upd.size() > r.expl) return bad("more improvements than explored", fmt("%d and %u", (int) r.upd.size(), r.expl) + at);
        if (HYB && nn && complete_graph(m) && !ties(m, false) && !ties(m, true) && m.sym_p) {   // which rule built the starting tour?
            double a = INF, b = INF;
            for (int s = 0; s < m.n; s++) { a = std::min(a, greedy(m, s, false)); b = std::min(b, greedy(m, s, true)); }
            if (std::fabs(a - b) > 1e-6 + 1e-9 * a && (b < a) != (r.type == "CLOSED_NEAREST_NEIGHBOR_HYBRID")) return bad("wrong type of the reported subproblem", fmt("%s; nearest neighbour %.6f, most probable neighbour %.6f", r.type.c_str(), a, b) + at);
        }
    }
    return {};
}
static bool exact_sums(const Matrix &m) { for (double w : m.W) if (w != std::floor(w * 1024) / 1024 || w > 1024) return false; return true; }
static Verdict eval_C16(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL || !complete_graph(m)) return {};
    bool exact = exact_sums(m);
    double best = 0;
    int arg = 0;
    for (int v = 0; v < m.n; v++) { double x = one_tree(m, v); if (x > best) { best = x; arg = v; } }
    for (auto &e : c.envs) {
        if (mem_fault(e) || io_fault(e)) continue;
        const Outcome &o = run(c.input, e);
        if (!o.ok()) continue;
        Report r = parse_report(o.out);
        if (!r.header || r.cand < 0 || r.cand >= m.n) continue;
        double x = one_tree(m, r.cand);
        if (x < best - EPS_UB - 1e-7 * (1 + best)) return bad("weak starting vertex", fmt("vertex %d gives the bound %.6f, vertex %d gives %.6f", r.cand, x, arg, best) + " [" + env_text(e) + "]");
        double p = HYB && m.sym_p ? one_tree_prob(m, r.cand) : -1;
        for (int v = 0; p >= 0 && v < m.n; v++) {
            double y = one_tree(m, v), q;
            if ((exact ? y >= x : y > x + 1e-9 * (1 + x)) && (q = one_tree_prob(m, v)) > p + 0.05 + 1e-6)
                return bad("less probable starting vertex", fmt("vertex %d gives the bound %.9f and probability %.6f, vertex %d gives %.9f and %.6f", r.cand, x, p, v, y, q) + " [" + env_text(e) + "]");
        }
    }
    return {};
}
static Verdict eval_C18(const Case &c) {
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        if (!o.note.empty()) return bad("not the best one first", o.note + " [" + env_text(e) + "]");
    }
    return {};
}
struct Inst;
static string other_input(const Case &c);
static Verdict eval_C17(const Case &c) {
    Matrix m = read_matrix(c.input);
    if (m.cls != Matrix::WELL) return {};
    string twin = other_input(c);
    vector<Outcome> first;
    for (auto &e : c.envs) first.push_back(run(c.input, e));
    for (size_t i = 0; i < c.envs.size(); i++) {
        const Env &e = c.envs[i];
        if (mem_fault(e) || io_fault(e) || !e.ajumps.empty() || e.atick) continue;
        const Outcome &a = first[i];
        const Outcome b = run(twin, e);
        if (no_answer(a) || no_answer(b) || a.kind == K_HANG || b.kind == K_HANG) continue;
        if (a.kind != b.kind || (a.kind == K_EXIT && a.status != b.status)) return bad("different end", "ends: " + a.end() + " / " + b.end() + " [" + env_text(e) + "]\n" + twin.substr(0, 600));
        if (normal(a.out) != normal(b.out)) return bad("different report", "[" + env_text(e) + "]\n" + normal(a.out).substr(0, 700) + "\n--- and, for the other file, ---\n" + normal(b.out).substr(0, 700) + "\n" + twin.substr(0, 600));
    }
    return {};
}

// ================================================================ instances
struct Inst { int n; vector<pair<double, double>> xy; vector<double> W, P; int style; };
static string num(double v, int style) {
    char b[64];
    if (style == 0) { for (int p = 1; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, nullptr) == v) break; } }
    else { float f = (float) v; for (int p = 1; p <= 9; p++) { snprintf(b, sizeof b, "%.*g", p, (double) f); if (strtof(b, nullptr) == f) break; } }
    return b;
}
static string inst_text(const Inst &I) {
    string s;
    for (int i = 0; i < I.n; i++) s += (i ? ";(" : "(") + num(I.xy[i].first, I.style) + ", " + num(I.xy[i].second, I.style) + ")";
    s += "\n";
    for (int i = 0; i < I.n; i++) {
        for (int j = 0; j < I.n; j++) s += "(" + num(I.W[i * I.n + j], I.style) + ", " + num(I.P[i * I.n + j], I.style) + ");";
        s += "\n";
    }
    return s;
}
struct GenOpt { int nmin = 3, nmax = MAXV; double incomplete = 0, full = 0.5, sparse = 0, scale = 0.2, deep = 0.003; bool noties = false, symp = true; };
static vector<int> greedy_opt(const Inst &I, Rng &r) {      // some tour, for labels
    vector<int> t(I.n);
    for (int i = 0; i < I.n; i++) t[i] = i;
    for (int i = I.n - 1; i > 0; i--) std::swap(t[i], t[r.below(i + 1)]);
    for (bool go = true; go;) {
        go = false;
        for (int i = 0; i < I.n - 1; i++) for (int j = i + 2; j < I.n; j++) {
            int a = t[i], b = t[i + 1], c = t[j], d = t[(j + 1) % I.n];
            if (a == d) continue;
            if (I.W[a * I.n + c] + I.W[b * I.n + d] + 1e-9 < I.W[a * I.n + b] + I.W[c * I.n + d]) { std::reverse(t.begin() + i + 1, t.begin() + j + 1); go = true; }
        }
    }
    return t;
}
static i64 g_deep;      // the case at hand is a long search: its runs may have this many times the usual number of events
static Inst gen_inst(Rng &r, const GenOpt &g) {
    Inst I;
    const bool deep = g.deep && g.nmax >= 10 && MAXV <= 20 && r.chance(g.deep * (MAXV >= 14 ? 6 : 1));
    const bool very = deep && r.chance(0.06);
    if (deep) g_deep = very ? 80 : 20;
    int hi = std::min(g.nmax, (int) MAXV), lo = std::min(g.nmin, hi);
    I.n = deep ? std::min(hi, very ? 14 : (int) r.range(10, 12)) : r.chance(g.full) ? hi : (int) r.range(lo, hi);
    int n = I.n;
    I.style = (int) r.below(2);
    I.xy.resize(n);
    int fam = deep ? (r.chance(0.6) ? 20 : 21) : (int) r.below(g.noties ? 6 : 17);
    const int groups = (int) r.range(2, 4);
    const double near = 0.02 + 0.1 * r.unit(), wide = 0.01 + 0.05 * r.unit(), far = deep ? 0.02 + 0.2 * r.unit() * r.unit() : 0;
    double sc = 1;
    for (int i = 0; i < n; i++) {
        double x = r.unit(), y = r.unit();
        switch (fam) {
            case 1: { int k = (int) r.below(3); x = 0.2 + 0.3 * k + 0.05 * r.unit(); y = 0.2 + 0.25 * (k & 1) + 0.05 * r.unit(); break; }
            case 2: x = (i % 2) * 0.8 + 0.15 * r.unit(); y = 0.15 * r.unit(); break;
            case 3: { double a = 6.283185307 * (i + 0.4 * r.unit()) / n; x = 0.5 + 0.45 * cos(a); y = 0.5 + 0.45 * sin(a); break; }
            case 6: { int s = (int) std::ceil(std::sqrt((double) n)); x = (double) (i % s) / s; y = (double) (i / s) / s; break; }
            case 7: x = (double) i / n; y = 0.5; break;
            case 15: case 16: if (i && r.chance(fam == 15 ? 0.6 : 0.4)) { x = I.xy[i - 1].first + 0.02 * (x - 0.5); y = I.xy[i - 1].second + 0.02 * (y - 0.5); } break;     // twos and threes
            case 8: x = std::floor(x * 4) / 4; y = std::floor(y * 4) / 4 + 1e-3 * i; break;
            default: break;
        }
        I.xy[i] = {x, y};
    }
    I.W.assign(n * n, 0); I.P.assign(n * n, 0);
    double vals[3] = {0.3 + 0.5 * r.unit(), 0, 0};
    vals[1] = vals[0] + EPS_UB * (0.3 + 2.5 * r.unit()); vals[2] = vals[0] + 0.3 * r.unit() + 0.01;
    double base = 0.2 + r.unit() * 0.8;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        double dx = I.xy[i].first - I.xy[j].first, dy = I.xy[i].second - I.xy[j].second, d = std::sqrt(dx * dx + dy * dy) * sc;
        if (fam == 20) d = i * groups / n == j * groups / n ? near + wide * r.unit() : 1 + far * r.unit();      // groups, and many ways between them of nearly the same length
        if (fam == 21) d = 0.5 + (0.03 + far) * r.unit();
        if (fam == 4 || fam == 9) d = 0.02 + r.unit();
        if (fam == 5) d = 0.5 + 0.5 * r.unit();
        if (fam == 10) d = base + EPS_UB * 3 * r.unit();
        if (fam == 11) d = vals[r.below(3)];
        if (fam == 12) d = r.chance(0.5) ? 0.5 : 1.0;
        if (fam == 14) { int q = n <= 8 ? 128 : 1024; d = (q / 4 + (double) r.below(q)) / q; }      // sums without rounding
        if (fam == 13) d = r.chance(0.35) ? 0.1 + 0.05 * r.unit() : 0.9 + 0.4 * r.unit();
        if (d < 1e-6) d = 1e-3 + 1e-3 * r.unit();
        I.W[i * n + j] = I.W[j * n + i] = d;
    }
    if (g.scale && r.chance(g.scale)) {      // the unit is not the side of the square
        static const double S[] = {3, 20, 100, 1000, 1e4, 1e6, 1e40};
        double f = S[r.below(g.noties ? 6 : 7)];
        for (auto &w : I.W) w *= f;
    }
    if (!deep && r.chance(g.incomplete)) {
        int how = r.chance(g.sparse) ? 6 + (int) r.below(2) : (int) r.below(7);
        if (how >= 6) { // a random cycle and a few chords; 7: the cycle may then lose an edge
            vector<int> t(n); for (int i = 0; i < n; i++) t[i] = i;
            for (int i = n - 1; i > 0; i--) std::swap(t[i], t[r.below(i + 1)]);
            vector<char> in(n * n, 0);
            int lost = how == 7 && r.chance(0.5) ? (int) r.below(n) : -1;
            for (int i = 0; i < n; i++) if (i != lost) { int a = t[i], b = t[(i + 1) % n]; in[a * n + b] = in[b * n + a] = 1; }
            for (int k = (int) r.below(how == 7 ? n + 4 : n / 2 + 2); k > 0; k--) { int a = (int) r.below(n), b = (int) r.below(n); if (a != b) in[a * n + b] = in[b * n + a] = 1; }
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!in[i * n + j]) I.W[i * n + j] = I.W[j * n + i] = 0;
        } else if (how == 0) { double q = 0.1 + 0.6 * r.unit(); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.chance(q)) I.W[i * n + j] = I.W[j * n + i] = 0; }
        else if (how == 1) { // two components joined by few edges
            int cut = (int) r.range(1, n - 1); int keep = (int) r.below(4);
            for (int i = 0; i < cut; i++) for (int j = cut; j < n; j++) if (keep > 0 && r.chance(0.3)) keep--; else I.W[i * n + j] = I.W[j * n + i] = 0;
        } else if (how == 2) { // a random cycle and a few chords
            vector<int> t(n); for (int i = 0; i < n; i++) t[i] = i;
            for (int i = n - 1; i > 0; i--) std::swap(t[i], t[r.below(i + 1)]);
            vector<char> in(n * n, 0);
            for (int i = 0; i < n; i++) { int a = t[i], b = t[(i + 1) % n]; in[a * n + b] = in[b * n + a] = 1; }
            double q = 0.35 * r.unit();
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!in[i * n + j] && !r.chance(q)) I.W[i * n + j] = I.W[j * n + i] = 0;
        } else if (how == 3) { // bipartite, maybe unbalanced
            int cut = (int) r.range(n / 2 - 1, n / 2 + 1); if (cut < 1) cut = 1;
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if ((i < cut) == (j < cut)) I.W[i * n + j] = I.W[j * n + i] = 0;
        } else if (how == 4) { // one city loses edges
            int v = (int) r.below(n), left = (int) r.below(4);
            for (int j = 0; j < n; j++) if (j != v) { if (left > 0 && r.chance(0.5)) left--; else I.W[v * n + j] = I.W[j * n + v] = 0; }
        } else { // an articulation city
            int cut = (int) r.range(1, n - 2 > 0 ? n - 2 : 1);
            for (int i = 0; i < cut; i++) for (int j = cut + 1; j < n; j++) I.W[i * n + j] = I.W[j * n + i] = 0;
        }
    }
    int pf = (int) r.below(g.noties ? 3 : 8);
    vector<int> t = greedy_opt(I, r);
    vector<char> in(n * n, 0);
    for (int i = 0; i < n; i++) { int a = t[i], b = t[(i + 1) % n]; in[a * n + b] = in[b * n + a] = 1; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        double p = r.unit();
        switch (pf) {
            case 1: p = in[i * n + j] ? 0.9 + 0.1 * p : 0.1 * p; break;
            case 2: p = std::exp(-30 * p); break;
            case 3: p = in[i * n + j] ? 1 : 0; break;
            case 4: p = 0; break;
            case 5: p = std::floor(p * 5) / 4; if (p > 1) p = 1; break;
            case 6: p = in[i * n + j] ? 0.05 * p : 0.5 + 0.5 * p; break;
            case 7: p = p < 0.5 ? 1e-12 * p : 1 - 1e-9 * p; break;
            default: break;
        }
        if (p > 1) p = 1;
        I.P[i * n + j] = p;
        I.P[j * n + i] = p;
    }
    if (!g.symp && r.chance(0.3)) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) I.P[i * n + j] = r.unit();
    return I;
}

// ================================================================ environments
static void neutral(Rng &r, Env &e) {       // what must not matter
    static const int poison[] = {0x00, 0xA5, 0xFF, 0x01, 0x3F, 0x7F};
    if (r.chance(0.7)) { e.hpoison = poison[r.below(6)]; }
    if (r.chance(0.5)) e.spoison = poison[r.below(3)];
    if (r.chance(0.4)) e.rchunk = r.range(1, r.chance(0.5) ? 7 : 300);
    if (r.chance(0.4)) { static const i64 b[] = {0, 1, 17, 64, 333, 1024, 65536}; e.obuf = b[r.below(7)]; }
    if (r.chance(0.3)) e.oshort = r.range(1, 90);
    if (r.chance(0.4)) e.wseed = r.next() | 1;
    if (r.chance(0.5)) e.c0 = r.chance(0.3) ? 0 : (i64) r.below(1ull << r.range(8, 42));
}
static i64 big_jump(Rng &r) {
    switch (r.below(6)) {
        case 0: return LIMIT + 1000000;
        case 1: return LIMIT + 1000000 + (i64) r.below(5000000);
        case 2: return 2200000000ll + (i64) r.below(4000000000ull);
        case 3: return (i64) r.below(1ull << 43) + 2 * LIMIT;
        default: return LIMIT + 1000000 + (i64) r.below(100000000000ull);
    }
}
static void slow_clock(Rng &r, Env &e, const Outcome &ref) {   // time passes, the limit is not reached
    i64 room = LIMIT - 2000000;
    switch (r.below(5)) {
        case 0: e.tick = room / (ref.reads + 4); break;
        case 1: e.atick = room / (ref.aseq + 4); break;
        case 2: e.jumps.push_back({r.range(1, ref.reads), LIMIT - 100000}); break;
        case 3: e.tick = 1 + (i64) r.below(room / (2 * ref.reads + 8)); e.atick = 1 + (i64) r.below(room / (2 * ref.aseq + 8)); break;
        default: e.jumps.push_back({1, big_jump(r)}); break;      // before the start: does not count
    }
}
static i64 pick_read(Rng &r, const Outcome &ref) {
    i64 R = std::max<i64>(2, ref.reads);
    switch (r.below(5)) {
        case 0: return std::min<i64>(R, r.range(2, 4 + MAXV));
        case 1: return std::max<i64>(2, R - (i64) r.below(6));
        default: return r.range(2, R);
    }
}
static void stop(Rng &r, Env &e, const Outcome &ref) {         // the limit passes somewhere
    switch (r.below(8)) {
        case 0: e.ajumps.push_back({r.range(1, std::max<i64>(1, ref.aseq)), big_jump(r)}); break;
        case 1: { i64 k = pick_read(r, ref); e.tick = (LIMIT + 1000000) / std::max<i64>(1, k - 1) + 1; break; }
        case 2: { i64 k = r.range(1, std::max<i64>(1, ref.aseq)); e.atick = (LIMIT + 1000000) / k + 1; break; }
        case 3: { i64 a = pick_read(r, ref), b = pick_read(r, ref); e.jumps.push_back({a, LIMIT / 2 + 1000000}); e.jumps.push_back({b, LIMIT / 2 + 1000000}); break; }
        default: e.jumps.push_back({pick_read(r, ref), big_jump(r)}); break;
    }
}
static void tear(Rng &r, string &s) {
    if (s.empty()) return;
    auto lines = [&]() { vector<size_t> b{0}; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n' && i + 1 < s.size()) b.push_back(i + 1); return b; };
    auto line_end = [&](size_t b) { size_t e = s.find('\n', b); return e == string::npos ? s.size() : e + 1; };
    switch (r.below(12)) {
        case 0: case 1: s.resize(r.below(s.size())); break;                                        // cut
        case 2: { auto b = lines(); size_t k = b[r.below(b.size())]; s.resize(r.chance(0.5) ? k : line_end(k) - 1); break; }  // cut at a line
        case 3: { size_t k = s.find_first_of(";)", r.below(s.size())); if (k != string::npos) s.resize(k + r.below(2)); break; } // cut at a pair
        case 4: { auto b = lines(); size_t k = b[r.below(b.size())]; s.erase(k, line_end(k) - k); break; }                    // lost line
        case 5: { auto b = lines(); size_t k = b[1 % b.size()]; if (b.size() > 1) k = b[1 + r.below(b.size() - 1)]; string l = s.substr(k, line_end(k) - k); s.insert(k, l); break; } // doubled line
        case 6: { size_t a = r.below(s.size()), k = std::min<size_t>(s.size() - a, 1 + r.below(r.chance(0.5) ? 8 : 600)); std::fill(s.begin() + a, s.begin() + a + k, '\0'); break; } // lost blocks read as zeros
        case 7: { size_t a = r.below(s.size()), k = std::min<size_t>(s.size() - a, 1 + r.below(r.chance(0.5) ? 12 : 400)); s.erase(a, k); break; }  // lost bytes
        case 8: { size_t k = s.find(';', r.below(s.size())); if (k == string::npos) break; size_t e = s.find_first_of(";\n", k + 1); if (e == string::npos) break; s.erase(k, e - k); break; } // lost pair
        case 9: { size_t k = s.find('(', r.below(s.size())); if (k == string::npos) break; size_t e = s.find_first_of(";\n", k); if (e == string::npos) break; s.insert(k, s.substr(k, e - k) + ";"); break; } // doubled pair
        case 10: { size_t k = r.below(s.size()); static const char junk[] = "x#\x01\xff()\n;"; s[k] = junk[r.below(sizeof junk - 1)]; break; }  // damaged byte
        default: { size_t a = r.below(s.size()); s += s.substr(a, 1 + r.below(200)); break; }      // leftovers of an earlier, longer file
    }
}

typedef std::function<void(Rng &, Case &)> Gen;
typedef std::function<Verdict(const Case &)> Eval;
static int small() { return std::min(MAXV, 9); }
static const Outcome ref_run(Rng &r, const Case &c) { Env e; e.deep = g_deep; return run(c.input, e); }

static void gen_tours(Rng &r, Case &c, double incomplete, bool symp, bool noties, int stops) {
    GenOpt g; g.incomplete = incomplete; g.symp = symp; g.noties = noties;
    if (MAXV > 14) g.nmin = 8;
    c.input = inst_text(gen_inst(r, g));
    Env a; neutral(r, a);
    c.envs.push_back(a);
    const Outcome ref = ref_run(r, c);
    for (int i = 0; i < stops; i++) {
        Env e; neutral(r, e); stop(r, e, ref);
        if (r.chance(0.08)) { e.jumps.clear(); e.ajumps.clear(); e.tick = e.atick = 0; e.cfail.push_back(pick_read(r, ref)); }
        c.envs.push_back(e);
    }
}
static void gen_C01(Rng &r, Case &c) { gen_tours(r, c, 0.35, false, false, 4); }
static void gen_C02(Rng &r, Case &c) { gen_tours(r, c, 0.25, true, false, 4); }
static void gen_C03(Rng &r, Case &c) {
    gen_tours(r, c, 0.2, false, false, 1);
    const Outcome ref = ref_run(r, c);
    Env e; neutral(r, e); slow_clock(r, e, ref); c.envs.push_back(e);
    Env f; neutral(r, f); f.jumps.push_back({std::max<i64>(2, ref.reads - (i64) r.below(3)), big_jump(r)}); c.envs.push_back(f);
}
static void gen_C04(Rng &r, Case &c) {
    GenOpt g; g.nmax = MAXV; g.incomplete = 0.1;
    c.input = inst_text(gen_inst(r, g));
    const Outcome ref = ref_run(r, c);
    i64 j = big_jump(r);
    auto at = [&](i64 k) { Env e; e.jumps.push_back({k, j}); c.envs.push_back(e); };
    auto ata = [&](i64 k) { Env e; e.ajumps.push_back({k, j}); c.envs.push_back(e); };
    if (ref.reads <= 60) for (i64 k = 1; k <= ref.reads; k++) at(k);
    else { for (i64 k = 1; k <= 4; k++) at(k); for (int w = 0; w < 4; w++) { i64 b = pick_read(r, ref); for (i64 k = b; k < b + 6 && k <= ref.reads; k++) at(k); } }
    for (int w = 0; w < 3; w++) { i64 b = r.range(1, std::max<i64>(1, ref.aseq)); for (i64 k = b; k < b + 3 && k <= ref.aseq; k++) ata(k); }
    for (int w = 0; w < 4; w++) { Env e; neutral(r, e); slow_clock(r, e, ref); c.envs.push_back(e); }
    for (int w = 0; w < 2; w++) { Env e; neutral(r, e); stop(r, e, ref); c.envs.push_back(e); }
}
static void gen_C05(Rng &r, Case &c) {
    GenOpt g; g.incomplete = 0.15; g.deep = 0.01;
    c.input = inst_text(gen_inst(r, g));
    const Outcome ref = ref_run(r, c);
    for (int i = 0; i < 4; i++) { Env e; neutral(r, e); e.jumps.push_back({std::max<i64>(1, ref.reads - i), big_jump(r)}); c.envs.push_back(e); }
    for (int i = 0; i < 4; i++) { Env e; neutral(r, e); stop(r, e, ref); c.envs.push_back(e); }
    for (int i = 0; i < 2; i++) { Env e; neutral(r, e); slow_clock(r, e, ref); c.envs.push_back(e); }
    { Env e; e.cfail.push_back(pick_read(r, ref)); c.envs.push_back(e); }
    { Env e; neutral(r, e); e.ajumps.push_back({ref.aseq, big_jump(r)}); c.envs.push_back(e); }
}
static void gen_C06(Rng &r, Case &c) {
    gen_tours(r, c, 0, true, true, 3);
    Env e; neutral(r, e); e.jumps.push_back({2, big_jump(r)}); c.envs.push_back(e);
}
static void gen_C07(Rng &r, Case &c) {
    GenOpt g; g.incomplete = 0.25; g.symp = false;
    c.input = inst_text(gen_inst(r, g));
    c.envs.push_back(Env());
    const Outcome ref = ref_run(r, c);
    for (int i = 0; i < 3; i++) { Env e; neutral(r, e); e.hpoison = i == 0 ? 0 : i == 1 ? 0xff : 0x40; e.spoison = i == 0 ? 0 : 0xff; if (i) slow_clock(r, e, ref); c.envs.push_back(e); }
    for (int i = 0; i < 5; i++) { Env e; neutral(r, e); stop(r, e, ref); c.envs.push_back(e); }
}
static void gen_C08(Rng &r, Case &c) {
    GenOpt g; g.nmax = small() + 1; g.full = 0.3; g.deep = 0;
    Inst I = gen_inst(r, g);
    c.input = inst_text(I);
    int mode = (int) r.below(10);
    if (mode == 0) { // more cities than the build allows
        if (MAXV < 60) {
            int n = MAXV + 1 + (int) r.below(3);
            Inst J; J.n = n; J.style = (int) r.below(2); J.xy.resize(n); J.W.assign(n * n, 0); J.P.assign(n * n, 0);
            for (int i = 0; i < n; i++) J.xy[i] = {r.unit(), r.unit()};
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) J.W[i * n + j] = J.W[j * n + i] = std::hypot(J.xy[i].first - J.xy[j].first, J.xy[i].second - J.xy[j].second) + 1e-4;
            c.input = inst_text(J);
        }
    } else if (mode < 8) { tear(r, c.input); if (r.chance(0.15)) tear(r, c.input); }
    for (int i = 0; i < 2; i++) {
        Env e; neutral(r, e); e.wseed = 0;
        if (mode >= 8 || (mode == 7 && i == 1)) {
            static const int er[] = {5, 12, 28, 116, 21};
            if (r.chance(0.2)) e.iopen_errno = r.chance(0.5) ? 2 : 13;
            else if (r.chance(0.85)) { e.rerr_off = r.chance(0.2) ? (i64) c.input.size() : r.chance(0.4) ? (i64) (c.input.find('\n', r.below(c.input.size() + 1)) + 1) : (i64) r.below(c.input.size() + 1); e.rerrno = er[r.below(5)]; }
        }
        c.envs.push_back(e);
    }
}
static void gen_C09(Rng &r, Case &c) {
    GenOpt g; g.nmax = small(); g.incomplete = 0.05; g.full = 0.3; g.deep = 0;
    c.input = inst_text(gen_inst(r, g));
    const Outcome ref = ref_run(r, c);
    i64 L = std::max<i64>(1, (i64) ref.out.size());
    for (int i = 0; i < 6; i++) {
        Env e; neutral(r, e);
        if (r.chance(0.25)) stop(r, e, ref);
        if (r.chance(0.4)) e.prior = 1 + (int) r.below(2);
        static const int er[] = {28, 5, 122, 27, 116};
        e.werrno = er[r.below(5)];
        switch (r.below(8)) {
            case 0: e.oopen_errno = r.chance(0.5) ? 13 : 28; break;
            case 1: e.oclose_errno = r.chance(0.5) ? 5 : 122; break;
            case 2: e.capacity = (i64) r.below(L + 1); break;
            case 3: e.werr_off = (i64) r.below(L); break;
            case 4: e.werr_off = (i64) r.below(L); e.wonce = 1; break;
            case 5: e.werr_off = L - 1 - (i64) r.below(std::min<i64>(L, 40)); e.wonce = (int) r.below(2); break;
            case 6: e.capacity = L - (i64) r.below(3); break;
            default: break;
        }
        c.envs.push_back(e);
    }
}
static void gen_C10(Rng &r, Case &c) {
    GenOpt g; g.nmax = small(); g.incomplete = 0.1; g.full = 0.3; g.deep = 0;
    c.input = inst_text(gen_inst(r, g));
    if (r.chance(0.1)) tear(r, c.input);
    Env base; 
    const Outcome ref = ref_run(r, c);
    i64 N = std::max<i64>(1, ref.nalloc);
    for (int i = 0; i < 10; i++) {
        Env e; neutral(r, e);
        if (r.chance(0.2)) stop(r, e, ref);
        switch (r.below(6)) {
            case 0: e.afail_from = r.range(1, std::min<i64>(N, 12)); break;
            case 1: e.afail_from = r.range(1, N); break;
            case 2: e.alimit = r.range(64, 40000 + 3000 * MAXV); break;
            case 3: e.afail.push_back(r.range(1, std::min<i64>(N, 40))); break;
            case 4: e.afail.push_back(std::max<i64>(1, N - (i64) r.below(8))); break;
            default: e.afail.push_back(r.range(1, N)); break;
        }
        c.envs.push_back(e);
    }
}
static void gen_C11(Rng &r, Case &c) {
    GenOpt g; g.incomplete = 0.45; g.deep = 0; g.symp = false; g.full = 0.6;
    if (MAXV >= 50) { g.nmin = 3; }
    c.input = inst_text(gen_inst(r, g));
    if (MAXV >= 50) { // one step of the search only: the point is the size of the frames
        for (int i = 0; i < 2; i++) { Env e; neutral(r, e); e.spoison = 0xA5; e.rchunk = 0; e.jumps.push_back({MAXV + 3 + 3 * i, big_jump(r)}); c.envs.push_back(e); }
        return;
    }
    const Outcome ref = ref_run(r, c);
    if (r.chance(0.25)) { tear(r, c.input); if (r.chance(0.3)) tear(r, c.input); }
    else if (r.chance(0.1)) { size_t k = r.below(c.input.size()); static const char *bad[] = {"nan", "-1", "1e999", "inf", "-0.5", "1e-320", "1e308", "-nan", "9e99", "1e-300"}; size_t b = c.input.find('(', k), e = c.input.find(',', b); if (b != string::npos && e != string::npos) c.input.replace(b + 1, e - b - 1, bad[r.below(10)]); }
    int k = 3;
    for (int i = 0; i < k; i++) {
        Env e; neutral(r, e);
        if (r.chance(0.4)) stop(r, e, ref);
        if (r.chance(0.1)) e.cfail.push_back(pick_read(r, ref));
        if (r.chance(0.12)) e.afail.push_back(r.range(1, std::max<i64>(1, ref.nalloc)));
        if (r.chance(0.08)) e.rerr_off = (i64) r.below(c.input.size() + 1);
        if (r.chance(0.05)) e.werr_off = (i64) r.below(600);
        if (r.chance(0.03)) e.oopen_errno = 13;
        if (r.chance(0.03)) e.iopen_errno = 2;
        c.envs.push_back(e);
    }
}
static void gen_C12(Rng &r, Case &c) {
    GenOpt g; g.incomplete = 0.25; g.symp = false;
    c.input = inst_text(gen_inst(r, g));
    const Outcome ref = ref_run(r, c);
    c.envs.push_back(Env());
    for (int i = 0; i < 4; i++) {
        Env e; neutral(r, e); stop(r, e, ref);
        if (r.chance(0.1)) e.cfail.push_back(pick_read(r, ref));
        c.envs.push_back(e);
    }
}
static void gen_C13(Rng &r, Case &c) {
    GenOpt g; g.incomplete = 0.95; g.deep = 0; g.symp = false; g.sparse = 0.65; g.full = 0.75;
    c.input = inst_text(gen_inst(r, g));
    Env a; neutral(r, a); c.envs.push_back(a);
    const Outcome ref = ref_run(r, c);
    Env s; neutral(r, s); slow_clock(r, s, ref); c.envs.push_back(s);
    { Env e; neutral(r, e); e.jumps.push_back({2, big_jump(r)}); c.envs.push_back(e); }
    for (int i = 0; i < 3; i++) { Env e; neutral(r, e); stop(r, e, ref); c.envs.push_back(e); }
}
static void gen_C14(Rng &r, Case &c) {
    GenOpt g; g.deep = 0; g.incomplete = 0.1; g.symp = false;
    c.input = inst_text(gen_inst(r, g));
    const Outcome ref = ref_run(r, c);
    for (int i = 0; i < 5; i++) {
        Env e; neutral(r, e);
        if (i == 0) { e.obuf = 0; e.oshort = 0; e.tick = 1000 + (i64) r.below(100000); e.atick = 1 + (i64) r.below(2000); if (e.tick * (ref.reads + 4) + e.atick * ref.aseq > LIMIT / 2) { e.tick = LIMIT / 8 / (ref.reads + 4); e.atick = LIMIT / 8 / (ref.aseq + 1); } }
        else if (i == 1) { slow_clock(r, e, ref); }
        else if (i == 2) { stop(r, e, ref); e.tick += (i64) r.below(3000); }
        else if (i == 3) { e.obuf = 1; e.tick = 1 + (i64) r.below(200); e.atick = 1 + (i64) r.below(50); }
        else { stop(r, e, ref); e.atick += 1 + (i64) r.below(500); e.wseed = r.next() | 1; }
        c.envs.push_back(e);
    }
}
static void gen_C15(Rng &r, Case &c) { gen_tours(r, c, 0.2, true, r.chance(0.3), 3); Env e; neutral(r, e); e.jumps.push_back({2, big_jump(r)}); c.envs.push_back(e); }
static void gen_C16(Rng &r, Case &c) { gen_tours(r, c, 0, true, false, 1); Env e; neutral(r, e); slow_clock(r, e, ref_run(r, c)); c.envs.push_back(e); }
static void gen_C18(Rng &r, Case &c) { gen_tours(r, c, 0.25, true, false, 1); }
// the same distances with other coordinates and, in classic mode, other probabilities
static string other_input(const Case &c) {
    Matrix m = read_matrix(c.input);
    Rng r(c.seed ^ 0x7717);
    Inst I; I.n = m.n; I.style = 0; I.xy = m.xy; I.W = m.W; I.P = m.P;
    int how = (int) r.below(4);
    for (auto &x : I.xy) { if (how == 0) x = {0, 0}; else if (how == 1) x = {x.second, x.first}; else x = {r.unit() * (how == 2 ? 1 : 1e4), r.unit()}; }
    if (!HYB) for (int i = 0; i < m.n; i++) for (int j = i + 1; j < m.n; j++) { double p = how == 0 ? 0 : how == 1 ? 1 : r.unit(); I.P[i * m.n + j] = I.P[j * m.n + i] = p; }
    return inst_text(I);
}
static void gen_C17(Rng &r, Case &c) {
    gen_tours(r, c, 0.3, true, false, 0);
    const Outcome ref = ref_run(r, c);
    for (int i = 0; i < 3; i++) {
        Env e; neutral(r, e);
        if (i) e.jumps.push_back({pick_read(r, ref), big_jump(r)});
        c.envs.push_back(e);
    }
}

#include "lib_checks.h"

struct Check { const char *id; Gen gen; Eval eval; };
static const vector<Check> checks = {
    {"C01", gen_C01, eval_C01}, {"C02", gen_C02, eval_C02}, {"C03", gen_C03, eval_C03}, {"C04", gen_C04, eval_C04},
    {"C05", gen_C05, eval_C05}, {"C06", gen_C06, eval_C06}, {"C07", gen_C07, eval_C07}, {"C08", gen_C08, eval_C08},
    {"C09", gen_C09, eval_C09}, {"C10", gen_C10, eval_C10}, {"C11", gen_C11, eval_C11}, {"C12", gen_C12, eval_C12},
    {"C13", gen_C13, eval_C13}, {"C14", gen_C14, eval_C14},
    {"C15", gen_C15, eval_C15}, {"C16", gen_C16, eval_C16}, {"C17", gen_C17, eval_C17}, {"C18", gen_C18, eval_C18},
    {"L01", gen_L01, eval_L01}, {"L02", gen_L02, eval_L02}, {"L03", gen_L03, eval_L03}, {"L04", gen_L04, eval_L04}, {"L05", gen_L05, eval_L05},
    {"L06", gen_L06, eval_L06}, {"L07", gen_L07, eval_L07}, {"L08", gen_L08, eval_L08}, {"L09", gen_L09, eval_L09}};
static const Check *find_check(const string &id) { for (auto &c : checks) if (id == c.id) return &c; return nullptr; }

static u64 case_hash(const Case &c) {      // of all event histories of the case
    u64 h = 7;
    for (auto &e : c.envs) h = mix(h, run(c.input, e).hash);
    return h;
}

// ================================================================ minimisation
static string rows_to_text(const Matrix &m, const vector<int> &keep, const vector<double> &W, const vector<double> &P) {
    Inst I; I.n = (int) keep.size(); I.style = 0;
    for (int k : keep) I.xy.push_back(m.xy[k]);
    for (int a : keep) for (int b : keep) { I.W.push_back(W[a * m.n + b]); I.P.push_back(P[a * m.n + b]); }
    return inst_text(I);
}
static Case minimise(const Check &k, Case c, const string &cls, double budget) {
    auto t0 = std::chrono::steady_clock::now();
    auto late = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
    auto still = [&](const Case &x) { return k.eval(x).cls == cls; };
    // an ordinary search rather than a long one
    if (std::any_of(c.envs.begin(), c.envs.end(), [](const Env &e) { return e.deep > 0; })) { Case x = c; for (auto &e : x.envs) e.deep = 0; if (still(x)) c = x; }
    const bool lengthy = std::any_of(c.envs.begin(), c.envs.end(), [](const Env &e) { return e.deep > 0; });
    // fewer runs
    size_t first = string(k.id) == "C07" ? 1 : 0;
    for (bool go = true; go && !late();) {
        go = false;
        for (size_t n = std::max<size_t>(1, c.envs.size() / 2); n >= 1 && !late(); n /= 2) {
            for (size_t i = first; i < c.envs.size() && c.envs.size() > n && !late();) {
                Case x = c;
                size_t m = std::min(n, x.envs.size() - i);
                x.envs.erase(x.envs.begin() + i, x.envs.begin() + i + m);
                if (!x.envs.empty() && still(x)) { c = x; go = true; } else i += n;
            }
            if (n == 1) break;
        }
    }
    // shorter history
    if (c.input.compare(0, 5, "!lib ") == 0) {
        vector<string> l;
        { std::istringstream t(c.input); string x; while (std::getline(t, x)) l.push_back(x + "\n"); }
        auto text = [&](const vector<string> &v) { string t; for (auto &x : v) t += x; return t; };
        for (size_t n = std::max<size_t>(1, l.size() / 2); n >= 1 && !late(); n /= 2)
            for (size_t i = 1; i < l.size() && !late();) {
                vector<string> x(l);
                x.erase(x.begin() + i, x.begin() + std::min(l.size(), i + n));
                Case y = c; y.input = text(x);
                if (still(y)) { l = x; c = y; } else i += n;
            }
    }
    // smaller instance
    for (bool go = !lengthy; go && !late();) {
        go = false;
        Matrix m = read_matrix(c.input);
        if (m.cls != Matrix::WELL || c.input[0] == '!') break;
        for (int d = m.n - 1; d >= 0 && m.n > 3 && !late(); d--) {
            vector<int> keep; for (int i = 0; i < m.n; i++) if (i != d) keep.push_back(i);
            Case x = c; x.input = rows_to_text(m, keep, m.W, m.P);
            if (still(x)) { c = x; go = true; break; }
        }
        if (go) continue;
        vector<int> all; for (int i = 0; i < m.n; i++) all.push_back(i);
        vector<double> Z(m.n * m.n, 0);
        bool zero = true; for (double p : m.P) if (p != 0) zero = false;
        if (!zero) { Case x = c; x.input = rows_to_text(m, all, m.W, Z); if (still(x)) { c = x; m = read_matrix(c.input); } }
        for (double q : {10.0, 100.0, 1000.0, 1e4}) {
            vector<double> R(m.W); for (auto &w : R) w = std::round(w * q) / q;
            if (R == m.W) break;
            Case x = c; x.input = rows_to_text(m, all, R, m.P);
            if (read_matrix(x.input).cls == Matrix::WELL && still(x)) { c = x; break; }
        }
        break;
    }
    if (c.input[0] != '!' && read_matrix(c.input).cls != Matrix::WELL) { // torn file: shorten
        for (size_t n = c.input.size() / 2; n >= 1 && !late(); n /= 2)
            for (size_t i = 0; i < c.input.size() && !late();) { Case x = c; x.input.erase(i, n); if (still(x)) c = x; else i += n; }
    }
    // fewer faults
    static const Env d;
    for (size_t i = 0; i < c.envs.size() && !late(); i++) {
        auto attempt = [&](std::function<void(Env &)> f) { Case x = c; f(x.envs[i]); if (env_text(x.envs[i]) != env_text(c.envs[i]) && !late() && still(x)) c = x; };
#define RESET(f) attempt([](Env &e) { e.f = d.f; });
        RESET(wseed) RESET(hpoison) RESET(spoison) RESET(rchunk) RESET(obuf) RESET(oshort) RESET(c0) RESET(tick) RESET(atick) RESET(prior)
        RESET(cfail) RESET(jumps) RESET(ajumps) RESET(afail) RESET(afail_from) RESET(alimit) RESET(rerr_off) RESET(rerrno) RESET(iopen_errno) RESET(iclose_errno)
        RESET(werr_off) RESET(werrno) RESET(wonce) RESET(capacity) RESET(oopen_errno) RESET(oclose_errno)
        for (size_t j = 0; j < c.envs[i].jumps.size();) { size_t b = c.envs[i].jumps.size(); attempt([j](Env &e) { e.jumps.erase(e.jumps.begin() + j); }); if (c.envs[i].jumps.size() == b) j++; }
        attempt([](Env &e) { for (auto &j : e.jumps) j.second = j.second > LIMIT ? LIMIT + 1000000 : j.second; });
    }
    return c;
}

// ================================================================ files
static string case_text(const Case &c, const Verdict &v, u64 hash) {
    std::ostringstream o;
    o << "csim-replay 1\ncheck " << c.check << "\nconfig " << CONFIG << "\nseed " << c.seed << "\nclass " << v.cls << "\nhash " << hash << "\n";
    std::istringstream d(v.detail); string l;
    while (std::getline(d, l)) o << "# " << l << "\n";
    for (auto &e : c.envs) o << "run " << env_text(e) << "\n";
    o << "input " << c.input.size() << "\n" << c.input;
    return o.str();
}
static bool load(const char *path, Case &c, string &cls, u64 &hash) {
    FILE *f = fopen(path, "rb");
    if (!f) return false;
    string s; char b[65536]; size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f);
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == string::npos) return false;
        string l = s.substr(p, e - p);
        p = e + 1;
        if (l.compare(0, 6, "check ") == 0) c.check = l.substr(6);
        else if (l.compare(0, 6, "class ") == 0) cls = l.substr(6);
        else if (l.compare(0, 5, "hash ") == 0) hash = strtoull(l.c_str() + 5, nullptr, 10);
        else if (l.compare(0, 5, "seed ") == 0) c.seed = strtoull(l.c_str() + 5, nullptr, 10);
        else if (l.compare(0, 3, "run") == 0) c.envs.push_back(env_parse(l.size() > 4 ? l.substr(4) : ""));
        else if (l.compare(0, 6, "input ") == 0) { c.input = s.substr(p, atoll(l.c_str() + 6)); return true; }
    }
    return false;
}
static string json_str(const string &s) {
    string o = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; }
    return o + "\"";
}

int main(int argc, char **argv) {
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        Case c; string cls; u64 h = 0;
        if (!load(argv[2], c, cls, h)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        const Check *k = find_check(c.check);
        if (!k) return 3;
        Verdict v = k->eval(c);
        u64 now = case_hash(c);
        printf("REPLAY property=%s class=%s hash=%llu same_class=%d same_hash=%d\n%s\n", c.check.c_str(), v ? v.cls.c_str() : "none", (unsigned long long) now, v.cls == cls, now == h, v.detail.c_str());
        if (argc > 3 && !strcmp(argv[3], "-v")) for (auto &e : c.envs) { const Outcome &o = run(c.input, e); printf("--- run [%s]: %s, %lld clock reads, %lld allocation events\n%s%s%s\n", env_text(e).c_str(), o.end().c_str(), (long long) o.reads, (long long) o.aseq, o.out.c_str(), o.err.c_str(), o.con.c_str()); }
        return v ? 1 : 0;
    }
    // csim solve <matrix> <report> <environment>: one simulated run on real files, for the simulation of the driver
    if (argc == 5 && !strcmp(argv[1], "solve")) {
        Env e = env_parse(argv[4]);
        string s; char b[65536]; size_t k;
        FILE *f = fopen(argv[2], "rb");
        if (!f) e.iopen_errno = errno; else { while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); }
        Outcome o = sim_run(s, e);
        if (o.out_exists && !e.oopen_errno) {
            f = fopen(argv[3], "wb");
            if (!f || fwrite(o.out.data(), 1, o.out.size(), f) != o.out.size() || fclose(f)) return 3;
        }
        printf("{\"kind\": %d, \"status\": %d, \"hash\": \"%016llx\", \"us\": %lld, \"end\": %s, \"fired\": [", o.kind, o.status, (unsigned long long) o.hash, (long long) o.elapsed, json_str(o.end()).c_str());
        bool any = false;
        for (int i = 0; i < F_N; i++) if (o.fired[i]) { printf("%s%s", any ? ", " : "", json_str(fault_names[i]).c_str()); any = true; }
        printf("]}\n");
        return 0;
    }
    // csim run <check> <seed> <from> <to> <replay dir> <stats file> <seconds>
    if (argc < 9 || strcmp(argv[1], "run")) { fprintf(stderr, "usage\n"); return 3; }
    const Check *k = find_check(argv[2]);
    if (!k) return 3;
    u64 seed = strtoull(argv[3], nullptr, 10);
    i64 from = atoll(argv[4]), to = atoll(argv[5]);
    string dir = argv[6];
    double limit = atof(argv[8]);
    auto t0 = std::chrono::steady_clock::now();
    auto since = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    i64 done = 0;
    string found, sample;
    u64 cfgh = hash_bytes(0xcbf29ce484222325ull, CONFIG, strlen(CONFIG)), all = 0;
    u64 ckh = hash_bytes(0xcbf29ce484222325ull, argv[2], strlen(argv[2]));
    for (i64 i = from; i < to && since() < limit; i++) {
        Case c;
        c.check = k->id;
        c.seed = mix(mix(mix(seed, ckh), cfgh), (u64) i);
        Rng r(c.seed);
        g_deep = 0;
        k->gen(r, c);
        if (g_deep) {
            if (c.envs.size() > 5) c.envs.erase(c.envs.begin() + 2, c.envs.end() - 3);
            for (auto &e : c.envs) e.deep = g_deep;
        }
        Verdict v = k->eval(c);
        if (!v && getenv("CSIM_EVAL")) { v = find_check(getenv("CSIM_EVAL"))->eval(c); if (v) { fprintf(stderr, "case %lld: %s %s\n%s\n", (long long) i, v.cls.c_str(), v.detail.c_str(), case_text(c, v, 0).c_str()); return 9; } }
        u64 hash = 0;
        if (getenv("CSIM_LOG") || i == from) hash = case_hash(c);
        if (getenv("CSIM_LOG")) { all = mix(all, hash); printf("%s %s %lld %016llx\n", k->id, CONFIG, (long long) i, (unsigned long long) hash); }
        if (sample.empty() && !c.envs.empty()) sample = fmt("case %lld of config %s: %s", (long long) i, CONFIG, c.input.substr(0, 400).c_str()) + " | runs: " + [&] { string s; for (auto &e : c.envs) s += "{" + env_text(e) + "} "; return s.substr(0, 700); }();
        done++;
        if (v) {
            // the same seed again must give the same violation and the same histories
            u64 h1 = case_hash(c);
            memo.clear();
            Verdict v2 = k->eval(c);
            if (v2.cls != v.cls || case_hash(c) != h1) { fprintf(stderr, "not reproducible: case %lld (%s / %s)\n", (long long) i, v.cls.c_str(), v2.cls.c_str()); return 5; }
            Case m = minimise(*k, c, v.cls, 25);
            memo.clear();
            Verdict w = k->eval(m);
            if (w.cls != v.cls) { fprintf(stderr, "minimised case does not fail\n"); return 5; }
            string path = dir + "/" + k->id + "-" + CONFIG + fmt("-%llx.replay", (unsigned long long) c.seed);
            string text = case_text(m, w, case_hash(m));
            FILE *f = fopen(path.c_str(), "wb");
            if (!f) { perror(path.c_str()); return 3; }
            fwrite(text.data(), 1, text.size(), f);
            fclose(f);
            found = path;
            fprintf(stderr, "%s: %s\n%s\n", k->id, w.cls.c_str(), w.detail.c_str());
            break;
        }
    }
    FILE *f = fopen(argv[7], "w");
    if (!f) { perror(argv[7]); return 3; }
    fprintf(f, "{\"config\": %s, \"cases\": %lld, \"asked\": %lld, \"runs\": %lld, \"nontrivial\": %lld, \"sim_us\": %lld, \"wall\": %.3f, \"violation\": %s, \"sample\": %s, \"fired\": {", json_str(CONFIG).c_str(),
            (long long) done, (long long) (to - from), (long long) total_runs, (long long) nontrivial, (long long) sim_time, since(), json_str(found).c_str(), json_str(sample).c_str());
    for (int i = 0; i < F_N; i++) fprintf(f, "%s%s: [%lld, %lld]", i ? ", " : "", json_str(fault_names[i]).c_str(), (long long) fired_total[i], (long long) fired_runs[i]);
    static const char *kinds[] = {"none", "exit", "abort", "signal", "heap", "event cap", "hang", "sanitizer", "memory cap", "lost"};
    fprintf(f, "}, \"ends\": {");
    for (int i = 1; i < 10; i++) fprintf(f, "%s%s: %lld", i > 1 ? ", " : "", json_str(kinds[i]).c_str(), (long long) ends[i]);
    fprintf(f, "}, \"hashes\": [");
    bool firsth = true;
    for (u64 h : nontrivial_hashes) { fprintf(f, "%s\"%llx\"", firsth ? "" : ",", (unsigned long long) h); firsth = false; }
    fprintf(f, "]}\n");
    fclose(f);
    return found.empty() ? 0 : 1;
}
