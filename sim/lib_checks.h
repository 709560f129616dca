// Properties L01..L09: histories of operations on the solver's building blocks (sim/lib.c executes them inside the simulation),
// against reference models. Included by checks.cc.
typedef vector<string> Words;
static vector<Words> lib_ops(const string &input, const char *what) {      // one operation per line
    vector<Words> v;
    string head = string("!lib ") + what + "\n";
    if (input.compare(0, head.size(), head)) return v;
    std::istringstream s(input.substr(head.size()));
    string l;
    while (std::getline(s, l)) { std::istringstream w(l); Words x; string t; while (w >> t) x.push_back(t); if (!x.empty()) v.push_back(x); }
    return v;
}
static vector<Words> answers(const string &out) {
    vector<Words> v;
    std::istringstream s(out); string l;
    while (std::getline(s, l)) { std::istringstream w(l); Words x; string t; while (w >> t) x.push_back(t); if (!x.empty()) v.push_back(x); }
    return v;
}
static bool arg(const Words &w, size_t i, i64 *v, i64 lo, i64 hi) { if (i >= w.size()) return false; char *e; *v = strtoll(w[i].c_str(), &e, 10); return !*e && *v >= lo && *v <= hi; }
static bool arg(const Words &w, size_t i, double *v) { if (i >= w.size()) return false; char *e; *v = strtod(w[i].c_str(), &e); return !*e && std::isfinite(*v); }
static string g17(double x) { return fmt("%.17g", x); }
static string lib_end(const Outcome &o) {
    string s = o.end();
    for (const char *k : {"ERROR: AddressSanitizer: ", "runtime error: "}) { size_t p = o.san.find(k); if (p != string::npos) s += " " + o.san.substr(p, o.san.find('\n', p) - p); }
    return s;
}
// what every history owes: it comes to its end, or says why not when an allocation or the file failed
static Verdict lib_ended(const Outcome &o, const Env &e, bool *judge) {
    *judge = false;
    bool mem = o.fired[F_ALLOC] || o.fired[F_ALIMIT], io = o.fired[F_READ_ERR] || o.fired[F_IOPEN] || o.fired[F_ICLOSE];
    if (o.kind != K_EXIT) return bad("history breaks off", lib_end(o) + " [" + env_text(e) + "]\n" + o.san.substr(0, 1200));
    if (mem || io) {
        bool finished = o.con.size() >= 5 && o.con.compare(o.con.size() - 5, 5, "done\n") == 0;
        if (o.status == 0 && !(finished && !mem && !o.fired[F_READ_ERR] && !o.fired[F_IOPEN])) return bad("fault passed over", "a failed allocation or read, and exit status 0 [" + env_text(e) + "]");
        if (o.status && o.err.empty() && o.con.empty()) return bad("silent end", "[" + env_text(e) + "]");
        return {};
    }
    if (o.status) return bad("history breaks off", fmt("exit status %d: ", o.status) + o.err.substr(0, 200) + " [" + env_text(e) + "]");
    *judge = true;
    return {};
}

// ---------------------------------------------------------------- L01: heap
static Verdict eval_L01(const Case &c) {
    auto ops = lib_ops(c.input, "heap");
    for (auto &w : ops) { i64 k; double v; if (w[0] != "x" && w[0] != "n" && ((w[0] != "i" && w[0] != "d") || !arg(w, 1, &k, 0, 2047) || !arg(w, 2, &v))) return {}; }
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        auto out = answers(o.con);
        std::map<i64, double> in;
        size_t a = 0;
        bool over = false;
        for (size_t i = 0; i < ops.size() && !over; i++) {
            auto &w = ops[i];
            i64 k; double v;
            if (w[0] == "i") { if (arg(w, 1, &k, 0, 2047) && arg(w, 2, &v) && !in.count(k)) in[k] = v; }
            else if (w[0] == "d") { if (arg(w, 1, &k, 0, 2047) && arg(w, 2, &v)) { auto j = in.find(k); if (j != in.end() && v <= j->second) j->second = v; } }
            else if (w[0] == "n") {
                if (a >= out.size() || out[a][0] == "done") { over = true; break; }
                if (out[a].size() != 2 || out[a][0] != "=") return bad("unreadable answer", o.con.substr(0, 300));
                if (atoll(out[a][1].c_str()) != (i64) in.size()) return bad("wrong number of nodes", fmt("operation %d: %s nodes, %d were put in and not taken out", (int) i + 1, out[a][1].c_str(), (int) in.size()) + " [" + env_text(e) + "]");
                a++;
            }
            else if (w[0] == "x") {
                if (a >= out.size() || out[a][0] == "done") { over = true; break; }
                if (out[a].size() != 2) return bad("unreadable answer", o.con.substr(0, 300));
                k = atoll(out[a][0].c_str());
                if (in.empty()) { if (k != -1) return bad("not the minimum", fmt("operation %d: extracts key %lld from an empty heap", (int) i + 1, (long long) k)); }
                else {
                    auto j = in.find(k);
                    if (j == in.end()) return bad("not the minimum", fmt("operation %d: extracts key %lld, which is not in the heap", (int) i + 1, (long long) k) + " [" + env_text(e) + "]");
                    for (auto &x : in) if (x.second < j->second) return bad("not the minimum", fmt("operation %d: extracts key %lld of value ", (int) i + 1, (long long) k) + g17(j->second) + fmt(", key %lld has ", (long long) x.first) + g17(x.second) + " [" + env_text(e) + "]");
                    in.erase(j);
                }
                if (atoll(out[a][1].c_str()) != (i64) in.size()) return bad("wrong number of nodes", fmt("operation %d: %s nodes are left, it should be %d", (int) i + 1, out[a][1].c_str(), (int) in.size()) + " [" + env_text(e) + "]");
                a++;
            }
        }
        bool judge;
        Verdict v = lib_ended(o, e, &judge);
        if (v) return v;
        if (judge && (over || a + 1 != out.size())) return bad("history breaks off", "answers missing [" + env_text(e) + "]");
    }
    return {};
}
// a Fibonacci heap of the generator's own, to steer histories towards unusual shapes; no oracle
struct Shape {
    struct Nd { double v; i64 parent; vector<i64> kids; bool mark; };
    std::map<i64, Nd> N;
    vector<i64> roots;
    string out;
    i64 count = 0;
    void insert(i64 k, double v) { N[k] = Nd{v, -1, {}, false}; roots.push_back(k); out += fmt("i %lld ", (long long) k) + g17(v) + "\n"; count++; }
    double lowest() { double m = 1e300; for (auto &x : N) m = std::min(m, x.second.v); return m; }
    i64 extract() {
        out += "x\n"; count++;
        i64 b = -1;
        for (i64 k : roots) if (b < 0 || N[k].v < N[b].v) b = k;
        if (b < 0) return -1;
        for (i64 k : N[b].kids) { N[k].parent = -1; N[k].mark = false; roots.push_back(k); }
        roots.erase(std::find(roots.begin(), roots.end(), b));
        N.erase(b);
        std::map<size_t, i64> deg;
        for (i64 k : roots) {
            i64 t = k;
            size_t d = N[t].kids.size();
            while (deg.count(d)) {
                i64 s = deg[d];
                deg.erase(d);
                if (N[t].v > N[s].v) std::swap(t, s);
                N[s].parent = t; N[s].mark = false; N[t].kids.push_back(s);
                d++;
            }
            deg[d] = t;
        }
        roots.clear();
        for (auto &x : deg) roots.push_back(x.second);
        return b;
    }
    void decrease(i64 k, double v) {
        out += fmt("d %lld ", (long long) k) + g17(v) + "\n"; count++;
        N[k].v = v;
        i64 p = N[k].parent;
        if (p >= 0 && v < N[p].v)
            for (i64 x = k; p >= 0; ) {
                auto &q = N[p].kids;
                q.erase(std::find(q.begin(), q.end(), x));
                N[x].parent = -1; N[x].mark = false; roots.push_back(x);
                if (N[p].parent < 0) break;
                if (!N[p].mark) { N[p].mark = true; break; }
                x = p; p = N[p].parent;
            }
    }
    void subtree(i64 k, vector<i64> &o) { o.push_back(k); for (i64 x : N[k].kids) subtree(x, o); }
    void prune(i64 k) {     // the whole tree below (and with) k leaves the heap
        vector<i64> s; subtree(k, s);
        double base = lowest() - (double) s.size() - 2;
        for (size_t i = 0; i < s.size(); i++) decrease(s[i], base + (double) i);
        for (size_t i = 0; i < s.size(); i++) extract();
    }
};
static double heap_value(Rng &r, int style) {
    switch (style) {
        case 0: return r.unit();
        case 1: return (double) r.below(4);
        case 2: return r.chance(0.6) ? 1.7976931348623157e308 : r.unit() * 10;
        case 3: return (r.unit() - 0.5) * std::pow(10, (double) (r.chance(0.2) ? r.range(-100, 100) : r.range(-12, 12)));
        default: return std::round(r.unit() * 30) / 10;
    }
}
static void gen_L01(Rng &r, Case &c) {
    Shape s;
    int kind = (int) r.below(10), style = (int) r.below(5);
    i64 next = 0;
    if (kind < 3) {                                   // one high tree, thinned as far as the marks allow, then used
        int k = (int) r.range(3, r.chance(0.25) ? 10 : 9);
        double keep = r.chance(0.6) ? 0 : r.unit() * 0.3;
        i64 n = (1ll << k) + 1;
        for (i64 i = 0; i < n; i++) s.insert(next++, (double) i + 0.5);
        s.extract();
        i64 root = -1;
        for (i64 x : s.roots) if (root < 0 || s.N[x].kids.size() > s.N[root].kids.size()) root = x;
        std::function<void(i64)> thin = [&](i64 v) {
            if (!s.N.count(v)) return;
            vector<i64> kids = s.N[v].kids;
            for (i64 q : kids) {
                if (!s.N.count(q) || s.N[q].parent != v) continue;
                i64 big = -1;
                for (i64 x : s.N[q].kids) if (big < 0 || s.N[x].kids.size() > s.N[big].kids.size()) big = x;
                if (big >= 0 && !r.chance(keep)) s.prune(big);
                thin(q);
            }
        };
        if (root >= 0) thin(root);
        for (int i = (int) r.below(4); i >= 0; i--) { s.insert(next++, s.lowest() - 1); if (r.chance(0.4)) s.insert(next++, s.lowest() + r.unit() * 50); s.extract(); s.out += "n\n"; }
        for (i64 i = r.chance(0.5) ? (i64) s.N.size() + 1 : (i64) r.below(20); i > 0; i--) { if (r.chance(0.1) && !s.N.empty()) { auto j = s.N.begin(); std::advance(j, r.below(s.N.size())); s.decrease(j->first, j->second.v - r.unit() * 20); } s.extract(); }
    } else if (kind < 6) {                            // as Prim's algorithm uses it
        i64 n = r.range(1, r.chance(0.3) ? 120 : 24);
        for (i64 i = 0; i < n; i++) s.insert(next++, i ? 1.7976931348623157e308 : 0);
        double p = r.unit();
        while (!s.N.empty()) {
            s.extract();
            for (auto &x : vector<pair<i64, double>>([&] { vector<pair<i64, double>> v; for (auto &y : s.N) v.push_back({y.first, y.second.v}); return v; }()))
                if (r.chance(p)) { double v = style == 2 ? r.unit() * 3 : heap_value(r, style); if (v < x.second) s.decrease(x.first, v); }
        }
        s.extract();
    } else {                                          // anything
        int len = (int) r.range(1, r.chance(0.3) ? 500 : 60);
        double pi = 0.15 + r.unit() * 0.6, pd = r.unit() * (1 - pi);
        if (r.chance(0.4)) for (i64 i = r.range(1, 130); i > 0; i--) s.insert(next++, heap_value(r, style));
        vector<i64> freed;
        for (int i = 0; i < len; i++) {
            double u = r.unit();
            if (u < pi && next < 2000) { if (!freed.empty() && r.chance(0.5)) { s.insert(freed.back(), heap_value(r, style)); freed.pop_back(); } else s.insert(next++, heap_value(r, style)); }
            else if (u < pi + pd && !s.N.empty()) {
                auto j = s.N.begin(); std::advance(j, r.below(s.N.size()));
                double v = j->second.v, d = r.chance(0.2) ? 0 : r.chance(0.3) ? 1e-9 : r.unit() * 2;
                if (v > 1e300) s.decrease(j->first, heap_value(r, 0)); else s.decrease(j->first, v - d);
            } else if (r.chance(0.1)) s.out += "n\n";
            else { i64 k = s.extract(); if (k >= 0) freed.push_back(k); }
        }
        if (r.chance(0.7)) while (!s.N.empty()) s.extract();
    }
    c.input = "!lib heap\n" + s.out;
    Env e; neutral(r, e); c.envs.push_back(e);
}

// ---------------------------------------------------------------- L02: list and iterator
static Verdict eval_list(const Case &c, const char *kind, bool wait) {
    auto ops = lib_ops(c.input, kind);
    bool have[4] = {false};
    vector<i64> l[4];
    string want;
    auto show = [&](i64 v) { return v > 0 ? fmt(" %lld", (long long) v) + (wait ? fmt(":%g", v / 8.0) : string()) : string(" -"); };
    for (auto &w : ops) {
        i64 k, v, i;
        if (!arg(w, 1, &k, 0, 3)) return {};
        auto &x = l[k];
        if (w[0] == "new") { if (have[k]) return {}; have[k] = true; x.clear(); }
        else if (w[0] == "del") { have[k] = false; x.clear(); }
        else if (w[0] == "ab") { if (!arg(w, 2, &v, 1, 1000000)) return {}; if (have[k]) x.push_back(v); }
        else if (w[0] == "ai") { if (!arg(w, 2, &v, 1, 1000000) || !arg(w, 3, &i, 0, 1000000)) return {}; if (have[k] && i <= (i64) x.size()) x.insert(x.begin() + i, v); }
        else if (w[0] == "set" && wait) { if (!arg(w, 2, &i, 0, 1000000) || !arg(w, 3, &v, 1, 1000000)) return {}; if (have[k] && i < (i64) x.size()) x[i] = v; }
        else if (w[0] == "db" && !wait) { if (have[k] && !x.empty()) x.pop_back(); }
        else if (w[0] == "di") { if (!arg(w, 2, &i, 0, 1000000)) return {}; if (have[k] && i < (i64) x.size()) x.erase(x.begin() + i); }
        else if (w[0] == "get") { if (!arg(w, 2, &i, 0, 1000000)) return {}; want += "g" + show(have[k] && i < (i64) x.size() ? x[i] : 0) + "\n"; }
        else if (w[0] == "size") want += fmt("s %d %d\n", (int) x.size(), (int) x.empty());
        else if (w[0] == "walk") {
            want += "w";
            i64 cap = 3000;
            for (size_t j = 0; j < x.size() && cap--; j++) {
                if (wait) { want += (cap % 3 ? "" : show(x[0])) + show(x[j]); continue; }
                want += show(x[j]);
                if (cap % 3 == 0) want += show(x[0]);
                if (cap % 2 == 0) want += show(x[j]);
            }
            want += show(0) + "\n";
        } else return {};
    }
    want += "done\n";
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        bool judge;
        Verdict v = lib_ended(o, e, &judge);
        if (v) return v;
        if (!judge) { if (want.compare(0, o.con.size(), o.con)) return bad("wrong content", "before the failed allocation: " + o.con.substr(0, 300)); continue; }
        if (wait && o.con == "done\n") continue;     // this version keeps its functions to itself
        if (o.con != want) {
            auto a = answers(o.con), b = answers(want);
            for (size_t i = 0; i < std::max(a.size(), b.size()); i++) if (i >= a.size() || i >= b.size() || a[i] != b[i]) {
                auto join = [](const vector<Words> &x, size_t i) { string s; if (i < x.size()) for (auto &t : x[i]) s += t + " "; return s.substr(0, 300); };
                return bad("wrong content", fmt("answer %d is: ", (int) i + 1) + join(a, i) + "\nit should be: " + join(b, i) + " [" + env_text(e) + "]");
            }
        }
        if (o.live) return bad("not released", fmt("%lld of %lld blocks", (long long) o.live, (long long) o.nalloc) + " [" + env_text(e) + "]");
    }
    return {};
}
static Verdict eval_L02(const Case &c) { return eval_list(c, "list", false); }
static Verdict eval_L08(const Case &c) { return eval_list(c, "wait", true); }
static void mem_faults(Rng &r, Case &c) {
    const Outcome ref = run(c.input, Env());
    for (int i = (int) r.below(4); i > 0 && ref.nalloc; i--) {
        Env e; neutral(r, e);
        if (r.chance(0.6)) e.afail.push_back(r.range(1, ref.nalloc)); else e.afail_from = r.range(1, ref.nalloc);
        c.envs.push_back(e);
    }
}
static void gen_list(Rng &r, Case &c, const char *kind, bool wait) {
    string s;
    int lists = (int) r.range(1, 3), len = (int) r.range(2, r.chance(0.2) ? 200 : 40);
    i64 size[4] = {0}, v = 1;
    bool have[4] = {false};
    double grow = 0.3 + 0.5 * r.unit();
    for (int i = 0; i < len; i++) {
        int k = (int) r.below(lists);
        if (!have[k]) { if (r.chance(0.9)) { s += fmt("new %d\n", k); have[k] = true; size[k] = 0; continue; } }
        i64 idx = r.chance(0.25) ? size[k] : r.chance(0.15) ? size[k] + (i64) r.below(3) : r.chance(0.2) ? std::max<i64>(0, size[k] - 1) : (i64) r.below(size[k] + 1);
        if (r.chance(0.35)) switch (r.below(4)) {
            case 0: s += fmt("get %d %lld\n", k, (long long) idx); break;
            case 1: s += fmt("size %d\n", k); break;
            default: s += fmt("walk %d\n", k);
        } else if (r.chance(grow)) {
            if (r.chance(0.5)) { s += fmt("ab %d %lld\n", k, (long long) v++); if (have[k]) size[k]++; }
            else { s += fmt("ai %d %lld %lld\n", k, (long long) v++, (long long) idx); if (have[k] && idx <= size[k]) size[k]++; }
        } else if (r.chance(0.05)) { s += fmt("del %d\n", k); have[k] = false; size[k] = 0; }
        else if (wait && r.chance(0.3)) s += fmt("set %d %lld %lld\n", k, (long long) idx, (long long) v++);
        else if (!wait && r.chance(0.5)) { s += fmt("db %d\n", k); if (have[k] && size[k]) size[k]--; }
        else { s += fmt("di %d %lld\n", k, (long long) idx); if (have[k] && idx < size[k]) size[k]--; }
    }
    for (int k = 0; k < lists; k++) s += fmt("walk %d\nsize %d\n", k, k);
    c.input = string("!lib ") + kind + "\n" + s;
    Env e; neutral(r, e); c.envs.push_back(e);
    mem_faults(r, c);
}
static void gen_L02(Rng &r, Case &c) { gen_list(r, c, "list", false); }
static void gen_L08(Rng &r, Case &c) { gen_list(r, c, "wait", true); }

// ---------------------------------------------------------------- L03: merge-find sets
static Verdict eval_L03(const Case &c) {
    auto ops = lib_ops(c.input, "sets");
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        auto out = answers(o.con);
        bool judge;
        Verdict v = lib_ended(o, e, &judge);
        vector<int> cls;
        std::map<int, i64> rep;
        i64 n = 0, hole = -1;
        size_t a = 0;
        for (size_t q = 0; q < ops.size(); q++) {
            auto &w = ops[q];
            i64 x, y;
            if (w[0] == "new" || w[0] == "cons") {
                if (!arg(w, 1, &n, 1, MAXV)) return {};
                hole = -1;
                if (w[0] == "cons" && !arg(w, 2, &hole, 0, n - 1)) return {};
                cls.clear(); rep.clear();
                for (i64 i = 0; i < n; i++) cls.push_back((int) i);
            } else if (w[0] == "m") {
                if (!arg(w, 1, &x, 0, n - 1) || !arg(w, 2, &y, 0, n - 1) || x == hole || y == hole) return {};
                int p = cls[x], t = cls[y];
                if (p != t) { for (auto &z : cls) if (z == t) z = p; rep.erase(p); rep.erase(t); }
            } else if (w[0] == "f") {
                if (!arg(w, 1, &x, 0, n - 1) || x == hole) return {};
                if (a >= out.size() || out[a][0] == "done") break;
                if (out[a].size() != 4) return bad("unreadable answer", o.con.substr(0, 300));
                i64 s = atoll(out[a][1].c_str()), node = atoll(out[a][2].c_str()), num = atoll(out[a][3].c_str());
                string at = fmt("operation %d: find %lld answers %lld (node %lld, number %lld)", (int) q + 1, (long long) x, (long long) s, (long long) node, (long long) num) + " [" + env_text(e) + "]";
                if (s < 0 || s >= n || s == hole || node != s || num != s) return bad("no set", at);
                if (cls[s] != cls[x]) return bad("wrong set", at + ", but the two were never merged");
                auto i = rep.find(cls[x]);
                if (i == rep.end()) rep[cls[x]] = s;
                else if (i->second != s) return bad("wrong set", at + fmt(", but for a member merged with it the answer was %lld", (long long) i->second));
                a++;
            } else return {};
        }
        if (v) return v;
        if (judge && a + 1 != out.size()) return bad("history breaks off", "answers missing [" + env_text(e) + "]");
    }
    return {};
}
static void gen_L03(Rng &r, Case &c) {
    string s;
    for (int t = (int) r.range(1, 2); t > 0; t--) {
        i64 n = r.chance(0.3) ? MAXV : r.range(1, MAXV), hole = -1;
        if (n > 1 && r.chance(0.4)) { hole = r.below(n); s += fmt("cons %lld %lld\n", (long long) n, (long long) hole); } else s += fmt("new %lld\n", (long long) n);
        auto any = [&]() { i64 x; do x = r.below(n); while (x == hole); return x; };
        int len = (int) r.below(3 * n + 2), style = (int) r.below(4);
        double pf = r.unit() * 0.6;
        i64 block = 1;
        for (int i = 0; i < len; i++) {
            if (r.chance(pf)) s += fmt("f %lld\n", (long long) any());
            i64 x = any(), y = any();
            if (style == 1) y = std::min<i64>(n - 1, x + 1);
            if (style == 2) { x = (i64) r.below(n) / (2 * block) * 2 * block; y = std::min(n - 1, x + block); if (r.chance(0.2)) block = block * 2 >= n ? 1 : block * 2; }
            if (style == 3) x = hole == 0 ? n - 1 : 0;
            if (x == hole || y == hole) continue;
            s += r.chance(0.5) ? fmt("m %lld %lld\n", (long long) x, (long long) y) : fmt("m %lld %lld\n", (long long) y, (long long) x);
        }
        for (i64 x = 0; x < n; x++) if (x != hole) s += fmt("f %lld\n", (long long) x);
    }
    c.input = "!lib sets\n" + s;
    Env e; neutral(r, e); c.envs.push_back(e);
}

// ---------------------------------------------------------------- L04: graphs and spanning trees
struct RefGraph { int n = 0; vector<pair<double, double>> xy; struct E { int a, b; double w, p; int sym; }; vector<E> es; double tolw = 0; };
static double ref_forest(const RefGraph &g, int *edges) {
    vector<int> id(g.es.size()), cls(g.n);
    for (size_t i = 0; i < id.size(); i++) id[i] = (int) i;
    std::sort(id.begin(), id.end(), [&](int x, int y) { return g.es[x].w < g.es[y].w; });
    for (int i = 0; i < g.n; i++) cls[i] = i;
    double cost = 0;
    *edges = 0;
    for (int i : id) { int p = cls[g.es[i].a], q = cls[g.es[i].b]; if (p == q) continue; for (auto &z : cls) if (z == q) z = p; cost += g.es[i].w; ++*edges; }
    return cost;
}
static bool close_to(double x, double y, double t) { return std::fabs(x - y) <= t; }
// reads the answer of "show"; returns what is wrong with it
static string check_shown(const vector<Words> &out, size_t &a, const RefGraph &g, bool sorted, bool strict) {
    if (a >= out.size() || out[a][0] != "G" || out[a].size() != 4) return "no graph is shown";
    double cost = 0, mag = 0;
    for (auto &x : g.es) { cost += x.w; mag += std::fabs(x.w); }
    if (atoi(out[a][1].c_str()) != g.n || atoi(out[a][2].c_str()) != (int) g.es.size()) return fmt("%s cities and %s edges, it should be %d and %d", out[a][1].c_str(), out[a][2].c_str(), g.n, (int) g.es.size());
    double tw = g.tolw;
    if (!close_to(atof(out[a][3].c_str()), cost, 1e-11 * mag + tw * g.es.size() + 1e-300)) return "cost " + out[a][3] + ", the edges sum to " + g17(cost);
    a++;
    vector<std::set<int>> nb(g.n);
    for (auto &x : g.es) { nb[x.a].insert(x.b); nb[x.b].insert(x.a); }
    for (int i = 0; i < g.n; i++, a++) {
        if (a >= out.size() || out[a][0] != "N" || out[a].size() < 5) return "a city is missing";
        auto &w = out[a];
        double mx = std::fabs(g.xy[i].first), my = std::fabs(g.xy[i].second);
        if (atoi(w[1].c_str()) != i || !close_to(atof(w[2].c_str()), g.xy[i].first, strict ? 0 : 1e-6 * mx + 1e-37) || !close_to(atof(w[3].c_str()), g.xy[i].second, strict ? 0 : 1e-6 * my + 1e-37))
            return fmt("city %d is shown as number %s at ", i, w[1].c_str()) + w[2] + ", " + w[3] + ", it should be at " + g17(g.xy[i].first) + ", " + g17(g.xy[i].second);
        std::set<int> s;
        for (size_t j = 5; j < w.size(); j++) s.insert(atoi(w[j].c_str()));
        if (s != nb[i] || atoi(w[4].c_str()) != (int) nb[i].size() || w.size() - 5 != nb[i].size()) return fmt("the neighbours of city %d are wrong", i);
    }
    vector<char> used(g.es.size(), 0);
    std::map<pair<int, int>, int> byends;
    for (size_t i = 0; i < g.es.size(); i++) byends[{std::min(g.es[i].a, g.es[i].b), std::max(g.es[i].a, g.es[i].b)}] = (int) i;
    double last = 0, lastp = 0;
    for (size_t i = 0; i < g.es.size(); i++, a++) {
        if (a >= out.size() || out[a][0] != "E" || out[a].size() != 7) return "an edge is missing";
        auto &w = out[a];
        int x = atoi(w[1].c_str()), y = atoi(w[2].c_str());
        auto j = byends.find({std::min(x, y), std::max(x, y)});
        if (j == byends.end() || used[j->second]) return fmt("edge %d - %d is not of the graph, or is shown twice", x, y);
        used[j->second] = 1;
        auto &r = g.es[j->second];
        double wt = atof(w[3].c_str()), p = atof(w[4].c_str());
        if (!close_to(wt, r.w, tw) || p != r.p) return fmt("edge %d - %d has weight ", x, y) + w[3] + " and probability " + w[4] + ", it should be " + g17(r.w) + " and " + g17(r.p);
        if (r.sym >= 0 && atoi(w[5].c_str()) != r.sym) return fmt("edge %d - %d has symbol %s, it should be %d", x, y, w[5].c_str(), r.sym);
        if (w[6] != "1") return fmt("edge %d - %d differs between the list of edges and the matrix", x, y);
        if (sorted && i && wt < last) return fmt("edge %d - %d of weight ", x, y) + w[3] + " comes after one of " + g17(last);
        (void) lastp;
        last = wt; lastp = p;
    }
    return "";
}
static string check_tree(const vector<Words> &out, size_t &a, const RefGraph &g, const char *name) {
    if (a >= out.size() || out[a][0] != name || out[a].size() != 6) return string("no answer of ") + name;
    int want;
    double best = ref_forest(g, &want), mag = 0;
    for (auto &x : g.es) mag += std::fabs(x.w);
    bool valid = out[a][1] == "1";
    int m = atoi(out[a][3].c_str());
    double cost = atof(out[a][4].c_str()), prob = atof(out[a][5].c_str());
    string at = string(name) + ": ";
    if (valid != (want == g.n - 1)) return at + (valid ? "a spanning tree of a graph in several parts" : "no spanning tree, but the graph is connected");
    if (atoi(out[a][2].c_str()) != g.n) return at + "wrong number of cities";
    if (m > g.n - 1) return at + fmt("%d edges for %d cities", m, g.n);
    a++;
    vector<int> cls(g.n);
    for (int i = 0; i < g.n; i++) cls[i] = i;
    double sum = 0, psum = 0;
    vector<std::multiset<int>> nb(g.n);
    for (int i = 0; i < m; i++, a++) {
        if (a >= out.size() || out[a][0] != "e" || out[a].size() != 7) return at + "an edge is missing";
        auto &w = out[a];
        int x = atoi(w[1].c_str()), y = atoi(w[2].c_str());
        const RefGraph::E *r = nullptr;
        for (auto &q : g.es) if ((q.a == x && q.b == y) || (q.a == y && q.b == x)) r = &q;
        if (!r) return at + fmt("edge %d - %d is not of the graph", x, y);
        if (!close_to(atof(w[3].c_str()), r->w, g.tolw) || atof(w[4].c_str()) != r->p) return at + fmt("edge %d - %d has weight ", x, y) + w[3] + " and probability " + w[4] + ", in the graph " + g17(r->w) + " and " + g17(r->p);
        if (w[6] != "1") return at + fmt("edge %d - %d is not found in the tree's own matrix", x, y);
        int p = cls[x], q = cls[y];
        if (p == q) return at + fmt("edge %d - %d closes a cycle", x, y);
        for (auto &z : cls) if (z == q) z = p;
        sum += r->w; psum += r->p;
        nb[x].insert(y); nb[y].insert(x);
    }
    for (int i = 0; i < g.n; i++, a++) {
        if (a >= out.size() || out[a][0] != "v") return at + "a city is missing";
        std::multiset<int> s;
        for (size_t j = 2; j < out[a].size(); j++) s.insert(atoi(out[a][j].c_str()));
        if (s != nb[i] || atoi(out[a][1].c_str()) != (int) s.size()) return at + fmt("the neighbours of city %d in the tree are wrong", i);
    }
    double t = 1e-11 * mag + 2 * g.tolw * g.n + 1e-300;
    if (!close_to(cost, sum, t)) return at + "cost " + g17(cost) + ", its edges sum to " + g17(sum);
    if (valid && sum > best + t) return at + "not minimal: cost " + g17(sum) + ", but a tree of cost " + g17(best) + " exists";
    double wantp = HYB && m ? psum / m : 0;
    if (!close_to(prob, wantp, 1e-5)) return at + "probability " + g17(prob) + ", the mean of its edges is " + g17(wantp);
    return "";
}
static Verdict eval_L04(const Case &c) {
    auto ops = lib_ops(c.input, "graph");
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        bool judge;
        Verdict v = lib_ended(o, e, &judge);
        RefGraph g;
        bool built = false, sorted = false, strict = true;
        auto out = answers(o.con);
        size_t a = 0;
        std::set<pair<int, int>> have;
        string what;
        for (auto &w : ops) {
            if (w[0] == "n") { double x, y; if (built || g.n >= MAXV || !arg(w, 1, &x) || !arg(w, 2, &y)) return {}; g.xy.push_back({x, y}); g.n++; }
            else if (w[0] == "e") {
                i64 x, y; double q, p;
                if (built || !arg(w, 1, &x, 0, g.n - 1) || !arg(w, 2, &y, 0, g.n - 1) || x == y || !arg(w, 3, &q) || !arg(w, 4, &p)) return {};
                if (!have.insert({(int) std::min(x, y), (int) std::max(x, y)}).second) return {};
                g.es.push_back({(int) x, (int) y, q, p, (int) g.es.size() + 1});
            } else if (w[0] == "graph" || w[0] == "euc") {
                if (built || g.n < 1) return {};
                built = true;
                if (w[0] == "euc") {
                    if (!g.es.empty()) return {};
                    double mag = 0;
                    for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) {
                        double d = std::hypot(g.xy[i].first - g.xy[j].first, g.xy[i].second - g.xy[j].second);
                        mag = std::max(mag, d);
                        g.es.push_back({i, j, d, 0, (int) g.es.size() + 1});
                    }
                    g.tolw = 4e-7 * mag + 1e-37;
                }
            } else if (!built) return {};
            else if (w[0] == "sort") { sorted = true; if (judge && what.empty()) { if (a >= out.size() || out[a][0] != "sorted") what = "no answer of sort"; else a++; } }
            else if (w[0] == "show") { if (judge && what.empty()) what = check_shown(out, a, g, sorted, strict); }
            else if (w[0] == "prim" || w[0] == "kruskal") { if (w[0] == "kruskal") sorted = true; if (judge && what.empty()) what = check_tree(out, a, g, w[0].c_str()); }
            else return {};
        }
        if (v) return v;
        if (!what.empty()) return bad("wrong graph or tree", what + " [" + env_text(e) + "]");
        if (judge && o.live) return bad("not released", fmt("%lld of %lld blocks", (long long) o.live, (long long) o.nalloc) + " [" + env_text(e) + "]");
    }
    return {};
}
static void gen_L04(Rng &r, Case &c) {
    string s;
    int n = (int) (r.chance(0.1) ? 1 : r.range(1, std::min(MAXV, r.chance(0.6) ? 12 : r.chance(0.5) ? 30 : 100)));
    int style = (int) r.below(6);
    double size = r.chance(0.5) ? 1e6 : std::pow(10, (double) r.range(-15, 30));
    auto coord = [&]() { return style == 1 ? (double) r.below(4) : style == 2 ? std::round(r.unit() * 1e4) / 10 : style == 3 ? (r.unit() - 0.5) * size : r.unit(); };
    vector<pair<double, double>> xy;
    for (int i = 0; i < n; i++) { double x = coord(), y = coord(); xy.push_back({x, y}); s += "n " + g17(x) + " " + g17(y) + "\n"; }
    bool euc = r.chance(0.3) && n <= 40;
    if (!euc) {
        double dens = r.chance(0.3) ? 1 : r.chance(0.3) ? 1.5 / n : r.unit();
        if (n > 40) dens = std::min(dens, 8.0 / n);
        vector<string> lines;
        int wstyle = (int) r.below(7);
        vector<int> part(n);
        bool parts = r.chance(0.2), far = r.chance(0.4);
        for (auto &x : part) x = parts ? (int) r.below(2) : 0;
        vector<pair<int, int>> es;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (part[i] == part[j] && r.chance(dens)) es.push_back({i, j});
        if (!parts && r.chance(0.6)) { // connect
            std::set<pair<int, int>> h(es.begin(), es.end());
            for (int i = 1; i < n; i++) { int j = (int) r.below(i); if (r.chance(0.3)) j = i - 1; if (h.insert({j, i}).second) es.push_back({j, i}); }
        }
        for (size_t i = es.size(); i > 1; i--) if (r.chance(0.8)) std::swap(es[i - 1], es[r.below(i)]);
        double up = 0;
        for (auto &x : es) {
            double w;
            switch (wstyle) {
                case 0: w = std::hypot(xy[x.first].first - xy[x.second].first, xy[x.first].second - xy[x.second].second); break;
                case 1: w = (double) r.below(3); break;
                case 2: w = r.unit() - 0.5; break;
                case 3: w = (r.unit() - 0.3) * std::pow(10, (double) (far ? r.range(30, 90) : r.range(-9, 9))); break;
                case 4: w = up += r.unit() * 0.1; break;
                case 5: w = 1 + 1e-12 * (double) r.below(50); break;
                default: w = r.unit();
            }
            double p = r.chance(0.3) ? 0 : r.chance(0.2) ? 1 : std::round(r.unit() * 8) / 8;
            bool flip = r.chance(0.3);
            s += fmt("e %d %d ", flip ? x.second : x.first, flip ? x.first : x.second) + g17(w) + " " + g17(p) + "\n";
        }
    }
    s += euc ? "euc\n" : "graph\n";
    static const char *const orders[] = {"show\nprim\nkruskal\nshow\nprim\n", "kruskal\nshow\nprim\n", "prim\nshow\n", "sort\nshow\nkruskal\nprim\nshow\n", "kruskal\nkruskal\nprim\n", "sort\nsort\nprim\nshow\n"};
    s += orders[r.below(6)];
    c.input = "!lib graph\n" + s;
    Env e; neutral(r, e); c.envs.push_back(e);
    if (r.chance(0.3)) mem_faults(r, c);
}

// ---------------------------------------------------------------- L05: TSPLIB files
struct TspLib { enum Cls { WELL, BROKEN, UNCLEAR } cls; string why; RefGraph g; };
static string trim(string s) {
    while (!s.empty() && isspace((unsigned char) s.back())) s.pop_back();
    size_t i = 0;
    while (i < s.size() && isspace((unsigned char) s[i])) i++;
    return s.substr(i);
}
static TspLib read_tsplib(const string &text) {
    TspLib t;
    auto broken = [&](const string &w) { if (t.cls != TspLib::BROKEN) { t.cls = TspLib::BROKEN; t.why = w; } };
    auto unclear = [&]() { if (t.cls == TspLib::WELL) t.cls = TspLib::UNCLEAR; };
    t.cls = TspLib::WELL;
    vector<string> lines;
    { std::istringstream s(text); string l; while (std::getline(s, l)) lines.push_back(l); }
    if (text.find('\0') != string::npos) { unclear(); return t; }
    if (!text.empty() && text.back() != '\n') unclear();
    size_t i = 0;
    i64 dim = -1;
    int types = 0, dims = 0;
    bool section = false, euc = true;
    for (; i < lines.size(); i++) {
        string l = trim(lines[i]);
        if (l == "NODE_COORD_SECTION") { section = true; i++; break; }
        if (l.find("NODE_COORD_SECTION") != string::npos) { unclear(); return t; }
        size_t k = l.find(':');
        if (k == string::npos) { unclear(); continue; }
        string key = trim(l.substr(0, k)), val = trim(l.substr(k + 1));
        if (key == "EDGE_WEIGHT_TYPE") { types++; if (val != "EUC_2D") { euc = false; static const char *const other[] = {"EXPLICIT", "EUC_3D", "MAX_2D", "MAN_2D", "CEIL_2D", "GEO", "ATT", "XRAY1", "SPECIAL"}; bool known = false; for (auto x : other) known |= val == x; if (!known) unclear(); } }
        else if (key == "DIMENSION") { dims++; char *q; dim = strtoll(val.c_str(), &q, 10); if (*q || val.empty() || dim < 1) { unclear(); dim = -1; } }
        else if (key.find("EDGE_WEIGHT_TYPE") != string::npos || key.find("DIMENSION") != string::npos) unclear();
        else if (key.empty() || key.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ_") != string::npos) unclear();
    }
    if (types > 1 || dims > 1) unclear();
    if (!section) { broken("no NODE_COORD_SECTION"); return t; }
    if (types == 1 && !euc && t.cls == TspLib::WELL) { broken("distances are not EUC_2D"); return t; }
    if (types != 1 || dims != 1 || dim < 0) { unclear(); return t; }
    bool eof = false;
    i64 cities = 0;
    for (; i < lines.size(); i++) {
        string l = trim(lines[i]);
        if (l == "EOF") { eof = true; i++; break; }
        int id, end = 0; double x, y;
        if (sscanf(l.c_str(), "%d %lf %lf%n", &id, &x, &y, &end) < 3) {
            bool words = l.empty() || l.find("EOF") != string::npos;
            if (words) { unclear(); return t; }
            broken("line \"" + l.substr(0, 40) + "\" is no city");
            return t;
        }
        if (end != (int) l.size() || id < 0 || id > 65535 || !std::isfinite(x) || !std::isfinite(y) || std::fabs(x) > 1e30 || std::fabs(y) > 1e30 || l.find_first_of("xXnN(") != string::npos) unclear();
        if (cities < MAXV) t.g.xy.push_back({x, y});
        cities++;
    }
    if (t.cls == TspLib::WELL && cities != dim) { broken(fmt("DIMENSION is %lld, and there are %lld cities", (long long) dim, (long long) cities)); return t; }
    if (t.cls == TspLib::WELL && cities > MAXV) { broken(fmt("%lld cities, the program is built for %d", (long long) cities, MAXV)); return t; }
    if (!eof) unclear();
    if (i < lines.size()) for (; i < lines.size(); i++) if (!trim(lines[i]).empty()) unclear();
    t.g.n = (int) std::min<i64>(cities, MAXV);
    double mag = 0;
    for (auto &p : t.g.xy) mag = std::max({mag, std::fabs(p.first), std::fabs(p.second)});
    for (int a = 0; a < t.g.n; a++) for (int b = a + 1; b < t.g.n; b++)
        t.g.es.push_back({a, b, std::hypot(t.g.xy[a].first - t.g.xy[b].first, t.g.xy[a].second - t.g.xy[b].second), 0, (int) t.g.es.size() + 1});
    t.g.tolw = 1e-6 * mag + 1e-37;
    return t;
}
static Verdict eval_L05(const Case &c) {
    static const string head = "!lib tsp\n";
    if (c.input.compare(0, head.size(), head)) return {};
    TspLib t = read_tsplib(c.input.substr(head.size()));
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        bool judge;
        bool hurt = o.fired[F_READ_ERR] || o.fired[F_IOPEN] || o.fired[F_ICLOSE] || o.fired[F_ALLOC] || o.fired[F_ALIMIT];
        if (!hurt && o.kind == K_EXIT && o.status && t.cls != TspLib::WELL) { if (o.con.find("done\n") != string::npos || answers(o.con).size() > 60) return bad("bad file not refused", "[" + env_text(e) + "]"); continue; }
        Verdict v = lib_ended(o, e, &judge);
        if (v) return v;
        if (!judge) continue;
        if (t.cls == TspLib::UNCLEAR) continue;
        if (t.cls == TspLib::BROKEN) return bad("bad file not refused", t.why + ", and it was read [" + env_text(e) + "]");
        auto out = answers(o.con);
        size_t a = 0;
        string what = check_shown(out, a, t.g, false, false);
        if (what.empty()) what = check_tree(out, a, t.g, "prim");
        if (what.empty()) what = check_tree(out, a, t.g, "kruskal");
        if (what.empty()) what = check_shown(out, a, t.g, true, false);
        if (!what.empty()) return bad("file read wrong", what + " [" + env_text(e) + "]");
        if (o.live) return bad("not released", fmt("%lld of %lld blocks", (long long) o.live, (long long) o.nalloc) + " [" + env_text(e) + "]");
        if (o.open_files) return bad("not released", fmt("%lld files are open", (long long) o.open_files) + " [" + env_text(e) + "]");
    }
    return {};
}
static void gen_L05(Rng &r, Case &c) {
    int n = (int) (r.chance(0.15) ? MAXV : r.chance(0.1) ? MAXV + (int) r.range(1, 4) : r.range(1, std::min(MAXV, 24)));
    int style = (int) r.below(6);
    double size = std::pow(10, (double) r.range(-15, 30));
    int idstyle = r.chance(0.6) ? 0 : (int) r.below(3) + 1;
    bool tight = r.chance(0.5);
    auto key = [&](const char *k) { return string(k) + (tight ? ": " : " : "); };
    vector<string> head = {key("NAME") + "sim", key("TYPE") + "TSP"};
    if (r.chance(0.5)) head.push_back(key("COMMENT") + "drawn by the simulator");
    head.push_back(key("DIMENSION") + std::to_string(n));
    static const char *const types[] = {"EXPLICIT", "EUC_3D", "MAX_2D", "MAN_2D", "CEIL_2D", "GEO", "ATT", "XRAY1", "SPECIAL"};
    bool euc = r.chance(0.85);
    head.push_back(key("EDGE_WEIGHT_TYPE") + (euc ? "EUC_2D" : types[r.below(9)]));
    if (r.chance(0.2)) head.push_back(key("NODE_COORD_TYPE") + "TWOD_COORDS");
    if (r.chance(0.3)) for (size_t i = head.size(); i > 1; i--) std::swap(head[i - 1], head[r.below(i)]);
    string s;
    for (auto &h : head) s += h + "\n";
    s += "NODE_COORD_SECTION\n";
    for (int i = 0; i < n; i++) {
        double x = r.unit() * 1000, y = r.unit() * 1000;
        int id = idstyle == 0 ? i + 1 : idstyle == 1 ? i : idstyle == 2 ? n - i : (int) r.below(60000);
        switch (style) {
            case 0: s += fmt("%d %d %d\n", id, (int) x, (int) y); break;
            case 1: s += fmt("%d %.1f %.1f\n", id, x, y); break;
            case 2: s += fmt("%d %.5e %.5e\n", id, x * 10, y * 10); break;
            case 3: s += fmt("%5d  %9.3f   %9.3f \n", id, x - 500, y - 500); break;
            case 4: s += fmt("%d %.7g %.7g\n", id, r.unit() * size, (r.unit() - 0.5) * size); break;
            default: s += fmt("%d %d %d\n", id, (int) x % 4, (int) y % 4);
        }
    }
    s += "EOF\n";
    if (r.chance(0.35)) { if (r.chance(0.5)) s.resize(r.below(s.size())); else tear(r, s); }
    else if (r.chance(0.1)) { size_t p = s.find("DIMENSION"); p = s.find(std::to_string(n), p); s.replace(p, std::to_string(n).size(), std::to_string(n + (r.chance(0.5) ? 1 : -1))); }
    c.input = "!lib tsp\n" + s;
    Env e; neutral(r, e); c.envs.push_back(e);
    for (int i = (int) r.below(3); i > 0; i--) {
        Env f; neutral(r, f);
        switch (r.below(4)) {
            case 0: f.rerr_off = r.below(s.size() + 2); f.rerrno = r.chance(0.5) ? 5 : 21; break;
            case 1: f.iopen_errno = r.chance(0.5) ? 13 : 24; break;
            case 2: f.iclose_errno = 5; break;
            default: f.rchunk = r.range(1, 9);
        }
        c.envs.push_back(f);
    }
    if (r.chance(0.3)) mem_faults(r, c);
}

// ---------------------------------------------------------------- L06, L07: one-trees under constraints, and what is inferred from them
struct Sub {
    RefGraph g;
    int cand = -1;
    vector<char> at;        // '.', 'm' or 'f' for every pair
    char &pair(int a, int b) { return at[(size_t) std::min(a, b) * g.n + std::max(a, b)]; }
};
static double pair_weight(const RefGraph &g, int a, int b) { for (auto &x : g.es) if ((x.a == a && x.b == b) || (x.a == b && x.b == a)) return x.w; return INFINITY; }
// reads a tree; returns what is wrong with it apart from its weight
static string read_tree(const vector<Words> &out, size_t &a, Sub &s, const char *name, bool *valid, double *sum, vector<pair<int, int>> *es) {
    if (a >= out.size() || out[a][0] != name || out[a].size() != 6) return string("no answer of ") + name;
    const RefGraph &g = s.g;
    *valid = out[a][1] == "1";
    int m = atoi(out[a][3].c_str());
    double cost = atof(out[a][4].c_str()), prob = atof(out[a][5].c_str()), psum = 0, mag = 0;
    string at = string(name) + ": ";
    if (atoi(out[a][2].c_str()) != g.n) return at + "wrong number of cities";
    if (m > g.n) return at + fmt("%d edges for %d cities", m, g.n);
    a++;
    vector<std::multiset<int>> nb(g.n);
    std::set<pair<int, int>> seen;
    *sum = 0;
    for (int i = 0; i < m; i++, a++) {
        if (a >= out.size() || out[a][0] != "e" || out[a].size() != 7) return at + "an edge is missing";
        auto &w = out[a];
        int x = atoi(w[1].c_str()), y = atoi(w[2].c_str());
        const RefGraph::E *r = nullptr;
        for (auto &q : g.es) if ((q.a == x && q.b == y) || (q.a == y && q.b == x)) r = &q;
        if (!r) return at + fmt("edge %d - %d is not of the graph", x, y);
        if (!seen.insert({std::min(x, y), std::max(x, y)}).second) return at + fmt("edge %d - %d comes twice", x, y);
        if (atof(w[3].c_str()) != r->w || atof(w[4].c_str()) != r->p) return at + fmt("edge %d - %d has weight ", x, y) + w[3] + " and probability " + w[4] + ", in the graph " + g17(r->w) + " and " + g17(r->p);
        if (w[6] != "1") return at + fmt("edge %d - %d is not found in the tree's own matrix", x, y);
        if (s.pair(x, y) == 'f') return at + fmt("the forbidden edge %d - %d is in it", x, y);
        *sum += r->w; psum += r->p; mag += std::fabs(r->w);
        nb[x].insert(y); nb[y].insert(x);
        es->push_back({x, y});
    }
    for (int i = 0; i < g.n; i++, a++) {
        if (a >= out.size() || out[a][0] != "v") return at + "a city is missing";
        std::multiset<int> t;
        for (size_t j = 2; j < out[a].size(); j++) t.insert(atoi(out[a][j].c_str()));
        if (t != nb[i] || atoi(out[a][1].c_str()) != (int) t.size()) return at + fmt("the neighbours of city %d in the tree are wrong", i);
    }
    if (!close_to(cost, *sum, 1e-11 * mag + 1e-300)) return at + "cost " + g17(cost) + ", its edges sum to " + g17(*sum);
    double wantp = HYB && m ? psum / m : 0;
    if (!close_to(prob, wantp, 1e-5)) return at + "probability " + g17(prob) + ", the mean of its edges is " + g17(wantp);
    return "";
}
// the answer of prim or kruskal and of what completes it to a one-tree
static string check_onetree(const vector<Words> &out, size_t &a, Sub &s, const char *name, bool *one, vector<pair<int, int>> *tree) {
    const RefGraph &g = s.g;
    *one = false;
    bool valid;
    double sum, mag = 0;
    vector<pair<int, int>> es;
    string what = read_tree(out, a, s, name, &valid, &sum, &es);
    if (!what.empty()) return what;
    string at = string(name) + ": ";
    for (auto &x : g.es) mag += std::fabs(x.w);
    // mandatory edges first, then by weight
    vector<int> id, cls(g.n), mine(g.n);
    for (size_t i = 0; i < g.es.size(); i++) if (g.es[i].a != s.cand && g.es[i].b != s.cand && s.pair(g.es[i].a, g.es[i].b) != 'f') id.push_back((int) i);
    auto mandatory = [&](int i) { return s.pair(g.es[i].a, g.es[i].b) == 'm'; };
    std::sort(id.begin(), id.end(), [&](int x, int y) { if (mandatory(x) != mandatory(y)) return mandatory(x); return g.es[x].w < g.es[y].w; });
    for (int i = 0; i < g.n; i++) cls[i] = mine[i] = i;
    double best = 0;
    int want = 0, wantm = 0, havem = 0;
    bool cyclic = false;
    for (int i : id) { int p = cls[g.es[i].a], q = cls[g.es[i].b]; if (p == q) { cyclic |= mandatory(i); continue; } for (auto &z : cls) if (z == q) z = p; best += g.es[i].w; want++; wantm += mandatory(i); }
    for (auto &x : es) {
        if (x.first == s.cand || x.second == s.cand) return at + "the candidate is in the spanning tree of the others";
        int p = mine[x.first], q = mine[x.second];
        if (p == q) return at + fmt("edge %d - %d closes a cycle", x.first, x.second);
        for (auto &z : mine) if (z == q) z = p;
        havem += s.pair(x.first, x.second) == 'm';
    }
    if (valid != (want == g.n - 2)) return at + (valid ? "valid, but the allowed edges do not connect the cities" : "not valid, but the allowed edges connect the cities");
    if (!valid) return "";
    if ((int) es.size() != want) return at + fmt("%d edges, it should be %d", (int) es.size(), want);
    if (havem != wantm) return at + fmt("%d mandatory edges, there is one with %d", havem, wantm);
    if (!cyclic && sum > best + 1e-11 * mag + 1e-300) return at + "not minimal: " + g17(sum) + ", but one of " + g17(best) + " has the mandatory edges and no forbidden one";
    // the two edges of the candidate
    vector<double> free;
    int must = 0;
    double musts = 0;
    for (auto &x : g.es) if (x.a == s.cand || x.b == s.cand) { char k = s.pair(x.a, x.b); if (k == 'm') { must++; musts += x.w; } else if (k == '.') free.push_back(x.w); }
    std::sort(free.begin(), free.end());
    bool edges = false;
    for (auto &x : g.es) edges |= x.a == s.cand || x.b == s.cand;
    if (!edges) return "";
    bool can = must <= 2 && must + (int) free.size() >= 2;
    if (a >= out.size() || out[a][0] != "one" || out[a].size() != 2) return at + "no answer of one-tree";
    *one = out[a][1] == "1";
    a++;
    if (*one != can) return at + (can ? "no one-tree, but the candidate has two edges to take" : fmt("a one-tree with %d mandatory and %d free edges at the candidate", must, (int) free.size()));
    if (!can) return "";
    vector<pair<int, int>> all;
    double total;
    what = read_tree(out, a, s, "onetree", &valid, &total, &all);
    if (!what.empty()) return at + what;
    int mine2 = 0;
    double two = 0;
    for (auto &x : all) if (x.first == s.cand || x.second == s.cand) { mine2 += s.pair(x.first, x.second) == 'm'; two += pair_weight(g, x.first, x.second); }
    for (auto &x : es) if (std::find(all.begin(), all.end(), x) == all.end()) return at + fmt("edge %d - %d of the tree is not in the one-tree", x.first, x.second);
    if ((int) all.size() != g.n) return at + fmt("%d edges in the one-tree of %d cities", (int) all.size(), g.n);
    if (mine2 != must) return at + "a mandatory edge of the candidate is left out";
    double least = musts + (must < 2 ? free[0] : 0) + (must < 1 ? free[1] : 0);
    if (two > least + 1e-12 * (std::fabs(two) + std::fabs(least)) + 1e-300) return at + "the edges of the candidate cost " + g17(two) + ", it could be " + g17(least);
    *tree = all;
    return "";
}
// the constraints shown; checks that they are one thing
static string read_constraints(const vector<Words> &out, size_t &a, const Sub &s, const char *name, i64 *answer, vector<char> *now) {
    const int n = s.g.n;
    if (a >= out.size() || out[a][0] != name || out[a].size() < 4) return string("no answer of ") + name;
    auto &w = out[a++];
    *answer = atoll(w[1].c_str());
    if ((int) w[3].size() != n * (n - 1) / 2) return string(name) + ": unreadable";
    now->assign((size_t) n * n, '.');
    size_t k = 0;
    bool forb = false;
    std::set<pair<int, int>> listed, mand;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        char q = w[3][k++];
        if (q == '?') return string(name) + fmt(": the constraint of %d - %d is not that of %d - %d", i, j, j, i);
        if (q == '!') return string(name) + fmt(": no constraint for %d - %d", i, j);
        (*now)[(size_t) i * n + j] = q;
        if (q == 'f') forb = true;
        if (q == 'm') mand.insert({i, j});
    }
    for (size_t i = 4; i < w.size(); i++) { int x, y; if (sscanf(w[i].c_str(), "%d-%d", &x, &y) != 2) return string(name) + ": unreadable"; listed.insert({std::min(x, y), std::max(x, y)}); }
    if (listed != mand) return string(name) + fmt(": %d mandatory edges are listed, %d are marked", (int) listed.size(), (int) mand.size());
    if (forb && atoi(w[2].c_str()) <= 0) return string(name) + ": forbidden edges, and their number is 0";
    return "";
}
// all closed tours allowed by the constraints, by their edges
static void tours(const Sub &s, vector<int> &t, vector<bool> &in, const std::function<void(const vector<int> &)> &f) {
    const int n = s.g.n;
    auto may = [&](int a, int b) { return s.at[(size_t) std::min(a, b) * n + std::max(a, b)] != 'f'; };
    if ((int) t.size() == n) {
        if (t[1] > t[n - 1] || !may(t[n - 1], 0)) return;
        int must = 0, have = 0;
        for (char k : s.at) must += k == 'm';
        for (int i = 0; i < n; i++) { int a = t[i], b = t[(i + 1) % n]; have += s.at[(size_t) std::min(a, b) * n + std::max(a, b)] == 'm'; }
        if (have == must) f(t);
        return;
    }
    for (int v = 1; v < n; v++) if (!in[v] && may(t.back(), v)) { in[v] = true; t.push_back(v); tours(s, t, in, f); t.pop_back(); in[v] = false; }
}
static void each_tour(const Sub &s, const std::function<void(const vector<int> &)> &f) { vector<int> t{0}; vector<bool> in(s.g.n); in[0] = true; tours(s, t, in, f); }
static Verdict eval_sub(const Case &c, bool inferred) {
    auto ops = lib_ops(c.input, "sub");
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        bool judge;
        Verdict v = lib_ended(o, e, &judge);
        auto out = answers(o.con);
        if (judge && out.size() == 1) continue;     // this version keeps its functions to itself
        Sub s;
        size_t a = 0;
        struct Open { i64 id, level; double value; vector<char> at; };
        vector<Open> open;
        i64 made = 1, id = 1, level = 1;
        bool built = false, one = false, known = judge;     // known: what the answers are about
        vector<pair<int, int>> tree;
        std::set<pair<int, int>> have;
        string what;
        auto take = [&](const vector<char> &now) { s.at = now; one = false; };
        for (auto &w : ops) {
            i64 x, y; double q, p;
            if (w[0] == "n") { if (built || s.g.n >= MAXV || !arg(w, 1, &q) || !arg(w, 2, &p)) return {}; s.g.xy.push_back({q, p}); s.g.n++; }
            else if (w[0] == "e") {
                if (built || !arg(w, 1, &x, 0, s.g.n - 1) || !arg(w, 2, &y, 0, s.g.n - 1) || x == y || !arg(w, 3, &q) || !arg(w, 4, &p) || q < 0) return {};
                if (!have.insert({(int) std::min(x, y), (int) std::max(x, y)}).second) return {};
                s.g.es.push_back({(int) x, (int) y, q, p, (int) s.g.es.size() + 1});
            } else if (w[0] == "graph") { if (built || s.g.n < 3) return {}; built = true; }
            else if (w[0] == "cand") { if (!built || !arg(w, 1, &x, 0, s.g.n - 1)) return {}; s.cand = (int) x; s.at.assign((size_t) s.g.n * s.g.n, '.'); one = false; open.clear(); made = id = level = 1; for (int i = 0; i < s.g.n; i++) for (int j = 0; j < i; j++) if (!have.count({j, i})) s.pair(i, j) = 'f'; }
            else if (s.cand < 0) return {};
            else if (w[0] == "fo" || w[0] == "ma") {
                if (!arg(w, 1, &x, 0, s.g.n - 1) || !arg(w, 2, &y, 0, s.g.n - 1) || x == y || (w[0] == "ma" && !have.count({(int) std::min(x, y), (int) std::max(x, y)}))) return {};
                if (s.pair((int) x, (int) y) == '.') s.pair((int) x, (int) y) = w[0][0];
                one = false;
            }
            else if (!known || !what.empty()) continue;
            else if (w[0] == "prim" || w[0] == "kruskal") { string t = check_onetree(out, a, s, w[0].c_str(), &one, &tree); if (!t.empty()) { what = t; if (inferred) known = false; } }
            else if (w[0] == "tour") {
                if (!one) continue;
                if (a >= out.size() || out[a][0] != "tour" || out[a].size() < 2) { what = "no answer of tour"; continue; }
                auto &t = out[a++];
                vector<int> deg(s.g.n);
                for (auto &z : tree) { deg[z.first]++; deg[z.second]++; }
                // the cycle is what is left when ends are cut off again and again
                std::set<pair<int, int>> left, got;
                for (auto &z : tree) left.insert({std::min(z.first, z.second), std::max(z.first, z.second)});
                for (bool go = true; go;) { go = false; for (auto i = left.begin(); i != left.end();) if (deg[i->first] == 1 || deg[i->second] == 1) { deg[i->first]--; deg[i->second]--; i = left.erase(i); go = true; } else ++i; }
                for (size_t i = 2; i < t.size(); i++) { int m, k; if (sscanf(t[i].c_str(), "%d-%d", &m, &k) == 2) got.insert({std::min(m, k), std::max(m, k)}); }
                bool ham = (int) left.size() == s.g.n;
                if ((t[1] != "0") != ham) what = ham ? "a tour that is not seen to be one" : "a one-tree that is no tour is taken for one";
                else if (ham && (got != left || t.size() - 2 != left.size())) what = "the edges of the cycle are wrong";
            }
            else if (w[0] == "take") {
                if (open.empty()) continue;
                i64 k;
                vector<char> now;
                string t = read_constraints(out, a, s, "take", &k, &now);
                if (!t.empty()) { what = t; continue; }
                if (k != open[0].id || now != open[0].at) { what = "take: not the subproblem that was first"; continue; }
                id = k; level = open[0].level;
                take(now);
                open.erase(open.begin());
            }
            else if (w[0] == "branch") {
                if (!arg(w, 1, &x, 0, s.g.n - 1) || !arg(w, 2, &y, 0, s.g.n - 1) || !arg(w, 3, &q) || x == y) return {};
                if (s.pair((int) x, (int) y) != '.') continue;
                if (a >= out.size() || out[a][0] != "branch" || out[a].size() < 2) { what = "no answer of branch"; continue; }
                auto &t = out[a++];
                if (atoll(t[1].c_str()) != made + 2) { what = "branch: " + t[1] + fmt(" subproblems generated, it should be %lld", (long long) made + 2); continue; }
                vector<Open> now;
                for (size_t i = 2; i < t.size(); i++) {
                    long long nid, f, l; double v2;
                    if (sscanf(t[i].c_str(), "%lld:%lld:%lld:%lf", &nid, &f, &l, &v2) != 4) { what = "branch: unreadable"; break; }
                    Open z{nid, l, v2, {}};
                    if (nid > made) {
                        if (nid > made + 2 || f != id || l != level + 1 || v2 != q) { what = "branch: a subproblem " + t[i] + fmt(" from %lld, level %lld, value ", (long long) id, (long long) level) + g17(q); break; }
                    } else {
                        bool old = false;
                        for (auto &k : open) if (k.id == nid) { old = true; z.at = k.at; if (k.value != v2) what = "branch: the value of a waiting subproblem changed"; }
                        if (!old) what = "branch: a subproblem is waiting again";
                    }
                    for (auto &k : now) if (k.id == nid) what = "branch: a subproblem is waiting twice"; else if (k.value > v2 + EPS_UB * 1.001 + 1e-12 * std::fabs(v2)) what = "branch: a subproblem of value " + g17(k.value) + " is waiting before one of " + g17(v2);
                    now.push_back(z);
                }
                if (!what.empty()) continue;
                size_t stay = 0;
                for (auto &k : now) stay += k.id <= made;
                if (stay != open.size()) { what = "branch: a waiting subproblem is lost"; continue; }
                const vector<char> was = s.at;
                size_t e0 = (size_t) std::min(x, y) * s.g.n + std::max(x, y);
                bool child[2] = {false, false};
                for (auto &k : now) if (k.id > made && what.empty()) {
                    i64 kid;
                    string r2 = read_constraints(out, a, s, "child", &kid, &k.at);
                    if (!r2.empty()) { what = r2; break; }
                    char c0 = k.at[e0];
                    if (c0 == '.' || child[c0 == 'm']) { what = "branch: the edge is not both taken and left out"; break; }
                    child[c0 == 'm'] = true;
                    for (size_t i = 0; i < was.size(); i++) if (was[i] != '.' && k.at[i] != was[i]) what = fmt("branch: the constraint of %d - %d was '%c' and is '%c'", (int) i / s.g.n, (int) i % s.g.n, was[i], k.at[i]);
                }
                if (!what.empty()) continue;
                if (s.g.n <= 8) {
                    auto keeps = [&](const vector<char> &at, const vector<int> &r2) {
                        vector<char> on((size_t) s.g.n * s.g.n, 0);
                        for (int i = 0; i < s.g.n; i++) { int b = r2[i], d = r2[(i + 1) % s.g.n]; on[(size_t) std::min(b, d) * s.g.n + std::max(b, d)] = 1; }
                        for (size_t i = 0; i < at.size(); i++) if ((at[i] == 'm' && !on[i]) || (at[i] == 'f' && on[i])) return false;
                        return true;
                    };
                    each_tour(s, [&](const vector<int> &r2) {
                        bool kept = false;
                        for (auto &k : now) if (k.id > made && keeps(k.at, r2)) kept = true;
                        if (!kept && what.empty()) { string z; for (int i : r2) z += fmt(" %d", i); what = "branch: the tour" + z + " is in none of the parts"; }
                    });
                }
                made += 2;
                open = now;
            }
            else if (w[0] == "copy" || w[0] == "infer" || w[0] == "fix") {
                double best = 0;
                if (w[0] == "fix") { if (!arg(w, 1, &best)) return {}; if (!one) continue; }
                i64 k;
                vector<char> now;
                string t = read_constraints(out, a, s, w[0].c_str(), &k, &now);
                if (!t.empty()) { what = t; continue; }
                if (w[0] == "copy" && now != s.at) { what = "the constraints copied are others"; continue; }
                for (size_t i = 0; i < now.size(); i++) if (s.at[i] != '.' && now[i] != s.at[i]) what = w[0] + fmt(": the constraint of %d - %d was '%c' and is '%c'", (int) i / s.g.n, (int) i % s.g.n, s.at[i], now[i]);
                if (!what.empty()) continue;
                if (w[0] == "fix") { i64 m = 0; for (size_t i = 0; i < now.size(); i++) m += now[i] != s.at[i]; if (m != k) { what = fmt("fix: %lld edges are said to be fixed, %lld are", (long long) k, (long long) m); continue; } }
                if (s.g.n <= 8) {
                    double mag = 0;
                    for (auto &z : s.g.es) mag += std::fabs(z.w);
                    bool any = false;
                    each_tour(s, [&](const vector<int> &r) {
                        double len = 0;
                        bool fits = true;
                        for (int i = 0; i < s.g.n; i++) {
                            int b = r[i], d = r[(i + 1) % s.g.n];
                            len += pair_weight(s.g, b, d);
                            if (now[(size_t) std::min(b, d) * s.g.n + std::max(b, d)] == 'f') fits = false;
                        }
                        any = true;
                        for (int i = 0; i < s.g.n; i++) for (int j = i + 1; j < s.g.n; j++) if (now[(size_t) i * s.g.n + j] == 'm') {
                            bool on = false;
                            for (int z = 0; z < s.g.n; z++) { int b = r[z], d = r[(z + 1) % s.g.n]; if (std::min(b, d) == i && std::max(b, d) == j) on = true; }
                            fits &= on;
                        }
                        if (!fits && what.empty() && (w[0] == "infer" || len < best - 1e-9 * mag - 1e-300)) {
                            string z; for (int i : r) z += fmt(" %d", i);
                            what = w[0] + ": the tour" + z + (w[0] == "fix" ? " of length " + g17(len) + " is excluded, the best one known has " + g17(best) : " is excluded");
                        }
                    });
                    if (w[0] == "infer" && !k && any && what.empty()) what = "infer: said to be unfeasible, but tours keep the constraints";
                }
                if (w[0] == "infer" && !k) known = false;     // half inferred, and given up
                take(now);
            } else return {};
        }
        if (v) return v;
        if (!what.empty()) {
            bool of_inference = what.compare(0, 5, "infer") == 0 || what.compare(0, 3, "fix") == 0 || what.compare(0, 4, "copy") == 0 || what.compare(0, 4, "take") == 0 || what.compare(0, 6, "branch") == 0 || what.compare(0, 5, "child") == 0 || what == "no answer of branch" || what.compare(0, 15, "the constraints") == 0;
            if (of_inference == inferred) return bad(inferred ? "wrong inference" : "wrong one-tree", what + " [" + env_text(e) + "]");
            continue;
        }
        if (known && o.live) return bad("not released", fmt("%lld of %lld blocks", (long long) o.live, (long long) o.nalloc) + " [" + env_text(e) + "]");
    }
    return {};
}
static Verdict eval_L06(const Case &c) { return eval_sub(c, false); }
static Verdict eval_L07(const Case &c) { return eval_sub(c, true); }
static void gen_sub(Rng &r, Case &c, bool inferred) {
    int n = inferred ? (int) r.range(3, std::min(MAXV, 8)) : (int) r.range(3, std::min(MAXV, r.chance(0.6) ? 9 : 30));
    string s;
    vector<pair<double, double>> xy;
    int style = (int) r.below(4);
    for (int i = 0; i < n; i++) { double x = style == 1 ? (double) r.below(4) : r.unit(), y = style == 1 ? (double) r.below(4) : r.unit(); xy.push_back({x, y}); s += "n " + g17(x) + " " + g17(y) + "\n"; }
    static const double S[] = {1, 1, 1, 1, 20, 1000, 1e6, 1e40};
    double scale = S[r.below(8)], dens = r.chance(0.5) ? 1 : 0.3 + 0.7 * r.unit();
    int wstyle = (int) r.below(4);
    vector<pair<int, int>> es;
    vector<double> ws;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.chance(dens)) {
        double w = wstyle == 0 ? std::hypot(xy[i].first - xy[j].first, xy[i].second - xy[j].second) + (style == 1 ? 0.5 : 0) : wstyle == 1 ? 1 + (double) r.below(3) : wstyle == 2 ? 0.9 + 0.2 * r.unit() : r.unit();
        w = w * scale + 1e-6;
        ws.push_back(w);
        bool flip = r.chance(0.3);
        es.push_back({i, j});
        s += fmt("e %d %d ", flip ? j : i, flip ? i : j) + g17(w) + " " + g17(std::round(r.unit() * 8) / 8) + "\n";
    }
    s += "graph\n";
    for (int k = (int) r.range(1, 4); k > 0; k--) {
        s += fmt("cand %d\n", (int) r.below(n));
        // a tour whose edges are not forbidden, more often than not
        vector<int> t(n);
        for (int i = 0; i < n; i++) t[i] = i;
        for (int i = n - 1; i > 0; i--) std::swap(t[i], t[r.below(i + 1)]);
        std::set<pair<int, int>> on;
        for (int i = 0; i < n; i++) on.insert({std::min(t[i], t[(i + 1) % n]), std::max(t[i], t[(i + 1) % n])});
        bool keep = r.chance(0.7);
        double pf = 0.5 * r.unit() * r.unit(), pm = r.chance(0.3) ? 0 : (keep ? 0.6 : 0.2) * r.unit();
        vector<string> lines;
        for (auto &x : es) {
            bool mine = on.count(x);
            if (r.chance(pm) && (mine || !keep)) lines.push_back(fmt("ma %d %d\n", x.first, x.second));
            else if (r.chance(pf) && !(mine && keep)) lines.push_back(fmt("fo %d %d\n", x.second, x.first));
        }
        for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
        for (auto &l : lines) s += l;
        double len = 0;
        std::sort(ws.begin(), ws.end());
        for (int i = 0; i < n && i < (int) ws.size(); i++) len += ws[i];
        const double val = 1 + (double) r.below(3);
        auto pick = [&]() { return es.empty() ? string("copy\n") : [&]() { auto x = es[r.below(es.size())]; return fmt("branch %d %d ", x.first, x.second) + g17(val + 1e-5 * (double) r.below(4) + (r.chance(0.3) ? r.unit() : 0)) + "\n"; }(); };
        if (inferred && r.chance(0.4)) { for (int q = (int) r.range(1, 12); q > 0; q--) s += r.chance(0.55) ? pick() : "take\n"; continue; }
        for (int q = (int) r.range(1, 4); q > 0; q--) switch (r.below(inferred ? 7 : 4)) {
            case 0: s += "prim\ntour\n"; break;
            case 1: s += "kruskal\ntour\n"; break;
            case 2: s += "copy\n"; break;
            case 3: s += "infer\n"; break;
            case 4: s += pick(); break;
            default: s += string(r.chance(0.5) ? "prim" : "kruskal") + "\nfix " + g17(len * (0.9 + 1.2 * r.unit() * r.unit())) + "\n";
        }
    }
    c.input = "!lib sub\n" + s;
    Env e; neutral(r, e); c.envs.push_back(e);
    if (r.chance(0.3)) mem_faults(r, c);
}
static void gen_L06(Rng &r, Case &c) { gen_sub(r, c, false); }
static void gen_L07(Rng &r, Case &c) { gen_sub(r, c, true); }

// ---------------------------------------------------------------- L09: what is printed is what is there
static vector<double> numbers(const string &l) {
    vector<double> v;
    const char *p = l.c_str();
    while (*p) {
        if (isdigit((unsigned char) *p) || (*p == '-' && isdigit((unsigned char) p[1]))) { char *q; v.push_back(strtod(p, &q)); p = q; }
        else p++;
    }
    return v;
}
static Verdict eval_L09(const Case &c) {
    bool forest = c.input.compare(0, 9, "!lib sets") == 0;
    auto ops = lib_ops(c.input, forest ? "sets" : "graph");
    for (auto &e : c.envs) {
        const Outcome &o = run(c.input, e);
        bool judge;
        Verdict v = lib_ended(o, e, &judge);
        vector<string> lines;
        { string l; for (char ch : o.con) { if (ch == '\n') { lines.push_back(l); l.clear(); } else l += ch; } }
        size_t a = 0;
        string what;
        RefGraph g;
        double half = 1;
        bool built = false, halved = false;
        int n = 0;
        struct T { int x, y; double w, p; int sym; };
        vector<T> es, tree;
        vector<vector<double>> ns;
        double gcost = 0, tcost = 0;
        bool tvalid = false, have = false, fresh = false;
        vector<int> parent;
        auto section = [&](vector<string> *s) {
            if (a >= lines.size() || lines[a] != "<") return false;
            for (a++; a < lines.size() && lines[a] != ">"; a++) if (!lines[a].empty()) s->push_back(lines[a]);
            return a++ < lines.size();
        };
        auto near = [&](double x, double y, double t) { return std::fabs(x - y) <= t + 1e-12 * std::fabs(y); };
        auto edge_lines = [&](const vector<string> &s, size_t from, const vector<T> &want, double t, bool original) -> string {
            if (s.size() - from != want.size()) return fmt("%d edges are printed, it has %d", (int) (s.size() - from), (int) want.size());
            for (size_t i = 0; i < want.size(); i++) {
                auto x = numbers(s[from + i]);
                const T &q = want[i];
                double w = original ? pair_weight(g, q.x, q.y) * half : q.w;
                if (x.size() != 5 || x[0] != q.sym || x[1] != q.x || x[2] != q.y || !near(x[3], w, t) || !near(x[4], q.p, t))
                    return "the line \"" + s[from + i].substr(0, 200) + "\" for edge " + fmt("%d, %d - %d, weight ", q.sym, q.x, q.y) + g17(w) + ", probability " + g17(q.p);
            }
            return "";
        };
        for (auto &w : ops) {
            i64 x, y; double q, p;
            if (forest) {
                if (w[0] == "new") { if (!arg(w, 1, &x, 1, MAXV)) return {}; n = (int) x; }
                else if (!n) return {};
                else if (w[0] == "m") { if (!arg(w, 1, &x, 0, n - 1) || !arg(w, 2, &y, 0, n - 1)) return {}; parent.clear(); }
                else if (w[0] == "f") {
                    if (!arg(w, 1, &x, 0, n - 1)) return {};
                    if (!judge || !what.empty()) continue;
                    auto t = a < lines.size() ? numbers(lines[a]) : vector<double>();
                    a++;
                    if (t.size() != 3) { what = "no answer of find"; continue; }
                    if (parent.empty()) continue;
                    int at = (int) x, steps = 0;
                    while (parent[at] >= 0 && steps++ <= n) at = parent[at];
                    if (at != (int) t[0]) what = fmt("by the parents printed, %d is represented by %d, but it is by %d", (int) x, at, (int) t[0]);
                } else if (w[0] == "pf") {
                    if (!judge || !what.empty()) continue;
                    vector<string> s;
                    if (!section(&s) || (int) s.size() != n) { what = fmt("%d sets are printed, there are %d", (int) s.size(), n); continue; }
                    parent.assign(n, -1);
                    for (int i = 0; i < n && what.empty(); i++) {
                        auto t = numbers(s[i]);
                        bool root = s[i].find("NULL") != string::npos;
                        if (t.size() != (root ? 3u : 4u) || t[0] != i || t.back() != i || t[t.size() - 2] < 0 || (!root && (t[1] < 0 || t[1] >= n))) what = fmt("the line of set %d is: ", i) + s[i];
                        else if (!root) parent[i] = (int) t[1];
                    }
                } else return {};
                continue;
            }
            if (w[0] == "n") { if (built || g.n >= MAXV || !arg(w, 1, &q) || !arg(w, 2, &p)) return {}; g.n++; }
            else if (w[0] == "e") {
                if (built || !arg(w, 1, &x, 0, g.n - 1) || !arg(w, 2, &y, 0, g.n - 1) || x == y || !arg(w, 3, &q) || !arg(w, 4, &p)) return {};
                if (pair_weight(g, (int) x, (int) y) != INFINITY) return {};
                g.es.push_back({(int) x, (int) y, q, p, (int) g.es.size() + 1});
            }
            else if (w[0] == "graph") { if (built || !g.n) return {}; built = true; }
            else if (!built) return {};
            else if (w[0] == "half") { half /= 2; halved = true; fresh = false; }
            else if (w[0] == "sort") { if (judge) a++; fresh = false; }
            else if (w[0] == "show") {
                if (!judge || !what.empty()) continue;
                es.clear(); ns.clear();
                if (a >= lines.size() || lines[a].compare(0, 2, "G ") || numbers(lines[a]).size() != 3) { what = "no answer of show"; continue; }
                auto t = numbers(lines[a++]);
                gcost = t[2];
                for (int i = 0; i < (int) t[0] && a < lines.size(); i++) ns.push_back(numbers(lines[a++]));
                for (int i = 0; i < (int) t[1] && a < lines.size(); i++) { int sx, sy, sy2, k; double sw, sp; if (sscanf(lines[a++].c_str(), "E %d %d %lf %lf %d %d", &sx, &sy, &sw, &sp, &sy2, &k) == 6) es.push_back({sx, sy, sw, sp, sy2}); }
                fresh = true;
            }
            else if (w[0] == "prim" || w[0] == "kruskal") {
                fresh = false;
                if (!judge || !what.empty()) continue;
                tree.clear();
                int m = 0, k, tv; double tp;
                if (a >= lines.size() || sscanf(lines[a].c_str(), "%*s %d %d %d %lf %lf", &tv, &k, &m, &tcost, &tp) != 5) { what = "no answer of " + w[0]; continue; }
                a++;
                tvalid = tv; have = true;
                for (int i = 0; i < m && a < lines.size(); i++) { int sx, sy, sym; double sw, sp; if (sscanf(lines[a++].c_str(), "e %d %d %lf %lf %d", &sx, &sy, &sw, &sp, &sym) == 5) tree.push_back({sx, sy, sw, sp, sym}); }
                a += k;
            }
            else if (w[0] == "pg") {
                if (!fresh && judge && what.empty()) return {};     // asked for after show
                if (!judge || !what.empty()) continue;
                vector<string> s;
                if (!section(&s) || s.size() < ns.size() + 3) { what = "print_graph: something is missing"; continue; }
                auto h = numbers(s[0]);
                if (h.size() != 1 || h[0] != (double) ns.size()) { what = "print_graph: " + s[0].substr(0, 100); continue; }
                for (size_t i = 0; i < ns.size() && what.empty(); i++) {       // N position x y neighbours...: Node position (x, y) count neighbours
                    auto t = numbers(s[1 + i]);
                    auto want = ns[i];
                    bool ok = t.size() == want.size();
                    for (size_t j = 0; ok && j < t.size(); j++) ok = near(t[j], want[j], 1e-13);
                    if (!ok) what = "print_graph: the line \"" + s[1 + i].substr(0, 200) + "\" for city " + g17(want[0]);
                }
                if (!what.empty()) continue;
                auto ct = numbers(s[1 + ns.size()]), cm = numbers(s[2 + ns.size()]);
                if (ct.size() != 1 || !near(ct[0], gcost, 1e-6)) { what = "print_graph: " + s[1 + ns.size()].substr(0, 100) + ", the cost is " + g17(gcost); continue; }
                if (cm.size() != 1 || cm[0] != (double) es.size()) { what = "print_graph: " + s[2 + ns.size()].substr(0, 100); continue; }
                string t = edge_lines(s, 3 + ns.size(), es, 1e-13, false);
                if (!t.empty()) what = "print_graph: " + t;
            }
            else if (w[0] == "pt" || w[0] == "po") {
                if (!judge || !what.empty() || !have) continue;
                vector<string> s;
                if (!section(&s) || s.empty()) { what = "print_mst: something is missing"; continue; }
                size_t at = s[0].find("cost");
                auto h = numbers(at == string::npos ? "" : s[0].substr(at));
                if (h.size() != 1 || !near(h[0], tcost, 1e-6) || (s[0].find("TRUE") != string::npos) != tvalid || (s[0].find("FALSE") != string::npos) == tvalid) { what = "print_mst: " + s[0].substr(0, 200) + " for cost " + g17(tcost) + (tvalid ? ", valid" : ", not valid"); continue; }
                string t = edge_lines(s, 1, tree, 1e-6, w[0] == "po");
                if (!t.empty()) what = "print_mst: " + t;
            } else return {};
        }
        (void) halved;
        if (v) return v;
        if (!what.empty()) return bad("wrong print", what + " [" + env_text(e) + "]");
    }
    return {};
}
static void gen_L09(Rng &r, Case &c) {
    string s;
    int n = (int) r.range(1, std::min(MAXV, r.chance(0.5) ? 12 : 100));
    if (r.chance(0.25)) {
        s = fmt("!lib sets\nnew %d\n", n);
        for (int k = (int) r.range(1, 3); k > 0; k--) {
            for (int i = (int) r.below(2 * n + 1); i > 0; i--) s += fmt("m %d %d\n", (int) r.below(n), (int) r.below(n));
            s += "pf\n";
            for (int i = 0; i < n; i++) if (n <= 20 || r.chance(0.3)) s += fmt("f %d\n", i);
        }
    } else {
        s = "!lib graph\n";
        const double size = r.chance(0.6) ? 1 : std::pow(10, (double) r.range(-6, 30));
        for (int i = 0; i < n; i++) s += "n " + g17((r.unit() - 0.3) * size) + " " + g17(r.unit() * size) + "\n";
        double dens = n > 30 ? 6.0 / n : r.chance(0.5) ? 1 : r.unit();
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.chance(dens)) s += (r.chance(0.5) ? fmt("e %d %d ", i, j) : fmt("e %d %d ", j, i)) + g17(r.unit() * size) + " " + g17(std::round(r.unit() * 8) / 8) + "\n";
        s += "graph\n";
        for (int k = (int) r.range(1, 5); k > 0; k--) switch (r.below(5)) {
            case 0: s += "show\npg\n"; break;
            case 1: s += "prim\npt\npo\n"; break;
            case 2: s += "kruskal\npt\n"; break;
            case 3: s += "kruskal\nhalf\npo\nshow\npg\n"; break;
            default: s += "sort\nshow\npg\n";
        }
    }
    c.input = s;
    Env e; neutral(r, e); c.envs.push_back(e);
    if (r.chance(0.2)) mem_faults(r, c);
}
