// G01: plots show every point under its own class, inside the drawn range, with the true separators, and clean up.
// gnuplot is a stand-in that records what it is sent; the series it is told to draw are read back from their files.
#include "gen.hpp"
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include "ufjfmltk/classifier/Classifier.hpp"
#include "ufjfmltk/visual/Visualization.hpp"
using namespace gen;
namespace stdfs = std::filesystem;
using Vis = mltk::visualize::Visualization<double>;

namespace {
std::string work, gnulog;
void setup() {
    if (!work.empty()) return;
    work = stdfs::absolute(vh::scratch_dir()).string() + "/vis" + std::to_string(getpid());
    stdfs::create_directories(work + "/bin");
    gnulog = work + "/gnuplot.log";
    { std::ofstream f(work + "/bin/gnuplot"); f << "#!/bin/sh\nexec cat >> '" << gnulog << "'\n"; }
    chmod((work + "/bin/gnuplot").c_str(), 0755);
    Gnuplot::set_GNUPlotPath(work + "/bin");
    setenv("DISPLAY", ":99", 1);
    if (chdir(work.c_str()) != 0) std::abort();
}
// no temporary output reaches the harness's own stdout
struct Quiet { std::ostringstream s; std::streambuf *o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };

std::string trim(std::string s) {
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    size_t k = 0;
    while (k < s.size() && isspace((unsigned char)s[k])) k++;
    return s.substr(k);
}
std::vector<std::string> statements(const std::string &script) {
    std::vector<std::string> out;
    std::string cur;
    char quote = 0;
    for (char c : script) {
        if (quote) { if (c == quote) quote = 0; }
        else if (c == '\'' || c == '"') quote = c;
        if (!quote && (c == ';' || c == '\n')) { if (!trim(cur).empty()) out.push_back(trim(cur)); cur.clear(); }
        else cur += c;
    }
    if (!trim(cur).empty()) out.push_back(trim(cur));
    return out;
}
// + - * / over numbers, x and y
struct Expr {
    const char *p;
    double x, y;
    bool bad = false;
    void ws() { while (isspace((unsigned char)*p)) p++; }
    double atom() {
        ws();
        if (*p == '-') { p++; return -atom(); }
        if (*p == '+') { p++; return atom(); }
        if (*p == '(') { p++; double v = sum(); ws(); if (*p == ')') p++; else bad = true; return v; }
        if (*p == 'x') { p++; return x; }
        if (*p == 'y') { p++; return y; }
        char *e;
        double v = strtod(p, &e);
        if (e == p) { bad = true; return 0; }
        p = e;
        return v;
    }
    double product() { double v = atom(); for (;;) { ws(); if (*p == '*') { p++; v *= atom(); } else if (*p == '/') { p++; v /= atom(); } else return v; } }
    double sum() { double v = product(); for (;;) { ws(); if (*p == '+') { p++; v += product(); } else if (*p == '-') { p++; v -= product(); } else return v; } }
};
struct Series { std::string file, title; bool titled = false; std::vector<int> cols; };
struct Script {
    bool splot = false, plotted = false;
    std::string plot;
    std::vector<Series> series;
    std::map<char, std::pair<double, double>> range;
    std::map<char, std::string> funcs;
    std::set<char> drawn;   // functions in the plot list
    std::string output, terminal, title;
};
std::string unquote(const std::string &s) {
    size_t a = s.find_first_of("'\"");
    if (a == std::string::npos) return "";
    size_t b = s.find(s[a], a + 1);
    return s.substr(a + 1, b == std::string::npos ? b : b - a - 1);
}
Script parse(const std::string &text) {
    Script r;
    for (auto &st : statements(text)) {
        if (st.compare(0, 4, "set ") == 0) {
            for (char c : {'x', 'y', 'z'}) {
                std::string k = std::string("set ") + c + "range";
                if (st.compare(0, k.size(), k) == 0) {
                    double a, b;
                    VCHECK("plot:script", sscanf(st.c_str() + k.size(), " [%lf:%lf]", &a, &b) == 2, "cannot read ", st);
                    r.range[c] = {a, b};
                }
            }
            if (st.compare(0, 10, "set output") == 0) r.output = unquote(st);
            if (st.compare(0, 9, "set title") == 0) r.title = unquote(st);
            if (st.compare(0, 12, "set terminal") == 0) r.terminal = trim(st.substr(12));
        } else if (st.size() > 2 && st[1] == '(' && std::string("fgh").find(st[0]) != std::string::npos) {
            r.funcs[st[0]] = st.substr(st.find('=') + 1);
        } else if (st.compare(0, 5, "plot ") == 0 || st.compare(0, 6, "splot ") == 0) {
            r.plotted = true;
            r.splot = st[0] == 's';
            r.plot = st;
            std::string body = st.substr(r.splot ? 6 : 5), cur;
            std::vector<std::string> items;
            int depth = 0;
            char q = 0;
            for (char c : body) {
                if (q) { if (c == q) q = 0; }
                else if (c == '\'' || c == '"') q = c;
                else if (c == '(') depth++;
                else if (c == ')') depth--;
                if (!q && !depth && c == ',') { items.push_back(trim(cur)); cur.clear(); } else cur += c;
            }
            items.push_back(trim(cur));
            for (auto &it : items) {
                if (it.empty()) continue;
                if (it[0] != '\'' && it[0] != '"') { r.drawn.insert(it[0]); continue; }
                Series s;
                s.file = unquote(it);
                std::string rest = it.substr(s.file.size() + 2);
                size_t u = rest.find(" using ");
                if (u != std::string::npos) {
                    const char *p = rest.c_str() + u + 7;
                    while (isdigit((unsigned char)*p)) { char *e; s.cols.push_back((int)strtol(p, &e, 10)); p = e; if (*p == ':') p++; }
                }
                size_t t = rest.find(" title ");
                if (t != std::string::npos) { s.titled = true; s.title = unquote(rest.substr(t)); }
                r.series.push_back(s);
            }
        }
    }
    return r;
}
using Rowv = std::vector<double>;
std::vector<Rowv> read_file(const std::string &f) {
    std::vector<Rowv> out;
    std::ifstream in(f);
    std::string line;
    while (std::getline(in, line)) {
        Rowv r;
        std::istringstream ss(line);
        double v;
        while (ss >> v) r.push_back(v);
        if (!r.empty()) out.push_back(r);
    }
    return out;
}
std::vector<Rowv> columns(const Series &s, const std::string &what) {
    VCHECK("plot:file-missing", stdfs::exists(s.file), what, ": the script draws '", s.file, "', which does not exist");
    std::vector<Rowv> out;
    for (auto &r : read_file(s.file)) {
        Rowv q;
        for (int c : s.cols) {
            VCHECK("plot:column", c >= 1 && (size_t)c <= r.size(), what, ": column ", c, " of '", s.file, "' which has ", r.size());
            q.push_back(r[c - 1]);
        }
        out.push_back(s.cols.empty() ? r : q);
    }
    return out;
}
bool near_row(const Rowv &a, const Rowv &b) {
    if (a.size() != b.size()) return false;
    for (size_t k = 0; k < a.size(); k++) if (!vh::close(a[k], b[k], 1e-5, 1e-9)) return false;
    return true;
}
void same_points(const std::string &key, std::vector<Rowv> got, std::vector<Rowv> want, const std::string &what) {
    VCHECK(key, got.size() == want.size(), what, ": ", got.size(), " points drawn, there are ", want.size());
    bool inorder = true;   // files are written in dataset order; any order is fine
    for (size_t k = 0; k < got.size() && inorder; k++) inorder = near_row(got[k], want[k]);
    if (!inorder)
        for (auto &w : want) {
            auto it = std::find_if(got.begin(), got.end(), [&](const Rowv &g) { return near_row(g, w); });
            VCHECK(key, it != got.end(), what, ": point ", vh::show(w), " is not drawn (drawn: ", got.empty() ? std::string("none") : vh::show(got[0]), " and ", got.size() - 1, " more)");
            got.erase(it);
        }
    vh::count("points seen in plots", want.size());
}
std::vector<std::string> temp_dirs() {
    std::vector<std::string> v;
    for (auto &e : stdfs::directory_iterator(work)) {
        auto n = e.path().filename().string();
        if (n != "bin" && n != "gnuplot.log" && n != "output") v.push_back(n);
    }
    std::sort(v.begin(), v.end());
    return v;
}
void clean() {
    for (auto &n : temp_dirs()) stdfs::remove_all(work + "/" + n);
    stdfs::remove_all(work + "/output");
    std::ofstream(gnulog, std::ios::trunc);
}
std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

// what gnuplot was told, once the sessions are closed
void check_sent(const std::vector<std::string> &scripts, const std::string &what) {
    std::string log = slurp(gnulog);
    std::multiset<std::string> sent;
    for (auto &s : statements(log)) sent.insert(s);
    for (auto &sc : scripts)
        for (auto &s : statements(sc)) {
            auto it = sent.find(s);
            VCHECK("plot:sent", it != sent.end(), what, ": '", s.substr(0, 300), "' was returned but not sent to gnuplot");
            sent.erase(it);
        }
}
struct Cls { int label; std::string name; };
struct Case {
    Rows rows;
    DD data;
    std::vector<Cls> classes;
    bool regression = false;
};
// a classification dataset, class names chosen by a loaded file or by insertion
void make(vh::Rng &g, Case &c, size_t d, size_t k, bool named) {
    size_t n = k + g.below(14);
    if (!named) {
        c.rows = gen::rows(g, n, d, labels(g, k), -1, 1);
        c.data.copy(data_of(c.rows));
    } else {
        std::vector<std::string> pool{"a", "iris-setosa", "b.2", "x_y", "1.0", "class_data", "Z", "2", "v1.2.3", "plt"};
        g.shuffle(pool);
        c.rows = gen::rows(g, n, d, labels(g, k), -1, 1);
        std::map<int, std::string> nm;
        for (auto &r : c.rows) if (!nm.count((int)r.y)) { auto s = pool[nm.size()]; nm[(int)r.y] = s; }
        std::string path = work + "/bin/in.csv";
        { std::ofstream f(path); f.precision(17); for (auto &r : c.rows) { f << nm[(int)r.y]; for (double v : r.x) f << "," << v; f << "\n"; } }
        VCHECK("load:refused", c.data.load(path), "csv refused");
        for (size_t i = 0; i < c.rows.size(); i++) { c.rows[i].y = c.data.point((int)i)->Y(); c.rows[i].x = c.data.point((int)i)->X(); }
        c.data.setName(g.chance(0.5) ? "set" : "");
    }
    auto cl = c.data.classes();
    auto cn = c.data.classesNames();
    for (size_t i = 0; i < cl.size(); i++) c.classes.push_back({cl[i], cn[i]});
}
void check_classes(const Case &c, const Script &s, const std::vector<int> &feats, const std::string &what, bool file_feats = true) {
    VCHECK("plot:series", s.series.size() == c.classes.size(), what, ": ", s.series.size(), " series for ", c.classes.size(), " classes");
    std::set<std::string> seen;
    for (auto &se : s.series) {
        VCHECK("plot:title", se.titled, what, ": series '", se.file, "' has no title");
        auto it = std::find_if(c.classes.begin(), c.classes.end(), [&](const Cls &k) { return k.name == se.title; });
        VCHECK("plot:title", it != c.classes.end(), what, ": a series is titled '", se.title, "', which is no class");
        VCHECK("plot:title", seen.insert(se.title).second, what, ": class '", se.title, "' is drawn twice");
        std::vector<Rowv> want;
        for (auto &r : c.rows) if ((int)r.y == it->label) { Rowv q; for (int f : feats) q.push_back(r.x[f]); want.push_back(q); }
        auto got = columns(se, what);
        if (!file_feats) for (auto &q : got) { VCHECK("plot:column", q.size() >= feats.size(), what); q.resize(feats.size()); }
        same_points("plot:class-points", got, want, what + ": class '" + se.title + "'");
        vh::count("series read back");
    }
}
void check_ranges(const Case &c, const Script &s, const std::vector<int> &feats, const std::string &what) {
    for (size_t k = 0; k < feats.size(); k++) {
        auto it = s.range.find("xyz"[k]);
        if (it == s.range.end()) continue;
        VCHECK("plot:range", it->second.first < it->second.second, what, ": empty range of axis ", k, ": [", it->second.first, ":", it->second.second, "]");
        for (auto &r : c.rows)
            VCHECK("plot:range", r.x[feats[k]] >= it->second.first - 1e-6 && r.x[feats[k]] <= it->second.second + 1e-6, what, ": the value ", r.x[feats[k]], " lies outside the drawn range [", it->second.first, ":", it->second.second, "] of axis ", k);
        vh::count("ranges");
    }
}
double value_of(const std::string &f, double x, double y, const std::string &what) {
    Expr e{f.c_str(), x, y};
    double v = e.sum();
    e.ws();
    VCHECK("plot:function", !e.bad && !*e.p, what, ": cannot read the function '", f, "'");
    return v;
}
}  // namespace

WORKLOAD(class_plots, 480, 6000) {
    setup();
    clean();
    size_t d = 3 + rng.below(3);
    std::vector<std::string> scripts;
    std::string what;
    {
        Quiet q;
        Case c, c2;
        make(rng, c, d, 1 + rng.below(4), rng.chance(0.6));
        make(rng, c2, 3 + rng.below(2), 1 + rng.below(4), rng.chance(0.6));
        bool shared = rng.chance(0.5), late = rng.chance(0.3), keep = rng.chance(0.15);
        DD before = c.data.copy();
        std::unique_ptr<Vis> v;
        if (late) { v.reset(new Vis(shared, keep)); v->setSample(c.data); } else v.reset(new Vis(c.data, shared, keep));
        if (rng.chance(0.5)) v->setTerminal("dumb");
        // folders that are somebody else's
        std::vector<std::string> others;
        auto mine = temp_dirs();
        if (!mine.empty() && rng.chance(0.3)) {
            int k = atoi(mine.back().substr(8).c_str());
            for (int q = 1; q < 3; q++) {
                others.push_back("plottemp" + std::to_string(k + q));
                stdfs::create_directory(work + "/" + others.back());
                std::ofstream(work + "/" + others.back() + "/mine.plt") << "1 2 3\n";
            }
        }
        std::unique_ptr<Vis> second;
        if (rng.chance(0.3)) second.reset(new Vis(c2.data, rng.chance(0.5)));
        Case *cur = &c;
        int plots = 1 + (int)rng.below(4);
        for (int p = 0; p < plots; p++) {
            if (rng.chance(0.2)) { cur = cur == &c ? &c2 : &c; v->setSample(cur->data); vh::count("samples replaced"); }
            std::vector<int> f(cur->rows[0].x.size());
            std::iota(f.begin(), f.end(), 0);
            rng.shuffle(f);
            double scale = rng.chance(0.5) ? 1.0 : 1.0 + rng.d(0, 0.6);
            bool save = rng.chance(0.4);
            std::string title = rng.chance(0.5) ? "a title" : "";
            bool three = rng.chance(0.5);
            f.resize(three ? 3 : 2);
            what = vh::cat(three ? "plot3D" : "plot2D", vh::show(f), " of ", cur->rows.size(), " points, classes ", vh::show(cur->data.classesNames()), " scale ", scale);
            std::string s = three ? v->plot3D(f[0], f[1], f[2], save, scale, title) : v->plot2D(f[0], f[1], save, scale, title);
            Script r = parse(s);
            VCHECK("plot:script", r.plotted && r.splot == three, what, ": no ", three ? "splot" : "plot", " in ", s);
            check_classes(*cur, r, f, what);
            check_ranges(*cur, r, f, what);
            if (second && rng.chance(0.5)) {
                std::string s2 = second->plot2D(2, 0);
                check_classes(c2, parse(s2), {2, 0}, what + " and of another");
                scripts.push_back(s2);
                vh::count("plots");
            }
            VCHECK("plot:saved", !r.output.empty() == save, what, ": save=", save, " but the output is '", r.output, "'");
            VCHECK("plot:title", r.title == title, what, ": titled '", r.title, "' instead of '", title, "'");
            scripts.push_back(s);
            vh::count("plots");
        }
        VCHECK("plot:data-changed", c.data == before, what, ": plotting changed the data");
        size_t files = 0;
        bool first = rng.chance(0.5);
        if (first) second.reset();
        v.reset();
        second.reset();
        for (auto &o : others) {
            VCHECK("plot:foreign-folder", slurp(work + "/" + o + "/mine.plt") == "1 2 3\n", what, ": removed the folder ", o, ", which it did not create");
            stdfs::remove_all(work + "/" + o);
            vh::count("foreign folders spared");
        }
        auto left = temp_dirs();
        if (keep) {
            VCHECK("plot:kept", !left.empty(), what, ": nothing kept");
            for (auto &l : left) for (auto &e : stdfs::directory_iterator(work + "/" + l)) files += e.path().extension() == ".plt";
            VCHECK("plot:kept", files >= cur->classes.size(), what, ": ", files, " files kept for ", cur->classes.size(), " classes");
            vh::count("plot files kept");
        } else
            VCHECK("plot:left-behind", left.empty(), what, ": left behind: ", vh::show(left));
    }
    check_sent(scripts, what);
    vh::nontrivial(vh::cat(what, scripts.size(), rng.s));
    vh::sample(what);
}
WORKLOAD(separators, 400, 5000) {
    setup();
    clean();
    size_t d = 3 + rng.below(2);
    std::vector<std::string> scripts;
    std::string what;
    {
        Quiet q;
        Case c;
        make(rng, c, d, 2, rng.chance(0.5));
        Vis v(c.data, rng.chance(0.5));
        for (int p = 0; p < 3; p++) {
            std::vector<int> f(d);
            std::iota(f.begin(), f.end(), 0);
            rng.shuffle(f);
            bool three = rng.chance(0.5);
            f.resize(three ? 3 : 2);
            mltk::Solution s;
            std::vector<double> w;
            for (size_t k = 0; k < d; k++) { double x = rng.d(0.05, 3); w.push_back(rng.chance(0.5) ? x : -x); }
            s.w = mltk::Point<double>(w);
            s.bias = rng.d(-2, 2);
            s.norm = 0;
            for (double x : w) s.norm += x * x;
            s.norm = std::sqrt(s.norm);
            s.margin = rng.chance(0.3) ? 0 : rng.d(0.01, 1);
            what = vh::cat(three ? "plot3DwithHyperplane" : "plot2DwithHyperplane", vh::show(f), " w=", vh::show(w), " b=", s.bias, " margin=", s.margin);
            std::string t = three ? v.plot3DwithHyperplane(f[0], f[1], f[2], s, rng.chance(0.3)) : v.plot2DwithHyperplane(f[0], f[1], s, rng.chance(0.3));
            Script r = parse(t);
            VCHECK("plot:script", r.plotted && r.splot == three, what, ": no plot in ", t);
            check_classes(c, r, f, what);
            check_ranges(c, r, f, what);
            VCHECK("plot:separator", r.funcs.count('f') && r.drawn.count('f'), what, ": the separator is not drawn: ", t);
            bool margins = s.margin != 0;
            if (margins) VCHECK("plot:separator", r.funcs.count('g') && r.funcs.count('h') && r.drawn.count('g') && r.drawn.count('h'), what, ": the margins are not drawn: ", t);
            for (int k = 0; k < 4; k++) {
                double x = rng.d(-3, 3), y = rng.d(-3, 3);
                auto side = [&](char fn) {   // the decision value on the drawn line or plane
                    double z = value_of(r.funcs[fn], x, y, what);
                    return three ? w[f[0]] * x + w[f[1]] * y + w[f[2]] * z + s.bias : w[f[0]] * x + w[f[1]] * z + s.bias;
                };
                double tol = 1e-5 * (1 + std::fabs(w[f[0]] * x) + std::fabs(w[f[1]] * y) + std::fabs(s.bias) + s.margin * s.norm);
                VCHECK("plot:separator", std::fabs(side('f')) <= tol, what, ": the decision value on the drawn separator is ", side('f'), " at ", x, ",", y);
                if (margins) {
                    double a = side('g'), b = side('h'), m = s.margin * s.norm;
                    VCHECK("plot:margins", (std::fabs(a - m) <= tol && std::fabs(b + m) <= tol) || (std::fabs(a + m) <= tol && std::fabs(b - m) <= tol), what, ": the decision values on the drawn margins are ", a, " and ", b, ", not +-", m);
                }
                vh::count("separators evaluated");
            }
            scripts.push_back(t);
            vh::count("plots");
        }
    }
    VCHECK("plot:left-behind", temp_dirs().empty(), what, ": left behind: ", vh::show(temp_dirs()));
    check_sent(scripts, what);
    vh::nontrivial(vh::cat(what, rng.s));
    vh::sample(what);
}
WORKLOAD(regression_plots, 300, 4000) {
    setup();
    clean();
    std::vector<std::string> scripts;
    std::string what;
    {
        Quiet q;
        Case c;
        c.regression = true;
        size_t n = 2 + rng.below(12), d = 1 + rng.below(4);
        c.rows = gen::rows(rng, n, d, {0}, -1, 0);
        for (auto &r : c.rows) r.y = rng.d(-9, 9);
        c.data.setType("Regression");
        for (auto &r : c.rows) c.data.insertPoint(point_of(r), true);
        c.data.setName(rng.chance(0.5) ? "line" : "");
        Vis v(c.data, rng.chance(0.5));
        for (int p = 0; p < 3; p++) {
            mltk::Solution s;
            std::vector<double> w;
            for (size_t k = 0; k < d; k++) w.push_back(rng.d(-3, 3));
            s.w = mltk::Point<double>(w);
            s.bias = rng.d(-2, 2);
            int x = (int)rng.below(d), y = (int)rng.below(d);
            bool hyper = rng.chance(0.5), two = d > 1 && x != y && rng.chance(0.6);
            what = vh::cat("plot", two ? 2 : 1, "DRegresion", hyper ? "Hyperplane" : "", " ", x, ",", y, " of ", n, "x", d);
            std::string t = two ? (hyper ? v.plot2DRegresionHyperplane(x, y, s) : v.plot2DRegresion(x, y)) : (hyper ? v.plot1DRegresionHyperplane(x, s) : v.plot1DRegresion(x));
            Script r = parse(t);
            VCHECK("plot:script", r.plotted && r.splot == two && r.series.size() == 1, what, ": ", t);
            std::vector<Rowv> want;
            for (auto &row : c.rows) { Rowv z{row.x[x]}; if (two) z.push_back(row.x[y]); z.push_back(row.y); want.push_back(z); }
            same_points("plot:regression-points", columns(r.series[0], what), want, what);
            check_ranges(c, r, {x}, what);
            if (hyper) {
                VCHECK("plot:regressor", r.funcs.count('f') && r.drawn.count('f'), what, ": the regressor is not drawn: ", t);
                for (int k = 0; k < 4; k++) {
                    double a = rng.d(-3, 3), b = rng.d(-3, 3), e = w[x] * a + (two ? w[y] * b : 0) + s.bias;
                    double got = value_of(r.funcs['f'], a, b, what);
                    VCHECK("plot:regressor", vh::close(got, e, 1e-5, 1e-5), what, ": the drawn regressor gives ", got, " at ", a, ",", b, " expected ", e);
                }
                vh::count("regressors drawn");
            }
            scripts.push_back(t);
            vh::count("plots");
        }
    }
    VCHECK("plot:left-behind", temp_dirs().empty(), what, ": left behind: ", vh::show(temp_dirs()));
    check_sent(scripts, what);
    vh::nontrivial(vh::cat(what, rng.s));
    vh::sample(what);
}
namespace {
// answers a function of the side of a line, and records what it is asked
struct Line : public mltk::classifier::Classifier<double> {
    double a = 1, b = 0, c = 0;
    std::vector<int> said{1, 2};
    size_t trained = 0;
    Rows given;
    bool train() override { trained++; given = rows_of(*this->samples); return true; }
    double evaluate(const mltk::Point<double> &p, bool raw_value = false) override { return a * p[0] + b * p[1] + c > 0 ? said[0] : said[1]; }
    std::string getFormulationString() override { return "Primal"; }
};
}  // namespace
WORKLOAD(decision_surfaces, 300, 4000) {
    setup();
    clean();
    std::string what;
    std::vector<std::string> scripts;
    {
        Quiet q;
        Case c;
        size_t d = 2 + rng.below(3), k = 2 + rng.below(2);
        make(rng, c, d, k, rng.chance(0.6));
        if (rng.chance(0.3) && d > 2) {   // a column was dropped earlier
            auto nm = c.data.getFeaturesNames();
            size_t gone = rng.below(d);
            c.data.removeFeatures(std::vector<int>{nm[gone]});
            for (auto &r : c.rows) r.x.erase(r.x.begin() + (long)gone);
            d--;
        }
        int x = (int)rng.below(d), y = (int)rng.below(d);
        while (y == x) y = (int)rng.below(d);
        Line l;
        l.a = rng.d(-2, 2);
        l.b = rng.d(-2, 2);
        l.c = rng.d(-2, 2);
        l.said = {c.classes[0].label, c.classes.back().label};
        bool trained = rng.chance(0.5);
        size_t dim = 2 + rng.below(9);
        what = vh::cat("plotDecisionSurface2D ", x, ",", y, " of ", c.rows.size(), "x", d, " grid ", dim, " classes ", vh::show(c.data.classesNames()));
        Vis v(c.data, rng.chance(0.5));
        DD before = c.data.copy();
        std::string t = v.plotDecisionSurface2D(l, x, y, trained, dim, rng.chance(0.3), rng.chance(0.5) ? 1.0 : 1.0 + rng.d(0, 0.5));
        scripts.push_back(t);
        Script r = parse(t);
        VCHECK("plot:script", r.plotted && r.splot && r.series.size() == c.classes.size() + 1, what, ": ", t);
        VCHECK("plot:trained", l.trained == (trained ? 0u : 1u), what, ": trained ", l.trained, " times");
        if (!trained) {
            VCHECK("plot:trained", l.given.size() == c.rows.size(), what, ": trained on ", l.given.size(), " points");
            for (size_t i = 0; i < c.rows.size(); i++)
                VCHECK("plot:trained", l.given[i].y == c.rows[i].y && l.given[i].x == Rowv({c.rows[i].x[x], c.rows[i].x[y]}), what, ": trained on ", l.given[i], " for point ", c.rows[i]);
        }
        auto grid = read_file(r.series[0].file);
        VCHECK("plot:grid", grid.size() == dim * dim, what, ": ", grid.size(), " grid points for ", dim, "x", dim);
        std::set<std::pair<double, double>> cells;
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
        for (auto &gp : grid) {
            VCHECK("plot:grid", gp.size() == 3, what);
            double f = l.a * gp[0] + l.b * gp[1] + l.c;
            int e = f > 0 ? l.said[0] : l.said[1];
            if (std::fabs(f) > 1e-4 * (1 + std::fabs(l.a * gp[0]) + std::fabs(l.b * gp[1]) + std::fabs(l.c)))   // coordinates are written to six digits
                VCHECK("plot:grid", gp[2] == e, what, ": the surface shows ", gp[2], " at ", gp[0], ",", gp[1], " where the learner answers ", e);
            cells.insert({gp[0], gp[1]});
            for (int k2 = 0; k2 < 2; k2++) { lo[k2] = std::min(lo[k2], gp[k2]); hi[k2] = std::max(hi[k2], gp[k2]); }
            vh::count("grid points");
        }
        auto spread = [&](int f) { for (auto &row : c.rows) if (row.x[f] != c.rows[0].x[f]) return true; return std::floor(c.rows[0].x[f]) != c.rows[0].x[f]; };
        if (spread(x) && spread(y)) VCHECK("plot:grid", cells.size() == grid.size(), what, ": grid points repeat");
        for (auto &row : c.rows)
            for (int k2 = 0; k2 < 2; k2++) {
                double z = row.x[k2 ? y : x];
                VCHECK("plot:surface-covers", z >= lo[k2] - 1e-4 * (1 + std::fabs(z)) && z <= hi[k2] + 1e-4 * (1 + std::fabs(z)), what, ": a point at ", z, " lies outside the drawn surface [", lo[k2], ":", hi[k2], "]");
            }
        Script points = r;
        points.series.erase(points.series.begin());
        check_classes(c, points, {x, y}, what, false);
        if (rng.chance(0.4)) {
            std::string t2 = v.plot2D(x, y);
            Script r2 = parse(t2);
            VCHECK("plot:script", r2.plotted && !r2.splot, what, ": no plot in ", t2);
            check_classes(c, r2, {x, y}, "plot2D after " + what);
            check_ranges(c, r2, {x, y}, "plot2D after " + what);
            scripts.push_back(t2);
            vh::count("plots");
        }
        VCHECK("plot:data-changed", c.data == before, what, ": plotting changed the data");
        vh::count("surfaces");
    }
    VCHECK("plot:left-behind", temp_dirs().empty(), what, ": left behind: ", vh::show(temp_dirs()));
    check_sent(scripts, what);
    vh::nontrivial(vh::cat(what, rng.s));
    vh::sample(what);
}
WORKLOAD(value_plots, 200, 2500) {
    setup();
    clean();
    std::string what;
    std::vector<std::string> scripts;
    {
        Quiet q;
        size_t n = 1 + rng.below(20);
        std::vector<double> x, y, z;
        for (size_t i = 0; i < n; i++) { x.push_back(value(rng, (int)rng.below(6))); y.push_back(value(rng, (int)rng.below(6))); z.push_back(value(rng, 1)); }
        bool three = rng.chance(0.5);
        what = vh::cat("plot", three ? 3 : 2, "D of ", n, " values");
        Vis v(rng.chance(0.5));
        std::string t = three ? v.plot3D(mltk::Point<double>(x), mltk::Point<double>(y), mltk::Point<double>(z), false, 1.0, "curve") : v.plot2D(mltk::Point<double>(x), mltk::Point<double>(y), false, 1.0, "curve");
        scripts.push_back(t);
        Script r = parse(t);
        VCHECK("plot:script", r.plotted && r.splot == three && r.series.size() == 1, what, ": ", t);
        std::vector<Rowv> want;
        for (size_t i = 0; i < n; i++) want.push_back(three ? Rowv{x[i], y[i], z[i]} : Rowv{x[i], y[i]});
        same_points("plot:values", columns(r.series[0], what), want, what);
        for (int k = 0; k < 2; k++) {
            auto it = r.range.find("xy"[k]);
            if (it == r.range.end()) continue;
            VCHECK("plot:range", it->second.first < it->second.second, what, ": empty range");
            for (double u : k ? y : x) VCHECK("plot:range", u >= it->second.first - 1e-6 && u <= it->second.second + 1e-6, what, ": the value ", u, " lies outside the drawn range [", it->second.first, ":", it->second.second, "]");
        }
        vh::count("plots");
    }
    check_sent(scripts, what);
    vh::nontrivial(vh::cat(what, rng.s));
    vh::sample(what);
}
VH_MAIN
