// D04 file contents become the dataset; D05 written datasets load back; D06 malformed files.
#include "gen.hpp"
#include <fstream>
#include <sstream>
using namespace gen;
namespace {
enum Fmt { CSV_FIRST, CSV_LAST, DATA, ARFF, TXT };
struct File {
    Fmt fmt;
    std::string text, path, base;
    Rows rows;
    std::vector<int> names, classes;
    std::vector<std::string> cnames;
    std::vector<size_t> dist;
    bool regression = false;
};
std::string numtext(vh::Rng &g, double &v) {
    char b[64];
    switch (g.below(8)) {
        case 0: snprintf(b, sizeof b, "%lld", g.i(-1000, 1000)); break;
        case 1: snprintf(b, sizeof b, "%.17g", g.d(-100, 100)); break;
        case 2: snprintf(b, sizeof b, "%.3e", g.gauss() * std::pow(10.0, (double)g.i(-12, 12))); break;
        case 3: snprintf(b, sizeof b, "%.2E", g.gauss() * std::pow(10.0, (double)g.i(-5, 5))); break;
        case 4: snprintf(b, sizeof b, "+%lld", g.i(0, 99)); break;
        case 5: snprintf(b, sizeof b, "-.%lld", g.i(0, 99)); break;
        case 6: snprintf(b, sizeof b, "%lld.", g.i(-9, 99)); break;
        default: snprintf(b, sizeof b, "%.6f", g.d(-1, 1)); break;
    }
    v = strtod(b, nullptr);
    return b;
}
std::string path_in(const std::string &base, const char *ext) { return vh::scratch_dir() + "/" + base + "." + ext; }
void put(const std::string &path, const std::string &text) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(text.data(), (std::streamsize)text.size());
}
std::string ident(vh::Rng &g) {
    static const char *pool[] = {"setosa", "versicolor", "virginica", "Iris-a", "B", "e", "E", "nan", "inf", "pos", "neg", "class_1", "x2", "1a", "-", "+", "yes", "no", "0x10", "e5"};
    return pool[g.below(sizeof pool / sizeof *pool)];
}
File make(vh::Rng &g, Fmt fmt, bool allow_regression = true) {
    File f;
    f.fmt = fmt;
    size_t n = gen::grow(g, 1 + g.below(12)), d = gen::wide(g, 1 + g.below(7));
    if (fmt == DATA && n == 1 && g.chance(0.8)) n = 2;
    int style = (int)g.below(4);    // label style: 0 ints, 1 +/-1, 2 names, 3 regression
    if (style == 3 && (!allow_regression || fmt == DATA)) style = 0;
    f.regression = style == 3;
    std::vector<std::string> labs;
    size_t k = gen::many(g, 1 + g.below(4));
    if (style == 0) for (int l : labels(g, k)) labs.push_back((g.chance(0.2) && l >= 0 ? "+" : "") + std::to_string(l));
    else if (style == 1) labs = {"+1", "-1"};
    else { std::set<std::string> s; while (s.size() < k) s.insert(ident(g)); labs.assign(s.begin(), s.end()); g.shuffle(labs); }
    char sep = fmt == DATA || fmt == TXT ? ' ' : (fmt == ARFF || g.chance(0.6) ? ',' : ';');
    bool crlf = g.chance(0.2), pad = g.chance(0.25) && fmt != TXT, last_nl = g.chance(0.8), label_end = fmt == CSV_LAST || fmt == ARFF || (fmt == DATA && g.chance(0.15));
    int nm = 0;
    for (size_t j = 0; j < d; j++) { nm += fmt == DATA && g.chance(0.4) ? 1 + (int)g.below(20) : 1; f.names.push_back(nm); }
    for (size_t i = 0; i < n; i++) {
        Row r;
        r.id = (long long)i + 1;
        std::string lt;
        if (fmt == TXT) { r.y = 0; }
        else if (f.regression) { lt = numtext(g, r.y); }
        else {
            lt = labs[g.below(labs.size())];
            char *end;
            double v = strtod(lt.c_str(), &end);
            bool isnum = *end == 0 && lt.find_first_of("0123456789") != std::string::npos && lt.find('x') == std::string::npos;
            // same label text, same class, in order of first appearance
            int c = 0;
            bool known = false;
            for (size_t q = 0; q < f.cnames.size(); q++) if (f.cnames[q] == lt || (isnum && f.classes[q] == (int)v && style != 2)) { c = f.classes[q]; known = true; f.dist[q]++; }
            if (!known) {
                c = style == 2 ? (int)f.cnames.size() + 1 : (int)v;
                f.classes.push_back(c); f.cnames.push_back(lt); f.dist.push_back(1);
            }
            r.y = c;
        }
        std::vector<std::string> items;
        for (size_t j = 0; j < d; j++) {
            double v;
            std::string t = numtext(g, v);
            r.x.push_back(v);
            if (fmt == DATA) t = std::to_string(f.names[j]) + ":" + t;
            items.push_back(t);
        }
        if (fmt == TXT) { items.insert(items.begin(), std::to_string(g.i(0, 9))); items.insert(items.begin(), std::to_string(g.i(0, 9))); }
        else if (label_end) items.push_back(lt); else items.insert(items.begin(), lt);
        std::string line;
        for (size_t q = 0; q < items.size(); q++) {
            if (q) { if (pad && g.chance(0.3)) line += " "; line += sep; if (pad && g.chance(0.5)) line += " "; }
            line += items[q];
        }
        if (pad && g.chance(0.2)) line = " " + line + "  ";
        if (i + 1 < n || last_nl) line += crlf ? "\r\n" : "\n";
        f.text += line;
        f.rows.push_back(r);
    }
    static const char *bases[] = {"set", "iris", "My_data-1", "d4ta", "csv", "arff"};
    f.base = bases[g.below(6)];
    f.path = path_in(f.base, fmt == DATA ? "data" : fmt == ARFF ? "arff" : fmt == TXT ? "txt" : "csv");
    return f;
}
void matches(const DD &d, const File &f, const std::string &how) {
    check_consistent(d, how, !f.regression && f.fmt != TXT);
    check_rows("load", d, f.rows, how + "\n" + f.text);
    VCHECK("load:names", d.getFeaturesNames() == f.names, how, ": feature names ", vh::show(d.getFeaturesNames()), " expected ", vh::show(f.names), "\n", f.text);
    VCHECK("load:empty", !d.isEmpty(), how, ": isEmpty() after loading ", f.rows.size(), " samples");
    VCHECK("load:name", d.name() == f.base, how, ": name is ", d.name(), " for ", f.path);
    auto ix = d.getIndex();
    VCHECK("load:index", ix.size() == f.rows.size(), how, ": index of ", ix.size());
    for (size_t i = 0; i < ix.size(); i++) VCHECK("load:index", ix[i] == (int)i, how, ": index ", vh::show(ix));
    if (!f.regression && f.fmt != TXT) {
        VCHECK("load:classes", d.classes() == f.classes, how, ": classes ", vh::show(d.classes()), " expected ", vh::show(f.classes), "\n", f.text);
        VCHECK("load:distribution", d.classesDistribution() == f.dist, how, ": distribution ", vh::show(d.classesDistribution()), " expected ", vh::show(f.dist), "\n", f.text);
        VCHECK("load:class-names", d.classesNames() == f.cnames, how, ": class names ", vh::show(d.classesNames()), " expected ", vh::show(f.cnames), "\n", f.text);
        if (f.fmt == DATA) VCHECK("load:type", d.getType() == (f.classes.size() == 2 ? "BinClassification" : "MultiClassification"), how, ": type ", d.getType(), " with ", f.classes.size(), " classes");
    }
}
bool load(DD &d, const File &f) {
    if (f.fmt == CSV_LAST || (f.fmt == ARFF && (f.rows.size() & 1))) return d.load(f.path, true);
    return d.load(f.path);
}
const char *fname(Fmt f) { static const char *n[] = {"csv(label first)", "csv(label last)", "data", "arff", "txt"}; return n[f]; }
}  // namespace

WORKLOAD(load_fidelity, 6000, 120000) {
    File f = make(rng, (Fmt)rng.below(5));
    put(f.path, f.text);
    vh::count(std::string("loads:") + fname(f.fmt));
    std::string how = fname(f.fmt);
    if (f.regression) {
        how += " regression";
        if (f.fmt == CSV_LAST) { DD d; d.setType("Regression"); VCHECK("load:accepted", load(d, f), how, " rejected"); matches(d, f, how); }
        else { DD d(f.path.c_str(), "Regression", "1", "-1"); matches(d, f, how); VCHECK("load:type", d.getType() == "Regression" && !d.isClassification(), how, ": type ", d.getType()); }
    } else {
        switch (rng.below(3)) {
            case 0: { DD d; VCHECK("load:accepted", load(d, f), how, " rejected:\n", f.text); matches(d, f, how + " load()"); break; }
            case 1: if (f.fmt == CSV_LAST || f.fmt == ARFF) { DD d(f.path, true); matches(d, f, how + " Data(string,true)"); }
                    else { DD d(f.path, false); matches(d, f, how + " Data(string,false)"); } break;
            default: if (f.fmt == CSV_LAST) { DD d(f.path, true); matches(d, f, how + " Data(string,true)"); }
                     else { DD d(f.path.c_str()); matches(d, f, how + " Data(char*)"); } break;
        }
    }
    vh::nontrivial(f.text);
    vh::sample(vh::cat(how, " ", f.text.substr(0, 200)));
    unlink(f.path.c_str());
}
WORKLOAD(reload_same_object, 3000, 60000) {
    DD d;
    std::string how = "sequence";
    int k = 2 + (int)rng.below(3);
    for (int q = 0; q < k; q++) {
        File f = make(rng, (Fmt)rng.below(5), false);
        put(f.path, f.text);
        how += std::string(" ") + fname(f.fmt);
        VCHECK("reload:accepted", load(d, f), how, " rejected:\n", f.text);
        matches(d, f, how);
        vh::count("reloads");
        vh::nontrivial(f.text + std::to_string(q));
        // same file twice
        if (rng.chance(0.3)) { VCHECK("reload:accepted", load(d, f), how, " rejected the second time"); matches(d, f, how + " twice"); }
        unlink(f.path.c_str());
        Rows before = rows_of(d);
        VCHECK("load:missing-file", !d.load(f.path), "load of a missing file reported success");
        check_rows("load:missing-file", d, before, "after loading a missing file");
    }
}
WORKLOAD(write_then_load, 5000, 100000) {
    bool exact = rng.chance(0.6);
    size_t n = gen::grow(rng, 1 + rng.below(20)), dim = gen::wide(rng, 1 + rng.below(8));
    bool regression = rng.chance(0.2);
    Rows rows = gen::rows(rng, n, dim, labels(rng, gen::many(rng, 1 + rng.below(4))), exact ? 0 : 1, 1);
    auto value = [&]() {
        if (exact) return rng.chance(0.3) ? (double)rng.i(-999999, 999999) : rng.decimal(6, -9, 9);
        return rng.gauss() * std::pow(10.0, (double)rng.i(-20, 20));
    };
    for (auto &r : rows) { for (auto &v : r.x) v = value(); if (regression) r.y = exact ? rng.decimal(5, -2, 4) : rng.gauss(); }
    DD d;
    if (regression) d.setType("Regression");
    for (auto &r : rows) d.insertPoint(point_of(r), true);
    std::vector<int> names;
    int nm = 0;
    for (size_t j = 0; j < dim; j++) { nm += 1 + (rng.chance(0.4) ? (int)rng.below(9) : 0); names.push_back(nm); }
    d.setFeaturesNames(names);
    std::string how;
    auto close = [&](double a, double b) { return exact ? a == b : vh::close(a, b, 5.1e-6, 0); };
    std::string stem = vh::scratch_dir() + "/written";
    const char *ext = rng.chance(0.45) ? "csv" : (regression || rng.chance(0.2)) ? "plt" : "data";
    d.write(stem, ext);
    check_rows("write:source-changed", d, rows, "write changed the dataset");
    std::string path = stem + "." + ext;
    vh::count(std::string("writes:") + ext);
    if (std::string(ext) == "plt") {
        std::ifstream in(path);
        std::string line;
        size_t i = 0;
        while (std::getline(in, line)) {
            VCHECK("write:plt", i < rows.size(), "plt has more lines than points");
            std::istringstream ss(line);
            std::vector<double> v;
            std::string t;
            while (ss >> t) v.push_back(strtod(t.c_str(), nullptr));
            VCHECK("write:plt", v.size() == dim + 1 && close(rows[i].y, v[0]), "plt line ", i, " is '", line, "' for point ", rows[i]);
            for (size_t j = 0; j < dim; j++) VCHECK("write:plt", close(rows[i].x[j], v[j + 1]), "plt line ", i, " is '", line, "' for point ", rows[i]);
            i++;
        }
        VCHECK("write:plt", i == rows.size(), "plt has ", i, " lines for ", rows.size(), " points");
    } else {
        DD b;
        if (regression) b.setType("Regression");
        VCHECK("roundtrip:accepted", b.load(path), "the written ", ext, " file is rejected");
        check_consistent(b, std::string("round trip ") + ext, !regression);
        VCHECK("roundtrip:size", b.size() == d.size() && b.dim() == d.dim(), ext, ": ", b.size(), "x", b.dim(), " back from ", d.size(), "x", d.dim());
        for (size_t i = 0; i < n; i++) {
            Row r = row_of(*b.point((int)i));
            VCHECK("roundtrip:label", close(rows[i].y, r.y), ext, ": label of point ", i, " ", r.y, " written as ", rows[i].y);
            for (size_t j = 0; j < dim; j++) VCHECK("roundtrip:feature", close(rows[i].x[j], r.x[j]), ext, ": feature ", j, " of point ", i, " back as ", r.x[j], " written as ", rows[i].x[j]);
        }
        if (std::string(ext) == "data") VCHECK("roundtrip:names", b.getFeaturesNames() == names, "feature names ", vh::show(b.getFeaturesNames()), " written as ", vh::show(names));
        if (!regression) {
            std::map<int, size_t> a, c;
            auto c1 = d.classes(), c2 = b.classes();
            auto d1 = d.classesDistribution(), d2 = b.classesDistribution();
            for (size_t q = 0; q < c1.size(); q++) a[c1[q]] = d1[q];
            for (size_t q = 0; q < c2.size(); q++) c[c2[q]] = d2[q];
            VCHECK("roundtrip:classes", a == c, "class counts differ after the round trip");
        }
    }
    unlink(path.c_str());
    vh::nontrivial(digest(rows) + ext);
    vh::sample(vh::cat(ext, " ", n, "x", dim, exact ? " exact " : " 6 digits ", rows[0]));
}
namespace {
std::string mangle(vh::Rng &g, std::string t, std::string &trace) {
    static const std::vector<std::string> tokens = {"", " ", "  ", ",", ";", ":", "::", "1:2:3:4:5", "-", "+", "e", "E", ".", "1e999", "-1e999", "99999999999999999999", "2147483648", "-2147483648", "-2147483649",
        "nan", "inf", "?", "@attribute a", "1-2", "1.2.3", "\n", "\n\n", "\r", "\t", "a:b", "3:", ":3", "1.5:2.5", std::string(1, '\0'), "\xff\xfe", "0x1p3", "00012", std::string(400, '9'), std::string(300, ','), "1 2:3 4:5\n", "% comment\n", "#\n"};
    int k = 1 + (int)g.below(5);
    for (int q = 0; q < k; q++) {
        size_t n = t.size();
        switch (g.below(9)) {
            case 0: if (n) { size_t a = g.below(n), l = 1 + g.below(std::min<size_t>(n - a, 12)); t.erase(a, l); trace += vh::cat(" del@", a, "+", l); } break;
            case 1: { auto &tk = g.pick(tokens); size_t a = g.below(n + 1); t.insert(a, tk); trace += vh::cat(" ins@", a); } break;
            case 2: if (n) { size_t a = g.below(n); t[a] = (char)g.below(256); trace += vh::cat(" byte@", a); } break;
            case 3: if (n) { size_t a = g.below(n); t.resize(a); trace += vh::cat(" cut@", a); } break;
            case 4: if (n) { size_t a = g.below(n), l = 1 + g.below(std::min<size_t>(n - a, 30)); std::string s = t.substr(a, l); t.insert(g.below(t.size() + 1), s); trace += " dup"; } break;
            case 5: {   // replace one token
                size_t a = n ? g.below(n) : 0, b = a;
                auto sepc = [](char c) { return c == ' ' || c == ',' || c == ';' || c == '\n' || c == ':'; };
                while (a > 0 && !sepc(t[a - 1])) a--;
                while (b < n && !sepc(t[b])) b++;
                t.replace(a, b - a, g.pick(tokens));
                trace += vh::cat(" token@", a);
                break;
            }
            case 6: { std::string c = " ,;:\n\r\t.-+eE0129ab"; for (int z = 0; z < 6; z++) t.insert(g.below(t.size() + 1), 1, c[g.below(c.size())]); trace += " noise"; break; }
            case 7: {   // drop or blank a whole line
                std::vector<std::string> l;
                std::istringstream ss(t);
                std::string s;
                while (std::getline(ss, s)) l.push_back(s);
                if (l.empty()) break;
                size_t a = g.below(l.size());
                if (g.chance(0.5)) l[a] = ""; else std::swap(l[a], l[g.below(l.size())]);
                t.clear();
                for (auto &x : l) t += x + "\n";
                trace += vh::cat(" line@", a);
                break;
            }
            default: t = std::string(g.below(4), '\n') + (g.chance(0.5) ? t : std::string()); trace += " blank"; break;
        }
        if (t.size() > 20000) t.resize(20000);
    }
    return t;
}
size_t lines(const std::string &t) {
    std::istringstream ss(t);
    std::string s;
    size_t n = 0;
    while (std::getline(ss, s)) n++;
    return n;
}
}  // namespace
WORKLOAD(malformed, 12000, 400000) {
    File f = make(rng, (Fmt)rng.below(5));
    std::string trace, text = mangle(rng, f.text, trace);
    // also the right text under another extension
    if (rng.chance(0.1)) { static const char *e[] = {"csv", "data", "arff", "txt"}; f.path = path_in(f.base, e[rng.below(4)]); text = rng.chance(0.5) ? f.text : text; trace += " renamed"; }
    put(f.path, text);
    DD d;
    bool nonempty = rng.chance(0.5);
    if (nonempty) { d = data_of(gen::rows(rng, 5, 3, {4, 7}, 0, 1)).copy(); }
    Rows before = rows_of(d);
    auto cl = d.classes(); auto di = d.classesDistribution(); auto nm = d.getFeaturesNames();
    bool ok = false;
    int how = (int)rng.below(4);
    if (how == 0) ok = d.load(f.path);
    else if (how == 1) ok = d.load(f.path, true);
    else if (how == 2) ok = d.load(f.path, false);
    else {
        DD c(f.path, rng.chance(0.5));
        ok = c.size() > 0;
        if (ok) d = c.copy();
    }
    std::string what = vh::cat(f.path, " how=", how, trace, "\n", text.substr(0, 1500));
    bool txt = f.path.size() > 4 && f.path.substr(f.path.size() - 4) == ".txt";
    if (ok) {
        vh::count("accepted");
        VCHECK("malformed:lines", d.size() == lines(text), "accepted ", d.size(), " samples from ", lines(text), " lines: ", what);
        check_consistent(d, "accepted " + what, d.isClassification() && !txt);
        DD c = d.copy();
        if (d.isClassification() && !txt) c.computeClassesDistribution();
        VCHECK("malformed:copy", c.size() == d.size(), "copy differs: ", what);
        vh::nontrivial("ok" + text);
    } else {
        vh::count("rejected");
        check_rows("malformed:rejected-changed", d, before, "rejected load changed the dataset: " + what);
        VCHECK("malformed:rejected-changed", d.classes() == cl && d.classesDistribution() == di && d.getFeaturesNames() == nm, "rejected load changed classes or names: ", what);
        vh::nontrivial("no" + text);
    }
    vh::sample(vh::cat(ok ? "accepted " : "rejected ", what.substr(0, 300)));
    unlink(f.path.c_str());
}
WORKLOAD(odd_paths, 300, 3000) {
    static const std::vector<std::string> p = {"", ".", "..", "/", "//", "noext", "x.", ".csv", "dir/", "a.b.c", "a.CSV", "x.plt", "data", "sv", "x.sv", "x.rff", "x.dcsv", "...", "a/.data", "x.txt/", "\n", "x.ata", "t", "a", "csv", ".t"};
    DD d = data_of(gen::rows(rng, 3, 2, {1, 2}, 0, 1));
    Rows before = rows_of(d);
    std::string path = rng.pick(p);
    if (rng.chance(0.3)) path = vh::scratch_dir() + "/" + path;
    bool ok = rng.chance(0.5) ? d.load(path) : d.load(path, rng.chance(0.5));
    VCHECK("malformed:odd-path", !ok, "load('", path, "') reported success");
    check_rows("malformed:rejected-changed", d, before, "load('" + path + "')");
    DD e(path.c_str());
    VCHECK("malformed:odd-path", e.size() == 0, "Data('", path, "') has points");
    vh::count("odd paths");
    vh::nontrivial(path);
}
VH_MAIN
