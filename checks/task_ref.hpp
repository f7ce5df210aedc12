// Tasks of the language: kinds of columns, their encoding, the text a user writes and the table that is printed.
#ifndef VERIF_TASK_REF_HPP
#define VERIF_TASK_REF_HPP
#include "dataset_ref.hpp"
#include "lang_exec.hpp"
#include "util/task_utils.hpp"
#include <set>

namespace harness {

using Meta = std::shared_ptr<BinaryColumnMetadata>;
using T = std::shared_ptr<BaseTensor>;

struct Kind {
    char purpose;
    size_t r, c, ch;
    std::vector<std::string> labels;
    bool s, n;
    float mean, sd, lo, hi;

    size_t size() const { return r * c * ch; }
};

static Kind number(size_t r, size_t c, int scale, size_t ch = 1) {
    Kind k{'N', r, c, ch, {}, (scale & 2) != 0, (scale & 1) != 0, 4, 16, -2, 3};
    if (scale == 1) {
        k.lo = -10;
        k.hi = 50;
    }
    return k;
}

static Kind label(std::vector<std::string> l) {
    Kind k{'L', 1, l.size(), 1, l, false, false, 0, 0, 0, 0};
    return k;
}

static Kind image(size_t r, size_t c, size_t ch) { return {'I', r, c, ch, {}, false, false, 0, 0, 0, 0}; }

static const std::vector<Kind> given_kinds = {number(1, 1, 3), label({"red", "blue", "7.50"}), number(2, 2, 3), image(2, 3, 1), number(1, 3, 1), image(1, 2, 3), number(3, 1, 2),
                                              number(1, 1, 0), number(1, 1, 1), number(1, 1, 2), label({"yes", "1000000"}), number(2, 1, 3, 2)};
static const std::vector<Kind> expected_kinds = {number(1, 1, 3), label({"cat", "dog", "a b"}), number(1, 2, 3), label({"no", "yes"}), number(1, 1, 0), number(1, 1, 1), number(1, 1, 2), number(2, 2, 3), number(3, 1, 1)};
static const std::vector<std::string> given_names = {"Alpha", "beta two", "GAMMA"}, expected_names = {"Out", "second"};

static Meta make(const Kind &k, const std::string &name) {
    auto m = std::make_shared<BinaryColumnMetadata>();
    m->purpose = k.purpose;
    m->is_standardized = k.s;
    m->mean = k.mean;
    m->standard_deviation = k.sd;
    m->is_normalized = k.n;
    m->min_value = k.lo;
    m->max_value = k.hi;
    m->source_column_count = k.purpose == 'L' ? 1 : k.size();
    m->rows = k.r;
    m->columns = k.c;
    m->channels = k.ch;
    m->ordered_labels = k.labels;
    m->name = name;
    return m;
}

static std::vector<Meta> make(const std::vector<Kind> &k, const std::vector<std::string> &names) {
    std::vector<Meta> r;
    for (size_t i = 0; i < k.size(); i++) r.push_back(make(k[i], names[i]));
    return r;
}

// what a user writes for one column
using Cell = std::vector<std::string>;

static std::vector<Cell> cells(const Kind &k) {
    std::vector<Cell> r;
    if (k.purpose == 'L') {
        for (auto &l: k.labels) r.push_back({l});
        return r;
    }
    static const std::vector<std::string> n = {"2.5", "-7", "0", "40", "11.25", "3"}, p = {"0", "255", "128", "1", "77", "200"};
    auto &a = k.purpose == 'N' ? n : p;
    for (size_t shift = 0; shift < 4; shift++) {
        Cell x;
        for (size_t i = 0; i < k.size(); i++) x.push_back(a[(i * (shift + 1) + shift) % a.size()]);
        r.push_back(x);
    }
    return r;
}

static std::vector<double> encode(const Kind &k, const Cell &x) {
    std::vector<double> v;
    if (k.purpose == 'L') {
        for (auto &l: k.labels) v.push_back(l == x[0]);
        return v;
    }
    for (auto &s: x) {
        double d = atof(s.c_str());
        if (k.purpose == 'I') d /= 255;
        if (k.s) d = (d - k.mean) / k.sd;
        if (k.n) d = (d - k.lo) / ((double) k.hi - k.lo);
        v.push_back(d);
    }
    return v;
}

static T tensor_of(const Kind &k, const std::vector<double> &v) {
    std::vector<std::vector<std::vector<float>>> x(k.ch, std::vector<std::vector<float>>(k.r, std::vector<float>(k.c)));
    size_t i = 0;
    for (auto &a: x) for (auto &b: a) for (auto &e: b) e = (float) v[i++];
    return tensor(x);
}

// one column of a printed result: its lines
using Shown = std::vector<std::string>;

static std::string trim(const std::string &s) {
    size_t a = s.find_first_not_of(" \r"), b = s.find_last_not_of(" \r");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

static std::vector<std::vector<std::string>> table(const std::string &out) {
    std::vector<std::vector<std::string>> t;
    std::stringstream ss(out);
    std::string line;
    bool on = false;
    while (std::getline(ss, line)) {
        if (trim(line) == "Results:") {
            on = true;
            continue;
        }
        if (!on || trim(line).empty()) continue;
        std::vector<std::string> row;
        size_t at = 0;
        while (true) {
            size_t b = line.find('|', at);
            row.push_back(trim(line.substr(at, b == std::string::npos ? b : b - at)));
            if (b == std::string::npos) break;
            at = b + 1;
        }
        t.push_back(row);
    }
    return t;
}

// the numbers in a printed line
static std::vector<double> parse(const std::string &s) {
    std::vector<double> r;
    const char *p = s.c_str();
    while (*p) {
        char *e;
        double d = strtod(p, &e);
        if (e == p) p++;
        else {
            r.push_back(d);
            p = e;
        }
    }
    return r;
}

static std::string join(const Shown &s) { return mc::show(s); }

// empty when the lines show the stored values v in original units
static std::string judge(const Kind &k, std::vector<double> v, const Shown &lines) {
    if (k.purpose == 'I') return "";   // D10 decides how an image looks
    if (k.purpose == 'L') {
        auto best = (size_t) (std::max_element(v.begin(), v.end()) - v.begin());
        for (size_t i = 0; i < v.size(); i++) if (i != best && v[best] - v[i] < 1e-4) return "";
        if (lines.size() < 1 || lines[0] != k.labels[best]) return "shows " + join(lines) + " for " + mc::show(k.labels[best]);
        return "";
    }
    if (lines.size() < k.r) return "shows " + join(lines) + " for " + std::to_string(k.r) + " rows";
    for (size_t r = 0; r < k.r; r++) {
        auto shown = parse(lines[r]);
        std::string want;
        bool ok = shown.size() == k.c * k.ch;
        for (size_t i = 0; i < k.c * k.ch; i++) {
            double d = v[(i % k.ch) * k.r * k.c + r * k.c + i / k.ch];
            if (k.n) d = d * ((double) k.hi - k.lo) + k.lo;
            if (k.s) d = d * k.sd + k.mean;
            want += " " + std::to_string(d);
            ok = ok && i < shown.size() && std::fabs(shown[i] - d) <= 0.0015 + 0.001 * std::fabs(d);
        }
        if (!ok) return "shows " + join(lines) + " for row" + want;
    }
    return "";
}

struct Task {
    std::vector<Kind> g, e;
    std::shared_ptr<NeuralNetworkForTraining> net;

    std::vector<std::vector<double>> predict(const std::vector<Cell> &x) {
        std::vector<T> in;
        for (size_t i = 0; i < g.size(); i++) in.push_back(tensor_of(g[i], encode(g[i], x[i])));
        std::vector<std::vector<double>> r;
        for (auto &p: net->predict(in)) {
            std::vector<double> v;
            for (size_t ch = 0; ch < p->channelCount(); ch++)
                for (size_t row = 0; row < p->rowCount(); row++)
                    for (size_t col = 0; col < p->columnCount(); col++) v.push_back(p->getValue(row, col, ch));
            r.push_back(v);
        }
        return r;
    }
};

static std::string describe(const Kind &k) {
    std::string s = std::string(1, k.purpose) + std::to_string(k.r) + "x" + std::to_string(k.c) + "x" + std::to_string(k.ch);
    if (k.s) s += "s";
    if (k.n) s += "n";
    return s;
}

static const std::string tasks = "../happyml_repo/tasks/", datasets = "../happyml_repo/datasets/";

static Task make_task(mc::Ctx &c, const std::vector<Kind> &g, const std::vector<Kind> &e) {
    Task t{g, e, nullptr};
    std::filesystem::remove_all("../happyml_repo");
    std::filesystem::create_directories(tasks);
    std::filesystem::create_directories(datasets);
    auto b = neuralNetworkBuilder(OptimizerType::sgd)->setModelName("t")->setModelRepo(tasks)->setLossFunction(LossType::mse);
    std::vector<std::vector<size_t>> shapes;
    for (auto &k: g) shapes.push_back({k.r, k.c, k.ch});
    std::shared_ptr<HappymlDSL::NNVertex> l;
    if (g.size() > 1) l = b->add_concatenated_input_layer(shapes)->addLayer(5, LayerType::full, ActivationType::tanhDefault);
    else l = b->addInputLayer(shapes[0], 5, LayerType::full, ActivationType::tanhDefault);
    for (auto &k: e) l->addOutputLayer({k.r, k.c, k.ch}, ActivationType::sigmoid)->setUseBias(true);
    t.net = b->build();
    t.net->setSilentMode(true);
    t.net->saveWithOverwrite();
    // known weights instead of random ones
    unsigned salt = 1;
    for (auto &f: mc::tree(tasks + "t")) {
        if (f.size() < 7 || f.substr(f.size() - 7) != ".tensor") continue;
        FullTensor old(tasks + "t/" + f);
        std::vector<std::vector<std::vector<float>>> x(old.channelCount(), std::vector<std::vector<float>>(old.rowCount(), std::vector<float>(old.columnCount())));
        for (auto &a: x)
            for (auto &bb: a)
                for (auto &v: bb) {
                    salt = salt * 1103515245u + 12345u;
                    v = (float) ((salt >> 16) % 2001) / 1000.0f - 1.0f;
                }
        tensor(x)->save(tasks + "t/" + f);
    }
    if (salt == 1) c.fail_stop("harness", "no tensors in " + mc::show(mc::tree(tasks + "t")));
    BinaryDatasetWriter w(tasks + "t/dataset.bin", make(g, given_names), make(e, expected_names));
    w.close();
    t.net = loadNeuralNetworkForTraining("t", tasks);
    t.net->setSilentMode(true);
    return t;
}

static bool is_literal(const std::string &s) { return !s.empty() && s.find_first_not_of("0123456789.") == std::string::npos; }

static std::string in_quotes(const std::string &s, char q) { return q + s + q; }

// notations: 0 plain, 1 everything quoted, 2 single quotes and lists, 3 columns reversed and upper case names, 4 lower case names, bare words
static std::string statement(const std::vector<Cell> &x, int notation, const std::vector<std::string> &names = given_names) {
    std::string s = "execute task t using input (";
    for (size_t i = 0; i < x.size(); i++) {
        size_t at = notation == 3 ? x.size() - 1 - i : i;
        std::string name = names[at];
        if (notation == 3) for (auto &ch: name) ch = (char) toupper(ch);
        if (notation == 4) for (auto &ch: name) ch = (char) tolower(ch);
        char q = notation == 2 ? '\'' : '"';
        bool word = name.find(' ') == std::string::npos;
        s += (i ? ", " : "") + (word && notation >= 3 ? name : in_quotes(name, q)) + ": ";
        bool list = x[at].size() != 1 || notation == 2;
        if (list) s += "[";
        for (size_t j = 0; j < x[at].size(); j++) {
            auto &v = x[at][j];
            bool lit = notation != 1 && is_literal(v), bare = notation == 4 && !v.empty() && isalpha((unsigned char) v[0]) && v.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos;
            s += (j ? ", " : "") + (lit || bare ? v : in_quotes(v, q));
        }
        if (list) s += "]";
    }
    return s + ")";
}

// values chosen so that every column takes every one of its values
static std::vector<std::vector<Cell>> combos(const std::vector<Kind> &g, size_t cap) {
    std::vector<std::vector<Cell>> all;
    std::vector<std::vector<Cell>> per;
    for (auto &k: g) per.push_back(cells(k));
    std::function<void(std::vector<Cell>)> rec = [&](std::vector<Cell> x) {
        if (x.size() == g.size()) {
            all.push_back(x);
            return;
        }
        for (auto &v: per[x.size()]) {
            auto y = x;
            y.push_back(v);
            rec(y);
        }
    };
    rec({});
    if (all.size() <= cap) return all;
    std::vector<std::vector<Cell>> r;
    for (size_t i = 0; i < cap; i++) r.push_back(all[i * all.size() / cap]);
    return r;
}

static std::string show(const std::vector<Cell> &x) {
    std::string s;
    for (auto &v: x) s += mc::show(v);
    return s;
}

static Outcome quiet(const std::string &text) {
    Outcome r;
    {
        Streams s;
        try { r.exit = new_session()->interpretCommands(text, "script"); }
        catch (std::exception &e) { r.thrown = std::string("exception ") + e.what(); }
        r.out = s.out.str();
        r.err = s.err.str();
    }
    return r;
}

}

#endif
