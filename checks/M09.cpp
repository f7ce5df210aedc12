// Hyperparameter search: what is evaluated in each round, what is kept, and what is returned.
// The clock of the day advances by one millisecond each time it is read, so that every evaluation has a folder of its own.
#include <sys/syscall.h>
#include <time.h>
#include <atomic>
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "ml_ref.hpp"
#include "ml/hyperband/hyperband.hpp"

static std::atomic<long> verif_now{0};

extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (id == CLOCK_REALTIME) {
        long n = ++verif_now;
        t->tv_sec = 1700000000 + n / 1000;
        t->tv_nsec = n % 1000 * 1000000;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, id, t);
}

namespace harness {

using namespace net;

static mc::Info info() {
    mc::Info i;
    i.id = "M09";
    i.rule = "real searches on small datasets (numbers, one category, two categories): every set of configurations (learning rates x depths) x number x reduction factor x target; the folder of every "
             "evaluation is collected at the end of its round; every model evaluated is loaded and measured again, and the rounds must evaluate each configuration once, keep the best share, stop at one "
             "configuration or at the target, and return the best model of all; and all orders of evaluating configurations one by one, with different limits of epochs. "
             "state = (search, round, configurations left), transition = evaluation";
    i.bounds_quick = {"3 kinds of dataset x 57 sets of up to 6 configurations x reduction by 2, 3 x 3 targets", "all orders of 3 configurations x 3 kinds", "limits of 2..5 epochs"};
    i.bounds_thorough = {"the same with sets of up to 7 of 8 configurations", "all orders of 4 configurations x 3 kinds", "limits of 2..7 epochs"};
    i.assumptions = {"configurations that are exactly as good as each other may be kept in either way", "the random choice of configurations is made to choose all there are"};
    i.case_timeout = 120;
    return i;
}

static const char *kinds[] = {"numbers", "category", "yes or no"};

static LossType loss_of(int kind) { return kind == 0 ? LossType::mse : kind == 1 ? LossType::categoricalCrossEntropy : LossType::binaryCrossEntropy; }

static std::shared_ptr<BinaryColumnMetadata> column(char purpose, int width, const std::string &name) {
    auto m = std::make_shared<BinaryColumnMetadata>();
    m->purpose = purpose;
    m->is_standardized = m->is_normalized = false;
    m->mean = m->standard_deviation = m->min_value = m->max_value = 0;
    m->source_column_count = purpose == 'L' ? 1 : width;
    m->rows = m->channels = 1;
    m->columns = width;
    m->name = name;
    if (purpose == 'L') for (int i = 0; i < width; i++) m->ordered_labels.push_back(std::string(1, 'a' + i));
    return m;
}

static void write_data(const std::string &path, int kind, int rows = 16) {
    int out = kind == 1 ? 3 : 1;
    BinaryDatasetWriter w(path, {column('N', 2, "g")}, {column(kind == 1 ? 'L' : 'N', out, "e")});
    for (int i = 0; i < rows; i++) {
        float x = (float) (i + 1) / 16, y = (float) ((i + 1) * 7 % 16) / 16;
        std::vector<float> e;
        if (kind == 0) e = {(x + y * y) / 2};
        else if (kind == 1) for (int k = 0; k < 3; k++) e.push_back((i * 5 + i / 3) % 3 == k);
        else e = {(float) (x + 0.3f * y > 0.5f)};
        w.writeRow({tensor_of({x, y}, {1, 2, 1})}, {tensor_of(e, {1, (size_t) out, 1})});
    }
    w.close();
}

struct Config {
    float lr;
    int depth;

    bool operator<(const Config &o) const { return std::tie(lr, depth) < std::tie(o.lr, o.depth); }

    bool operator==(const Config &o) const { return lr == o.lr && depth == o.depth; }

    std::string str() const { return mc::show(lr) + "/" + std::to_string(depth); }
};

static std::shared_ptr<Hyperparameters> parameters(const Config &k) {
    auto h = std::make_shared<Hyperparameters>();
    h->learning_rate = k.lr;
    h->bias_learning_rate = 0.001f;
    h->complexity_depth = k.depth;
    h->complexity_width = 1.5f;
    h->dropout_rate = 0;
    h->l2_regularization_strength = 0;
    h->batch_size = 4;
    h->use_normalization_layers = false;
    h->use_bias = true;
    h->use_hidden_bias = true;
    h->use_normal_clipping = false;
    h->bits = 32;
    return h;
}

static double metric(int kind, const std::shared_ptr<NeuralNetworkForTraining> &m, const std::shared_ptr<BinaryDataSet> &test) {
    m->setSilentMode(true);
    if (kind == 0) return m->test(test);
    // computed here, not by the network
    double right = 0, all = 0;
    test->restart();
    while (auto r = test->nextRecord()) {
        auto p = values(m->predict(r->getGiven())[0]), e = values(r->getExpected()[0]);
        if (kind == 1) right += std::max_element(p.begin(), p.end()) - p.begin() == std::max_element(e.begin(), e.end()) - e.begin();
        else right += std::round(p[0]) == std::round(e[0]);
        all++;
    }
    return right / all;
}

static std::string predictions(const std::shared_ptr<NeuralNetworkForTraining> &m, const std::shared_ptr<BinaryDataSet> &test) {
    std::string s;
    test->restart();
    while (auto r = test->nextRecord()) for (float f: values(m->predict(r->getGiven())[0])) s.append((char *) &f, sizeof f);
    return s;
}

struct Evaluated {
    Config k;
    double metric;
    std::string predictions;
};

// the models in the folder of the search, apart from those already seen
static std::vector<Evaluated> collect(const std::string &repo, int kind, const std::shared_ptr<BinaryDataSet> &test, std::set<std::string> &seen) {
    std::vector<Evaluated> r;
    for (auto &f: mc::tree(repo)) {
        if (f.size() < 13 || f.substr(f.size() - 13) != "/model.config" || !seen.insert(f).second) continue;
        auto folder = f.substr(0, f.size() - 13);
        size_t cut = folder.rfind('/');
        auto m = loadNeuralNetworkForTraining(folder.substr(cut + 1), repo + "/" + folder.substr(0, cut));
        Evaluated e;
        std::istringstream config(mc::slurp(repo + "/" + f));
        std::string line;
        e.k = {-1, -2};
        while (std::getline(config, line)) {
            if (line.rfind("learningRate:", 0) == 0 || line.rfind("\"learningRate\":", 0) == 0) e.k.lr = std::stof(line.substr(line.find(':') + 1));
            if (line.find("vertex") != std::string::npos) e.k.depth++;
        }
        if (kind == 1) e.k.depth--;        // the extra layer before a softmax
        e.metric = metric(kind, m, test);
        e.predictions = predictions(m, test);
        r.push_back(e);
    }
    return r;
}

// looks at the folder at the end of every line that is printed
struct Watch : std::streambuf {
    std::function<void(const std::string &)> on_line;
    std::string line;
    std::mutex m;

    int overflow(int ch) override {
        std::lock_guard<std::mutex> g(m);
        if (ch == '\n') {
            on_line(line);
            line.clear();
        } else line += (char) ch;
        return ch;
    }
};

static void search(mc::Ctx &c, int kind, const std::vector<float> &lrs, const std::vector<int> &depths, int factor, float target) {
    auto dir = c.fresh("h");
    write_data(dir + "/data.bin", kind);
    auto test = std::make_shared<BinaryDataSet>(dir + "/data.bin");
    std::shared_ptr<HyperparameterSpace> space = std::make_shared<HyperparameterSpace>(4);
    space->learning_rate_space = lrs;
    space->complexity_depth_space = depths;
    space->bias_learning_rate_space = {0.001f};
    space->complexity_width_space = {1.5f};
    space->dropout_rate_space = {0};
    space->l2_regularization_strength_space = {0};
    space->batch_size_space = {4};
    space->use_normalization_layers_space = {false};
    space->use_hidden_bias_space = space->use_bias_space = {true};
    space->use_normal_clipping_space = {false};
    size_t n = lrs.size() * depths.size();
    c.check(space->getNumConfigurations() == n, "size", "of the space is " + std::to_string(space->getNumConfigurations()));
    bool minimize = kind == 0;
    std::shared_ptr<ConfigurationEvaluator> evaluator = std::make_shared<ConfigurationEvaluator>(loss_of(kind), OptimizerType::adam, dir + "/data.bin", 1.0f, dir + "/data.bin", 1.0f, dir + "/repo/", 3, 100000);
    Hyperband h(space, evaluator, 9, factor);
    std::set<std::string> seen;
    std::vector<std::vector<Evaluated>> rounds;
    Watch w;
    std::string error;
    w.on_line = [&](const std::string &line) {
        try {
            if (!std::filesystem::exists(dir + "/repo")) return;
            auto e = collect(dir + "/repo", kind, test, seen);
            if (!e.empty()) rounds.push_back(e);
        } catch (const std::exception &x) { error = x.what(); }
    };
    auto old = std::cout.rdbuf(&w);
    std::shared_ptr<NeuralNetworkForTraining> best;
    try { best = h.run(n, target, 32); }
    catch (const std::exception &x) { error = x.what(); }
    std::cout.rdbuf(old);
    if (!error.empty()) return c.fail("throws", error);
    if (!best) return c.fail("result", "there is none");
    std::vector<Config> left;
    for (float lr: lrs) for (int d: depths) left.push_back({lr, d});
    std::sort(left.begin(), left.end());
    bool have = false;
    double best_metric = 0;
    std::set<std::string> best_predictions;
    size_t expect = n;
    bool stopped = false;
    for (size_t r = 0; r < rounds.size(); r++) {
        auto at = "round " + std::to_string(r + 1);
        std::vector<Config> now;
        std::string s;
        for (auto &e: rounds[r]) now.push_back(e.k);
        std::sort(now.begin(), now.end());
        for (auto &k: now) s += k.str() + " ";
        c.state(mc::hash(s + std::to_string(kind) + std::to_string(factor)));
        c.transition(now.size());
        if (stopped) c.fail("rounds", at + " after the target was reached");
        if (now.size() != expect) c.fail("rounds", at + " evaluates " + std::to_string(now.size()) + " configurations, not " + std::to_string(expect));
        if (r == 0 && now != left) c.fail("rounds", "the first round evaluates " + s);
        if (r > 0) {
            // nobody who is out was better than somebody who stays
            for (auto &a: rounds[r - 1]) {
                bool stays = std::find(now.begin(), now.end(), a.k) != now.end();
                if (stays) continue;
                for (auto &b: rounds[r - 1])
                    if (std::find(now.begin(), now.end(), b.k) != now.end() && (minimize ? a.metric < b.metric - 1e-6 : a.metric > b.metric + 1e-6))
                        c.fail("kept", at + ": " + b.k.str() + " with " + mc::show(b.metric) + " is kept, " + a.k.str() + " with " + mc::show(a.metric) + " is not");
            }
            for (auto &k: now) {
                bool was = false;
                for (auto &a: rounds[r - 1]) was = was || a.k == k;
                if (!was) c.fail("kept", at + ": " + k.str() + " comes back");
            }
        }
        for (auto &e: rounds[r]) {
            if (!have || (minimize ? e.metric < best_metric : e.metric > best_metric)) {
                best_metric = e.metric;
                best_predictions.clear();
                have = true;
            }
            if (e.metric == best_metric) best_predictions.insert(e.predictions);
        }
        stopped = minimize ? best_metric < target : best_metric > target;
        expect /= factor;
    }
    if (!stopped && expect > 1) c.fail("rounds", "ends with " + std::to_string(expect) + " configurations to compare");
    double got = metric(kind, best, test), said = evaluator->getBestEvaluationMetric();
    if (std::abs(got - best_metric) > 1e-6) c.fail("result", "the model returned measures " + mc::show(got) + ", the best one " + mc::show(best_metric));
    if (!best_predictions.count(predictions(best, test))) c.fail("result", "the model returned is not one that was evaluated as the best");
    if (std::abs(said - best_metric) > 1e-5) c.fail("result", "says " + mc::show(said) + ", the best measures " + mc::show(best_metric));
    for (auto &f: mc::tree(dir + "/repo")) if (f.find("temp") != std::string::npos) { c.fail("left-over", f); break; }
    if (stopped) c.count("stopped at the target");
    c.trace();
}

static void one_by_one(mc::Ctx &c, int kind, const std::vector<Config> &order, int epochs) {
    auto dir = c.fresh("h");
    write_data(dir + "/data.bin", kind);
    auto test = std::make_shared<BinaryDataSet>(dir + "/data.bin");
    bool minimize = kind == 0;
    ConfigurationEvaluator e(loss_of(kind), OptimizerType::adam, dir + "/data.bin", 1.0f, dir + "/data.bin", 1.0f, dir + "/repo/", epochs, 100000);
    c.check(e.getMinimizeMetric() == minimize, "direction", "of the metric");
    std::set<std::string> seen;
    double best = 0;
    std::string best_predictions;
    std::string s;
    for (size_t i = 0; i < order.size(); i++) {
        auto h = parameters(order[i]);
        float target = minimize ? 0.1f : 0.5f;
        bool reached = e.evaluateConfiguration(h, 2, target);
        auto now = collect(dir + "/repo", kind, test, seen);
        if (now.size() != 1) return c.fail("evaluated", std::to_string(now.size()) + " models at once");
        c.check(now[0].k == order[i], "evaluated", "is " + now[0].k.str());
        bool better = i == 0 || (minimize ? now[0].metric < best : now[0].metric > best);
        if (better) {
            best = now[0].metric;
            best_predictions = now[0].predictions;
        }
        c.check(std::abs(h->evaluation_metric - now[0].metric) < 1e-5, "metric", "is " + mc::show(h->evaluation_metric) + ", the model measures " + mc::show(now[0].metric));
        c.check(reached == (better && (minimize ? best < target : best > target)), "target", reached ? "is reported as reached" : "is not reported as reached");
        c.check(std::abs(e.getBestEvaluationMetric() - best) < 1e-5, "best", "is " + mc::show(e.getBestEvaluationMetric()) + ", not " + mc::show(best));
        c.check(predictions(e.getBestModel(), test) == best_predictions, "best", "another model is returned");
        if (better) c.check(e.getBestConfiguration() == h, "best", "another configuration is returned");
        s += order[i].str();
        c.state(mc::hash(s + std::to_string(kind)));
        c.transition();
    }
    e.remove_temp_folder();
    for (auto &f: mc::tree(dir + "/repo")) if (f.find("temp") != std::string::npos) { c.fail("left-over", f); break; }
    c.trace();
}

static void explore(mc::Ctx &c) {
    std::vector<float> lrs = {0.003f, 0.00001f, 0.03f, 0.3f};
    std::vector<int> depths = {1, 2};
    std::vector<float> targets_small = {0, 0.05f, 1}, targets_big = {1, 0.5f, 0.05f};
    for (int kind = 0; kind < 3; kind++)
        for (int which = 1; which < 16; which++)
            for (int dw = 1; dw < 4; dw++) {
                std::vector<float> l;
                std::vector<int> d;
                for (int i = 0; i < 4; i++) if (which >> i & 1) l.push_back(lrs[i]);
                for (int i = 0; i < 2; i++) if (dw >> i & 1) d.push_back(depths[i]);
                size_t n = l.size() * d.size();
                if (n < 2 || n > (c.thorough ? 8u : 6u)) continue;
                for (int factor: {2, 3})
                    for (float t: kind == 0 ? targets_small : targets_big) {
                        std::string s = std::string("search ") + kinds[kind] + ", learning rates " + mc::show(l) + ", depths";
                        for (int x: d) s += " " + std::to_string(x);
                        if (!c.begin(s + ", by " + std::to_string(factor) + ", target " + mc::show(t))) continue;
                        c.run([&] { search(c, kind, l, d, factor, t); });
                    }
            }
    std::vector<Config> some = {{0.03f, 1}, {0.00001f, 1}, {0.3f, 2}};
    if (c.thorough) some.push_back({0.003f, 2});
    for (int kind = 0; kind < 3; kind++) {
        auto o = some;
        std::sort(o.begin(), o.end());
        do {
            std::string s = std::string("one by one ") + kinds[kind];
            for (auto &k: o) s += " " + k.str();
            if (!c.begin(s)) continue;
            c.run([&] { one_by_one(c, kind, o, 3); });
        } while (std::next_permutation(o.begin(), o.end()));
    }
    if (c.begin("limits of epochs"))
        c.run([&] {
            std::vector<std::string> got;
            for (int epochs = 2; epochs <= (c.thorough ? 7 : 5); epochs++) {     // the search always trains at least two
                auto dir = c.fresh("h");
                write_data(dir + "/data.bin", 0, 1);        // one row: nothing is shuffled
                auto test = std::make_shared<BinaryDataSet>(dir + "/data.bin");
                ConfigurationEvaluator e(loss_of(0), OptimizerType::adam, dir + "/data.bin", 1.0f, dir + "/data.bin", 1.0f, dir + "/repo/", epochs, 100000);
                auto one = parameters({0.003f, 1});
                one->batch_size = 1;
                e.evaluateConfiguration(one, 100, 0);
                auto p = predictions(e.getBestModel(), test);
                for (size_t i = 0; i < got.size(); i++) c.check(got[i] != p, "limit", std::to_string(epochs) + " epochs learn the same as " + std::to_string(i + 2));
                got.push_back(p);
                c.transition();
            }
        });
}

}

MC_MAIN
