// The training loop: what it reports, when it ends and which epoch it keeps, for every course that the losses can take.
// MC_FLAGS: -O2
#include "ml_ref.hpp"
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

// the clock stands still but for what a script takes
static long long now_ms = 1700000000000;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (id == CLOCK_REALTIME) {
        t->tv_sec = now_ms / 1000;
        t->tv_nsec = now_ms % 1000 * 1000000;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, id, t);
}

namespace harness {

using namespace happyml;
using T = std::shared_ptr<BaseTensor>;

static mc::Info info() {
    mc::Info i;
    i.id = "M08";
    i.rule = "real training of a one-weight network whose loss follows a script (the weight counts the batches, so the knowledge kept tells the epoch it is of): all courses of training and test losses "
             "x batch sizes x retention of the last or the best epoch, and all pairs of courses in two trainings in a row under the default exit strategy; results, calls of the exit strategy, knowledge kept "
             "and files left are compared with a reference; state = (epoch, losses so far, what is kept), transition = epoch";
    i.bounds_quick = {"all courses of up to 3 epochs: training 3 losses x test 5 losses (or none), 3 records in batches of 1, 2, 3", "two trainings: all pairs of courses of 3 of 5 losses", "limits: 3 numbers of records x 3 speeds x 6 limits of time x 3 x 3 limits of epochs, tested or not, twice"};
    i.bounds_thorough = {"all courses of up to 4 epochs", "two trainings: all pairs of courses of 4 of 5 losses", "limits as quick"};
    i.assumptions = {"losses are at least zero; a mean over infinite losses is not judged"};
    return i;
}

// loss of an epoch by the number of batches the weight has counted
struct Script : LossFunction {
    std::vector<float> train, test;
    size_t batches = 1;
    double start = 0;
    long long takes = 10;               // milliseconds for a record

    float at(const std::vector<float> &v, long k) const { return v.empty() ? 0 : v[std::min((size_t) std::max(0l, k), v.size() - 1)]; }

    T compute_error(T &truth, T &prediction) override {
        now_ms += takes;
        long k = std::lround(start - prediction->getValue(0));
        bool testing = truth->getValue(0) == 1;
        float l = testing ? at(test, k / (long) batches - 1) : at(train, k / (long) batches);
        return std::make_shared<UniformTensor>(1, 1, 1, l);
    }

    float compute_loss(T &error) override { return error->getValue(0); }

    T compute_loss_derivative(T &, T &, T &) override { return std::make_shared<UniformTensor>(1, 1, 1, 1.0f); }
};

struct Stop : ExitStrategy {
    size_t n;
    std::vector<std::pair<size_t, float>> calls;
    std::vector<long long> elapsed;      // more than it should be
    long long began = now_ms;

    explicit Stop(size_t n) : n(n) {}

    bool isDone(size_t e, float loss, int64_t ms) override {
        calls.emplace_back(e, loss);
        elapsed.push_back(ms - (now_ms - began));
        return e >= n;
    }

    std::string whyDone(size_t, float, int64_t) override { return "script"; }
};

static std::shared_ptr<net::Fixed> records(size_t n, float marker) {
    auto d = std::make_shared<net::Fixed>();
    d->gs = {{1, 1, 1}};
    d->es = {{1, 1, 1}};
    for (size_t i = 0; i < n; i++) d->pairs.push_back(std::make_shared<TrainingPair>(std::vector<T>{std::make_shared<UniformTensor>(1, 1, 1, 1.0f)}, std::vector<T>{std::make_shared<UniformTensor>(1, 1, 1, marker)}));
    return d;
}

static std::shared_ptr<NeuralNetworkForTraining> network(const std::string &repo) {
    net::Net n;
    net::V v;
    v.in = {1, 1, 1};
    v.n = 1;
    v.act = linear;
    v.l2 = 0;
    v.output = true;
    n.v = {v};
    n.lr = 1;
    auto nn = n.build("m", repo);
    nn->setSilentMode(true);
    return nn;
}

static double weight(const std::shared_ptr<NeuralNetworkForTraining> &nn) {
    return nn->predictScalar(std::make_shared<UniformTensor>(1, 1, 1, 1.0f));
}

// a mean over infinite losses may come out as either
static bool same(float a, float b) { return a == b || (!std::isfinite(a) && !std::isfinite(b)); }

static void course(mc::Ctx &c, const std::vector<float> &train, const std::vector<float> &test, int batch, bool best, bool silent) {
    const size_t n = 3;
    auto repo = c.fresh("repo");
    auto nn = network(repo);
    nn->setSilentMode(silent);
    auto script = std::make_shared<Script>();
    script->train = train;
    script->test = test;
    script->batches = (n + batch - 1) / batch;
    script->start = weight(nn);
    nn->setLossFunction(script);
    auto stop = std::make_shared<Stop>(train.size());
    nn->setExitStrategy(stop);
    auto data = records(n, 0), tests = records(test.empty() ? 0 : 2, 1);
    auto policy = best ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last;
    std::shared_ptr<TrainingResult> r;
    bool nan = false, threw = false;
    for (float l: train) nan = nan || std::isnan(l);
    try {
        r = test.empty() ? nn->train(data, batch, policy) : nn->train(data, tests, batch, policy);
    } catch (const std::exception &e) {
        threw = true;
        if (!nan) c.fail_stop("throws", e.what());
    }
    auto left = mc::tree(repo);
    for (auto &f: left) c.check(f == "m/", "left-over", f);
    if (nan) {
        c.check(threw, "undefined-loss", "training goes on with a loss that is not a number");
        return;
    }
    auto &seen = test.empty() ? train : test;
    // the exit strategy hears of every epoch once, with the loss that counts
    if (!c.check(stop->calls.size() == train.size(), "epochs", std::to_string(stop->calls.size()) + " epochs")) return;
    for (size_t e = 0; e < train.size(); e++)
        c.check(stop->calls[e].first == e + 1 && same(stop->calls[e].second, seen[e]), "exit-loss", "epoch " + std::to_string(stop->calls[e].first) + " loss " + mc::show(stop->calls[e].second));
    for (size_t e = 0; e < train.size(); e++)
        c.check(stop->elapsed[e] == 0, "exit-time", "after epoch " + std::to_string(e + 1) + " the time that has passed is off by " + std::to_string(stop->elapsed[e]) + " ms");
    c.check(data->served == n * train.size(), "records", std::to_string(data->served) + " records were used");
    c.check(tests->served == tests->pairs.size() * train.size(), "test-records", std::to_string(tests->served) + " test records were used");
    // results
    float lowest = INFINITY, first = -INFINITY, best_train = train[0];
    size_t lowest_epoch = 0;
    bool any = false, trained = false, generalized = false;
    for (size_t e = 0; e < train.size(); e++) {
        if (e) {
            best_train = std::min(best_train, train[e]);
            trained = best_train < train[0];
        }
        if (seen[e] < lowest) {
            lowest = seen[e];
            lowest_epoch = e;
            if (!any) first = lowest;
            any = true;
            generalized = trained;
        }
        c.transition();
        c.state(mc::hash(std::vector<float>{(float) e, train[e], seen[e], lowest, (float) lowest_epoch, (float) batch, (float) best}));
    }
    c.check(same(r->initial_train_loss, train[0]), "initial-train-loss", mc::show(r->initial_train_loss));
    c.check(same(r->best_train_loss, best_train), "best-train-loss", mc::show(r->best_train_loss));
    c.check(same(r->final_test_loss, lowest), "final-test-loss", mc::show(r->final_test_loss));
    c.check(same(r->initial_test_loss, first), "initial-test-loss", mc::show(r->initial_test_loss));
    c.check(r->trained == trained, "trained", std::to_string(r->trained));
    c.check(r->generalized == generalized, "generalized", std::to_string(r->generalized));
    if (silent && any) c.check(r->epochs == lowest_epoch, "epoch-kept", std::to_string(r->epochs));
    c.check(r->learning_rate == 1 && r->batch_size == batch && r->total_records == n, "facts", "");
    // knowledge
    size_t keep = best && any ? lowest_epoch + 1 : train.size();
    double got = script->start - weight(nn);
    c.check(std::fabs(got - (double) (keep * script->batches)) < 1e-3, "kept", "knowledge of after " + mc::show(got / (double) script->batches) + " epochs, expected " + std::to_string(keep));
    c.trace();
}

// number of epochs of the default strategy
static size_t epochs(const std::vector<float> &v) {
    double lowest = INFINITY;
    size_t at = 0;
    for (size_t e = 1;; e++) {
        double l = v[std::min(e, v.size()) - 1];
        if (l + 0.03125 <= lowest) {
            lowest = l;
            at = e;
        }
        if (e >= 2 && ((l - lowest) / lowest >= 0.125 || e - at >= 3 || l <= 0.0009765625)) return e;
    }
}

static void twice(mc::Ctx &c, const std::vector<std::vector<float>> &runs, bool best) {
    auto repo = c.fresh("repo");
    auto nn = network(repo);
    auto script = std::make_shared<Script>();
    nn->setLossFunction(script);
    nn->setExitStrategy(std::make_shared<DefaultExitStrategy>(3, NINETY_DAYS_MS, 100, 0.0009765625f, 0.03125f, 2, 0.125f));
    auto data = records(2, 0);
    for (auto &v: runs) {
        script->train = v;
        script->start = weight(nn);
        nn->train(data, 2, best ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last);
        size_t want = epochs(v), keep = want;
        if (best) {
            keep = 0;
            for (size_t e = 0; e < want; e++) if (v[std::min(e, v.size() - 1)] < v[std::min(keep, v.size() - 1)]) keep = e;
            keep++;
        }
        double got = script->start - weight(nn);
        c.check(std::fabs(got - (double) keep) < 1e-3, "trained-again", "course " + mc::show(v) + " keeps the knowledge of epoch " + mc::show(got) + ", expected " + std::to_string(keep));
        c.check(data->served == 2 * want, "epochs-again", "course " + mc::show(v) + " takes " + std::to_string(data->served / 2) + " epochs, expected " + std::to_string(want));
        data->served = 0;
        c.transition(want);
    }
    c.trace();
}

// training that only time, or the number of epochs, ends
static void limited(mc::Ctx &c, size_t records_n, long long takes, long long limit, size_t most, size_t least, bool tested) {
    auto nn = network(c.fresh("repo"));
    auto script = std::make_shared<Script>();
    for (int i = 0; i < 64; i++) script->train.push_back(std::ldexp(1.0f, 10 - i / 4) * (1.0f - 0.125f * (float) (i % 4)));
    script->test = script->train;
    script->takes = takes;
    nn->setLossFunction(script);
    nn->setExitStrategy(std::make_shared<DefaultExitStrategy>(1000, limit, most, 0.0f, 0.0f, least, 1000.0f));
    auto data = records(records_n, 0), tests = records(tested ? 2 : 0, 1);
    for (int run = 0; run < 2; run++) {
        script->start = weight(nn);
        if (tested) nn->train(data, tests, (int) records_n, TrainingRetentionPolicy::last);
        else nn->train(data, (int) records_n, TrainingRetentionPolicy::last);
        size_t want = 1;
        while (want < least || (want < most && (long long) (want * (records_n + tests->pairs.size())) * takes < limit)) want++;
        c.check(data->served == records_n * want, "limit", "training " + std::to_string(run + 1) + " takes " + std::to_string(data->served / records_n) + " epochs, expected " + std::to_string(want));
        data->served = 0;
        c.transition(want);
        c.state(mc::hash(std::vector<float>{(float) records_n, (float) takes, (float) limit, (float) most, (float) least, (float) tested}, 3));
    }
    c.trace();
}

static void explore(mc::Ctx &c) {
    for (size_t n = 1; n <= 3; n++) for (long long takes: {0, 1, 10}) for (long long limit: {1, 10, 59, 60, 61, 100}) for (size_t most: {1, 4, 9}) for (size_t least: {1, 3, 5}) for (int tested = 0; tested < 2; tested++) {
        if (!c.begin("time limit " + std::to_string(limit) + " ms, " + std::to_string(n) + " records of " + std::to_string(takes) + " ms, at most " + std::to_string(most) + ", at least " + std::to_string(least) + " epochs" + (tested ? ", tested" : ""))) continue;
        c.run([&] { limited(c, n, takes, limit, most, least, tested); });
    }
    std::vector<float> tr{4.f, 2.f, 1.f}, te{4.f, 2.f, 1.f, INFINITY, NAN}, alone{4.f, 2.f, 1.f, 0.f, NAN};
    int longest = c.thorough ? 4 : 3;
    auto all = [&](const std::vector<float> &train, const std::vector<float> &test) {
        for (int batch = 1; batch <= 3; batch++)
            for (int best = 0; best < 2; best++)
                for (int silent = 0; silent < 2; silent++) {
                    if (!c.begin("training losses " + mc::show(train) + (test.empty() ? std::string(" no test") : " test losses " + mc::show(test)) + " batch " + std::to_string(batch) + (best ? " keep best" : " keep last") + (silent ? "" : " aloud"))) continue;
                    c.run([&] { course(c, train, test, batch, best, silent); });
                }
    };
    for (int n = 1; n <= longest; n++) {
        mc::sequences((int) alone.size(), n, [&](const std::vector<int> &v) {
            std::vector<float> t;
            for (int i: v) t.push_back(alone[i]);
            all(t, {});
        });
        mc::sequences((int) tr.size(), n, [&](const std::vector<int> &v) {
            std::vector<float> t;
            for (int i: v) t.push_back(tr[i]);
            mc::sequences((int) te.size(), n, [&](const std::vector<int> &u) {
                std::vector<float> s;
                for (int i: u) s.push_back(te[i]);
                all(t, s);
            });
        });
    }
    // no epoch is any good
    all({INFINITY}, {});
    std::vector<float> plain{1.f, 0.5f, 1.0625f, 1.25f, 0.0005f};
    int len = c.thorough ? 4 : 3;
    mc::sequences((int) plain.size(), len, [&](const std::vector<int> &v) {
        mc::sequences((int) plain.size(), len, [&](const std::vector<int> &u) {
            for (int best = 0; best < 2; best++) {
                std::vector<std::vector<float>> runs(2);
                for (int i: v) runs[0].push_back(plain[i]);
                for (int i: u) runs[1].push_back(plain[i]);
                if (!c.begin("two trainings " + mc::show(runs[0]) + " " + mc::show(runs[1]) + (best ? " keep best" : " keep last"))) continue;
                c.run([&] { twice(c, runs, best); });
            }
        });
    });
}

}

MC_MAIN
