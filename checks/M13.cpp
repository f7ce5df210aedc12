// MC_FLAGS: -O2
// Creating a task ends, and leaves a task that works as reported or none.
#include "task_ref.hpp"
#include <random>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static unsigned next_seed = 1;
unsigned int std::random_device::_M_getval() { return next_seed++; }

// every look at the clock takes time, so that the 90 days that one training may last are over after some hundred looks
static long long looks = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (id == CLOCK_REALTIME) {
        t->tv_sec = 1700000000 + 90ll * 86400 / 500 * looks++;
        t->tv_nsec = 0;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, id, t);
}

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "M13";
    i.rule = "case = (columns, number of records, goal, with or without a dataset to test with and how that one is stored, seed of the random choices); a dataset is written, a task is created from it through the language, "
             "the dataset is removed and the task is executed on every record; creating must end; where it succeeds every execution must work, what is reported as accurate must predict at least 90% of the test records, "
             "creating again must change nothing; where it fails there must be no task and creating it properly must then succeed; nothing else in the repository may change. "
             "state = (result, files), transition = statement executed";
    i.bounds_quick = {"6 kinds of given and 4 kinds of predicted columns, paired, x 3 goals (spelled in 5 ways) x 5 ways of testing x 1 seed", "2..24 records"};
    i.bounds_thorough = {"the same with all pairs of columns, 3 seeds and 2..160 records"};
    i.assumptions = {"only datasets that can be learned, or that the search gives up on quickly, are used: a search is bounded by its number of experiments, not by time"};
    i.case_timeout = 300;
    return i;
}

enum { no_test, same_test, reversed_test, scaled_test, fewer_test, unknown_test, other_shape_test, empty_test };
static const char *test_names[] = {"without a test dataset", "with a test dataset", "with a test dataset of reversed labels", "with a test dataset in another scale", "with a test dataset of fewer labels",
                                   "with a test dataset of unknown labels", "with a test dataset of another shape", "with an empty test dataset"};

struct Row {
    std::vector<Cell> g, e;
};

// record i of n, in a random order: what is predicted depends on the given columns alone
static Row row(const std::vector<Kind> &g, const std::vector<Kind> &e, size_t i) {
    Row r;
    size_t k = i % 2;
    for (auto &x: g) {
        Cell cell;
        if (x.purpose == 'L') cell = {x.labels[k]};
        else for (size_t j = 0; j < x.size(); j++) {
            int v = x.purpose == 'I' ? (k ? 200 + (int) ((i + j) % 5) * 10 : (int) ((i + j) % 5) * 10) : (k ? 30 + (int) (i % 7) : (int) (i % 7) - 10);
            cell.push_back(std::to_string(v));
        }
        r.g.push_back(cell);
    }
    for (auto &x: e) {
        if (x.purpose == 'L') r.e.push_back({x.labels[k]});
        else r.e.push_back(Cell(x.size(), k ? "12" : "-4"));
    }
    return r;
}

static void write(const std::string &name, const std::vector<Kind> &g, const std::vector<Kind> &e, const std::vector<Row> &rows) {
    std::filesystem::create_directories(datasets + name);
    BinaryDatasetWriter w(datasets + name + "/dataset.bin", make(g, given_names), make(e, expected_names), 0);
    for (auto &r: rows) {
        std::vector<T> a, b;
        for (size_t i = 0; i < g.size(); i++) a.push_back(tensor_of(g[i], encode(g[i], r.g[i])));
        for (size_t i = 0; i < e.size(); i++) b.push_back(tensor_of(e[i], encode(e[i], r.e[i])));
        w.writeRow(a, b);
    }
    w.close();
}

static Kind stored(Kind k, int how) {
    if (how == scaled_test && k.purpose == 'N') {
        k.s = !k.s;
        k.n = true;
        k.mean = 3;
        k.sd = 7;
        k.lo = -20;
        k.hi = 45;
    }
    if (how == reversed_test) std::reverse(k.labels.begin(), k.labels.end());
    if (how == fewer_test && k.purpose == 'L' && k.labels.size() > 2) {
        k.labels.resize(2);
        k.c = 2;
    }
    if (how == unknown_test && k.purpose == 'L') k.labels[1] = "purple";
    if (how == other_shape_test && k.purpose != 'L') k.r++;
    return k;
}

// files with their contents, but for the log
static std::map<std::string, std::string> files() {
    std::map<std::string, std::string> m;
    for (auto &p: mc::tree("../happyml_repo"))
        if (p.back() != '/' && p.compare(0, 5, "logs/") != 0) m[p] = mc::slurp("../happyml_repo/" + p);
    return m;
}

static std::string same_columns(const std::vector<Meta> &a, const std::vector<Meta> &b) {
    if (a.size() != b.size()) return "number of columns";
    for (size_t i = 0; i < a.size(); i++) {
        auto &x = *a[i], &y = *b[i];
        if (x.purpose != y.purpose || x.name != y.name || x.rows != y.rows || x.columns != y.columns || x.channels != y.channels || x.ordered_labels != y.ordered_labels) return x.name;
        if (x.is_standardized != y.is_standardized || x.is_normalized != y.is_normalized) return x.name;
        if (x.is_standardized && (x.mean != y.mean || x.standard_deviation != y.standard_deviation)) return x.name;
        if (x.is_normalized && (x.min_value != y.min_value || x.max_value != y.max_value)) return x.name;
    }
    return "";
}

struct Case {
    std::vector<Kind> g, e;
    size_t rows;
    std::string goal;
    int how;
    unsigned seed;
};

// the answers of the task to the values of a record, by its first line
static std::vector<std::string> answer(mc::Ctx &c, const Case &k, const Row &r, const std::string &what) {
    auto text = statement(r.g, 1);
    auto o = quiet(text);
    c.transition();
    auto t = table(o.out);
    if (!o.ok() || t.size() < 2 || t[1].size() != k.e.size()) c.fail_stop("unusable", what + ": " + text + ": " + o.show());
    return t[1];
}

static void use(mc::Ctx &c, const Case &k, const std::vector<Row> &train, const std::vector<Row> &tested, const Outcome &made, const std::string &what) {
    for (auto &f: files()) if (f.first.find("checkpoint") != std::string::npos) c.fail("left-over", what + ": " + f.first);
    {
        BinaryDatasetReader reader(tasks + "t/dataset.bin");
        std::string d = same_columns(reader.get_given_metadata(), make(k.g, given_names)) + same_columns(reader.get_expected_metadata(), make(k.e, expected_names));
        if (!d.empty()) c.fail("columns", what + ": the task does not know " + d);
        if (reader.rowCount() != 0) c.count("task keeps records");
    }
    for (auto &r: train) answer(c, k, r, what);
    size_t right = 0;
    for (auto &r: tested) {
        auto a = answer(c, k, r, what);
        bool ok = true;
        for (size_t i = 0; i < k.e.size(); i++) {
            if (k.e[i].purpose == 'L') ok = ok && a[i] == r.e[i][0];
            else for (auto d: parse(a[i])) if (!(d >= k.e[i].lo * 10 - 1000 && d <= k.e[i].hi * 10 + 1000)) c.fail("number", what + ": " + a[i]);
        }
        right += ok;
    }
    bool accurate = made.out.find("Model is accurate") != std::string::npos;
    c.count(accurate ? "reported as accurate" : "created without being accurate");
    if (accurate && !tested.empty() && (double) right < 0.9 * (double) tested.size() - 1e-6)
        c.fail("accuracy", what + ": reported as accurate, but " + std::to_string(right) + " of " + std::to_string(tested.size()) + " test records are predicted right");
    c.trace();
}

static bool created(const Outcome &o) { return o.ok(); }

static void one(mc::Ctx &c, const Case &k, const std::string &what) {
    std::filesystem::remove_all("../happyml_repo");
    std::filesystem::create_directories(tasks);
    std::filesystem::create_directories(datasets + "other");
    mc::spit(datasets + "other/dataset.bin", "another dataset");
    std::filesystem::create_directories(tasks + "another");
    mc::spit(tasks + "another/dataset.bin", "another task");
    next_seed = k.seed * 1000;
    looks = 0;
    std::vector<Row> all, train, tested;
    for (size_t i = 0; i < k.rows; i++) all.push_back(row(k.g, k.e, i + (k.seed == 2)));
    train = tested = all;
    if (k.how == no_test) tested.clear();   // the share that is tested with is the library's choice
    write("d", k.g, k.e, all);
    if (k.how != no_test) {
        std::vector<Kind> g, e;
        for (auto &x: k.g) g.push_back(stored(x, k.how));
        for (auto &x: k.e) e.push_back(stored(x, k.how));
        tested.clear();
        for (size_t i = 0; k.how != empty_test && i < std::max<size_t>(4, k.rows / 2); i++)
            tested.push_back(row(k.how == unknown_test || k.how == other_shape_test ? g : k.g, k.how == unknown_test || k.how == other_shape_test ? e : k.e, i + 3));
        write("held", g, e, tested);
    }
    auto before = files();
    std::string with = k.goal.empty() ? "" : " with goal " + k.goal;
    auto text = "create task label t" + with + (k.how == no_test ? "" : " with test held") + " using d";
    auto o = quiet(text);
    c.transition();
    bool must_fail = (k.how == unknown_test && [&] { for (auto &x: k.g) if (x.purpose == 'L') return true; for (auto &x: k.e) if (x.purpose == 'L') return true; return false; }()) ||
                     (k.how == other_shape_test && [&] { for (auto &x: k.g) if (x.purpose != 'L') return true; for (auto &x: k.e) if (x.purpose != 'L') return true; return false; }()) || k.how == empty_test || k.rows < (k.how == no_test ? 2 : 1);
    auto after = files();
    for (auto &f: before) if (after[f.first] != f.second) c.fail("others", what + ": " + f.first + " has changed");
    for (auto &f: after) if (!before.count(f.first) && f.first.compare(0, 8, "tasks/t/") != 0) c.fail("others", what + ": " + f.first + " was made");
    c.state(mc::hash(what + o.err + o.thrown));
    if (!o.thrown.empty()) c.fail("exception", what + ": " + o.thrown);
    if (created(o) == must_fail) c.fail_stop(must_fail ? "accepted" : "refused", what + ": " + o.err + " " + o.out.substr(0, 300));
    if (created(o)) {
        std::filesystem::rename(datasets + "d", "../set aside");
        use(c, k, train, tested, o, what);
        std::filesystem::rename("../set aside", datasets + "d");
        after = files();
        auto again = quiet("create task label t with goal speed using d");
        c.transition();
        if (!again.ok() || files() != after) c.fail("again", what + ": creating it again " + (again.ok() ? "changed it" : "failed: " + again.err));
        return;
    }
    c.count("refused");
    if (files() != before) c.fail("refused-left", what + ": it failed, but left something behind");
    auto e = quiet(statement(all.empty() ? std::vector<Cell>{} : all[0].g, 1));
    if (e.ok()) c.fail("refused-task", what + ": it failed, but the task executes: " + e.out);
    // with enough records it is created after all
    Case better = k;
    better.how = no_test;
    better.rows = 12;
    all.clear();
    for (size_t i = 0; i < better.rows; i++) all.push_back(row(k.g, k.e, i));
    write("d", k.g, k.e, all);
    o = quiet("create task label t" + with + " using d");
    c.transition();
    if (!created(o)) c.fail_stop("second-attempt", what + ": " + o.err + " " + o.out.substr(0, 300));
    use(c, better, all, {}, o, what + ", second attempt");
}

static void explore(mc::Ctx &c) {
    std::vector<std::vector<Kind>> given = {{number(1, 1, 3)}, {label({"red", "blue", "7.50"})}, {number(2, 2, 1)}, {number(1, 1, 1), label({"yes", "1000000"})}, {image(3, 4, 1)}, {number(1, 2, 3, 2), number(1, 1, 0)}};
    std::vector<std::vector<Kind>> predicted = {{label({"no", "yes"})}, {label({"cat", "dog", "a b"})}, {label({"no", "yes"}), label({"cat", "dog", "a b"})}, {number(1, 1, 1)}};
    std::vector<std::string> goals = {"speed", "accuracy", "memory", "SPEED", "", "speed", "Accuracy"};
    size_t turn = 0;
    auto go = [&](const Case &k) {
        std::string d = "given";
        for (auto &x: k.g) d += " " + describe(x);
        d += " predicted";
        for (auto &x: k.e) d += " " + describe(x);
        d += " " + std::to_string(k.rows) + " records goal " + (k.goal.empty() ? "none" : k.goal) + " " + test_names[k.how] + " seed " + std::to_string(k.seed);
        if (!c.take()) return;
        c.desc(d);
        auto t = mc::Ctx::now();
        c.run([&]() { one(c, k, d); });
        if (auto f = getenv("M13_T")) { std::ofstream(f, std::ios::app) << mc::Ctx::now() - t << " " << d << "\n"; }
    };
    std::vector<size_t> sizes = {12, 24, 3, 20, 2, 8};
    if (c.thorough) sizes.push_back(160);
    for (unsigned seed = 1; seed <= (c.thorough ? 3u : 1u); seed++)
        for (size_t g = 0; g < given.size(); g++)
            for (size_t e = 0; e < predicted.size(); e++) {
                bool numbers = predicted[e][0].purpose == 'N';
                if (numbers && (seed > 1 || (g && !c.thorough))) continue;
                for (int how = no_test; how <= empty_test; how++) {
                    size_t goal = turn % goals.size();
                    size_t n = sizes[turn / 3 % sizes.size()];
                    turn++;
                    if (!c.thorough && (g + e + (size_t) how) % 2) continue;
                    go({given[g], predicted[e], n, goals[goal], how, seed});
                }
            }
    // the same choices lead to the same task, however the goal is spelled
    for (auto goal: {"speed", "accuracy", "memory", ""}) {
        auto what = std::string("spelling of goal ") + goal;
        if (!c.begin(what)) continue;
        c.run([&]() {
            std::vector<std::string> spellings = {goal, goal};
            for (auto &ch: spellings[1]) ch = (char) toupper(ch);
            std::string m = goal;
            if (!m.empty()) m[0] = (char) toupper(m[0]), m[2] = (char) toupper(m[2]), spellings.push_back(m);
            std::vector<std::map<std::string, std::string>> made;
            for (auto &s: spellings) {
                std::filesystem::remove_all("../happyml_repo");
                std::filesystem::create_directories(tasks);
                next_seed = 1000;
                looks = 0;
                std::vector<Row> all;
                for (size_t i = 0; i < 12; i++) all.push_back(row(given[0], predicted[1], i));
                write("d", given[0], predicted[1], all);
                auto t0 = mc::Ctx::now();
                auto o = quiet("create task label t" + (s.empty() ? s : " with goal " + s) + " using d");
                if (auto f = getenv("M13_T")) { std::ofstream(f, std::ios::app) << mc::Ctx::now() - t0 << " spelling " << s << "\n"; }
                c.transition();
                if (!o.ok()) c.fail_stop("refused", what + ": " + o.err);
                made.push_back(files());
                if (made.back() != made[0]) {
                    std::string d;
                    for (auto &f: made.back()) if (made[0][f.first] != f.second) d += " " + f.first;
                    c.fail("spelling", what + " as " + s + ": the task differs in" + d);
                }
            }
        });
    }
    for (size_t n = 0; n < 2; n++)
        for (int how: {no_test, same_test}) go({given[0], predicted[0], n, "speed", how, 1});
}

}

MC_MAIN
