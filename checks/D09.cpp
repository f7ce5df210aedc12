// Crashes and storage faults at every file operation of saving, loading, removing and training a model.
// The clock of the day stands still, so that every run takes the same steps.
#include "faults.hpp"
#include "ml_ref.hpp"
#include <time.h>

extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (id == CLOCK_REALTIME) {
        t->tv_sec = 1700000000;
        t->tv_nsec = 0;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, id, t);
}

namespace harness {

using namespace net;

static mc::Info info() {
    mc::Info i;
    i.id = "D09";
    i.level = "fault_enumeration";
    i.rule = "for every operation on a saved model (save knowledge over a label, beside it and new; save the model over itself, beside itself and elsewhere; load; remove; train keeping the best) every "
             "numbered file operation is tried as: the last before the process dies (writes also after 1 byte, half, all but one and all bytes), one that fails, the first with a full disk; afterwards every label and "
             "model must load as exactly one of the knowledges it may hold or be refused, untouched ones must be as before, a lost save must have been reported, and a second attempt must succeed. "
             "state = files after the fault, transition = faulted run";
    i.bounds_quick = {"3 networks x 10 operations x every step x every kind of fault"};
    i.bounds_thorough = {"the same, and a second crash at every step of the second attempt"};
    i.assumptions = {"the machine goes on after the process dies: completed system calls survive", "overwriting replaces the old knowledge: a crash may lose it, but not pass off a mixture"};
    return i;
}

static std::string repo;

static std::string predictions(const Net &n, const std::shared_ptr<NeuralNetworkForTraining> &m) {
    auto d = dataset(n, records(n, 3));
    std::string s;
    for (auto &p: d->pairs) for (auto &t: m->predict(p->getGiven())) for (float f: values(t)) s.append((char *) &f, sizeof f);
    return s;
}

static void teach(const Net &n, const std::shared_ptr<NeuralNetworkForTraining> &m, int epochs) {
    m->setExitStrategy(std::make_shared<Epochs>(epochs));
    m->train(dataset(n, records(n, 2)), 2, TrainingRetentionPolicy::last);
}

struct World {
    Net net;
    std::string a, b, def, now, best, other;       // knowledges by their predictions
    std::string pristine;                           // folder with the files to start from
};

static std::shared_ptr<NeuralNetworkForTraining> fresh(const World &w, int epochs = 0) {
    auto m = w.net.build("m", repo);
    m->setSilentMode(true);
    for (int i = 0; i < epochs; i++) teach(w.net, m, 1);
    return m;
}

static void prepare(const World &w) {
    std::filesystem::remove_all(repo);
    std::filesystem::copy(w.pristine, repo, std::filesystem::copy_options::recursive);
}

struct Op {
    const char *name;
    std::function<void(const World &, NeuralNetworkForTraining &)> run;
    std::string target;        // label or model written: "m/a", "m", "else", ...
    char kind;                 // o overwrite, n beside, w new, M whole model over, l load, r remove, t train
};

static std::vector<Op> operations() {
    return {
            {"save a", [](const World &, NeuralNetworkForTraining &m) { m.saveKnowledge("a", true); }, "m/a", 'o'},
            {"save a beside", [](const World &, NeuralNetworkForTraining &m) { m.saveKnowledge("a", false); }, "m/a", 'n'},
            {"save new", [](const World &, NeuralNetworkForTraining &m) { m.saveKnowledge("new", true); }, "m/new", 'w'},
            {"save model", [](const World &, NeuralNetworkForTraining &m) { m.saveWithOverwrite(); }, "m", 'M'},
            {"save model beside", [](const World &, NeuralNetworkForTraining &m) { m.saveWithoutOverwrite(); }, "m", 'N'},
            {"save model elsewhere", [](const World &, NeuralNetworkForTraining &m) { m.saveAs(repo + "/else", true); }, "else", 'E'},
            {"load a", [](const World &, NeuralNetworkForTraining &m) { m.loadKnowledge("a"); }, "", 'l'},
            {"remove a", [](const World &, NeuralNetworkForTraining &m) { m.removeKnowledge("a"); }, "m/a", 'r'},
            {"load model", [](const World &w, NeuralNetworkForTraining &) { if (predictions(w.net, loadNeuralNetworkForTraining("m", repo)) != w.def) _exit(5); }, "", 'L'},
            {"train", [](const World &w, NeuralNetworkForTraining &m) {
                 m.setExitStrategy(std::make_shared<Epochs>(2));
                 m.train(dataset(w.net, records(w.net, 2)), 2, TrainingRetentionPolicy::best);
             }, "", 't'}};
}

// 0 done, 1 reported, 5 memory is wrong
static int attempt(const World &w, const Op &o, const std::shared_ptr<NeuralNetworkForTraining> &m) {
    int r = 0;
    try { o.run(w, *m); }
    catch (const std::exception &) { r = 1; }
    faults::stop();
    auto p = predictions(w.net, m);
    if (o.kind == 'l') {
        if (r == 0 && p != w.a) return 5;
    } else if (o.kind == 't') {
        if (r == 0 && p != w.best) return 5;
    } else if (p != w.now) return 5;
    return r;
}

// knowledge of a label: predictions, or empty when it is refused
static std::string label(const World &w, const std::string &model, const std::string &l) {
    auto m = w.net.build("m", repo);
    try { m->loadKnowledge(repo + "/" + model, l); }
    catch (const std::exception &) { return ""; }
    return predictions(w.net, m);
}

static std::string whole(const World &w, const std::string &name) {
    try {
        auto m = loadNeuralNetworkForTraining(name, repo);
        return predictions(w.net, m);
    } catch (const std::exception &) { return ""; }
}

static void check_after(mc::Ctx &c, const World &w, const Op &o, int st, const std::string &what, const std::vector<std::string> &before) {
    auto after = mc::tree(repo);
    std::string all;
    for (auto &f: after) all += f + "\n";
    c.state(mc::hash(all + w.net.str()));
    c.check(st == 0 || st == 1 || st == 77, "memory", what + ": " + (st == 5 ? "the model in memory has changed" : "status " + std::to_string(st)));
    auto is = [&](const std::string &got, std::vector<std::string> may, const std::string &where) {
        bool ok = false;
        for (auto &x: may) ok = ok || x == got;
        c.check(ok, "mixed", what + ": " + where + (got.empty() ? " is refused" : " loads as something else"));
    };
    bool done = st == 0;
    char k = o.kind;
    // the labels of the model
    if (k == 'M') {
        for (auto l: {"a", "b"}) is(label(w, "m", l), done ? std::vector<std::string>{""} : std::vector<std::string>{"", l[0] == 'a' ? w.a : w.b}, l);
        is(label(w, "m", "default"), done ? std::vector<std::string>{w.now} : std::vector<std::string>{"", w.def, w.now}, "default");
        is(whole(w, "m"), done ? std::vector<std::string>{w.now} : std::vector<std::string>{"", w.def, w.now}, "the model");
    } else {
        is(label(w, "m", "b"), {w.b}, "b");
        is(label(w, "m", "default"), {w.def}, "default");
        is(whole(w, "m"), {w.def}, "the model");
        if (k == 'o') is(label(w, "m", "a"), done ? std::vector<std::string>{w.now} : std::vector<std::string>{"", w.a, w.now}, "a");
        else if (k == 'r') is(label(w, "m", "a"), done ? std::vector<std::string>{""} : std::vector<std::string>{"", w.a}, "a");
        else is(label(w, "m", "a"), {w.a}, "a");
    }
    if (k == 'w') is(label(w, "m", "new"), done ? std::vector<std::string>{w.now} : std::vector<std::string>{"", w.now}, "new");
    if (k == 'E') is(whole(w, "else"), done ? std::vector<std::string>{w.now} : std::vector<std::string>{"", w.now}, "the model elsewhere");
    is(whole(w, "other"), {w.other}, "the other model");
    // what is beside: of earlier attempts, and of this one
    int beside = 0;
    for (auto &f: after)
        if (f.back() == '/') {
            std::string d = f.substr(0, f.size() - 1);
            bool earlier = std::find(before.begin(), before.end(), f) != before.end();
            if ((k == 'n' && d.compare(0, 4, "m/a_") == 0) || (k == 'N' && d.compare(0, 2, "m_") == 0 && d.find('/') == std::string::npos)) {
                beside += !earlier;
                is(k == 'n' ? label(w, "m", d.substr(2)) : whole(w, d), done && !earlier ? std::vector<std::string>{w.now} : std::vector<std::string>{"", w.now}, d);
            }
        }
    if (done && (k == 'n' || k == 'N')) c.check(beside >= 1, "lost", what + ": nothing was saved and nothing reported");
    if (done && k != 't') for (auto &f: after) c.check(f.find("checkpoint") == std::string::npos, "left-over", what + ": " + f);
}

static void explore(mc::Ctx &c) {
    faults::reads = true;
    auto layer = [](size_t n, std::vector<int> parents, bool out, bool bias) {
        V v;
        v.n = n;
        v.parents = std::move(parents);
        v.act = tanhDefault;
        v.output = out;
        v.bias = bias;
        v.in = {1, 2, 1};
        return v;
    };
    std::vector<Net> nets(3);
    nets[0].v = {layer(2, {}, false, true), layer(1, {0}, true, true)};
    nets[1].v = {layer(2, {}, false, false), layer(2, {}, false, true), layer(1, {0}, true, true), layer(2, {1}, true, false)};
    V k;
    k.type = LayerType::convolution2dValid;
    k.in = {2, 2, 1};
    k.filters = 2;
    k.kernel = 2;
    k.act = linear;
    k.bias = true;
    nets[2].v = {k, layer(1, {0}, true, false)};
    for (size_t ni = 0; ni < nets.size(); ni++) {
        World w;
        w.net = nets[ni];
        w.net.lr = w.net.blr = 0.125f;
        repo = c.fresh("pristine");
        w.pristine = repo;
        {
            auto m = fresh(w);
            auto o = w.net.build("other", repo);
            o->setSilentMode(true);
            teach(w.net, o, 6);
            o->saveWithOverwrite();
            w.other = predictions(w.net, o);
            teach(w.net, m, 1);
            m->saveWithOverwrite();
            w.def = predictions(w.net, m);
            teach(w.net, m, 1);
            m->saveKnowledge("a", true);
            w.a = predictions(w.net, m);
            teach(w.net, m, 1);
            m->saveKnowledge("b", true);
            w.b = predictions(w.net, m);
        }
        repo = c.dir + "/repo";
        w.now = predictions(w.net, fresh(w, 4));
        {
            prepare(w);
            auto m = fresh(w, 4);
            operations().back().run(w, *m);
            w.best = predictions(w.net, m);
        }
        for (auto &o: operations()) {
            auto memory = fresh(w, 4);
            prepare(w);
            long steps = 0;
            std::vector<std::pair<std::string, size_t>> log;
            faults::start(faults::COUNT, 0, 0);
            int st0 = 0;
            try { o.run(w, *memory); } catch (const std::exception &) { st0 = 1; }
            faults::stop();
            log = faults::log;
            memory = fresh(w, 4);
            std::string name = "network " + std::to_string(ni + 1) + " " + o.name;
            if (st0 != 0 || log.empty()) {
                if (c.begin(name)) c.fail("no-fault", "fails without a fault");
                continue;
            }
            for (size_t s = 1; s <= log.size(); s++) {
                auto where = log[s - 1].first;
                std::string d = where;
                size_t cut = d.rfind("/repo/");
                if (cut != std::string::npos) d = d.substr(0, d.find(' ') + 1) + d.substr(cut + 6);
                if (!c.begin(name + " step " + std::to_string(s) + " of " + std::to_string(log.size()) + ": " + d)) continue;
                c.run([&] {
                    bool is_write = where.rfind("write", 0) == 0;
                    auto retry = [&](const std::string &what, bool again) {
                        if (again) for (size_t s2 = 1; s2 <= log.size() + 6; s2++) {
                            auto before = mc::tree(repo);
                            int st = faults::in_child(faults::CRASH, (long) s2, 2, [&] { return attempt(w, o, memory); });
                            c.transition();
                            check_after(c, w, o, st, what + ", killed again at " + std::to_string(s2), before);
                            if (st != 77) break;
                        }
                        if (o.kind == 'r' && !std::filesystem::exists(repo + "/m/a")) return;
                        auto before = mc::tree(repo);
                        int st = attempt(w, o, memory);
                        c.check(st == 0, "second-attempt", what + ": status " + std::to_string(st));
                        check_after(c, w, o, st, what + ", second attempt", before);
                        memory = o.kind == 'l' || o.kind == 't' ? fresh(w, 4) : memory;
                    };
                    auto go = [&](faults::Mode m, int part, const std::string &what) {
                        prepare(w);
                        auto before = mc::tree(repo);
                        int st = faults::in_child(m, (long) s, part, [&] { return attempt(w, o, memory); });
                        c.transition();
                        c.trace();
                        c.count(what);
                        check_after(c, w, o, st, what, before);
                        retry(what, c.thorough && m == faults::CRASH && part != 1 && part != 3);
                    };
                    for (int part = 0; part < (is_write ? 5 : 1); part++) go(faults::CRASH, part, is_write ? "killed after part " + std::to_string(part) + " of a write" : "killed");
                    go(faults::FAIL_ONCE, 0, "error");
                    if (where.rfind("read", 0) != 0 && where.rfind("open", 0) != 0) {
                        go(faults::DISK_FULL, 0, "disk full");
                        if (is_write) go(faults::DISK_FULL, 2, "disk full after half a write");
                    }
                });
            }
        }
    }
}

}

MC_MAIN
