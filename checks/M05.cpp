// A model in memory and its saved knowledge are what the last training, save, load and removal made them.
// The clock of the day stands still: saves of one run fall into one millisecond, whose names must not collide.
#include "ml_ref.hpp"
#include <sys/syscall.h>
#include <time.h>

extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (id == CLOCK_REALTIME) {
        t->tv_sec = 1700000000;
        t->tv_nsec = 0;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, id, t);
}

namespace harness {

using namespace net;

static mc::Info info() {
    mc::Info i;
    i.id = "M05";
    i.rule = "operation sequences on one model: train (keeping the last or the best epoch), save and load and remove knowledge under two labels (with and without overwriting), save the "
             "model (over the old one, beside the old one, elsewhere), load the model again; after every operation the predictions, and every file of the repository byte for byte, are compared with "
             "a reference: the knowledge in memory, and the map from label to knowledge on disk. state = (knowledge in memory, files), transition = operation";
    i.bounds_quick = {"3 networks (chain, two inputs and two outputs, convolution)", "all sequences of up to 4 of 13 operations"};
    i.bounds_thorough = {"all sequences of up to 5 of 13 operations"};
    i.assumptions = {"saving a model over the old one replaces its folder, with the labels in it (as the code says)"};
    return i;
}

using Files = std::map<std::string, std::string>;   // tensor file -> bytes

struct World {
    std::string now;                                // predictions of the model in memory, as bytes
    bool config = false, saved_elsewhere = false;
    std::map<std::string, std::string> labels;      // label -> knowledge (predictions)
    std::map<std::string, std::string> kept;        // extra folders made by saves that do not overwrite: relative path of knowledge -> knowledge
    std::string elsewhere;                          // knowledge of the model saved elsewhere
    size_t beside = 0;                              // number of models saved beside
};

struct Machine {
    mc::Ctx &c;
    const Net &n;
    std::string repo;
    std::shared_ptr<Fixed> data;
    std::shared_ptr<NeuralNetworkForTraining> nn;
    World w;
    // what is known about this network, over all sequences
    struct Known {
        std::map<std::string, std::string> trained, best;   // knowledge -> knowledge after training
        std::map<std::string, Files> files;                 // knowledge -> tensor files
        std::string config, initial;
    };
    Known &known;

    std::string predictions(const std::shared_ptr<NeuralNetworkForTraining> &m) {
        std::string s;
        for (auto &p: data->pairs) for (auto &t: m->predict(p->getGiven())) for (float f: values(t)) s.append((char *) &f, sizeof f);
        return s;
    }

    void start() {
        data = dataset(n, records(n, 2));
        nn = n.build("m", repo);
        nn->setSilentMode(true);
        w = World();
        w.now = predictions(nn);
        if (known.initial.empty()) known.initial = w.now;
        c.check(w.now == known.initial, "initial", "a network built twice predicts different values");
    }

    void train(bool best) {
        nn->setExitStrategy(std::make_shared<Epochs>(best ? 3 : 1));
        nn->train(data, 2, best ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last);
        auto p = predictions(nn);
        auto &memo = best ? known.best : known.trained;
        auto it = memo.find(w.now);
        if (it == memo.end()) memo[w.now] = p;
        else c.check(it->second == p, "training-depends-on-history", "the same knowledge trained on the same records gives different predictions");
        w.now = p;
    }

    // files below a folder of knowledge
    Files below(const std::string &path) {
        Files f;
        for (auto &x: mc::tree(path)) if (x.back() != '/') f[x] = mc::slurp(path + "/" + x);
        return f;
    }

    bool knowledge_is(const std::string &path, const std::string &k, const std::string &op) {
        Files f = below(path);
        auto it = known.files.find(k);
        if (it == known.files.end()) {
            // first time this knowledge is saved: a fresh network must predict the same with it
            known.files[k] = f;
            auto fresh = n.build("m", repo);
            size_t slash = path.rfind('/');
            fresh->loadKnowledge(path.substr(0, slash), path.substr(slash + 1));
            return c.check(predictions(fresh) == k, "saved-knowledge", "after " + op + " a network with the knowledge of " + path + " predicts differently");
        }
        return c.check(f == it->second, "saved-knowledge", "after " + op + " the files of " + path + " are not those of the knowledge in memory when it was saved");
    }

    // compares memory and disk with the reference
    void observe(const std::string &op) {
        c.check(predictions(nn) == w.now, "predictions", "after " + op);
        std::set<std::string> folders;     // every folder with knowledge
        std::set<std::string> plain;       // every other file
        std::set<std::string> directories;
        for (auto &f: mc::tree(repo)) {
            if (f.back() == '/') {
                directories.insert(f.substr(0, f.size() - 1));
                continue;
            }
            size_t s = f.rfind('/');
            std::string name = s == std::string::npos ? f : f.substr(s + 1);
            if (name.size() > 7 && name.substr(name.size() - 7) == ".tensor" && s != std::string::npos) folders.insert(f.substr(0, s));
            else plain.insert(f);
        }
        std::set<std::string> want_folders, want_plain;
        if (w.config) want_plain.insert("m/model.config");
        if (w.saved_elsewhere) { want_plain.insert("else/model.config"); want_folders.insert("else/default"); }
        for (auto &l: w.labels) want_folders.insert("m/" + l.first);
        for (auto &l: w.kept) {
            want_folders.insert(l.first);
            if (l.first.compare(0, 2, "m/") != 0) want_plain.insert(l.first.substr(0, l.first.rfind('/')) + "/model.config");
        }
        if (!c.check(folders == want_folders, "folders", "after " + op + ": " + mc::show(std::vector<std::string>(folders.begin(), folders.end())) + ", expected " + mc::show(std::vector<std::string>(want_folders.begin(), want_folders.end())))) return;
        for (auto &d: directories) {
            bool used = d == "m";
            for (auto &f: want_folders) used = used || f == d || f.compare(0, d.size() + 1, d + "/") == 0;
            for (auto &f: want_plain) used = used || f.compare(0, d.size() + 1, d + "/") == 0;
            c.check(used, "left-over", "after " + op + " the folder " + d + " is left");
        }
        c.check(plain == want_plain, "files", "after " + op + ": " + mc::show(std::vector<std::string>(plain.begin(), plain.end())) + ", expected " + mc::show(std::vector<std::string>(want_plain.begin(), want_plain.end())));
        for (auto &l: w.labels) knowledge_is(repo + "/m/" + l.first, l.second, op);
        for (auto &l: w.kept) knowledge_is(repo + "/" + l.first, l.second, op);
        if (w.saved_elsewhere) knowledge_is(repo + "/else/default", w.elsewhere, op);
        for (auto &f: plain) {
            auto s = mc::slurp(repo + "/" + f);
            if (known.config.empty()) known.config = s;
            c.check(s == known.config, "config", "after " + op + " " + f + " is:\n" + s);
        }
        c.state(mc::hash(w.now + "|" + std::to_string(w.config) + std::to_string(w.labels.size()), (int) w.kept.size()));
    }

    std::set<std::string> folders_now() {
        std::set<std::string> r;
        for (auto &f: mc::tree(repo)) if (f.back() != '/' && f.find(".tensor") != std::string::npos) r.insert(f.substr(0, f.rfind('/')));
        return r;
    }

    bool throws(const std::function<void()> &f) {
        try { f(); } catch (const std::exception &) { return true; }
        return false;
    }

    void save_label(const std::string &l, bool overwrite) {
        bool exists = w.labels.count(l);
        auto was = folders_now();
        nn->saveKnowledge(l, overwrite);
        if (exists && !overwrite) {
            int made = 0;
            for (auto &f: folders_now()) if (!was.count(f)) { w.kept[f] = w.now; made++; c.check(f.compare(0, l.size() + 3, "m/" + l + "_") == 0, "name-beside", f); }
            c.check(made == 1, "saved-beside", std::to_string(made) + " new folders of knowledge");
        } else w.labels[l] = w.now;
    }

    void save_model(bool overwrite) {
        bool exists = w.config || !w.labels.empty() || std::filesystem::exists(repo + "/m");
        auto was = folders_now();
        if (overwrite) nn->saveWithOverwrite(); else nn->saveWithoutOverwrite();
        if (exists && !overwrite) {
            int made = 0;
            for (auto &f: folders_now()) if (!was.count(f)) { w.kept[f] = w.now; made++; c.check(f.compare(0, 2, "m_") == 0 && f.substr(f.rfind('/') + 1) == "default", "name-beside", f); }
            c.check(made == 1, "saved-beside", std::to_string(made) + " new folders of knowledge");
            w.beside++;
        } else {
            for (auto it = w.kept.begin(); it != w.kept.end();) if (it->first.compare(0, 2, "m/") == 0) it = w.kept.erase(it); else ++it;
            w.config = true;
            w.labels = {{"default", w.now}};
        }
    }

    void load_label(const std::string &l) {
        bool t = throws([&] { nn->loadKnowledge(l); });
        c.check(t == !w.labels.count(l), "load", t ? "loading an existing label throws" : "loading a missing label does not throw");
        if (w.labels.count(l)) w.now = w.labels[l];
    }

    void reload(const std::string &name) {
        bool exists = name == "m" ? w.config && w.labels.count("default") : w.saved_elsewhere;
        std::shared_ptr<NeuralNetworkForTraining> other;
        bool t = throws([&] { other = loadNeuralNetworkForTraining(name, repo); });
        c.check(t == !exists, "reload", t ? "loading an existing model throws" : "loading a missing model does not throw");
        if (t || !other) return;
        other->setSilentMode(true);
        if (name == "m") { nn = other; w.now = w.labels["default"]; }
        else c.check(predictions(other) == w.elsewhere, "elsewhere", "the model saved elsewhere predicts differently");
    }

    static constexpr int ops = 13;

    std::string step(int op) {
        switch (op) {
            case 0: train(false); return "train";
            case 1: train(true); return "train-best";
            case 2: save_label("a", true); return "save a";
            case 3: save_label("a", false); return "save a without overwriting";
            case 4: save_label("default", true); return "save default";
            case 5: load_label("a"); return "load a";
            case 6: load_label("default"); return "load default";
            case 7: nn->removeKnowledge("a"); w.labels.erase("a"); return "remove a";
            case 8: save_model(true); return "save model";
            case 9: save_model(false); return "save model without overwriting";
            case 10:
                nn->saveAs(repo + "/else", true);
                w.saved_elsewhere = true;
                w.elsewhere = w.now;
                return "save model elsewhere";
            case 11: reload("m"); return "reload";
            default: reload("else"); return "reload elsewhere";
        }
    }
};

static std::string name_of(int op) {
    static const char *names[] = {"train", "train-best", "save-a", "save-a-no", "save-default", "load-a", "load-default", "remove-a", "model", "model-no", "model-elsewhere", "reload", "reload-elsewhere"};
    return names[op];
}

static void explore(mc::Ctx &c) {
    std::vector<Net> nets(3);
    auto layer = [](size_t n, std::vector<int> parents, bool out, bool bias) {
        V v;
        v.n = n;
        v.parents = std::move(parents);
        v.act = tanhDefault;
        v.output = out;
        v.bias = bias;
        v.in = {1, 2, 1};
        return v;
    };
    nets[0].v = {layer(2, {}, false, true), layer(1, {0}, true, true)};
    V cat;
    cat.type = LayerType::concatenate;
    cat.parents = {1, 0};
    nets[1].v = {layer(2, {}, false, false), layer(3, {}, false, true), cat, layer(1, {2}, true, false), layer(2, {2}, true, true)};
    V k;
    k.type = LayerType::convolution2dValid;
    k.in = {2, 2, 1};
    k.filters = 2;
    k.kernel = 2;
    k.act = linear;
    k.bias = true;
    nets[2].v = {k, layer(1, {0}, true, false)};
    std::vector<Machine::Known> known(nets.size());
    for (size_t i = 0; i < nets.size(); i++) {
        nets[i].lr = nets[i].blr = 0.125f;
        int depth = c.thorough ? 5 : 4;
        for (int len = 1; len <= depth; len++)
            mc::sequences(Machine::ops, len, [&](const std::vector<int> &v) {
                std::string d = "network " + std::to_string(i + 1) + ":";
                for (int o: v) d += " " + name_of(o);
                if (!c.begin(d)) return;
                c.run([&] {
                    Machine m{c, nets[i], c.fresh("repo"), nullptr, nullptr, {}, known[i]};
                    m.start();
                    for (int o: v) {
                        auto op = m.step(o);
                        c.transition();
                        m.observe(op);
                    }
                    c.trace();
                });
            });
    }
}

}

MC_MAIN
