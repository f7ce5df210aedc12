// MC_FLAGS: -O2
// Crashes and storage faults at every file operation of creating a task.
#include "faults.hpp"
#include "task_ref.hpp"
#include <random>
#include <time.h>

static unsigned next_seed = 1;
unsigned int std::random_device::_M_getval() { return next_seed++; }

// every look at the clock takes time, so that the 90 days that one training may last are over after some hundred looks
static long long looks = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (id == CLOCK_REALTIME) {
        t->tv_sec = 1700000000 + 90ll * 86400 / 500 * looks++;
        t->tv_nsec = 0;
        return 0;
    }
    return (int) syscall(SYS_clock_gettime, id, t);
}

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "D11";
    i.level = "fault_enumeration";
    i.rule = "a task is created from a dataset (where there was nothing, or what a creation that was killed left); every numbered file operation of it is tried as the last before the process dies (writes also after 1 byte, half, all but one and all bytes), "
             "as one that fails and as the first with a full disk; afterwards the task must execute as it would have without a fault or be refused, a creation that reports success must have left a task that executes, "
             "creating it again must succeed and leave one that does, and every other task and dataset must be as before. state = files after the fault, transition = faulted run";
    i.bounds_quick = {"5 kinds of task x every step that changes a file x every kind of fault; reads: 1 kind of task, every step of opening and reading"};
    i.bounds_thorough = {"5 kinds of task, every step x every kind of fault, and a second crash at every step of the second attempt"};
    i.assumptions = {"the machine goes on after the process dies: completed system calls survive", "the random choices and the clock are the same in every run"};
    i.case_timeout = 120;
    return i;
}

struct World {
    std::string name, text;
    std::vector<Kind> g, e;
    std::vector<std::vector<Cell>> rows;
    std::string pristine;
    unsigned seed = 1;
    std::vector<std::string> answers;       // what the task shows for each row
};

static void prepare(const World &w) {
    std::filesystem::remove_all("../happyml_repo");
    std::filesystem::copy(w.pristine, "../happyml_repo", std::filesystem::copy_options::recursive);
}

static bool create(const World &w) {
    next_seed = w.seed * 1000;
    looks = 0;
    auto o = quiet(w.text);
    if (!o.thrown.empty()) return false;
    return o.err.empty();
}

// what it shows for each row; empty when it is refused
static std::vector<std::string> execute(const World &w) {
    std::vector<std::string> r;
    for (auto &x: w.rows) {
        auto o = quiet(statement(x, 1));
        auto t = table(o.out);
        if (!o.ok() || t.size() < 2) return {};
        r.push_back(mc::show(t[1]));
    }
    return r;
}

static std::map<std::string, std::string> others() {
    std::map<std::string, std::string> m;
    for (auto &p: mc::tree("../happyml_repo"))
        if (p.back() != '/' && p.compare(0, 5, "logs/") != 0 && p.compare(0, 8, "tasks/t/") != 0) m[p] = mc::slurp("../happyml_repo/" + p);
    return m;
}

static void check_after(mc::Ctx &c, const World &w, int st, const std::string &what, const std::map<std::string, std::string> &before) {
    auto after = others();
    for (auto &f: before) if (after[f.first] != f.second) c.fail("others", what + ": " + f.first + " has changed");
    for (auto &f: after) if (!before.count(f.first)) c.fail("others", what + ": " + f.first + " was made");
    std::string all;
    for (auto &f: mc::tree("../happyml_repo/tasks/t")) all += f + "\n";
    c.state(mc::hash(w.name + all));
    if (st != 0 && st != 1 && st != 77) c.fail("dies", what + ": status " + std::to_string(st));
    auto a = execute(w);
    if (st == 0 && a.empty()) c.fail("reported", what + ": creating it reports success, but it does not execute");
    // a fault may have made training end in another way, but what a killed creation left is what it would have been
    if (!a.empty() && st == 77 && a != w.answers) c.fail("mixed", what + ": it executes as " + mc::show(a) + " instead of " + mc::show(w.answers));
    if (!a.empty() && a.size() != w.rows.size()) c.fail("rows", what);
}

static World make_world(mc::Ctx &c, int kind) {
    World w;
    static const char *names[] = {"one column", "three labels", "over an unfinished one", "image", "two columns"};
    w.name = names[kind];
    w.e = {label({"no", "yes"})};
    w.g = {number(1, 1, 3)};
    if (kind == 1) w.e = {label({"cat", "dog", "a b"})};
    if (kind == 3) w.g = {image(3, 3, 1)};
    if (kind == 4) w.g = {number(1, 2, 1), label({"red", "blue"})};
    w.text = "create task label t with goal speed using d";
    std::filesystem::remove_all("../happyml_repo");
    std::filesystem::create_directories(tasks + "another");
    mc::spit(tasks + "another/dataset.bin", "another task");
    auto write = [&](const std::string &name, size_t n) {
        std::filesystem::create_directories(datasets + name);
        BinaryDatasetWriter b(datasets + name + "/dataset.bin", make(w.g, given_names), make(w.e, expected_names), 0);
        for (size_t i = 0; i < n; i++) {
            size_t k = i % 2;
            std::vector<Cell> row;
            for (auto &x: w.g) {
                Cell cell;
                if (x.purpose == 'L') cell = {x.labels[k]};
                else for (size_t j = 0; j < x.size(); j++) cell.push_back(std::to_string(k ? 40 + (int) i : (int) i));
                row.push_back(cell);
            }
            if (name == "d") w.rows.push_back(row);
            std::vector<T> a;
            for (size_t j = 0; j < w.g.size(); j++) a.push_back(tensor_of(w.g[j], encode(w.g[j], row[j])));
            b.writeRow(a, {tensor_of(w.e[0], encode(w.e[0], {w.e[0].labels[k]}))});
        }
        b.close();
    };
    write("d", 6);
    w.pristine = c.fresh("pristine" + std::to_string(kind));
    std::filesystem::remove_all(w.pristine);
    std::filesystem::copy("../happyml_repo", w.pristine, std::filesystem::copy_options::recursive);
    // random choices for which the search is short
    size_t fewest = 0;
    unsigned best = 1;
    for (w.seed = 1; w.seed <= 24 && (fewest == 0 || fewest > 120); w.seed++) {
        prepare(w);
        faults::start(faults::COUNT, 0, 0);
        bool ok = create(w);
        faults::stop();
        if (ok && (fewest == 0 || faults::log.size() < fewest)) {
            fewest = faults::log.size();
            best = w.seed;
        }
    }
    w.seed = best;
    prepare(w);
    create(w);
    w.answers = execute(w);
    if (kind == 2) {
        // as a creation that was killed before its end would have left it
        std::filesystem::remove(tasks + "t/dataset.bin");
        std::filesystem::remove_all(w.pristine);
        std::filesystem::copy("../happyml_repo", w.pristine, std::filesystem::copy_options::recursive);
    }
    return w;
}

static void explore(mc::Ctx &c) {
    for (int kind = 0; kind < (5); kind++) {
        faults::reads = c.thorough || kind == 0;
        auto w = make_world(c, kind);
        if (w.answers.empty()) {
            if (c.begin(w.name)) c.fail("no-fault", "it does not work without a fault");
            continue;
        }
        prepare(w);
        faults::start(faults::COUNT, 0, 0);
        bool ok = create(w);
        faults::stop();
        auto log = faults::log;
        if (auto f = getenv("D11_T")) {
            auto t0 = mc::Ctx::now();
            prepare(w);
            create(w);
            std::ofstream(f, std::ios::app) << w.name << " " << log.size() << " steps " << mc::Ctx::now() - t0 << " s, looks " << looks << "\n";
            for (auto &l: log) std::ofstream(f, std::ios::app) << l.first << "\n";
        }
        if (!ok || execute(w) != w.answers) {
            if (c.begin(w.name)) c.fail("no-fault", "it is created differently the second time");
            continue;
        }
        for (size_t s = 1; s <= log.size(); s++) {
            auto where = log[s - 1].first;
            size_t cut = where.rfind("happyml_repo/");
            std::string d = cut == std::string::npos ? where : where.substr(0, where.find(' ') + 1) + where.substr(cut + 13);
            if (!c.begin(w.name + " step " + std::to_string(s) + " of " + std::to_string(log.size()) + ": " + d)) continue;
            c.run([&] {
                bool is_write = where.rfind("write", 0) == 0;
                auto go = [&](faults::Mode m, int part, const std::string &what) {
                    prepare(w);
                    auto before = others();
                    auto full = w.name + " step " + std::to_string(s) + " " + d + " " + what;
                    auto t0 = mc::Ctx::now();
                    int st = faults::in_child(m, (long) s, part, [&] { return create(w) ? 0 : 1; });
                    if (auto f = getenv("D11_T")) if (mc::Ctx::now() - t0 > 1) std::ofstream(f, std::ios::app) << full << " " << mc::Ctx::now() - t0 << " s " << st << "\n";
                    c.transition();
                    c.trace();
                    c.count(what + (st == 0 ? ": created" : st == 1 ? ": reported" : ": killed"));
                    check_after(c, w, st, full, before);
                    if (c.thorough && m == faults::CRASH && part != 1 && part != 3) {
                        auto left = c.fresh("left");
                        std::filesystem::remove_all(left);
                        std::filesystem::copy("../happyml_repo", left, std::filesystem::copy_options::recursive);
                        // only the steps of removing what was left and of finishing are new in a second attempt
                        for (long s2 = 1; s2 <= 12; s2++) {
                            std::filesystem::remove_all("../happyml_repo");
                            std::filesystem::copy(left, "../happyml_repo", std::filesystem::copy_options::recursive);
                            st = faults::in_child(faults::CRASH, s2, 2, [&] { return create(w) ? 0 : 1; });
                            c.transition();
                            check_after(c, w, st, full + ", killed again at " + std::to_string(s2), before);
                            if (st != 77) break;
                        }
                    }
                    bool again = create(w);
                    c.transition();
                    if (!again) c.fail("second-attempt", full + ": creating it again fails");
                    check_after(c, w, again ? 0 : 1, full + ", second attempt", before);
                };
                for (int part = 0; part < (is_write ? 5 : 1); part++) go(faults::CRASH, part, is_write ? "killed after part " + std::to_string(part) + " of a write" : "killed");
                go(faults::FAIL_ONCE, 0, "error");
                if (where.rfind("read", 0) != 0 && where.rfind("open", 0) != 0) {
                    go(faults::DISK_FULL, 0, "disk full");
                    if (is_write) go(faults::DISK_FULL, 2, "disk full after half a write");
                }
            });
        }
    }
}

}

MC_MAIN
