// Creating a dataset under crashes and failing storage: every file-system step of every history is interrupted.
#include "faults.hpp"
#include "dataset_ref.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "D08";
    i.level = "fault_enumeration";
    i.rule = "case = (history: file format, layout, table, chunk size or earlier dataset; file-system step); a first run counts the steps (file creation, write, read, rename, unlink, mkdir). For every step: the process is "
             "killed there (for a write after 0 bytes, 1 byte, half, all but one, all bytes), or the step fails with an error, or the disk is full from there on. Oracle afterwards: the dataset does not exist, or it is complete "
             "and correct; success is reported only if it is complete; source files and other datasets are unchanged; a new correct request then succeeds or finds the complete dataset. state = distinct directory tree after a fault; "
             "transition = one execution with one fault";
    i.assumptions = {"a killed process loses only what it had not yet given to the kernel (no power loss)", "file-system calls reach libc through write, writev, read, fopen, rename, unlink, remove, unlinkat, mkdir"};
    i.bounds_quick = {"6 histories, every step, 5 torn-write patterns, single faults and persistent full disk, read errors"};
    i.bounds_thorough = {"as quick with larger tables (more steps) and every pair of a crash and a crash of the retry"};
    return i;
}

struct History {
    const char *name;
    int format;
    Layout l;
    std::vector<Rec> rows;
    bool earlier;
};

static std::vector<History> histories(bool thorough) {
    std::vector<Rec> small = {{"1", "a", "3"}, {"20", "b", "4"}, {"3", "a", "5"}}, mixed = {{"1", "x,y", "0"}, {"1", "b", "255"}, {"-7", "x,y", "128"}, {"2010", "c \"d\"", "3"}}, numbersonly;
    for (int i = 0; i < 8; i++) numbersonly.push_back({std::to_string(i * i), std::to_string(100 - i), std::to_string(i % 3)});
    Layout a = {{'g', 'N', 0, 1, 1, 1}, {'e', 'L', 1, 1, 1, 1}, {'g', 'N', 2, 1, 1, 1}}, b = {{'e', 'N', 0, 1, 1, 1}, {'g', 'L', 1, 1, 1, 1}, {'g', 'I', 2, 1, 1, 1}}, d = {{'g', 'N', 0, 2, 2, 1}, {'e', 'N', 2, 1, 1, 1}};
    std::vector<History> h = {{"csv", 0, a, small, false}, {"tsv", 2, a, small, false}, {"csv with header", 1, b, mixed, false}, {"spanning columns", 0, d, numbersonly, false},
                              {"second dataset", 0, a, small, true}, {"no expected column", 0, {{'g', 'N', 0, 1, 1, 1}}, small, false}};
    if (thorough) {
        std::vector<Rec> big;
        for (int i = 0; i < 40; i++) big.push_back({std::to_string(i), i % 4 ? "left" : "right", std::to_string(i * 3 % 7)});
        h.push_back({"forty rows", 3, a, big, false});
        h.push_back({"forty rows tsv", 2, b, big, true});
    }
    return h;
}

static std::string source(const History &h) { return data_dir + (h.format == 2 ? "/t.tsv" : "/t.csv"); }

static void prepare(const History &h) {
    clean();
    mc::spit(source(h), render(h.rows, h.format));
    mc::spit(data_dir + "/keep.csv", "mine");
    if (h.earlier) {
        std::string m;
        CreateDatasetStatement st("other", "file://" + source(h), h.format == 1 || h.format == 3, request(h.l, false), false);
        execute(st, m);
    }
}

static int attempt(const History &h) {
    std::string m;
    CreateDatasetStatement st("ds", "file://" + source(h), h.format == 1 || h.format == 3, request(h.l, false), false);
    return execute(st, m) ? 0 : 1;
}

// status: 0 success was reported, 1 failure was reported, 77 killed
static void check_after(mc::Ctx &c, const History &h, int status, const std::string &other, const std::string &what) {
    if (status != 0 && status != 1 && status != 77) c.fail_stop("abort", what + ": the process died on its own");
    mc::u64 hs = 0;
    for (auto &f: mc::tree(repo)) hs = mc::hash(f, hs * 31 + 1), hs = f.back() == '/' ? hs : mc::hash(mc::slurp(repo + "/" + f), hs);
    for (auto &f: mc::tree(data_dir)) hs = mc::hash(f, hs * 31 + 1);
    c.state(hs);
    bool exists = ExecutionContext::dataset_exists("ds");
    if (status == 0 && !exists) c.fail_stop("success without a dataset", what);
    if (status == 1 && exists) c.fail_stop("dataset after a reported failure", what);
    if (exists) verify(c, h.l, h.rows, what + ", dataset present");
    if (mc::slurp(source(h)) != render(h.rows, h.format) || mc::slurp(data_dir + "/keep.csv") != "mine") c.fail_stop("source changed", what);
    if (h.earlier && mc::slurp(repo + "/datasets/other/dataset.bin") != other) c.fail_stop("another dataset changed", what);
    if (status != 77 && what.rfind("killed", 0) != 0 && what != "error of a removal" && mc::tree(data_dir).size() != 2) c.fail_stop("left over", what + ": files left " + mc::show(mc::tree(data_dir)));
}

static void retry(mc::Ctx &c, const History &h, const std::string &other, const std::string &what) {
    bool had = ExecutionContext::dataset_exists("ds");
    // a process that was killed cannot remove its temporary files, and whoever finds them cannot know whose they are
    auto left = mc::tree(data_dir);
    int st = attempt(h);
    if (st != 0 && !had) c.fail_stop("retry", what + ": a correct request is refused afterwards");
    verify(c, h.l, h.rows, what + ", after the retry");
    if (h.earlier && mc::slurp(repo + "/datasets/other/dataset.bin") != other) c.fail_stop("another dataset changed", what);
    for (auto &f: mc::tree(data_dir)) if (std::find(left.begin(), left.end(), f) == left.end()) c.fail_stop("retry", what + ": leaves " + f);
}

static void explore(mc::Ctx &c) {
    faults::reads = true;
    for (auto &h: histories(c.thorough)) {
        prepare(h);
        faults::start(faults::COUNT, 0, 0);
        int st = attempt(h);
        faults::stop();
        auto log = faults::log;
        if (st != 0 || log.size() < 10) {
            if (c.begin(std::string("history ") + h.name)) c.fail("no fault", "the history itself fails or makes only " + std::to_string(log.size()) + " steps");
            continue;
        }
        for (size_t k = 1; k <= log.size(); k++) {
            if (!c.begin(std::string("history ") + h.name + " step " + std::to_string(k) + " of " + std::to_string(log.size()) + ": " + log[k - 1].first + " " + std::to_string(log[k - 1].second))) continue;
            c.run([&]() {
                bool is_write = log[k - 1].first.rfind("write", 0) == 0;
                auto go = [&](faults::Mode m, int part, const std::string &what) {
                    prepare(h);
                    auto other = h.earlier ? mc::slurp(repo + "/datasets/other/dataset.bin") : "";
                    int st = faults::in_child(m, k, part, [&]() { return attempt(h); });
                    c.transition();
                    c.trace();
                    c.count(what);
                    check_after(c, h, st, other, what);
                    if (m == faults::CRASH && c.thorough && part != 1 && part != 3 && k % 3 == 0) {
                        // the retry is killed at every step as well
                        for (size_t k2 = 1; k2 <= log.size() + 3; k2++) {
                            prepare(h);
                            faults::in_child(m, k, part, [&]() { return attempt(h); });
                            if (ExecutionContext::dataset_exists("ds")) break;
                            int st2 = faults::in_child(faults::CRASH, k2, 2, [&]() { return attempt(h); });
                            c.transition();
                            check_after(c, h, st2, other, what + " then killed again at " + std::to_string(k2));
                            retry(c, h, other, what + " twice");
                            if (st2 != 77) break;
                        }
                    } else retry(c, h, other, what);
                };
                for (int part = 0; part < (is_write ? 5 : 1); part++) go(faults::CRASH, part, is_write ? "killed after part " + std::to_string(part) + " of a write" : "killed");
                go(faults::FAIL_ONCE, 0, log[k - 1].first.rfind("unlink", 0) == 0 || log[k - 1].first.rfind("remove", 0) == 0 ? "error of a removal" : "error");
                if (log[k - 1].first.rfind("read", 0) != 0 && log[k - 1].first.rfind("open", 0) != 0) {
                    go(faults::DISK_FULL, 0, "disk full");
                    if (is_write) go(faults::DISK_FULL, 2, "disk full after half a write");
                }
            });
        }
    }
}

}

MC_MAIN
