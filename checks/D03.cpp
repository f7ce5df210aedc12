// External sort of a text file: every short sequence of lines x chunk size x options on the real sorter.
#include "mc.hpp"
#include "util/text_file_sorter.hpp"

namespace harness {

using namespace happyml;
using Lines = std::vector<std::string>;

static mc::Info info() {
    mc::Info i;
    i.id = "D03";
    i.rule = "case = (sequence of lines, header or not, also one that is a line of the data); for every chunk size, duplicate option and final line end the real FileSorter::sort runs in a directory holding other files; "
             "oracle: header first, then the sorted non-empty lines (once each when duplicates are removed), input and other files untouched, no temporary file left. "
             "Plus long inputs with up to 1100 chunks under small limits of open files: correct or refused, never short. state = distinct (input, options); transition = one sort";
    i.bounds_quick = {"up to 5 lines out of: empty, a, ab, b, a comma, B, \"a,1\", a blank", "chunk sizes 1..4, n-1, n, n+1, 10000", "duplicates kept or removed", "up to 4 lines sharing their first 1..70000 bytes", "1..40 chunks x open-file limits 8..64"};
    i.bounds_thorough = {"up to 6 lines, otherwise as quick; up to 1100 chunks at the default limit"};
    return i;
}

static Lines lines_of(const std::string &s) {
    Lines r;
    std::istringstream i(s);
    std::string l;
    while (std::getline(i, l)) r.push_back(l);
    return r;
}

static void explore(mc::Ctx &c) {
    Lines al = {"", "a", "ab", "b", ",", "B", "\"a,1\"", " "};
    for (int n = 0; n <= (c.thorough ? 6 : 5); n++)
        mc::sequences((int) al.size(), n, [&](const std::vector<int> &v) {
            if (!c.take()) return;
            Lines in;
            for (int k: v) in.push_back(al[k]);
            c.desc("sort lines " + mc::show(in));
            c.run([&]() {
                auto dir = c.dir + "/s";
                static bool made = false;
                if (!made) {
                    c.fresh("s");
                    mc::spit(dir + "/chunk_0.txt", "mine");
                    mc::spit(dir + "/other", "mine");
                    made = true;
                }
                std::set<int> sizes = {1, 2, 3, 4, n - 1, n, n + 1, 10000};
                for (int head = 0; head < 3; head++)
                    for (int last = 0; last < 2; last++)
                        for (int dup = 0; dup < 2; dup++)
                            for (int size: sizes) {
                                if (size < 1) continue;
                                std::string header = head == 1 ? "z header,\"x\"" : "a";     // the second is also a line of the data
                                std::string t = head ? header : "";
                                for (size_t i = 0; i < in.size(); i++) t += (i || head ? "\n" : "") + in[i];
                                if (last) t += "\n";
                                mc::spit(dir + "/in.txt", t);
                                Lines want;
                                for (auto &l: in) if (!l.empty()) want.push_back(l);
                                std::sort(want.begin(), want.end());
                                if (dup) want.erase(std::unique(want.begin(), want.end()), want.end());
                                if (head) want.insert(want.begin(), header);
                                auto opt = std::string("header ") + std::to_string(head) + " final newline " + std::to_string(last) + " remove duplicates " + std::to_string(dup) + " chunk " + std::to_string(size);
                                if (!FileSorter::sort(dir + "/in.txt", dir + "/out.txt", head, size, dup)) c.fail_stop("sort", "refused: " + opt);
                                auto got = lines_of(mc::slurp(dir + "/out.txt"));
                                c.state(mc::hash(t, size * 12 + head * 4 + dup * 2 + last));
                                c.transition();
                                c.trace();
                                if (got != want) c.fail_stop("sort", opt + ": result " + mc::show(got) + " expected " + mc::show(want));
                                if (mc::slurp(dir + "/in.txt") != t) c.fail_stop("input changed", opt);
                                if (mc::slurp(dir + "/chunk_0.txt") != "mine" || mc::slurp(dir + "/other") != "mine") {
                                    made = false;
                                    c.fail_stop("another file changed", opt);
                                }
                                if (mc::tree(dir) != Lines{"chunk_0.txt", "in.txt", "other", "out.txt"}) {
                                    made = false;
                                    c.fail_stop("files left", opt + ": " + mc::show(mc::tree(dir)));
                                }
                                std::filesystem::remove(dir + "/out.txt");
                            }
            });
        });
    // lines that differ only late, and lines longer than any buffer
    for (int len: {1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 8192, 70000})
        for (int n = 1; n <= (c.thorough ? 5 : 4); n++) {
            if (!c.begin("sort " + std::to_string(n) + " lines that share their first " + std::to_string(len) + " bytes")) continue;
            c.run([&]() {
                auto dir = c.fresh("s4");
                mc::sequences(4, n, [&](const std::vector<int> &v) {
                    Lines in;
                    std::string t, sfx;
                    for (int k: v) sfx += std::string(" ") + std::vector<std::string>{"nothing", "a", "b", "ab"}[k];
                    for (int k: v) in.push_back(std::string(len, 'x') + (k == 0 ? "" : k == 1 ? "a" : k == 2 ? "b" : "ab")), t += in.back() + "\n";
                    for (int dup = 0; dup < 2; dup++)
                        for (int size: {1, 2, 10}) {
                            auto want = in;
                            std::sort(want.begin(), want.end());
                            if (dup) want.erase(std::unique(want.begin(), want.end()), want.end());
                            mc::spit(dir + "/in.txt", t);
                            if (!FileSorter::sort(dir + "/in.txt", dir + "/out.txt", false, size, dup)) c.fail_stop("sort", "refused");
                            c.state(mc::hash(t, size * 2 + dup));
                            c.transition();
                            c.trace();
                            if (lines_of(mc::slurp(dir + "/out.txt")) != want) c.fail_stop("sort", "suffixes" + sfx + " remove duplicates " + std::to_string(dup) + " chunk " + std::to_string(size) + ": wrong order or number of lines");
                        }
                });
            });
        }
    // missing input
    if (c.begin("sort a file that does not exist"))
        c.run([&]() {
            auto dir = c.fresh("s2");
            c.check(!FileSorter::sort(dir + "/none", dir + "/out", false, 3, true), "missing input", "reported success");
            c.check(mc::tree(dir).empty(), "missing input", "left files " + mc::show(mc::tree(dir)));
        });
    // many chunks, few file handles
    std::vector<std::pair<int, int>> many;
    for (int limit: {8, 12, 16, 24, 40, 64}) for (int chunks = 1; chunks <= 40; chunks++) many.push_back({chunks, limit});
    if (c.thorough) for (int chunks: {1000, 1010, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1024, 1030, 1100}) many.push_back({chunks, 1024});
    for (auto [chunks, limit]: many)
        for (int size: {1, 2}) {
            if (!c.begin("sort with " + std::to_string(chunks) + " chunks of " + std::to_string(size) + " and " + std::to_string(limit) + " open files")) continue;
            c.run([&, chunks = chunks, limit = limit]() {
                auto dir = c.fresh("s3");
                Lines want;
                std::string t;
                for (int k = 0; k < chunks * size; k++) {
                    char b[16];
                    snprintf(b, sizeof b, "%05d", (k * 7919) % 99991);
                    want.push_back(b);
                    t += std::string(b) + "\n";
                }
                std::sort(want.begin(), want.end());
                mc::spit(dir + "/in.txt", t);
                rlimit old{}, low{};
                getrlimit(RLIMIT_NOFILE, &old);
                low = old;
                low.rlim_cur = limit;
                setrlimit(RLIMIT_NOFILE, &low);
                bool ok = false;
                try { ok = FileSorter::sort(dir + "/in.txt", dir + "/out.txt", false, size, true); }
                catch (std::exception &) {}
                setrlimit(RLIMIT_NOFILE, &old);
                auto got = lines_of(mc::slurp(dir + "/out.txt"));
                c.state(mc::hash(&limit, 4, chunks * 4 + size));
                c.transition();
                c.trace();
                c.count(ok ? "sorted with few handles" : "refused with few handles");
                c.check(!ok || got == want, "lines lost", "reported success with " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " lines");
                if (limit >= 1024 && chunks <= 1000) c.check(ok, "refused", "1000 chunks are refused");
                if (limit >= 40 && chunks <= 24) c.check(ok, "refused", "24 chunks are refused");
                if (ok) c.check(mc::tree(dir) == Lines{"in.txt", "out.txt"}, "files left", mc::show(mc::tree(dir)));
            });
        }
}

}

MC_MAIN
