// Column groups: every small set of column groups, overlap detection against a set model.
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/dataset_utils.hpp"

namespace harness {

using namespace happyml;

static mc::Info info() {
    mc::Info i;
    i.id = "D07";
    i.rule = "case = first group; every list of column groups (start column, width) in every order; oracle: some column belongs to two groups; the groups come back sorted by start with nothing lost. "
             "And every record width x every pair of groups for moving columns: the new file has exactly the selected columns in the requested order, short records are refused. "
             "state = distinct list; transition = one evaluation";
    i.bounds_quick = {"up to 4 groups, start 0..5, width 1..4", "records of 1..6 columns, up to 2 given and 1 expected group", "groups of up to 300 columns"};
    i.bounds_thorough = {"up to 5 groups, otherwise as quick"};
    return i;
}

using G = std::shared_ptr<ColumnGroup>;

static void explore(mc::Ctx &c) {
    std::vector<std::pair<int, int>> al;
    for (int s = 0; s < 6; s++) for (int w = 1; w <= 4; w++) al.push_back({s, w});
    for (int n = 1; n <= (c.thorough ? 5 : 4); n++)
        for (size_t first = 0; first < al.size(); first++) {
            if (!c.begin("lists of " + std::to_string(n) + " groups that begin with start " + std::to_string(al[first].first) + " width " + std::to_string(al[first].second))) continue;
            c.run([&]() {
                mc::sequences((int) al.size(), n - 1, [&](const std::vector<int> &v) {
                    std::vector<std::pair<int, int>> l = {al[first]};
                    for (int k: v) l.push_back(al[k]);
                    std::vector<G> g;
                    std::multiset<std::pair<size_t, size_t>> before, after;
                    int used[16] = {}, over = 0;
                    for (auto &x: l) {
                        g.push_back(std::make_shared<ColumnGroup>(g.size() + 1, x.first, x.second, "given", "number", "l", 1, x.second, 1));
                        before.insert({x.first, x.second});
                        for (int k = 0; k < x.second; k++) over |= used[x.first + k]++;
                    }
                    bool got = sort_and_check_overlaps(g);
                    c.state(mc::hash(l.data(), l.size() * sizeof(l[0])));
                    c.transition();
                    c.trace();
                    std::string d;
                    for (auto &x: l) d += " [" + std::to_string(x.first) + "+" + std::to_string(x.second) + "]";
                    if (got != (over != 0)) c.fail_key("overlap @ groups" + d, got ? "reported as overlapping" : "overlap not noticed");
                    for (size_t i = 0; i < g.size(); i++) {
                        after.insert({g[i]->start_index_, g[i]->source_column_count_});
                        if (i && g[i - 1]->start_index_ > g[i]->start_index_) c.fail_key("order @ groups" + d, "not sorted");
                    }
                    if (before != after) c.fail_key("order @ groups" + d, "groups changed");
                });
            });
        }
    // moving columns
    std::vector<std::pair<int, int>> gs;
    for (int s = 0; s < 5; s++) for (int w = 1; w <= 3; w++) gs.push_back({s, w});
    for (size_t a = 0; a < gs.size(); a++)
        for (int b = -1; b < (int) gs.size(); b++)
            for (int e = -1; e < (int) gs.size(); e++) {
                auto id = [&](int k) { return k < 0 ? std::string("none") : std::to_string(gs[k].first) + "+" + std::to_string(gs[k].second); };
                if (!c.begin("move given " + id(a) + " " + id(b) + " expected " + id(e))) continue;
                c.run([&]() {
                    for (int width = 1; width <= 6; width++)
                        for (int head = 0; head < 2; head++) {
                            std::string t = head ? "h1,h2\n" : "";
                            for (int r = 0; r < 2; r++) {
                                for (int k = 0; k < width; k++) t += (k ? "," : "") + std::string("r") + std::to_string(r) + "c" + std::to_string(k);
                                t += "\n";
                            }
                            mc::spit("m.csv", t);
                            std::vector<G> gg, ee;
                            auto mk = [&](int k) { return std::make_shared<ColumnGroup>(1, gs[k].first, gs[k].second, "given", "number", "l", 1, 1, 1); };
                            gg.push_back(mk(a));
                            if (b >= 0) gg.push_back(mk(b));
                            if (e >= 0) ee.push_back(mk(e));
                            std::vector<int> cols;
                            for (int k: {(int) a, b, e}) if (k >= 0) for (int z = 0; z < gs[k].second; z++) cols.push_back(gs[k].first + z);
                            bool fits = *std::max_element(cols.begin(), cols.end()) < width;
                            bool ok = true;
                            try { ok = update_column_positions("m.csv", "o.csv", gg, ee, head); } catch (std::runtime_error &) { ok = false; }
                            c.transition();
                            c.trace();
                            c.state(mc::hash(t, a * 1000 + b * 30 + e));
                            if (ok != fits) c.fail_stop("move", std::string(fits ? "refused" : "accepted") + " with records of " + std::to_string(width) + " columns");
                            if (!ok) continue;
                            DelimitedTextFileReader rd("o.csv", ',');
                            for (int r = 0; r < 2; r++) {
                                auto rec = rd.nextRecord();
                                std::vector<std::string> want;
                                for (int k: cols) want.push_back("r" + std::to_string(r) + "c" + std::to_string(k));
                                if (rec != want) c.fail_stop("move", "record " + mc::show(rec) + " instead of " + mc::show(want));
                            }
                            if (rd.hasNext()) c.fail_stop("move", "more records than before");
                        }
                });
            }
    // wide groups of wide records
    for (int a: {0, 1, 20})
        for (int w: {8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 255, 256, 257})
            for (int e: {1, 9, 17, 33, 300}) {
                if (!c.begin("move wide groups " + std::to_string(a) + "+" + std::to_string(w) + " and " + std::to_string(e))) continue;
                c.run([&]() {
                    int width = a + w + e + 2;
                    for (int more: {0, -3})
                        for (int swap = 0; swap < 2; swap++) {
                            std::string t;
                            for (int r = 0; r < 3; r++) {
                                for (int k = 0; k < width + (r == 2 ? more : 0); k++) t += (k ? "," : "") + std::string("r") + std::to_string(r) + "c" + std::to_string(k);
                                t += "\n";
                            }
                            mc::spit("m.csv", t);
                            auto x = std::make_shared<ColumnGroup>(1, a, w, "given", "number", "l", 1, w, 1), y = std::make_shared<ColumnGroup>(2, a + w + 2, e, "expected", "number", "l", e, 1, 1);
                            std::vector<G> gg = {swap ? y : x}, ee = {swap ? x : y};
                            bool ok = true;
                            try { ok = update_column_positions("m.csv", "o.csv", gg, ee, false); } catch (std::runtime_error &) { ok = false; }
                            c.transition();
                            c.trace();
                            c.state(mc::hash(t, swap));
                            if (ok != (more == 0)) c.fail_stop("move", ok ? "a short record is accepted" : "refused");
                            if (!ok) continue;
                            DelimitedTextFileReader rd("o.csv", ',');
                            for (int r = 0; r < 3; r++) {
                                std::vector<std::string> want;
                                for (auto &g: {gg[0], ee[0]}) for (size_t k = 0; k < g->source_column_count_; k++) want.push_back("r" + std::to_string(r) + "c" + std::to_string(g->start_index_ + k));
                                if (!rd.hasNext() || rd.nextRecord() != want) c.fail_stop("move", "record " + std::to_string(r) + " is another one");
                            }
                            if (rd.hasNext()) c.fail_stop("move", "more records than before");
                        }
                });
            }
}

}

MC_MAIN
