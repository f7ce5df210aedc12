// MC_FLAGS: -O1
// Executing a task: the values given to it (by hand or as a dataset) reach its network in the scale and order it was trained on,
// and its predictions come back in the units of the data.
#include "task_ref.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "M12";
    i.rule = "case = (given columns, predicted columns) of a task whose network has known weights; every combination of small values is given to it through the language, written in several ways, and as "
             "datasets (stored in the task's scale, in another scale, with another order of labels, without the predicted columns); what it prints is compared with the prediction of the network for the values "
             "scaled by their definition, in the original units. Then every way of getting the values wrong must be refused. state = distinct printed result; transition = statement executed";
    i.bounds_quick = {"1 given column of 12 kinds x 9 predicted kinds; 2 given columns of 7 kinds, 2 predicted columns of 4 kinds, paired in turn", "up to 12 combinations of values per task", "5 notations, 5 kinds of dataset, up to 8 kinds of wrong values"};
    i.bounds_thorough = {"1 given column of 12 kinds x 9 predicted kinds x 9; 2 and 3 given columns of 7 kinds", "up to 40 combinations of values per task"};
    i.assumptions = {"a label whose two best scores differ by less than 0.0001 is not compared", "numbers are compared within half of the last digit printed plus 0.1%", "the network's own computation is decided by M03 and M06"};
    return i;
}

// a result row per combination, columns in the given order; lines of one row stay together
static void judge_table(mc::Ctx &c, const std::string &where, Task &t, const std::vector<std::vector<Cell>> &rows, bool with_given, const Outcome &o) {
    if (!o.ok()) c.fail_stop("refused", where + ": " + o.show());
    auto tab = table(o.out);
    size_t cols = t.e.size() + (with_given ? t.g.size() : 0);
    if (tab.empty()) c.fail_stop("empty", where + " printed " + mc::show(o.out));
    std::vector<std::string> head;
    for (size_t i = 0; i < t.e.size(); i++) head.push_back(expected_names[i]);
    for (size_t i = 0; with_given && i < t.g.size(); i++) head.push_back(given_names[i]);
    if (tab[0] != head) c.fail("header", where + ": " + mc::show(tab[0]));
    size_t height = 1;
    auto tall = [&](const Kind &k) { height = std::max(height, k.purpose == 'N' ? k.r : k.purpose == 'I' ? (k.r + 1) / 2 : 1); };
    for (auto &k: t.e) tall(k);
    if (with_given) for (auto &k: t.g) tall(k);
    if (tab.size() != 1 + height * rows.size()) c.fail_stop("rows", where + ": " + std::to_string(tab.size() - 1) + " lines for " + std::to_string(rows.size()) + " rows of " + std::to_string(height) + ": " + mc::show(o.out));
    for (size_t i = 0; i < rows.size(); i++) {
        auto p = t.predict(rows[i]);
        for (size_t j = 0; j < cols; j++) {
            Shown lines;
            for (size_t h = 0; h < height; h++) {
                auto &l = tab[1 + i * height + h];
                if (l.size() != cols) c.fail_stop("columns", where + ": " + mc::show(l));
                lines.push_back(l[j]);
            }
            bool pred = j < t.e.size();
            auto &k = pred ? t.e[j] : t.g[j - t.e.size()];
            auto bad = judge(k, pred ? p[j] : encode(k, rows[i][j - t.e.size()]), lines);
            if (!bad.empty()) c.fail(pred ? "prediction" : "given", where + " row " + show(rows[i]) + " column " + head[j] + " " + bad);
        }
    }
    c.state(mc::hash(o.out));
}

// the same columns as another dataset would store them: 1 another scale, 2 another order of labels
static Kind other(Kind k, int how) {
    if (k.purpose == 'N' && how == 1) {
        k.s = !k.s;
        k.n = true;
        k.mean = -3;
        k.sd = 5;
        k.lo = -20;
        k.hi = 25;
    }
    if (k.purpose == 'L' && how == 2) std::reverse(k.labels.begin(), k.labels.end());
    if (k.purpose == 'L' && how == 3) {
        k.labels.erase(k.labels.begin());
        k.c--;
    }
    return k;
}

static void write_dataset(const std::string &name, const std::vector<Kind> &g, const std::vector<Kind> &e, const std::vector<std::vector<Cell>> &rows) {
    std::filesystem::create_directories(datasets + name);
    BinaryDatasetWriter w(datasets + name + "/dataset.bin", make(g, given_names), make(e, expected_names), 0);
    for (auto &r: rows) {
        std::vector<T> a, b;
        for (size_t i = 0; i < g.size(); i++) a.push_back(tensor_of(g[i], encode(g[i], r[i])));
        for (auto &k: e) b.push_back(tensor_of(k, std::vector<double>(k.size(), 0.25)));
        w.writeRow(a, b);
    }
    w.close();
}

static void refuse(mc::Ctx &c, const std::string &what, const std::string &text, bool table_allowed = false) {
    auto o = quiet(text);
    c.transition();
    if (o.ok()) c.fail("accepted", what + ": " + mc::show(text) + " printed " + mc::show(o.out));
    if (!table_allowed && table(o.out).size() > 1) c.fail("accepted", what + ": " + mc::show(text) + " failed but printed " + mc::show(o.out));
}

static void one(mc::Ctx &c, const std::vector<Kind> &g, const std::vector<Kind> &e, bool deep) {
    auto t = make_task(c, g, e);
    auto xs = combos(g, deep ? 40 : 12);
    for (size_t i = 0; i < xs.size(); i++)
        for (int notation = 0; notation < 5; notation++) {
            if (!deep && i >= 4 && notation != (int) (i % 5)) continue;
            auto text = statement(xs[i], notation);
            c.transition();
            judge_table(c, text, t, {xs[i]}, false, quiet(text));
        }
    c.trace();
    for (int how = 0; how < 5; how++) {
        std::vector<Kind> og, oe;
        for (auto &k: g) og.push_back(other(k, how));
        if (how != 4) for (auto &k: e) oe.push_back(other(k, how));
        auto rows = xs;
        if (how == 3)
            rows.erase(std::remove_if(rows.begin(), rows.end(), [&](const std::vector<Cell> &r) {
                for (size_t i = 0; i < g.size(); i++) if (g[i].purpose == 'L' && r[i][0] == g[i].labels[0]) return true;
                return false;
            }), rows.end());
        write_dataset("d", og, oe, rows);
        static const char *names[] = {"as the task", "in another scale", "with another order of labels", "with fewer labels", "without predicted columns"};
        c.transition();
        judge_table(c, std::string("dataset ") + names[how], t, rows, true, quiet("execute task t using dataset d"));
        c.trace();
    }
    // wrong values
    auto &x = xs[0];
    for (size_t i = 0; i < g.size(); i++) {
        auto y = x;
        y[i].push_back(y[i][0]);
        refuse(c, "too many values", statement(y, 0));
        y = x;
        y[i].pop_back();
        refuse(c, "too few values", statement(y, 2));
        for (auto bad: {"purple", "1.5x", "12 3", "--1"}) {
            y = x;
            y[i].back() = bad;
            refuse(c, "unknown value", statement(y, 1));
        }
        auto names = given_names;
        names[i] = "delta";
        refuse(c, "missing column", statement(x, 0, names));
        if (g.size() > 1) {
            y = x;
            auto n = given_names;
            y.erase(y.begin() + i);
            n.erase(n.begin() + i);
            refuse(c, "missing column", statement(y, 0, n));
        }
        auto og = g;
        if (g[i].purpose != 'L') {
            og[i].c++;
            std::vector<std::vector<Cell>> rows = {x};
            rows[0][i].resize(og[i].size(), "1");
            write_dataset("d", og, e, rows);
            refuse(c, "dataset of another shape", "execute task t using dataset d");
        } else {
            og[i].labels[1] = "purple";
            write_dataset("d", og, e, {x, x});
            auto y2 = x;
            y2[i] = {"purple"};
            write_dataset("d", og, e, {y2});
            refuse(c, "dataset with an unknown label", "execute task t using dataset d");
        }
    }
    refuse(c, "no values", "execute task t using input ()");
    auto s = statement(x, 0);
    s.replace(s.find(" t "), 3, " u ");
    refuse(c, "no such task", s);
    refuse(c, "no such task", "execute task u using dataset d");
    refuse(c, "no such dataset", "execute task t using dataset nope");
}

static void explore(mc::Ctx &c) {
    auto go = [&](const std::vector<int> &gi, const std::vector<int> &ei) {
        if (!c.take()) return;
        std::vector<Kind> g, e;
        std::string d = "given";
        for (int i: gi) {
            g.push_back(given_kinds[i]);
            d += " " + describe(given_kinds[i]);
        }
        d += " predicted";
        for (int i: ei) {
            e.push_back(expected_kinds[i]);
            d += " " + describe(expected_kinds[i]);
        }
        c.desc(d);
        c.run([&]() { one(c, g, e, c.thorough); });
    };
    int ng = (int) given_kinds.size(), ne = (int) expected_kinds.size();
    for (int i = 0; i < ng; i++)
        for (int j = 0; j < ne; j++) {
            go({i}, {j});
            if (c.thorough) for (int k = 0; k < ne; k++) go({i}, {j, k});
        }
    int turn = 0;
    for (int i = 0; i < 7; i++)
        for (int j = 0; j < 7; j++) {
            go({i, j}, {turn % 4, turn / 4 % 4});
            turn++;
            if (c.thorough) for (int k = 0; k < 7; k++) {
                go({i, j, k}, {(turn + k) % 4});
            }
        }
}

}

MC_MAIN
