// Creating a dataset: every small table x column layout x file format through the real create-dataset statement, and
// every stored row decoded back to the text it came from.
#include "mc.hpp"
#include "dataset_ref.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "D04";
    i.rule = "case = (column layout, table); for each file format the real statement runs on the file; every row of the resulting dataset.bin, decoded with its own metadata, must be an input row, every "
             "distinct given part must be present exactly once, stored numbers lie in [0,1], names, shapes, labels and order of columns are as requested, the source folder is untouched, nothing but dataset.bin is "
             "left, and a second creation is refused. Second family: every single defect (bad cell, short row, missing file, unsupported type, bad request) at every position is refused without a trace and "
             "a later correct request succeeds. state = distinct (layout, table); transition = one statement executed";
    i.bounds_quick = {"1..2 source columns: all layouts, 1..3 rows, 5 formats (2 columns x 3 rows: 3 values per cell)", "3 source columns: 2 rows, 3 values per cell (csv with header)", "group shapes up to 3x3x3 in three surroundings", "tables of up to 25 rows with repetition periods 1, 3, 7, none and seven value kinds from 1e-20 to 7e13", "numbers 0 1.5 -2 1000 2010.5, labels with commas, quotes, spaces, images 0 128 255"};
    i.bounds_thorough = {"2 columns x 3 rows with all 5 values in 2 formats, 3 columns with 4 values", "shapes up to 4x4x4, tables of up to 60 rows"};
    return i;
}

static void one(mc::Ctx &c, const Layout &l, const std::vector<Rec> &rows, int format, bool reversed) {
    clean();
    std::string ext = format == 2 ? ".tsv" : ".csv", src = data_dir + "/t" + ext, text = render(rows, format);
    mc::spit(src, text);
    std::string decoy = format == 2 ? "t.csv" : "t.tsv";
    mc::spit(data_dir + "/" + decoy, "mine");
    static const Rec mine = {"chunk_0.txt", "t.converted.csv", "t.given-expected.csv", "t.sorted.csv"};
    for (auto &f: mine) mc::spit(data_dir + "/" + f, "mine");
    auto what = "format " + std::to_string(format) + (reversed ? " reversed" : "");
    std::string msg;
    CreateDatasetStatement st("ds", "file://" + src, format == 1 || format == 3, request(l, reversed), false);
    c.transition();
    c.trace();
    if (!execute(st, msg)) c.fail_stop("refused", what + ": " + msg);
    verify(c, l, rows, what);
    auto names = Rec{"chunk_0.txt", "t.converted.csv", "t.csv", "t.given-expected.csv", "t.sorted.csv", "t.tsv"};
    if (mc::tree(data_dir) != names) c.fail_stop("source folder", what + ": " + mc::show(mc::tree(data_dir)));
    if (mc::slurp(src) != text || mc::slurp(data_dir + "/" + decoy) != "mine") c.fail_stop("source folder", what + ": a file changed");
    for (auto &f: mine) if (mc::slurp(data_dir + "/" + f) != "mine") c.fail_stop("source folder", what + ": " + f + " changed");
    if (mc::tree(repo) != Rec{"datasets/", "datasets/ds/", "datasets/ds/dataset.bin"}) c.fail_stop("dataset folder", what + ": " + mc::show(mc::tree(repo)));
    auto before = mc::slurp(repo + "/datasets/ds/dataset.bin");
    // names are unique
    mc::spit(src, render({rows[0]}, format));
    CreateDatasetStatement again("ds", "file://" + src, format == 1 || format == 3, request(l, reversed), false);
    execute(again, msg);
    if (mc::slurp(repo + "/datasets/ds/dataset.bin") != before) c.fail_stop("unique name", what + ": creating it again changed the dataset");
}

static void table(mc::Ctx &c, const Layout &l, int cols, const std::vector<int> &v, int alpha, int nrows, std::vector<int> formats) {
    if (!c.take()) return;
    std::vector<Rec> rows(nrows, Rec(cols, "unused"));
    std::vector<char> type(cols, 'N');
    for (auto &g: l) for (int k = 0; k < g.width; k++) type[g.start + k] = g.type;
    for (int r = 0; r < nrows; r++) for (int k = 0; k < cols; k++) rows[r][k] = alphabet(type[k])[(v[r * cols + k]) % 5];
    std::string d = "layout" + show_layout(l) + " table";
    for (auto &r: rows) d += " " + mc::show(r);
    c.desc(d);
    c.run([&]() {
        c.state(mc::hash(d));
        for (int f: formats) one(c, l, rows, f, (f & 1) != 0);
    });
}

static void explore(mc::Ctx &c) {
    for (int cols = 1; cols <= 2; cols++)
        for (auto &l: layouts(cols))
            for (int n = 1; n <= 3; n++) {
                int alpha = n == 3 && cols == 2 ? (c.thorough ? 5 : 3) : 5;
                mc::sequences(alpha, n * cols, [&](const std::vector<int> &v) {
                    table(c, l, cols, v, alpha, n, n == 3 && cols == 2 && c.thorough ? std::vector<int>{0, 3} : std::vector<int>{0, 1, 2, 3, 4});
                });
            }
    for (auto &l: layouts(3))
        mc::sequences(c.thorough ? 4 : 3, 6, [&](const std::vector<int> &v) { table(c, l, 3, v, 3, 2, {1}); });

    // shapes: one group of every small shape, alone or between other groups, with distinct values at every position
    int limit = c.thorough ? 4 : 3;
    for (int R = 1; R <= limit; R++)
        for (int C = 1; C <= limit; C++)
            for (int H = 1; H <= limit; H++)
                for (char t: {'N', 'I'})
                    for (char u: {'g', 'e'})
                        for (int nrows: {1, 2, 5})
                            for (int place = 0; place < 3; place++) {
                                if (R * C * H == 1 && place == 0 && u == 'e') continue;
                                if (!c.take()) continue;
                                Layout l;
                                int w = R * C * H, at = 0;
                                if (place == 1) l.push_back({'-', 'N', at++, 1, 1, 1});
                                if (place == 2) l.push_back({u == 'g' ? 'e' : 'g', 'L', at++, 1, 1, 1});
                                l.push_back({u, t, at, w, R, C, H});
                                at += w;
                                if (u == 'e' && place != 2) l.push_back({'g', 'N', at++, 1, 1, 1});
                                if (place == 1) l.push_back({u, t, at, w, C, R, H}), at += w;
                                std::vector<Rec> rows(nrows, Rec(at, "unused"));
                                for (auto &g: l)
                                    for (int r = 0; r < nrows; r++)
                                        for (int k = 0; k < g.width; k++)
                                            rows[r][g.start + k] = g.type == 'L' ? labels[(r * 2 + 1) % 5] : g.type == 'I' ? std::to_string((g.start + 7 * k + 41 * r) % 256) : std::to_string((g.start + 3 * k + 100 * r) * (k % 2 ? -1 : 1)) + ".25";
                                std::string d = "shape layout" + show_layout(l) + " rows " + std::to_string(nrows);
                                c.desc(d);
                                c.run([&]() {
                                    c.state(mc::hash(d));
                                    for (int f: {0, 1, 3}) one(c, l, rows, f, f == 1);
                                });
                            }
    // more rows than the small tables: repeated rows, repeated inputs, many labels, constant and extreme columns
    for (int n = 1; n <= (c.thorough ? 60 : 25); n++)
        for (int period: {1, 3, 7, 1000})
            for (int kind = 0; kind < 7; kind++) {
                if (!c.take()) continue;
                Layout l = {{'e', 'L', 0, 1, 1, 1}, {'g', 'N', 1, 2, 1, 2}, {'g', 'L', 3, 1, 1, 1}, {'e', 'N', 4, 1, 1, 1}};
                std::vector<Rec> rows;
                for (int r = 0; r < n; r++) {
                    int q = r % period;
                    std::string x = kind == 0 ? std::to_string(q) : kind == 1 ? "7" : kind == 2 ? std::to_string(q * 1000000) : kind == 3 ? std::to_string(q) + "e-3"
                                  : kind == 4 ? std::to_string(q + 1) + "e-20" : kind == 5 ? std::to_string(q - 5) + "e-9" : std::to_string(q * 3 + 1) + "e12";
                    rows.push_back({"label " + std::to_string(q * q % 11), x, kind < 4 ? std::to_string(-q) : x, "in " + std::to_string(kind < 4 ? q % 5 : 0), kind == 3 ? "-0.5" : std::to_string(q % 4)});
                }
                std::string d = "table of " + std::to_string(n) + " rows, period " + std::to_string(period) + ", kind " + std::to_string(kind);
                c.desc(d);
                c.run([&]() {
                    c.state(mc::hash(d));
                    for (int f: {0, 1, 2}) one(c, l, rows, f, false);
                });
            }

    // empty labels: a row of nothing but empty cells is a row
    Rec some = {"", "a", "b"};
    for (int cols = 2; cols <= 3; cols++)
        for (int n = 1; n <= (c.thorough ? 3 : 2); n++)
            mc::sequences(3, n * cols, [&](const std::vector<int> &v) {
                for (int use = 0; use < (1 << cols) - 1; use++) {
                    if (!c.take()) continue;
                    Layout l;
                    for (int k = 0; k < cols; k++) l.push_back({use >> k & 1 ? 'e' : 'g', 'L', k, 1, 1, 1});
                    std::vector<Rec> rows(n, Rec(cols));
                    for (int r = 0; r < n; r++) for (int k = 0; k < cols; k++) rows[r][k] = some[v[r * cols + k]];
                    std::string d = "labels, some empty: layout" + show_layout(l) + " table";
                    for (auto &r: rows) d += " " + mc::show(r);
                    c.desc(d);
                    c.run([&]() {
                        c.state(mc::hash(d));
                        for (int f: {0, 1, 2, 3}) one(c, l, rows, f, false);
                    });
                }
            });
    // many labels, long labels and names, wide rows that differ in one place only
    for (int n: {2, 9, 33, 63, 64, 65, 66, 127, 129, 255, 256, 257, 300})
        for (int kind = 0; kind < 4; kind++) {
            if (n > 66 && kind == 2) continue;
            if (!c.begin(std::to_string(n) + " rows, " + std::vector<std::string>{"as many labels", "labels that share their first bytes", "wide rows that differ in one cell", "as many given and expected labels in another order"}[kind])) continue;
            c.run([&]() {
                Layout l;
                std::vector<Rec> rows;
                int wide = n + 3;
                if (kind == 2) {
                    l = {{'g', 'N', 0, wide, 1, wide}, {'e', 'N', wide, 1, 1, 1}};
                    for (int r = 0; r < n; r++) {
                        Rec row(wide + 1, "5");
                        row[r + 3] = "6";
                        row[wide] = std::to_string(r);
                        rows.push_back(row);
                    }
                } else {
                    l = {{'g', 'L', 0, 1, 1, 1}, {'e', 'L', 1, 1, 1, 1}, {'e', 'N', 2, 1, 1, 1}};
                    for (int r = 0; r < n; r++) {
                        auto head = kind == 1 ? std::string(n, 'p') : std::string("l");
                        rows.push_back({head + std::to_string(r), kind == 3 ? "e" + std::to_string((r * 7 + 3) % n) : kind == 1 ? head + std::to_string(r % 3) : "x", std::to_string(r)});
                    }
                }
                c.state(mc::hash(&n, 4, kind));
                for (int f: {0, 1, 2}) one(c, l, rows, f, f == 1);
            });
        }
    for (int len: {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 65535, 65536})
        if (c.begin("column names of " + std::to_string(len) + " bytes"))
            c.run([&]() {
                clean();
                mc::spit(data_dir + "/t.csv", "1,a\n2,b\n");
                auto g = request({{'g', 'N', 0, 1, 1, 1}, {'e', 'L', 1, 1, 1, 1}}, false);
                g[0]->label_ = std::string(len, 'n') + "1";
                g[1]->label_ = std::string(len, 'n') + "2";
                CreateDatasetStatement st("ds", "file://" + data_dir + "/t.csv", false, g, false);
                std::string msg;
                c.transition();
                c.trace();
                c.state(len);
                if (!execute(st, msg)) c.fail_stop("refused", msg);
                BinaryDatasetReader rd(ExecutionContext::get_dataset_path("ds") + "/dataset.bin");
                if (rd.get_given_metadata(0)->name != std::string(len, 'n') + "1" || rd.get_expected_metadata(0)->name != std::string(len, 'n') + "2") c.fail_stop("columns", "the name of a column is cut or changed");
            });

    // refusals
    Layout good = {{'g', 'N', 0, 1, 1, 1}, {'e', 'L', 1, 1, 1, 1}, {'g', 'I', 2, 1, 1, 1}};
    std::vector<Rec> rows = {{"1", "a", "3"}, {"2", "b", "4"}, {"3", "a", "5"}};
    auto refusal = [&](const std::string &name, std::function<bool(std::string &)> attempt) {
        if (!c.begin("refusal: " + name)) return;
        c.run([&]() {
            clean();
            mc::spit(data_dir + "/t.csv", render(rows, 0));
            mc::spit(data_dir + "/keep.csv", "mine");
            std::string msg;
            bool ok = attempt(msg);
            auto now = mc::tree(data_dir);
            c.transition(2);
            c.trace();
            c.state(mc::hash(name));
            if (ok) c.fail_stop("accepted", "reported success: " + msg);
            if (ExecutionContext::dataset_exists("ds")) c.fail_stop("refused", "but the dataset exists");
            for (auto &f: now)
                if (f != "t.csv" && f != "keep.csv" && f != "bad.csv" && f != "bad.tsv" && f != "bad.txt" && f != "bad.xls") c.fail_stop("refused", "left " + f + " behind (" + msg + ")");
            if (mc::slurp(data_dir + "/keep.csv") != "mine" || mc::slurp(data_dir + "/t.csv") != render(rows, 0)) c.fail_stop("refused", "a file changed");
            CreateDatasetStatement st("ds", "file://" + data_dir + "/t.csv", false, request(good, false), false);
            if (!execute(st, msg)) c.fail_stop("retry", "a correct request is refused afterwards: " + msg);
            verify(c, good, rows, "retry");
        });
    };
    auto with = [&](const std::string &file, const std::string &text, bool header, const Layout &l) {
        return [=](std::string &msg) {
            if (!text.empty() || file != "none.csv") mc::spit(data_dir + "/" + file, text);
            CreateDatasetStatement st("ds", "file://" + data_dir + "/" + file, header, request(l, false), false);
            return execute(st, msg);
        };
    };
    for (int r = 0; r < 3; r++) {
        for (int k: {0, 2})
            for (auto &bad: Rec{"x", "--1", "1e999", "1.5f", "2021-05-03", "1 2", "12abc", "1.2.3", "0x10", "5%", "1e5e5", "nan", "inf", "-inf", "1,5"}) {
                auto t = rows;
                t[r][k] = bad;
                refusal("cell " + std::to_string(r) + "," + std::to_string(k) + " is " + bad, with("bad.csv", render(t, 0), false, good));
            }
        for (int width = 0; width <= 2; width++) {
            auto t = rows;
            t[r].resize(width);
            refusal("row " + std::to_string(r) + " has " + std::to_string(width) + " columns", with("bad.csv", render(t, 0), false, good));
        }
        auto t = render(rows, 0);
        refusal("unclosed quote in row " + std::to_string(r), [=](std::string &msg) {
            auto u = rows;
            u[r][1] = "\"a";
            std::string s;
            for (auto &x: u) s += x[0] + "," + x[1] + "," + x[2] + "\n";
            return with("bad.csv", s, false, good)(msg);
        });
    }
    refusal("missing file", with("none.csv", "", false, good));
    refusal("empty file", with("bad.csv", "", false, good));
    refusal("header only", with("bad.csv", "a,b,c\n", true, good));
    refusal("unsupported extension", with("bad.xls", render(rows, 0), false, good));
    refusal("only expected columns", with("bad.csv", render(rows, 0), false, {{'e', 'N', 0, 1, 1, 1}}));
    for (int z = 0; z < 3; z++)
        refusal("a group without values, dimension " + std::to_string(z), with("bad.csv", render(rows, 0), false, {{'g', 'N', 0, 0, z == 0 ? 0 : 1, z == 1 ? 0 : 1, z == 2 ? 0 : 1}, {'e', 'L', 1, 1, 1, 1}}));
    refusal("no columns", with("bad.csv", render(rows, 0), false, {}));
    for (int a = 0; a < 3; a++)
        for (int w = 1; w <= 2; w++)
            for (int b = a; b < a + w; b++)
                refusal("overlap " + std::to_string(a) + "+" + std::to_string(w) + " and " + std::to_string(b),
                        with("bad.csv", "1,2,3,4\n", false, {{'g', 'N', a, w, 1, w}, {'e', 'N', b, 1, 1, 1}}));
    refusal("column beyond the file", with("bad.csv", render(rows, 0), false, {{'g', 'N', 3, 1, 1, 1}}));
    refusal("not a file location", [=](std::string &msg) {
        CreateDatasetStatement st("ds", "http://" + data_dir + "/t.csv", false, request(good, false), false);
        return execute(st, msg);
    });
    refusal("unknown type", [=](std::string &msg) {
        auto g = request(good, false);
        g[0]->data_type_ = "blob";
        CreateDatasetStatement st("ds", "file://" + data_dir + "/t.csv", false, g, false);
        return execute(st, msg);
    });
    refusal("unknown use", [=](std::string &msg) {
        auto g = request(good, false);
        g[0]->use_ = "maybe";
        CreateDatasetStatement st("ds", "file://" + data_dir + "/t.csv", false, g, false);
        return execute(st, msg);
    });
}

}

MC_MAIN
