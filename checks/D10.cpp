// Printing a dataset: every layout x table x limit through the interpreter, the printed text parsed back.
#include "dataset_ref.hpp"
#include "lang_exec.hpp"

namespace harness {

static mc::Info info() {
    mc::Info i;
    i.id = "D10";
    i.rule = "case = (layout, table); the dataset is created and printed by script, pretty and raw, with each limit; the text is parsed back: header names the columns, expected before given; rows in stored order, as many as "
             "asked for; pretty shows the original values and labels, images as characters in order of brightness; raw shows the stored numbers. Printing changes no file. state = distinct output, transition = print statement";
    i.bounds_quick = {"all layouts of 1..3 columns x 8 tables of up to 6 rows x 6 limits x pretty and raw", "shapes up to 3x3x3 and up to 33 rows or 9 columns x numbers and images", "all images of 3 levels up to 6 pixels with 1..4 channels"};
    i.bounds_thorough = {"16 tables of up to 12 rows", "shapes up to 4x4x4 and as quick", "4 levels"};
    i.case_timeout = 60;
    return i;
}

static std::string squeeze(const std::string &s) {
    size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

static std::vector<double> values(const std::string &cell) {
    std::vector<double> r;
    std::string s = cell;
    for (auto &ch: s) if (ch == '(' || ch == ')' || ch == ',') ch = ' ';
    std::stringstream ss(s);
    for (std::string w; ss >> w;) {
        char *e;
        r.push_back(strtod(w.c_str(), &e));
        if (*e) r.back() = NAN;
    }
    return r;
}

static std::vector<std::string> lines_of(const std::string &s) {
    std::vector<std::string> r;
    std::stringstream ss(s);
    for (std::string w; getline(ss, w);) r.push_back(w);
    return r;
}

static std::vector<std::string> cells_of(const std::string &s) {
    std::vector<std::string> r(1);
    for (char ch: s) {
        if (ch == '|') r.emplace_back();
        else r.back() += ch;
    }
    return r;
}

static const std::string shades = std::string(" ") + (char) 176 + (char) 177 + (char) 178 + (char) 219;

// text of one image: each printed row stands for two rows of pixels, brightness relative to the brightest
static void image(mc::Ctx &c, const std::vector<std::string> &got, const std::shared_ptr<BaseTensor> &t, const std::string &what) {
    size_t R = t->rowCount(), C = t->columnCount(), H = t->channelCount();
    std::vector<std::vector<double>> g;
    double most = 0;
    for (size_t r = 0; r < R; r += 2) {
        g.emplace_back();
        for (size_t k = 0; k < C; k++) {
            double sum = 0;
            size_t n = r + 1 < R ? 2 : 1;
            for (size_t q = r; q < r + n; q++) {
                if (H >= 3) sum += 0.299 * t->getValue(q, k, 0) + 0.587 * t->getValue(q, k, 1) + 0.114 * t->getValue(q, k, 2);
                else for (size_t h = 0; h < H; h++) sum += t->getValue(q, k, h) / (double) H;
            }
            g.back().push_back(sum / n);
            most = std::max(most, g.back().back());
        }
    }
    if (got.size() != g.size()) c.fail_stop("image", what + ": " + std::to_string(got.size()) + " lines");
    for (size_t r = 0; r < g.size(); r++) {
        if (got[r].size() != C) c.fail_stop("image", what + ": width of line " + std::to_string(r) + ": " + mc::show(got[r]));
        for (size_t k = 0; k < C; k++) {
            double x = most > 0 ? g[r][k] / most * 4 : 0;
            size_t at = shades.find(got[r][k]);
            if (at == std::string::npos || at > x + 1e-4 || at < x - 1 - 1e-4 || (x > 3.9999 && at != 4))
                c.fail_stop("image", what + ": pixel " + std::to_string(r) + "," + std::to_string(k) + " of brightness " + mc::show(x / 4) + " is shown as level " + std::to_string((int) at));
        }
    }
}

static void table(mc::Ctx &c, const Layout &l, const std::vector<Rec> &rows) {
    clean();
    // the header is announced before, between or behind the columns, or there is none
    size_t groups = std::count_if(l.begin(), l.end(), [](const Group &g) { return g.use != '-'; });
    size_t header_at = (mc::hash(rows[0][0] + show_layout(l)) + rows.size()) % (groups + 2), seen = 0;
    mc::spit(data_dir + "/t.csv", render(rows, header_at <= groups ? 1 : 0));
    std::vector<Group> order;
    for (char u: {'e', 'g'}) for (auto &g: l) if (g.use == u) order.push_back(g);
    size_t ne = std::count_if(order.begin(), order.end(), [](const Group &g) { return g.use == 'e'; });
    std::string text = "create dataset ds";
    for (auto &g: l)
        if (g.use != '-') {
            if (seen++ == header_at) text += " with header";
            text += std::string(" with ") + (g.use == 'g' ? "given " : "expected ") + type_name(g.type) + " name" + std::to_string(g.start);
            if (g.width > 1 || g.start % 2) text += "(" + std::to_string(g.rows) + "," + std::to_string(g.cols) + (g.chans > 1 || g.start % 3 ? "," + std::to_string(g.chans) : "") + ")";
            text += " at " + std::to_string(g.start);
        }
    if (header_at == groups) text += " with header";
    auto session = new_session();
    auto made = command(session, text + " using file://../data/t.csv");
    if (!made.ok()) c.fail_stop("create", text + ": " + made.show());
    BinaryDatasetReader rd(ExecutionContext::get_dataset_path("ds") + "/dataset.bin");
    size_t n = rd.rowCount();
    std::vector<std::shared_ptr<RawDecoder>> decoders;
    for (size_t i = 0; i < order.size(); i++) decoders.push_back(build_decoder(false, i < ne ? rd.get_expected_metadata(i) : rd.get_given_metadata(i - ne)));
    for (bool raw: {false, true}) {
        std::string whole;
        for (int limit: {-1, 0, 1, (int) n - 1, (int) n, (int) n + 1, 1000000}) {
            if (limit < -1) continue;
            auto what = std::string("print ") + (raw ? "raw" : "pretty") + " ds" + (limit >= 0 ? " limit " + std::to_string(limit) : "");
            auto o = command(session, what);
            c.transition();
            c.trace();
            c.state(mc::hash(o.out));
            if (!o.ok() || o.exit) c.fail_stop("print", what + ": " + o.show());
            if (o.files != made.files) c.fail_stop("files", what + " changed a file");
            auto ls = lines_of(o.out);
            size_t want = limit < 0 ? n : std::min<size_t>(n, limit), at = 0;
            if (limit < 0) whole = o.out;
            else if (want && whole.compare(0, o.out.size(), o.out) != 0) c.fail_stop("prefix", what + " is not the beginning of the whole");
            if (want) {
                auto h = ls.empty() ? std::vector<std::string>() : cells_of(ls[at++]);
                if (h.size() != order.size()) c.fail_stop("header", what + ": " + std::to_string(h.size()) + " columns");
                for (size_t i = 0; i < h.size(); i++) if (squeeze(h[i]) != "name" + std::to_string(order[i].start)) c.fail_stop("header", what + ": column " + std::to_string(i) + " is called " + mc::show(h[i]));
            }
            for (size_t r = 0; r < want; r++) {
                auto row = rd.readRow(r);
                std::vector<std::vector<std::string>> cell(order.size());
                size_t height = 0;
                std::vector<size_t> heights;
                for (size_t i = 0; i < order.size(); i++) {
                    auto t = i < ne ? row.second[i] : row.first[i - ne];
                    size_t k = order[i].type == 'I' && !raw ? (t->rowCount() + 1) / 2 : order[i].type == 'L' && !raw ? 1 : t->rowCount();
                    heights.push_back(k);
                    height = std::max(height, k);
                }
                for (size_t k = 0; k < height; k++) {
                    if (at >= ls.size()) c.fail_stop("rows", what + ": row " + std::to_string(r) + " is missing");
                    auto cs = cells_of(ls[at++]);
                    if (cs.size() != order.size()) c.fail_stop("cells", what + ": row " + std::to_string(r) + " has " + std::to_string(cs.size()) + " cells: " + mc::show(ls[at - 1]));
                    for (size_t i = 0; i < cs.size(); i++) {
                        if (k < heights[i]) cell[i].push_back(cs[i]);
                        else if (!squeeze(cs[i]).empty()) c.fail_stop("cells", what + ": row " + std::to_string(r) + " column " + std::to_string(i) + " has too many lines: " + mc::show(cs[i]));
                    }
                }
                for (size_t i = 0; i < order.size(); i++) {
                    auto &g = order[i];
                    auto t = i < ne ? row.second[i] : row.first[i - ne];
                    auto where = what + " row " + std::to_string(r) + " " + std::string(1, g.type) + " column " + std::to_string(i);
                    if (!raw && g.type == 'L') {
                        auto label = decoders[i]->decodeBest(t);
                        if (squeeze(cell[i][0]) != label) c.fail_stop("label", where + ": " + mc::show(cell[i][0]) + " instead of " + label);
                    } else if (!raw && g.type == 'I') {
                        auto lines = cell[i];
                        // cells are padded on the left
                        for (auto &x: lines) if (x.size() > t->columnCount()) x = x.substr(x.size() - t->columnCount());
                        image(c, lines, t, where);
                    } else {
                        auto y = raw ? t : decoders[i]->decode(t);
                        double big = 0;
                        for (size_t a = 0; a < y->rowCount(); a++) {
                            auto v = values(cell[i][a]);
                            if (v.size() != y->columnCount() * y->channelCount()) c.fail_stop("numbers", where + ": " + mc::show(cell[i][a]));
                            size_t k = 0;
                            for (size_t b = 0; b < y->columnCount(); b++)
                                for (size_t h = 0; h < y->channelCount(); h++, k++) {
                                    double w = y->getValue(a, b, h);
                                    big = 0.00051 + 1e-6 * std::fabs(w);
                                    if (!(std::fabs(v[k] - w) <= big)) c.fail_stop("numbers", where + ": line " + std::to_string(a) + " shows " + mc::show(v[k]) + " instead of " + mc::show(w));
                                }
                        }
                    }
                }
            }
            if (at != ls.size()) c.fail_stop("rows", what + ": more than " + std::to_string(want) + " rows: " + mc::show(ls[at]));
        }
    }
    verify(c, l, rows, "dataset");
}

static void explore(mc::Ctx &c) {
    for (int cols = 1; cols <= 3; cols++)
        for (auto &l: layouts(cols))
            for (int k = 0; k < (c.thorough ? 16 : 8); k++) {
                if (!c.take()) continue;
                int n = k == 0 ? 1 : 1 + k % (c.thorough ? 12 : 6);
                std::vector<char> type(cols, 'N');
                for (auto &g: l) for (int z = 0; z < g.width; z++) type[g.start + z] = g.type;
                std::vector<Rec> rows(n, Rec(cols));
                for (int r = 0; r < n; r++) for (int z = 0; z < cols; z++) rows[r][z] = alphabet(type[z])[(r * (k % 3 + 1) + z * k + k / 3) % 5];
                std::string d = "layout" + show_layout(l) + " table";
                for (auto &r: rows) d += " " + mc::show(r);
                c.desc(d);
                c.run([&]() { table(c, l, rows); });
            }
    int limit = c.thorough ? 4 : 3;
    std::vector<int> heights, channels;
    for (int k = 1; k <= limit; k++) heights.push_back(k), channels.push_back(k);
    for (int k: {5, 6, 7, 8, 9, 15, 16, 17, 33}) heights.push_back(k);
    for (int R: heights)
        for (int C: R > limit ? std::vector<int>{1, 2, 9} : channels)
            for (int H = 1; H <= limit; H++)
                for (char t: {'N', 'I'})
                    for (char u: {'g', 'e'}) {
                        if (!c.take()) continue;
                        int w = R * C * H;
                        Layout l = {{u, t, 0, w, R, C, H}, {u == 'g' ? 'e' : 'g', 'L', w, 1, 1, 1}, {'g', 'N', w + 1, 2, 2, 1}};
                        std::vector<Rec> rows(4, Rec(w + 3));
                        for (int r = 0; r < 4; r++) {
                            for (int k = 0; k < w; k++) rows[r][k] = t == 'I' ? std::to_string((37 * k + 91 * r) % 256) : std::to_string((3 * k + 100 * r) * (k % 2 ? -1 : 1)) + ".25";
                            rows[r][w] = labels[r % 3];
                            rows[r][w + 1] = std::to_string(r * r);
                            rows[r][w + 2] = std::to_string(-r) + ".125";
                        }
                        c.desc("shape layout" + show_layout(l));
                        c.run([&]() { table(c, l, rows); });
                    }
    int levels = c.thorough ? 4 : 3;
    for (auto s: std::vector<std::array<int, 3>>{{1, 1, 1}, {2, 1, 1}, {3, 1, 1}, {3, 2, 1}, {1, 3, 1}, {5, 1, 1}, {1, 1, 2}, {3, 1, 2}, {1, 2, 3}, {2, 1, 3}, {1, 1, 4}, {1, 1, 3}}) {
        if (!c.take()) continue;
        int w = s[0] * s[1] * s[2];
        Layout l = {{'g', 'I', 0, w, s[0], s[1], s[2]}};
        std::vector<Rec> rows;
        mc::sequences(levels, w, [&](const std::vector<int> &v) {
            Rec r;
            for (int x: v) r.push_back(Rec{"0", "255", "100", "30"}[x]);
            rows.push_back(r);
        });
        c.desc("all images" + show_layout(l));
        c.run([&]() { table(c, l, rows); });
    }
}

}

MC_MAIN
