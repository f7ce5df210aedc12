// Delimited records: every record of short cells over an adversarial alphabet is written with the real writer and read
// back with the real reader.
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/dataset_utils.hpp"

namespace harness {

using namespace happyml;
using Rec = std::vector<std::string>;

static mc::Info info() {
    mc::Info i;
    i.id = "D01";
    i.rule = "case = a block of records (all cells over the alphabet up to a length, all tuples of shorter cells) x delimiter; all records of the block are written to one "
             "file with DelimitedTextFileWriter and read back with DelimitedTextFileReader; the oracle is the written record with outer white space removed from each "
             "cell; a block that differs is repeated one record per file; state = distinct record x delimiter; transition = one record written and read";
    i.bounds_quick = {"alphabet a 1 . - space tab newline return quote < > _ ~ D N comma colon backslash", "delimiters comma, colon, tab",
                      "single cells up to 5 characters, pairs up to 2 characters each, triples up to 1", "token level: up to 5 tokens of <_< <~D> <~N> \"\" 1,000 -1e3 inf a"};
    i.bounds_thorough = {"delimiter comma: single cells up to 6 characters, token level up to 6, otherwise as quick"};
    return i;
}

static std::string strip_ref(const std::string &s) {
    size_t a = 0, b = s.size();
    auto sp = [](char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\v' || ch == '\f'; };
    while (a < b && sp(s[a])) a++;
    while (b > a && sp(s[b - 1])) b--;
    return s.substr(a, b - a);
}

static Rec canon(const Rec &r) {
    Rec o;
    for (auto &x: r) o.push_back(strip_ref(x));
    return o;
}

static std::vector<Rec> round_trip(const std::vector<Rec> &rs, char d) {
    {
        DelimitedTextFileWriter w("r.txt", d);
        for (auto &r: rs) w.writeRecord(r);
        w.close();
    }
    std::vector<Rec> out;
    DelimitedTextFileReader rd("r.txt", d);
    while (rd.hasNext() && out.size() <= rs.size()) out.push_back(rd.nextRecord());
    return out;
}

static void block(mc::Ctx &c, const std::vector<Rec> &rs, char d) {
    bool bad = false;
    try {
        auto out = round_trip(rs, d);
        bad = out.size() != rs.size();
        for (size_t i = 0; !bad && i < rs.size(); i++) bad = out[i] != canon(rs[i]);
    } catch (std::exception &) { bad = true; }
    for (auto &r: rs) {
        mc::u64 h = d;
        for (auto &x: r) h = mc::hash(x, h * 31 + 7);
        c.state(h);
    }
    c.transition(rs.size());
    c.trace(rs.size());
    if (!bad) return;
    bool found = false;
    for (auto &r: rs) {
        std::string what = std::string("record ") + mc::show(r) + " delimiter " + mc::show(std::string(1, d));
        try {
            auto out = round_trip({r, {"x", "2"}}, d);
            if (out.size() != 2 || out[0] != canon(r) || out[1] != Rec{"x", "2"}) {
                std::string got;
                for (auto &o: out) got += mc::show(o) + " ";
                c.fail_key("round trip @ " + what, "read back as " + got + "; file " + mc::show(mc::slurp("r.txt")));
                found = true;
            }
        } catch (std::exception &e) {
            c.fail_key("round trip @ " + what, std::string("exception ") + e.what() + "; file " + mc::show(mc::slurp("r.txt")));
            found = true;
        }
        if (found) break;
    }
    if (!found) c.fail("round trip of a file", "records survive alone but not in one file");
}

static void explore(mc::Ctx &c) {
    std::vector<std::string> al = {"a", "1", ".", "-", " ", "\t", "\n", "\r", "\"", "<", ">", "_", "~", "D", "N", ",", ":", "\\"};
    std::vector<std::string> tok = {"<_<", "<~D>", "<~N>", "\"\"", "1,000", "-1e3", "inf", "a", "\"", " ", "\n", "\t", ":", "<", "0x1"};
    for (char d: {',', ':', '\t'}) {
        std::vector<Rec> cur;
        std::string first;
        auto flush = [&]() {
            if (cur.empty()) return;
            if (c.begin(std::string("block from ") + mc::show(cur[0]) + " delimiter " + mc::show(std::string(1, d)))) c.run([&]() { block(c, cur, d); });
            cur.clear();
        };
        auto add = [&](Rec r) {
            cur.push_back(std::move(r));
            if (cur.size() == 2000) flush();
        };
        mc::strings(al, 0, c.thorough && d == 0x2c ? 6 : 5, [&](const std::string &s) { add({s}); });
        flush();
        std::vector<std::string> s2, s1;
        mc::strings(al, 0, 2, [&](const std::string &s) { s2.push_back(s); });
        mc::strings(al, 0, 1, [&](const std::string &s) { s1.push_back(s); });
        for (auto &x: s2) for (auto &y: s2) add({x, y});
        flush();
        for (auto &x: s1) for (auto &y: s1) for (auto &z: s1) add({x, y, z});
        flush();
        mc::strings(tok, 0, c.thorough && d == 0x2c ? 6 : 5, [&](const std::string &s) { add({s}); });
        flush();
        // the cell in the middle of a record
        mc::strings(tok, 0, 3, [&](const std::string &s) { add({"k", s, "2.5"}); });
        flush();
    }
}

}

MC_MAIN
