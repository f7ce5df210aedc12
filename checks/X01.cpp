// Byte pair encoding: every sequence of trainings, saves and loads over small corpora, every probe text in every state reached.
#include "mc.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "ml/byte_pair_encoder.hpp"

namespace harness {

using namespace happyml;
using Codes = std::vector<std::pair<u16string, u16string>>;
using Model = std::shared_ptr<BytePairEncoderModel>;

static mc::Info info() {
    mc::Info i;
    i.id = "X01";
    i.rule = "case = (delimiter, sequence of operations on one encoder); operations are training on a corpus (with and without limits, on texts, a file, a folder), configuring, saving and loading "
             "(into the same encoder, a new one, or over another one's file); after every operation all probe texts are encoded and decoded and the codes are compared with a reference that replaces "
             "pairs in the order learned and counts the pairs of the corpus; files cut at every length and failing loads; state = distinct list of codes; transition = one operation or one probe";
    i.bounds_quick = {"all sequences of up to 3 of 15 operations; 3 delimiters", "probes: all texts up to 4 bytes over {a, b, 0xe9, space} and 8 longer ones", "all cut lengths of the saved file of 3 models",
                      "trainings that begin 0 to 3 codes before the last code", "up to 1600 pairs in 1 or 3 trainings, 4 delimiters"};
    i.bounds_thorough = {"all sequences of up to 4 operations", "probes up to 5 bytes"};
    i.case_timeout = 60;
    return i;
}

static void must(mc::Ctx &c, bool ok, const std::string &key, const std::string &detail) {
    if (!ok) c.fail_key(key, detail);
}

static std::vector<std::vector<std::string>> corpora() {
    return {{"ab", "ab", "abab", "ba"},
            {"aaa", "a", "aab", " b", "b b"},
            {"caf\xe9", "\xe9\xe9\xe9", "\xff\xfe", "caf\xe9", std::string("a\0b", 3), std::string("a\0b", 3)},
            {},
            {"the", " ", "cat", " ", "the", " ", "hat", "thethe", "", "x"}};
}

// what an encoding is: the learned pairs replaced one after the other, from the first learned to the last
static u16string spec_encode(const Codes &learned, char16_t delimiter, const std::string &text) {
    if (text.empty()) return {};
    std::vector<char16_t> s{delimiter};
    for (char ch: text) s.push_back((char16_t) ch);
    s.push_back(delimiter);
    for (auto &code: learned) {
        std::vector<char16_t> t;
        for (size_t i = 0; i < s.size();) {
            if (i + 1 < s.size() && s[i] == code.first[0] && s[i + 1] == code.first[1]) {
                t.push_back(code.second[0]);
                i += 2;
            } else t.push_back(s[i++]);
        }
        s = t;
    }
    return u16string(s.begin(), s.end());
}

static std::map<u16string, size_t> pairs_of(const Codes &learned, char16_t delimiter, const std::vector<std::string> &corpus) {
    std::map<u16string, size_t> m;
    for (auto &t: corpus) {
        u16string e = spec_encode(learned, delimiter, t);
        for (size_t i = 0; i + 1 < e.size(); i++) m[e.substr(i, 2)]++;
    }
    return m;
}

static Codes learned(const Model &m) {
    auto c = m->getBpeCodes();
    std::sort(c.begin(), c.end(), [](auto &a, auto &b) { return a.second < b.second; });
    return c;
}

static std::string show(const Codes &c) {
    std::string s;
    for (auto &p: c) {
        for (auto x: p.first) s += std::to_string((unsigned) x) + " ";
        s += "-> " + std::to_string((unsigned) p.second[0]) + "; ";
    }
    return s;
}

static void probe(mc::Ctx &c, const Model &m, char16_t delimiter, const std::vector<std::string> &texts, const std::string &where) {
    Codes codes = learned(m);
    std::set<u16string> firsts, seconds;
    for (auto &p: codes) {
        must(c, p.first.size() == 2 && p.second.size() == 1, "pairs @ " + where, show(codes));
        if (p.first.size() != 2 || p.second.size() != 1) return;
        must(c, firsts.insert(p.first).second && seconds.insert(p.second).second, "distinct @ " + where, show(codes));
        must(c, p.second[0] > delimiter && p.second[0] < 0x7fff, "range @ " + where, show(codes));
        must(c, m->getLargestCode() > p.second[0], "largest-code @ " + where, "the largest code is said to be " + std::to_string(m->getLargestCode()) + ": " + show(codes));
    }
    auto order = m->getBpeCodes();
    for (size_t i = 1; i < order.size(); i++) must(c, order[i - 1].second > order[i].second, "order @ " + where, show(order));
    must(c, m->getDelimiter() == u16string(1, delimiter), "delimiter @ " + where, std::to_string((unsigned) m->getDelimiter()[0]));
    for (auto &t: texts) {
        u16string e = m->encode(t), want = spec_encode(codes, delimiter, t);
        if (e != want) { c.fail_key("encode @ " + where, mc::show(t) + " is encoded in " + std::to_string(e.size()) + " instead of " + std::to_string(want.size()) + " codes or other ones; codes: " + show(codes)); return; }
        std::string d = m->decode(e);
        if (d != t) { c.fail_key("decode @ " + where, mc::show(t) + " decodes to " + mc::show(d) + "; codes: " + show(codes)); return; }
    }
    auto all = m->encode(texts);
    must(c, all.size() == texts.size() && (texts.empty() || all.back() == m->encode(texts.back())), "encode-list @ " + where, std::to_string(all.size()));
    c.transition(texts.size());
    std::string key((const char *) &delimiter, 2);
    for (auto &p: codes) key += std::string((const char *) p.first.data(), 4) + std::string((const char *) p.second.data(), 2);
    c.state(mc::hash(key));
}

// the pairs that a training adds: those that occur often enough, the most frequent first, as many as asked for
static void trained(mc::Ctx &c, const Codes &before, const Codes &after, char16_t delimiter, char16_t next, const std::vector<std::string> &corpus, size_t min_frequency, long merges, const std::string &where) {
    auto counts = pairs_of(before, delimiter, corpus);
    must(c, after.size() >= before.size() && std::equal(before.begin(), before.end(), after.begin()), "kept @ " + where, "before: " + show(before) + " after: " + show(after));
    if (after.size() < before.size()) return;
    size_t last = SIZE_MAX, eligible = 0;
    for (auto &p: counts) if (p.second >= std::max<size_t>(min_frequency, 1)) eligible++;
    size_t want = std::min<size_t>(eligible, merges < 0 ? SIZE_MAX : merges);
    want = std::min<size_t>(want, next > 0x7ffd ? 0 : 0x7ffe - next);
    must(c, after.size() - before.size() == want, "number of codes @ " + where, std::to_string(after.size() - before.size()) + " codes instead of " + std::to_string(want) + ": " + show(after));
    for (size_t i = before.size(); i < after.size(); i++) {
        auto it = counts.find(after[i].first);
        if (it == counts.end()) { c.fail_key("learned @ " + where, "a pair that does not occur: " + show(after)); return; }
        must(c, it->second <= last && it->second >= min_frequency, "frequency @ " + where, "a pair was learned out of turn: " + show(after));
        last = it->second;
    }
}

static void put(const std::string &path, const std::vector<std::string> &corpus) {
    std::ofstream f(path, std::ios::binary);
    for (auto &t: corpus) f << t;
}

static void explore(mc::Ctx &c) {
    auto corp = corpora();
    std::vector<std::string> texts;
    for (int n = 0; n <= (c.thorough ? 5 : 4); n++)
        mc::sequences(4, n, [&](const std::vector<int> &s) {
            std::string t;
            for (int x: s) t += "ab\xe9 "[x];
            texts.push_back(t);
        });
    for (auto t: {"the cat in the hat", "abababababab", "aaaaaaaaaaaaaaaaaaaaaaa", "caf\xe9 \xff\xfe\x80\x7f", "\n\t ab\r\n"}) texts.push_back(t);
    texts.push_back(std::string("\0\0a\0b", 5));
    texts.push_back(std::string(5000, 'a') + "b");
    {
        std::string every;
        for (int i = 0; i < 256; i++) every += (char) i;
        texts.push_back(every);
    }
    const std::vector<std::string> op_names = {"train 0", "train 1", "train 2", "train nothing", "train 4", "train 1 often 1", "train 4 one merge", "train 0 no merges", "train 4 patience", "train file 4", "train folder",
                                               "save and load", "load the other", "configure", "train 2 two merges"};
    const int K = (int) op_names.size();
    for (char16_t delimiter: {char16_t(256), char16_t(300), char16_t(5000)})
        for (int depth = 1; depth <= (c.thorough ? 4 : 3); depth++)
            mc::sequences(K, depth, [&](const std::vector<int> &ops) {
                if (!c.take()) return;
                std::string d = "delimiter " + std::to_string((unsigned) delimiter);
                for (int o: ops) d += ", " + op_names[o];
                c.desc(d);
                c.run([&] {
                    filesystem::create_directories("folder");
                    put("file.txt", {"the cat in the hat\nthe cat\n", "that is\n"});
                    put("folder/one.txt", {"the cat in the hat\n"});
                    put("folder/two.txt", {"abab abab"});
                    auto file_tokens = string_to_tokens("the cat in the hat\nthe cat\nthat is\n");
                    auto folder_tokens = string_to_tokens("the cat in the hat\n");
                    for (auto &t: string_to_tokens("abab abab")) folder_tokens.push_back(t);
                    auto m = make_shared<BytePairEncoderModel>("m", false, delimiter);
                    {
                        BytePairEncoderModel other("m", false, 400);
                        other.train(corp[4], -1, 0.00001, 1, 5);
                        c.check(other.save("models", "other"), "save", d);
                    }
                    char16_t del = delimiter;
                    auto next = [&] { Codes l = learned(m); char16_t x = del + 1; for (auto &p: l) x = std::max<char16_t>(x, p.second[0] + 1); return x; };
                    for (size_t k = 0; k < ops.size(); k++) {
                        std::string where = std::to_string(k) + " of " + d;
                        Codes before = learned(m);
                        char16_t n = next();
                        c.transition();
                        switch (ops[k]) {
                            case 0: case 1: case 2: case 3: case 4:
                                m->train(corp[ops[k]]);
                                trained(c, before, learned(m), del, n, corp[ops[k]], 2, -1, where);
                                break;
                            case 5: m->train(corp[1], -1, 0.00001, 1); trained(c, before, learned(m), del, n, corp[1], 1, -1, where); break;
                            case 6: m->train(corp[4], -1, 0.00001, 2, 1); trained(c, before, learned(m), del, n, corp[4], 2, 1, where); break;
                            case 7: m->train(corp[0], -1, 0.00001, 2, 0); trained(c, before, learned(m), del, n, corp[0], 2, 0, where); break;
                            case 8: m->train(corp[4], 0, 0.00001); {   // which texts are kept for validation is random
                                Codes after = learned(m);
                                must(c, after.size() >= before.size() && std::equal(before.begin(), before.end(), after.begin()), "kept @ " + where, show(after));
                                break;
                            }
                            case 9: {
                                must(c, m->train_on_file("file.txt"), "train-file @ " + where, "");
                                trained(c, {}, learned(m), del, del + 1, file_tokens, 2, -1, where);
                                break;
                            }
                            case 10: {
                                must(c, m->train_on_folder("folder"), "train-folder @ " + where, "");
                                trained(c, {}, learned(m), del, del + 1, folder_tokens, 2, -1, where);
                                break;
                            }
                            case 11: {
                                must(c, m->save("models", "mine"), "save @ " + where, "");
                                auto fresh = make_shared<BytePairEncoderModel>("m", false);
                                must(c, fresh->load("models", "mine"), "load @ " + where, "");
                                must(c, learned(fresh) == before, "load-codes @ " + where, show(learned(fresh)));
                                must(c, fresh->getLargestCode() == m->getLargestCode() || fresh->getLargestCode() == n, "load-largest @ " + where, std::to_string(fresh->getLargestCode()));
                                m = fresh;
                                break;
                            }
                            case 12: {
                                must(c, m->load("models", "other"), "load-other @ " + where, "");
                                BytePairEncoderModel other("m", false, 400);
                                other.load("models", "other");
                                Codes o = learned(m), e = other.getBpeCodes();
                                std::sort(e.begin(), e.end(), [](auto &a, auto &b) { return a.second < b.second; });
                                must(c, o == e && o.size() == 5, "load-other @ " + where, show(o) + " instead of " + show(e));
                                del = 400;
                                break;
                            }
                            case 13: {
                                unordered_map<u16string, u16string> codes(before.begin(), before.end());
                                m->configure(codes, del);
                                must(c, learned(m) == before, "configure @ " + where, show(learned(m)));
                                break;
                            }
                            case 14: m->train(corp[2], -1, 0.00001, 2, 2); trained(c, before, learned(m), del, n, corp[2], 2, 2, where); break;
                        }
                        probe(c, m, del, texts, where);
                    }
                    // a failing load or training changes nothing
                    Codes at_end = learned(m);
                    must(c, !m->load("models", "absent") && !m->train_on_file("absent.txt"), "absent @ " + d, "");
                    filesystem::create_directories("empty");
                    must(c, !m->train_on_folder("empty"), "empty-folder @ " + d, "");
                    must(c, learned(m) == at_end, "absent-changed @ " + d, show(learned(m)));
                    c.trace();
                });
            });
    // a file cut at any length is refused or holds whole codes, and the model that was to be replaced stays
    for (int which = 0; which < 3; which++) {
        size_t size = 0;
        {
            BytePairEncoderModel m("m", false);
            m.train(corp[which * 2]);
            size = 2 + m.getBpeCodes().size() * 10;
        }
        for (size_t n = 0; n < size; n++) {
            if (!c.begin("encoder " + std::to_string(which * 2) + " cut to " + std::to_string(n) + " of " + std::to_string(size) + " bytes")) continue;
            c.run([&] {
                BytePairEncoderModel m("m", false);
                m.train(corp[which * 2]);
                m.save("models", "cut");
                c.check(filesystem::file_size("models/cut/m.bpe") == size, "size", std::to_string(filesystem::file_size("models/cut/m.bpe")));
                filesystem::resize_file("models/cut/m.bpe", n);
                auto r = make_shared<BytePairEncoderModel>("m", false);
                r->train(corp[1]);
                Codes before = learned(r);
                bool loaded = r->load("models", "cut");
                bool whole = n >= 2 && (n - 2) % 10 == 0;
                c.check(loaded == whole, "cut", loaded ? "a cut file is loaded" : "whole codes are refused");
                if (!loaded) c.check(learned(r) == before, "cut-changed", "a refused file changed the encoder: " + show(learned(r)));
                probe(c, r, 256, {"ab", "the cat", "aaa"}, c.desc());
                c.trace();
            });
        }
    }
    // the codes run out
    for (int left = 0; left <= 3; left++)
        for (int again = 0; again < 3; again++) {
            if (!c.begin(std::to_string(left) + " codes left, trained " + std::to_string(again + 1) + " times")) continue;
            c.run([&] {
                char16_t delimiter = 0x7ffd - left;
                auto m = make_shared<BytePairEncoderModel>("m", false, delimiter);
                for (int k = 0; k <= again; k++) m->train(corp[k == 0 ? 4 : k == 1 ? 1 : 2], -1, 0.00001, 1);
                probe(c, m, delimiter, {"ab", "the cat", "aaa"}, c.desc());
                c.check((int) m->getBpeCodes().size() == left, "codes-left", std::to_string(m->getBpeCodes().size()) + " codes were given");
                c.trace();
            });
        }
    // files longer than the buffer they are read with
    for (size_t n: {262143, 262144, 262145})
        for (std::string at: {"ab", "a b", "\xe9""b", "1.5"}) {
            if (!c.begin("a file with " + mc::show(at) + " at byte " + std::to_string(n - 1))) continue;
            c.run([&] {
                std::string text;
                while (text.size() + 6 < n) text += "ab ba\n";
                text += std::string(n - 1 - text.size(), 'b') + at + " ba\n";
                put("file.txt", {text});
                auto m = make_shared<BytePairEncoderModel>("m", false);
                c.check(m->train_on_file("file.txt"), "train-file", "");
                trained(c, {}, learned(m), 256, 257, string_to_tokens(text), 2, -1, c.desc());
                probe(c, m, 256, {"ab", "the cat", "aaa", at}, c.desc());
                c.trace();
            });
        }
    // many codes: every pair of so many letters, learned at once or one training after the other, saved and loaded
    for (char16_t delimiter: {char16_t(256), char16_t(300), char16_t(5000), char16_t(30000)})
        for (int letters: {18, 25, 40})
            for (int parts: {1, 3}) {
                if (!c.begin("every pair of " + std::to_string(letters) + " letters in " + std::to_string(parts) + " trainings, delimiter " + std::to_string((unsigned) delimiter))) continue;
                c.run([&] {
                    auto m = make_shared<BytePairEncoderModel>("m", false, delimiter);
                    std::vector<std::string> probes{"", "A", "ABCABC", "the cat"};
                    std::string all;
                    for (int k = 0; k < parts; k++) {
                        std::vector<std::string> corpus;
                        for (int x = 0; x < letters; x++)
                            for (int y = 0; y < letters; y++)
                                if ((x * letters + y) % parts == k) for (int n = 0; n < 1 + (x + y) % 3; n++) corpus.push_back(std::string{(char) ('A' + x), (char) ('A' + y)});
                        Codes before = learned(m);
                        char16_t next = delimiter + 1;
                        for (auto &p: before) next = std::max<char16_t>(next, p.second[0] + 1);
                        m->train(corpus, -1, 0.00001, 1);
                        trained(c, before, learned(m), delimiter, next, corpus, 1, -1, c.desc());
                        for (size_t i = 0; i < corpus.size(); i += 37) { probes.push_back(corpus[i]); all += corpus[i]; }
                    }
                    probes.push_back(all);
                    probe(c, m, delimiter, probes, c.desc());
                    c.check(m->save("models", "many"), "save", "");
                    auto r = make_shared<BytePairEncoderModel>("m", false);
                    c.check(r->load("models", "many") && r->getBpeCodes() == m->getBpeCodes(), "load-many", std::to_string(r->getBpeCodes().size()) + " of " + std::to_string(m->getBpeCodes().size()));
                    probe(c, r, delimiter, probes, c.desc() + ", loaded");
                    Codes before = learned(r);
                    char16_t next = before.empty() ? delimiter + 1 : before.back().second[0] + 1;
                    r->train({"ABAB", "the cat", "the cat"});
                    trained(c, before, learned(r), delimiter, next, {"ABAB", "the cat", "the cat"}, 2, -1, c.desc() + ", trained again");
                    probe(c, r, delimiter, probes, c.desc() + ", trained again");
                    c.trace();
                });
            }
    // a save that cannot be written is reported
    if (c.begin("a full disk")) c.run([&] {
        BytePairEncoderModel m("../full", false);
        m.train(corp[0]);
        filesystem::create_directories("models");
        filesystem::create_symlink("/dev/full", "models/full.bpe");
        c.check(!m.save("models", "label"), "full", "a save that was lost is reported as done");
        c.trace();
    });
}

}

MC_MAIN
