// MC_FLAGS: -O2
// The word tree and the cache of recent keys: every sequence of operations over small words and keys, compared with plain lists.
#include "mc.hpp"
#include "types/trie.hpp"
#include "util/lru_cache.h"

namespace harness {

using namespace happyml;

static mc::Info info() {
    mc::Info i;
    i.id = "X03";
    i.rule = "case = first insertions; all sequences of insertions follow up to a depth; after each, every word and prefix up to a length is asked for in every way (stored, value, prefix, completion) and the answers "
             "compared with a plain list of what was inserted; the cache is compared after each insertion with the list of the last distinct keys. state = distinct contents, transition = insertion or query";
    i.bounds_quick = {"word tree: all sequences of up to 4 insertions of the 15 words up to 3 letters over {a, b}, asked for all 31 texts up to 4", "bytes 0, 0x7f, 0x80, 0xff as letters, words up to 2000 letters",
                      "cache: capacity 0 to 5, all sequences of up to 7 insertions of 5 keys; texts as keys; capacities 100 and 1000 with three patterns"};
    i.bounds_thorough = {"word tree: up to 5 insertions", "cache: up to 9 insertions"};
    i.case_timeout = 120;
    return i;
}

static std::vector<std::string> words(int length, const std::string &letters = "ab") {
    std::vector<std::string> r{""};
    for (size_t i = 0; i < r.size(); i++)
        if ((int) r[i].size() < length) for (char x: letters) r.push_back(r[i] + x);
    return r;
}

using Stored = std::map<std::string, std::string>;

static void ask(mc::Ctx &c, const Trie &t, const Stored &stored, const std::vector<std::string> &queries, const std::string &what) {
    for (auto &q: queries) {
        auto it = stored.find(q);
        bool known = it != stored.end(), begins = q.empty();
        size_t longest = 0;
        bool any = false;
        for (auto &p: stored)
            if (p.first.compare(0, q.size(), q) == 0) {
                begins = true;
                any = true;
                longest = std::max(longest, p.first.size());
            }
        if (t.search(q) != known || t.match(q) != known) c.fail_key("stored " + what, mc::show(q) + (known ? " is not found" : " is found"));
        if (t.lookup(q) != (known ? it->second : "")) c.fail_key("value " + what, mc::show(q) + " has the value " + mc::show(t.lookup(q)));
        if (t.startsWith(q) != begins) c.fail_key("prefix " + what, mc::show(q) + (begins ? " begins a word" : " begins no word"));
        std::string got = t.complete(q);
        bool ok = any ? got.size() == longest && got.compare(0, q.size(), q) == 0 && stored.count(got) : got.empty();
        if (!ok) c.fail_key("complete " + what, mc::show(q) + " is completed to " + mc::show(got));
    }
    c.transition(queries.size());
    std::string key;
    for (auto &p: stored) key += p.first + "=" + p.second + ";";
    c.state(mc::hash(key));
}

static void explore(mc::Ctx &c) {
    auto w = words(3), q = words(4);
    q.push_back("c");
    q.push_back("aac");
    for (size_t a = 0; a < w.size(); a++)
        for (size_t b = 0; b < w.size(); b++) {
            if (!c.begin("insertions that begin with " + mc::show(w[a]) + ", " + mc::show(w[b]))) continue;
            c.run([&] {
                if (b == 0) {
                    Trie t;
                    if (a == 0) ask(c, t, {}, q, "nothing");
                    t.insert(w[a], "only");
                    ask(c, t, {{w[a], "only"}}, q, mc::show(w[a]));
                }
                for (int more = 0; more <= (c.thorough ? 3 : 2); more++)
                    mc::sequences((int) w.size(), more, [&](const std::vector<int> &s) {
                        Trie t;
                        Stored stored;
                        std::string what;
                        int k = 0;
                        auto put = [&](const std::string &x) {
                            std::string value = k == 2 ? "" : "v" + std::to_string(k);
                            k++;
                            t.insert(x, value);
                            stored[x] = value;
                            what += mc::show(x) + " ";
                        };
                        put(w[a]);
                        put(w[b]);
                        for (int x: s) put(w[x]);
                        ask(c, t, stored, q, what);
                    });
                c.trace();
            });
        }
    if (c.begin("letters of all kinds")) c.run([&] {
        std::string letters{'\0', '\x7f', '\x80', '\xff'};
        auto all = words(2, letters);
        for (auto &x: all)
            for (auto &y: all) {
                Trie t;
                t.insert(x, "x");
                t.insert(y, "y");
                Stored s{{x, "x"}};
                s[y] = "y";
                ask(c, t, s, all, mc::show(x) + " " + mc::show(y));
            }
        c.trace();
    });
    if (c.begin("long words and many words")) c.run([&] {
        Trie t;
        Stored s;
        std::vector<std::string> queries;
        for (size_t n: {1, 255, 256, 257, 1000, 2000}) {
            std::string x(n, 'x');
            t.insert(x, std::to_string(n));
            s[x] = std::to_string(n);
            queries.push_back(x);
            queries.push_back(x + "y");
            queries.push_back(x.substr(1));
        }
        ask(c, t, s, queries, "long");
        for (int i = 0; i < 3000; i++) {
            std::string x = "w" + std::to_string(i * 7919 % 3000);
            t.insert(x, "n" + std::to_string(i));
            s[x] = "n" + std::to_string(i);
        }
        queries.clear();
        for (int i = 0; i < 3000; i += 7) queries.push_back("w" + std::to_string(i));
        queries.push_back("w9999");
        ask(c, t, s, queries, "many");
        c.trace();
    });
    // cache
    for (int capacity = 0; capacity <= 5; capacity++)
        for (int first = 0; first < 5; first++) {
            if (!c.begin("cache of " + std::to_string(capacity) + ", first key " + std::to_string(first))) continue;
            c.run([&] {
                for (int more = 0; more <= (c.thorough ? 8 : 6); more++)
                    mc::sequences(5, more, [&](const std::vector<int> &s) {
                        LruCache<int, std::string> cache(capacity);
                        LruCache<std::string, int> texts(capacity);
                        std::vector<int> recent;
                        auto put = [&](int x) {
                            cache.insert(x, "value " + std::to_string(x));
                            texts.insert("key " + std::to_string(x), x);
                            recent.erase(std::remove(recent.begin(), recent.end(), x), recent.end());
                            recent.insert(recent.begin(), x);
                            if ((int) recent.size() > capacity) recent.resize(capacity);
                        };
                        put(first);
                        for (int x: s) put(x);
                        unsigned long long key = capacity + 1;
                        for (int x: recent) key = key * 7 + x + 1;
                        c.state(key);
                        for (int x = 0; x < 6; x++) {
                            bool want = std::find(recent.begin(), recent.end(), x) != recent.end();
                            if (cache.contains(x) != want || texts.contains("key " + std::to_string(x)) != want) {
                                std::string d = std::to_string(first);
                                for (int y: s) d += " " + std::to_string(y);
                                c.fail_key("cache of " + std::to_string(capacity) + ": " + d, "key " + std::to_string(x) + (want ? " was dropped" : " is still there"));
                            }
                        }
                        c.transition(s.size() + 7);
                    });
                c.trace();
            });
        }
    for (int capacity: {100, 1000})
        for (int pattern = 0; pattern < 3; pattern++) {
            if (!c.begin("cache of " + std::to_string(capacity) + ", pattern " + std::to_string(pattern))) continue;
            c.run([&] {
                LruCache<size_t, bool> cache(capacity);
                std::list<size_t> recent;
                for (size_t i = 0; i < (size_t) capacity * 3; i++) {
                    size_t x = pattern == 0 ? i : pattern == 1 ? i % (capacity + 1) : i * i % 1511;
                    cache.insert(x, true);
                    recent.remove(x);
                    recent.push_front(x);
                    if (recent.size() > (size_t) capacity) recent.pop_back();
                    std::set<size_t> in(recent.begin(), recent.end());
                    for (size_t y = 0; y < (size_t) capacity * 3 + 2; y += 1 + capacity / 20)
                        if (cache.contains(y) != (in.count(y) > 0)) { c.fail_key("cache of " + std::to_string(capacity), "after " + std::to_string(i) + " keys"); return; }
                    c.transition();
                }
                c.trace();
            });
        }
}

}

MC_MAIN
