// Incremental Earley recogniser with extraction of the derivation. It decides
// membership, and whether a prefix can still be extended to a sentence (every
// column is non empty exactly for the viable prefixes of a reduced grammar).
#ifndef VERIF_EARLEY_H
#define VERIF_EARLEY_H

#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace earley {
// A semantic value: a text, a list of texts, and the tokens covered.
struct V {
  std::string s;
  std::vector<std::string> l;
  bool present = false;
  int begin = 0, end = 0;
};
using Action = std::function<V(std::vector<V> &)>;

struct Token {
  int term;
  std::string text;
};

class Grammar {
public:
  struct Rule {
    int lhs;
    std::vector<int> rhs;
    std::vector<int> slot; // position in the list of values given to the action
    int slots;
    Action action;
    int firstItem;
  };
  std::vector<std::string> names;
  std::vector<bool> isTerm;
  std::vector<Rule> rules;
  std::vector<std::vector<int>> byLhs;
  std::vector<int> itemRule, itemDot;

  int sym(const std::string &n, bool term) {
    std::string key = (term ? "'" : "") + n;
    auto it = ids.find(key);
    if (it != ids.end()) {
      return it->second;
    }
    int id = names.size();
    ids[key] = id;
    names.push_back(n);
    isTerm.push_back(term);
    byLhs.emplace_back();
    return id;
  }

  // Terminals are written 'x' or in capitals, optional symbols end with '?'.
  void rule(const std::string &lhs, const std::string &rhs, Action action = nullptr) {
    std::vector<std::string> parts;
    std::string cur;
    for (char c : rhs + " ") {
      if (c == ' ') {
        if (!cur.empty()) {
          parts.push_back(cur);
        }
        cur.clear();
      } else {
        cur += c;
      }
    }
    std::vector<int> opt;
    for (size_t i = 0; i < parts.size(); ++i) {
      if (parts[i].size() > 1 && parts[i].back() == '?') {
        parts[i].pop_back();
        opt.push_back(i);
      }
    }
    int l = sym(lhs, false);
    for (unsigned mask = 0; mask < (1u << opt.size()); ++mask) {
      Rule r;
      r.lhs = l;
      r.slots = parts.size();
      r.action = action ? action : [](std::vector<V> &c) { return c[0]; };
      for (size_t i = 0, o = 0; i < parts.size(); ++i) {
        if (o < opt.size() && opt[o] == (int)i) {
          if (!(mask >> o++ & 1)) {
            continue;
          }
        }
        bool term = parts[i][0] == '\'' || (parts[i][0] >= 'A' && parts[i][0] <= 'Z');
        std::string n = parts[i][0] == '\'' ? parts[i].substr(1, parts[i].size() - 2) : parts[i];
        r.rhs.push_back(sym(n, term));
        r.slot.push_back(i);
      }
      assert(!r.rhs.empty());
      r.firstItem = itemRule.size();
      for (size_t d = 0; d <= r.rhs.size(); ++d) {
        itemRule.push_back(rules.size());
        itemDot.push_back(d);
      }
      byLhs[l].push_back(rules.size());
      rules.push_back(r);
    }
  }

  void check() {
    for (size_t i = 0; i < names.size(); ++i) {
      if (!isTerm[i] && byLhs[i].empty()) {
        fprintf(stderr, "undefined symbol %s\n", names[i].c_str());
        abort();
      }
    }
  }

  int find(const std::string &n) const {
    auto it = ids.find(n);
    return it == ids.end() ? -1 : it->second;
  }

private:
  std::map<std::string, int> ids;
};

class Chart {
  struct Item {
    int item;
    int origin;
  };
  struct Column {
    std::vector<Item> items;
    std::vector<std::pair<int, int>> waiting; // (symbol after the dot, index)
  };
  const Grammar &g;
  int start;
  std::vector<Column> cols;
  std::vector<Token> toks;
  size_t used = 0;
  static constexpr int MAX = 128;
  std::vector<std::vector<uint32_t>> stamps;
  std::vector<uint32_t> stampOf, predicted;
  uint32_t clock = 0;

  bool has(int col, int item, int origin) const { return stamps[col][item * MAX + origin] == stampOf[col]; }

  void add(int col, int item, int origin) {
    uint32_t &s = stamps[col][item * MAX + origin];
    if (s == stampOf[col]) {
      return;
    }
    s = stampOf[col];
    Column &c = cols[col];
    const auto &r = g.rules[g.itemRule[item]];
    if (g.itemDot[item] < (int)r.rhs.size()) {
      c.waiting.emplace_back(r.rhs[g.itemDot[item]], c.items.size());
    }
    c.items.push_back({item, origin});
  }

  void fresh(int col) {
    if ((int)cols.size() <= col) {
      cols.emplace_back();
      stamps.emplace_back(g.itemRule.size() * MAX, 0);
      stampOf.push_back(0);
    }
    stampOf[col] = ++clock;
    cols[col].items.clear();
    cols[col].waiting.clear();
  }

  void close(int col) {
    ++predictClock;
    predicted.resize(g.names.size(), 0);
    for (size_t k = 0; k < cols[col].items.size(); ++k) {
      Item it = cols[col].items[k];
      const auto &r = g.rules[g.itemRule[it.item]];
      int dot = g.itemDot[it.item];
      if (dot < (int)r.rhs.size()) {
        int x = r.rhs[dot];
        if (!g.isTerm[x] && predicted[x] != predictClock) {
          predicted[x] = predictClock;
          for (int q : g.byLhs[x]) {
            add(col, g.rules[q].firstItem, col);
          }
        }
      } else {
        // No empty rules: the origin is an earlier, completed column.
        for (size_t w = 0; w < cols[it.origin].waiting.size(); ++w) {
          if (cols[it.origin].waiting[w].first == r.lhs) {
            Item from = cols[it.origin].items[cols[it.origin].waiting[w].second];
            add(col, from.item + 1, from.origin);
          }
        }
      }
    }
  }
  uint32_t predictClock = 0;

  std::vector<V> derive(int rule, int dot, int i, int j) {
    // The values of the first `dot` symbols, spanning [i, j).
    const auto &r = g.rules[rule];
    if (dot == 0) {
      return {};
    }
    int x = r.rhs[dot - 1];
    std::vector<V> found;
    int ways = 0;
    auto tryAt = [&](int k, std::function<V()> value) {
      if (!(dot == 1 ? k == i : has(k, r.firstItem + dot - 1, i))) {
        return;
      }
      if (++ways > 1) {
        return;
      }
      found = derive(rule, dot - 1, i, k);
      found.push_back(value());
    };
    if (g.isTerm[x]) {
      tryAt(j - 1, [&] {
        V v;
        v.s = toks[j - 1].text;
        v.present = true;
        v.begin = j - 1;
        v.end = j;
        return v;
      });
    } else {
      int last = -1;
      std::map<int, bool> seen;
      for (auto &it : cols[j].items) {
        const auto &q = g.rules[g.itemRule[it.item]];
        if (q.lhs == x && g.itemDot[it.item] == (int)q.rhs.size() && !seen[it.origin]) {
          seen[it.origin] = true;
          last = it.origin;
          tryAt(it.origin, [&] { return build(x, it.origin, j); });
        }
      }
      (void)last;
    }
    if (ways != 1) {
      fprintf(stderr, "derivation of %s: %d ways\n", g.names[r.lhs].c_str(), ways);
      abort();
    }
    return found;
  }

public:
  Chart(const Grammar &grammar, const std::string &startSymbol) : g(grammar), start(g.find(startSymbol)) {
    fresh(0);
    for (int q : g.byLhs[start]) {
      add(0, g.rules[q].firstItem, 0);
    }
    close(0);
  }

  size_t size() const { return toks.size(); }
  const std::vector<Token> &tokens() const { return toks; }

  // Returns false, leaving the chart unchanged, if no sentence has this prefix.
  bool push(const Token &t) {
    int n = toks.size();
    if (n + 1 >= MAX) {
      fprintf(stderr, "sentence too long\n");
      abort();
    }
    fresh(n + 1);
    for (auto &w : cols[n].waiting) {
      if (w.first == t.term) {
        Item from = cols[n].items[w.second];
        add(n + 1, from.item + 1, from.origin);
      }
    }
    if (cols[n + 1].items.empty()) {
      return false;
    }
    toks.push_back(t);
    close(n + 1);
    return true;
  }

  void pop(size_t n) { toks.resize(toks.size() - n); }

  bool accepted() const {
    for (int q : g.byLhs[start]) {
      if (has(toks.size(), g.rules[q].firstItem + g.rules[q].rhs.size(), 0)) {
        return true;
      }
    }
    return false;
  }

  V build(int x, int i, int j) {
    int chosen = -1, ways = 0;
    for (int q : g.byLhs[x]) {
      if (has(j, g.rules[q].firstItem + g.rules[q].rhs.size(), i)) {
        ++ways;
        chosen = q;
      }
    }
    if (ways != 1) {
      fprintf(stderr, "%s: %d derivations\n", g.names[x].c_str(), ways);
      abort();
    }
    const auto &r = g.rules[chosen];
    std::vector<V> vs = derive(chosen, r.rhs.size(), i, j);
    std::vector<V> args(r.slots);
    for (size_t k = 0; k < vs.size(); ++k) {
      args[r.slot[k]] = std::move(vs[k]);
    }
    V v = r.action(args);
    v.present = true;
    v.begin = i;
    v.end = j;
    return v;
  }

  V value() { return build(start, 0, toks.size()); }
};
} // namespace earley

#endif
