// Explores the C++ runtime predicates of validate/validate.h exhaustively over
// bounded input languages and compares each answer with a reference.
#include "validate/validate.h"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

using std::string;
using std::vector;

static std::mutex mu;
static std::map<string, long> counts;   // predicate|class -> evaluations
static std::map<string, string> samples;
static long evals = 0;
static int shown = 0;
static std::set<string> bad;

static string hex(const string& s) {
  string o;
  char b[3];
  for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; }
  return o;
}

struct Local {
  std::map<string, long> counts;
  std::map<string, string> samples;
  void note(const char* p, bool v, const string& s) {
    string k = string(p) + (v ? "|true" : "|false");
    if (counts[k]++ == 0 || (v && samples[k].size() < 60 && s.size() > samples[k].size())) samples[k] = s;
  }
  ~Local() {
    std::lock_guard<std::mutex> l(mu);
    for (auto& k : counts) { ::counts[k.first] += k.second; evals += k.second; }
    for (auto& k : samples) ::samples[k.first] = k.second;
  }
};

static void fail(const string& pred, const string& in, const string& got, const string& want) {
  std::lock_guard<std::mutex> l(mu);
  if (shown++ < 60) printf("BAD %s %s got=%s want=%s\n", pred.c_str(), hex(in).c_str(), got.c_str(), want.c_str());
}

// ---- references ----
static bool refPrefix(const string& p, const string& s) {
  if (p.size() > s.size()) return false;
  for (size_t i = 0; i < p.size(); i++) if (p[i] != s[i]) return false;
  return true;
}
static bool refSuffix(const string& p, const string& s) {
  if (p.size() > s.size()) return false;
  for (size_t i = 0; i < p.size(); i++) if (p[p.size() - 1 - i] != s[s.size() - 1 - i]) return false;
  return true;
}
static bool refContains(const string& s, const string& f) {
  for (size_t i = 0; i <= s.size(); i++)
    if (refPrefix(f, s.substr(i))) return true;
  return false;
}
static vector<string> split(const string& s, char c) {
  vector<string> out(1);
  for (char x : s) if (x == c) out.emplace_back(); else out.back() += x;
  return out;
}
static bool refIpv4(const string& s) {
  auto p = split(s, '.');
  if (p.size() != 4) return false;
  for (auto& o : p) {
    if (o.empty() || o.size() > 3) return false;
    for (char c : o) if (c < '0' || c > '9') return false;
    if (o.size() > 1 && o[0] == '0') return false;
    if (std::atoi(o.c_str()) > 255) return false;
  }
  return true;
}
// number of 16-bit groups of a colon-separated list, -1 if malformed; the
// dotted quad may only be last, and only if last is allowed
static int groups(const string& s, bool quad) {
  if (s.empty()) return 0;
  auto p = split(s, ':');
  int n = 0;
  for (size_t i = 0; i < p.size(); i++) {
    const string& g = p[i];
    if (g.find('.') != string::npos) {
      if (!quad || i + 1 != p.size() || !refIpv4(g)) return -1;
      n += 2;
      continue;
    }
    if (g.empty() || g.size() > 4) return -1;
    for (char c : g) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return -1;
    n++;
  }
  return n;
}
static bool refIpv6(const string& s) {
  size_t e = s.find("::");
  if (e == string::npos) return groups(s, true) == 8 && !s.empty();
  int a = groups(s.substr(0, e), false), b = groups(s.substr(e + 2), true);
  return a >= 0 && b >= 0 && a + b <= 7;
}
static bool refHostname(const string& s0) {
  if (s0.size() > 253) return false;
  string s = s0;
  if (!s.empty() && s.back() == '.') s.pop_back();
  for (auto& l : split(s, '.')) {
    if (l.empty() || l.size() > 63) return false;
    if (l[0] == '-' || l.back() == '-') return false;
    for (char c : l)
      if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-')) return false;
  }
  return true;
}

static string enc(uint32_t c) {
  string o;
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
  else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
  return o;
}

// A copy whose storage is exactly as long as the contents, so that a read past the end is seen.
static string tight(const string& s) {
  string t;
  t.reserve(s.size());
  t.assign(s.data(), s.size());
  t.shrink_to_fit();
  return t;
}

static void affix(Local& l, const string& a, const string& s) {
  struct { const char* n; bool got, want; } r[] = {
    {"IsPrefix", pgv::IsPrefix(a, s), refPrefix(a, s)},
    {"IsSuffix", pgv::IsSuffix(a, s), refSuffix(a, s)},
    {"Contains", pgv::Contains(s, a), refContains(s, a)},
    {"NotContains", pgv::NotContains(s, a), !refContains(s, a)},
  };
  for (auto& x : r) {
    l.note(x.n, x.want, a + " / " + s);
    if (x.got != x.want) fail(x.n, a + "|" + s, x.got ? "true" : "false", x.want ? "true" : "false");
  }
}
static void ips(Local& l, const string& raw) {
  string s = tight(raw);
  bool v4 = refIpv4(s), v6 = refIpv6(s);
  struct { const char* n; bool got, want; } r[] = {{"IsIpv4", pgv::IsIpv4(s), v4}, {"IsIpv6", pgv::IsIpv6(s), v6}, {"IsIp", pgv::IsIp(s), v4 || v6}};
  for (auto& x : r) {
    l.note(x.n, x.want, s);
    if (x.got != x.want) fail(x.n, s, x.got ? "true" : "false", x.want ? "true" : "false");
  }
}
static void host(Local& l, const string& raw) {
  string s = tight(raw);
  bool w = refHostname(s), g = pgv::IsHostname(s);
  l.note("IsHostname", w, s);
  if (g != w) fail("IsHostname", s, g ? "true" : "false", w ? "true" : "false");
}
static void count(Local& l, const string& raw, size_t want) {
  string s = tight(raw);
  size_t g = pgv::Utf8Len(s);
  l.note("Utf8Len", want > 1, s);
  if (g != want) fail("Utf8Len", s, std::to_string(g), std::to_string(want));
}

// every sequence of at most n tokens, cut over the threads by its first two tokens
template <class F>
static void sequences(const vector<string>& alpha, int n, F f) {
  vector<std::thread> ts;
  std::atomic<size_t> next{0};
  size_t k = alpha.size();
  for (int t = 0; t < 8; t++)
    ts.emplace_back([&] {
      Local l;
      string cur;
      std::function<void(int)> rec = [&](int left) {
        f(l, cur);
        if (!left) return;
        size_t len = cur.size();
        for (auto& a : alpha) { cur += a; rec(left - 1); cur.resize(len); }
      };
      for (;;) {
        size_t i = next++;
        if (i > k * k) break;
        if (i == k * k) { // the short ones
          cur = ""; f(l, cur);
          if (n > 0) for (auto& a : alpha) { cur = a; f(l, cur); }
          continue;
        }
        if (n < 2) continue;
        cur = alpha[i / k] + alpha[i % k];
        rec(n - 2);
      }
    });
  for (auto& t : ts) t.join();
}

// every string one insertion, deletion or replacement (any byte) away
template <class F>
static void edits(const vector<string>& seeds, F f) {
  vector<std::thread> ts;
  std::atomic<size_t> next{0};
  for (int t = 0; t < 8; t++)
    ts.emplace_back([&] {
      Local l;
      for (;;) {
        size_t i = next++;
        if (i >= seeds.size()) break;
        const string& s = seeds[i];
        f(l, s);
        for (size_t p = 0; p <= s.size(); p++) {
          if (p < s.size()) { string d = s; d.erase(p, 1); f(l, d); }
          for (int b = 0; b < 256; b++) {
            string x = s; x.insert(p, 1, char(b)); f(l, x);
            if (p < s.size()) { x = s; x[p] = char(b); f(l, x); }
          }
        }
      }
    });
  for (auto& t : ts) t.join();
}

int main(int argc, char** argv) {
  bool deep = argc > 1 && string(argv[1]) == "deep";
  const string nul(1, '\0');
  { // affixes: all pairs
    vector<string> needles, hays;
    std::function<void(vector<string>&, string, int)> all = [&](vector<string>& o, string s, int n) {
      o.push_back(s);
      if (n) for (char c : {'a', 'b', '\0', '\xff'}) all(o, s + c, n - 1);
    };
    all(needles, "", deep ? 5 : 4);
    all(hays, "", deep ? 7 : 5);
    needles.push_back(string(40, 'a')); hays.push_back(string(40, 'a')); hays.push_back(string(39, 'a')); hays.push_back("b" + string(40, 'a') + "b");
    vector<std::thread> ts;
    std::atomic<size_t> next{0};
    for (int t = 0; t < 8; t++)
      ts.emplace_back([&] {
        Local l;
        for (size_t i; (i = next++) < hays.size();) {
          string h = tight(hays[i]);
          for (auto& n : needles) affix(l, tight(n), h);
        }
      });
    for (auto& t : ts) t.join();
  }
  { // counts: every scalar value in three contexts, and all short sequences
    Local l;
    for (uint32_t c = 0; c <= 0x10ffff; c++) {
      if (c >= 0xd800 && c <= 0xdfff) continue;
      string e = enc(c);
      count(l, e, 1);
      count(l, "a" + e, 2);
      count(l, e + "\xc3\xa9" + e, 3);
    }
    vector<uint32_t> cs = {0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff};
    std::function<void(string, int)> rec = [&](string s, int n) {
      count(l, s, n);
      if (n < (deep ? 7 : 5)) for (auto c : cs) rec(s + enc(c), n + 1);
    };
    rec("", 0);
    for (int n : {0, 1, 63, 64, 1000, 100000}) { string s; for (int i = 0; i < n; i++) s += "\xc3\xa9"; count(l, s, n); }
    // ill-formed input: any answer will do, but the call must end and stay inside the string
    std::function<void(string, int)> ill = [&](string s, int n) {
      string t = tight(s);
      size_t g = pgv::Utf8Len(t);
      l.note("Utf8Len on any bytes", g > 0, s);
      if (g > s.size() && !s.empty()) fail("Utf8Len", s, std::to_string(g), "at most the number of bytes");
      if (n) for (int c : std::initializer_list<int>{0, 'a', 0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xed, 0xf0, 0xf4, 0xf8, 0xff}) ill(s + char(c), n - 1);
    };
    ill("", deep ? 6 : 4);
  }
  // addresses
  sequences({"0", "1", "2", "5", "9", ".", nul, "a", " "}, deep ? 8 : 6, ips);
  {
    vector<string> oct = {"0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "00", "01", "001", "", "a", "+1", "-1", " 1", "1 ", "0x1", "1" + nul};
    vector<string> dotted;
    for (auto& o : oct) dotted.push_back("." + o);
    for (auto& o : oct)
      sequences(dotted, 3, [&](Local& l, const string& s) { ips(l, o + s); });
    if (deep) for (auto& o : {string("1"), string("255")})
      sequences(dotted, 4, [&](Local& l, const string& s) { ips(l, o + s); });
  }
  sequences({":", "::", "0", "1", "ffff", "12345", "G", "Ab", "1.2.3.4", nul, "%0", "."}, deep ? 7 : 5, ips);
  sequences({":", "0:", ":1", "ffff", "::", "1.2.3.4"}, deep ? 10 : 8, ips);
  {
    vector<string> seeds = {"1.2.3.4", "255.255.255.255", "0.0.0.0", "1.2.3.4.5", "1.2.3", "127.0.0.1"};
    for (int pre = 0; pre <= 8; pre++)
      for (int post = -1; pre + post <= 9; post++)
        for (int quad = 0; quad < 2; quad++) {
          string s;
          for (int i = 0; i < pre; i++) s += (i ? ":" : "") + string(i % 2 ? "0" : "abCD");
          if (post >= 0) s += "::";
          for (int i = 0; i < post; i++) s += (i ? ":" : "") + string(i % 2 ? "f" : "1234");
          if (quad) s += (s.empty() || s.back() == ':') ? "1.2.3.4" : ":1.2.3.4";
          seeds.push_back(s);
        }
    edits(seeds, ips);
  }
  // host names
  sequences({"a", "Z", "0", "-", ".", nul, "_", "\xc3\xa9", "\xe2\x84\xaa"}, deep ? 7 : 5, host);
  sequences({"a", "-", "."}, deep ? 11 : 8, host);
  {
    vector<string> seeds = {"a", "a.b", "example.com", "example.com.", "a-b.c-d", "xn--a", "1.2.3.4", "A.Z.0.9", "."};
    for (int n : {62, 63, 64}) { seeds.push_back(string(n, 'a')); seeds.push_back("b." + string(n, 'a') + "."); }
    edits(seeds, host);
    vector<string> longs;
    for (int total = 250; total <= 256; total++)
      for (int lab : {1, 2, 9, 50, 62, 63, 64, 100}) {
        string s;
        while ((int)s.size() < total) s += s.size() % (lab + 1) == (size_t)lab ? '.' : 'a';
        longs.push_back(s);
        longs.push_back(s.substr(0, total - 1) + ".");
        longs.push_back(s.substr(0, total - 2) + "..");
        longs.push_back(s.substr(0, total - 1) + "-");
      }
    Local l;
    for (auto& s : longs) host(l, s);
  }
  for (auto& k : counts) printf("COUNT %s %ld %s\n", k.first.c_str(), k.second, hex(samples[k.first]).c_str());
  printf("DONE %ld bad=%d\n", evals, shown);
  return shown ? 3 : 0;
}
