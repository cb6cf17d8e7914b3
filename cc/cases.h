// One registry of message types for the case runner.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <string>
#include "validate/validate.h"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>

// result: '1' valid, '0' invalid, 'T' threw unimplemented, 'P' not parseable
using Runner = std::function<char(const std::string& wire, std::string* err)>;
std::map<std::string, Runner>& registry();

// What a value gets: the verdict and the text of the error.
using Answer = std::pair<char, std::string>;
// Every history over the values: returns what is wrong with one, or "", and
// counts the calls.
using Histories = std::function<std::string(const std::vector<std::string>& wires, const std::vector<Answer>& want, long* histories, long* calls)>;
std::map<std::string, Histories>& histories();

// The wire form with maps in order.
template <class T>
std::string settled(const T& m) {
  std::string s;
  {
    google::protobuf::io::StringOutputStream o(&s);
    google::protobuf::io::CodedOutputStream c(&o);
    c.SetSerializationDeterministic(true);
    m.SerializeToCodedStream(&c);
  }
  return s;
}

// Whether the first violation found may be another one for another object of
// the same value: what a map is walked in is not said.
inline bool unordered(const google::protobuf::Message& m) {
  const auto* r = m.GetReflection();
  std::vector<const google::protobuf::FieldDescriptor*> fs;
  r->ListFields(m, &fs);
  for (const auto* f : fs) {
    if (f->is_map() && r->FieldSize(m, f) > 1) return true;
    if (f->cpp_type() != google::protobuf::FieldDescriptor::CPPTYPE_MESSAGE) continue;
    if (!f->is_repeated()) {
      if (unordered(r->GetMessage(m, f))) return true;
    } else {
      for (int i = 0; i < r->FieldSize(m, f); i++)
        if (unordered(r->GetRepeatedMessage(m, f, i))) return true;
    }
  }
  return false;
}

template <class T>
struct Reg {
  static Answer ask(const T& m, std::string* err) {
    err->reserve(300);
    bool ok;
    try {
      ok = Validate(m, err);
    } catch (const pgv::UnimplementedException& e) {
      return {'T', e.what()};
    }
    return {ok ? '1' : '0', ok ? "" : *err};
  }
  static std::string all(const std::vector<std::string>& wires, const std::vector<Answer>& want, long* histories, long* calls) {
    int n = wires.size();
    std::vector<T> kept(n);
    std::vector<char> loose(n);
    for (int i = 0; i < n; i++) {
      kept[i].ParseFromString(wires[i]);
      loose[i] = unordered(kept[i]);
    }
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        for (int k = 0; k < n; k++) {
          ++*histories;
          std::string err;
          T m, other;
          auto step = [&](const T& x, int v, const char* what) -> std::string {
            ++*calls;
            std::string before = settled(x);
            Answer a = ask(x, &err);
            if (loose[v] ? a.first != want[v].first : a != want[v]) return std::string("answers ") + a.first + " " + a.second + " and not " + want[v].first + " " + want[v].second + " " + what;
            if (settled(x) != before) return std::string("changes the message ") + what;
            return "";
          };
          std::string bad;
          m.ParseFromString(wires[i]);
          bad = step(m, i, "at first");
          if (bad.empty()) { m.ParseFromString(wires[j]); bad = step(m, j, "after the message was rewritten"); }
          if (bad.empty()) { other.ParseFromString(wires[k]); bad = step(other, k, "for another message"); }
          if (bad.empty()) bad = step(m, j, "after another message");
          if (bad.empty()) { m = other; bad = step(m, k, "after the message was assigned"); }
          if (bad.empty()) bad = step(kept[i], i, "in the end");
          if (!bad.empty()) return bad + " (history " + std::to_string(i) + " " + std::to_string(j) + " " + std::to_string(k) + ")";
        }
    return "";
  }
  explicit Reg(const char* name) {
    histories()[name] = all;
    registry()[name] = [](const std::string& wire, std::string* err) -> char {
      T m;
      if (!m.ParseFromString(wire)) return 'P';
      const std::string before = settled(m);
      bool ok;
      try {
        ok = Validate(m, err);
      } catch (const pgv::UnimplementedException& e) {
        *err = e.what();
        return 'T';
      }
      // again: the answer may not depend on the call before
      std::string err2 = "what an earlier call left";
      if (Validate(m, &err2) != ok) { *err = "a second call answers differently"; return 'X'; }
      if (!ok && err2 != *err) { *err = "a second call says something else: " + err2 + " and not " + *err; return 'X'; }
      if (settled(m) != before) { *err = "the message is not the same any more"; return 'X'; }
      return ok ? '1' : '0';
    };
  }
};
