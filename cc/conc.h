// What the explorer of schedules knows about a message type.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "cases.h"

struct Kind {
  // parses a value, or returns null
  std::function<std::shared_ptr<google::protobuf::Message>(const std::string&)> parse;
  std::function<Answer(const google::protobuf::Message&)> ask;
};
std::map<std::string, Kind>& kinds();

template <class T>
struct Con {
  explicit Con(const char* name) {
    Kind k;
    k.parse = [](const std::string& wire) -> std::shared_ptr<google::protobuf::Message> {
      auto m = std::make_shared<T>();
      if (!m->ParseFromString(wire)) return nullptr;
      return m;
    };
    k.ask = [](const google::protobuf::Message& m) -> Answer {
      std::string err;
      bool ok;
      try {
        ok = Validate(static_cast<const T&>(m), &err);
      } catch (const pgv::UnimplementedException& e) {
        return {'T', e.what()};
      }
      return {ok ? '1' : '0', ok ? "" : err};
    };
    kinds()[name] = k;
  }
};
