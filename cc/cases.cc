// Runs the case file written by the Go side against the C++ validators.
#include "cases.h"
#include <google/protobuf/stubs/logging.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

std::map<std::string, Runner>& registry() {
  static auto* r = new std::map<std::string, Runner>();
  return *r;
}

std::map<std::string, Histories>& histories() {
  static auto* r = new std::map<std::string, Histories>();
  return *r;
}

static std::string unhex(const std::string& h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
static std::string plain(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c >= 'A' && c <= 'Z') c += 32;
    if (c != '_') o += c;
  }
  return o;
}

int main(int argc, char** argv) {
  google::protobuf::SetLogHandler(nullptr);
  int shards = 8;
  std::vector<pid_t> kids;
  for (int s = 0; s < shards; s++) {
    pid_t p = fork();
    if (p == 0) {
      std::ifstream in(argv[1]);
      FILE* out = fopen((std::string(argv[2]) + "." + std::to_string(s)).c_str(), "w");
      FILE* says = argc > 4 && *argv[4] ? fopen((std::string(argv[4]) + "." + std::to_string(s)).c_str(), "w") : nullptr;
      std::string line, name;
      const Runner* run = nullptr;
      long n = 0, types = 0, skipped = 0, got_[256] = {0}, bad = 0, unjudged = 0;
      int at = 0;
      const bool hist = argc > 5;
      std::vector<std::string> wires;
      std::vector<Answer> answers;
      std::map<std::string, int> outcomes;
      long nh = 0, nc = 0;
      auto explore = [&]() {
        if (hist && run && !wires.empty()) {
          std::string bad = histories()[name](wires, answers, &nh, &nc);
          if (!bad.empty()) {
            for (auto& c : bad) if (c == '\n' || c == '\t' || c == 0) c = ' ';
            fprintf(out, "HBAD\t%s\t%s\n", name.c_str(), bad.c_str());
          }
        }
        wires.clear(); answers.clear(); outcomes.clear();
      };
      while (std::getline(in, line)) {
        if (line[0] == 'T') {
          explore();
          name = line.substr(2);
          run = nullptr;
          if (at++ % shards != s) continue;
          auto it = registry().find(name);
          if (it == registry().end()) { fprintf(out, "MISSING %s\n", name.c_str()); continue; }
          run = &it->second;
          types++;
          continue;
        }
        if (!run) continue;
        size_t a = line.find(' ', 2), b = line.find(' ', a + 1);
        std::string hex = line.substr(2, a - 2), fields = line.substr(b + 1);
        char want = line[a + 1];
        std::string err;
        char got = '?';
        // a crash is found by the parent: note where we are
        try {
          got = (*run)(unhex(hex), &err);
        } catch (const std::exception& e) {
          err = e.what(); got = 'E';
        }
        if (got == 'P') { skipped++; continue; }
        if (hist && wires.size() < 7 && (got == '1' || got == '0' || got == 'T') && outcomes[got + err]++ < 2) {
          wires.push_back(unhex(hex));
          answers.push_back({got, got == '1' ? "" : err});
        }
        n++;
        got_[(unsigned char)got]++;
        if (says && got == '0' && want == '0') {
          fprintf(says, "%s\t%s\t", name.c_str(), hex.c_str());
          for (unsigned char c : err) fprintf(says, "%02x", c);
          fputc('\n', says);
        }
        // cases the property at hand does not speak about are run, not judged
        if (!strchr(argv[3], want)) { unjudged++; continue; }
        bool ok;
        switch (want) {
          case 'N': ok = got == 'T' || got == '0'; break;
          case 'M': ok = got == 'T' || got == '1'; break;
          default: ok = got == want;
        }
        if (ok && got == '0') {
          bool named = false;
          std::string e = plain(err), f;
          for (char c : fields + ",") {
            if (c == ',') { if (!f.empty() && e.find(plain(f)) != std::string::npos) named = true; f = ""; }
            else f += c;
          }
          if (!named) { ok = false; err = "error does not name any of " + fields + ": " + err; }
        }
        if (!ok && bad++ < 400) {
          for (auto& c : err) if (c == '\n' || c == '\t') c = ' ';
          fprintf(out, "BAD\t%s\t%s\t%c\t%c\t%s\n", name.c_str(), hex.c_str(), got, want, err.c_str());
        }
      }
      explore();
      if (hist) fprintf(out, "HIST %ld %ld\n", nh, nc);
      fprintf(out, "DONE %ld %ld %ld %ld %ld %ld %ld\n", types, n, skipped, got_['1'], got_['0'], got_['T'], unjudged);
      fclose(out);
      if (says) fclose(says);
      _exit(0);
    }
    kids.push_back(p);
  }
  int rc = 0;
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (st) rc = 4; }
  return rc;
}
