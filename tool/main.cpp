#include "core.h"
int main(int argc, char **argv) {
  Options o;
  if (argc < 3) {
    errs() << "usage: vpa <command> [--k=v]... file.bc...\n";
    return 3;
  }
  std::string cmd = argv[1];
  for (int i = 2; i < argc; ++i) {
    StringRef a = argv[i];
    if (a.starts_with("--")) {
      auto [k, v] = a.drop_front(2).split('=');
      o.kv[k.str()].push_back(v.str());
    } else
      o.files.push_back(a.str());
  }
  auto it = commands().find(cmd);
  if (it == commands().end()) {
    errs() << "unknown command " << cmd << "\n";
    return 3;
  }
  Report r;
  int rc = it->second(o, r);
  json::Object out{{"violations", std::move(r.violations)}, {"counts", std::move(r.counts)},
                   {"notes", std::move(r.notes)}, {"broken", std::move(r.broken)}};
  outs() << formatv("{0:2}", json::Value(std::move(out))) << "\n";
  return rc;
}
