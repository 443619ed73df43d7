#pragma once
#include "vm.h"
struct Session {
  struct Pend { Vec<Val> vals; Vec<size_t> pos; int64_t feat = 0; };
  ccs_object_t t = nullptr; int kind = 0, vec = 0, first = 0, nck = 0; std::shared_ptr<UserTuner> ut; Vec<Vec<Val>> feats; Vec<Pend> pend;
  struct Ck { bool has = false; Str path, text, bytes; int tr = 0, op = -1; Vec<Pend> pend; } ck;
  std::set<int> lost;                // operations whose effects a crash undid
};
