// Stand-in: ROOT is not installed here. Nothing can be opened.
#pragma once
#include "TKey.h"
#include <list>
struct TFile {
  std::list<TObject*> keys{};
  static TFile* Open(const char*) {
    return nullptr;
  }
  std::list<TObject*>* GetListOfKeys() {
    return &keys;
  }
};
