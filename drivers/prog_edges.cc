// Linked into each program that ships with the engine: feeds the model's inputs
// (a program leaves that to TensorFlow Lite, or to the user) from $LCE_FEED, one
// line of hexadecimal tensors per sample, and saves what the interpreter logged.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "lite_shim.h"
namespace {
void Feed(tflite::Interpreter* I, int k) {
  std::ifstream f(getenv("LCE_FEED"));
  std::vector<std::string> L;
  for (std::string l; std::getline(f, l);) L.push_back(l);
  if (L.empty()) return;
  std::istringstream s(L[k % L.size()]);
  for (int i : I->inputs()) {
    std::string h;
    s >> h;
    for (size_t j = 0; 2 * j + 1 < h.size(); j++) I->tensor(i)->data.raw[j] = (char)strtol(h.substr(2 * j, 2).c_str(), nullptr, 16);
  }
}
struct Saver {
  Saver() { tflite::shim_log(); if (getenv("LCE_FEED")) tflite::shim_feed() = Feed; }
  ~Saver() {
    const char* p = getenv("LCE_LOG");
    if (FILE* f = p ? fopen(p, "w") : nullptr) { fputs(tflite::shim_log().s.c_str(), f); fclose(f); }
  }
} saver;
}  // namespace
