#include "cov.hpp"

#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace {
const unsigned BITS = 18, SIZE = 1u << BITS;
struct Slot {
  uint32_t epoch, count, id;
  uint32_t kind;
};
// Shared by the process that runs the cases and the one that watches it.
struct Shared {
  Slot slots[SIZE];            // features of the current case
  uint32_t touched[SIZE / 4];  // those it has
  uint32_t ntouched, epoch, which;
  uint32_t seen[SIZE];         // number of cases that had the feature
};
Shared* sh;
bool on;

inline uint32_t mix(uint64_t x) {
  x ^= x >> 31;
  x *= 0x9E3779B97F4A7C15ull;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  return static_cast<uint32_t>(x >> (64 - BITS));
}

inline void hit(uint64_t key, uint32_t kind) {
  uint32_t i = mix(key * 8 + kind);
  Slot& s = sh->slots[i];
  if (s.epoch != sh->epoch) {
    if (sh->ntouched >= SIZE / 4) return;
    s.epoch = sh->epoch;
    s.count = 0;
    s.kind = kind;
    s.id = i;
    sh->touched[sh->ntouched++] = i;
  }
  if (s.count < 1000000) ++s.count;
}

inline uint64_t place(void* pc) {
  return reinterpret_cast<uint64_t>(pc) - reinterpret_cast<uint64_t>(&cov_init);
}

inline uint32_t log2u(uint64_t d) { return d ? 64 - __builtin_clzll(d) : 0; }

inline void compared(void* pc, uint64_t a, uint64_t b, int64_t sa, int64_t sb) {
  uint64_t p = place(pc);
  uint32_t rel = a == b ? 0 : sa < sb ? 1 : 2;
  hit(p * 4 + rel, 1);
  if (rel) {
    uint64_t d = sa < sb ? uint64_t(sb) - uint64_t(sa) : uint64_t(sa) - uint64_t(sb);
    hit((p * 4 + rel) * 64 + log2u(d), 2);
  }
}

inline void comparedf(void* pc, double a, double b) {
  uint64_t p = place(pc);
  hit(p * 4 + (a == b ? 0 : a < b ? 1 : a > b ? 2 : 3), 1);
}
}  // namespace

void cov_init() {
  if (!getenv("VERIF_COV")) return;
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED) abort();
}

void cov_begin() {
  if (!sh) return;
  ++sh->epoch;
  sh->ntouched = 0;
  on = true;
}

std::string cov_end() {
  on = false;
  if (!sh) return "[]";
  std::string r = "[";
  uint32_t n = sh->ntouched;
  for (uint32_t k = 0; k < n; ++k) {
    Slot& s = sh->slots[sh->touched[k]];
    if (s.kind == 0 && s.count > 1) hit((uint64_t(s.id) << 8) + log2u(s.count), 3);
  }
  for (uint32_t k = 0; k < sh->ntouched; ++k) {
    Slot& s = sh->slots[sh->touched[k]];
    uint32_t before = sh->seen[s.id]++;
    if (before < (s.kind < 2 ? 16u : 3u)) {
      if (r.size() > 1) r += ",";
      r += std::to_string(s.kind) + "," + std::to_string(s.id);
    }
  }
  return r + "]";
}

// The program calc_J: the table is a file, kept from run to run, and each run
// first reports what the one before had reached, however that ended.
__attribute__((constructor)) static void cov_program() {
  const char* map = getenv("VERIF_COV_MAP");
  if (!map) return;
  int fd = open(map, O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) abort();
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  if (sh == MAP_FAILED) abort();
  close(fd);
  if (sh->epoch) {
    std::string s = "{\"c\":" + std::to_string(sh->which) + ",\"f\":" + cov_end() + "}\n";
    fd = open((std::string(map) + ".out").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0 || write(fd, s.data(), s.size()) != ssize_t(s.size())) abort();
    close(fd);
  }
  sh->which = atoi(getenv("VERIF_COV_CASE"));
  cov_begin();
}

extern "C" {
void __sanitizer_cov_trace_pc() {
  if (on) hit(place(__builtin_return_address(0)), 0);
}
#define CMP(N, T, S)                                                        \
  void __sanitizer_cov_trace_cmp##N(T a, T b) {                             \
    if (on) compared(__builtin_return_address(0), a, b, S(a), S(b));        \
  }                                                                         \
  void __sanitizer_cov_trace_const_cmp##N(T a, T b) {                       \
    if (on) compared(__builtin_return_address(0), b, a, S(b), S(a));        \
  }
CMP(1, uint8_t, int8_t)
CMP(2, uint16_t, int16_t)
CMP(4, uint32_t, int32_t)
CMP(8, uint64_t, int64_t)
void __sanitizer_cov_trace_cmpf(float a, float b) {
  if (on) comparedf(__builtin_return_address(0), a, b);
}
void __sanitizer_cov_trace_cmpd(double a, double b) {
  if (on) comparedf(__builtin_return_address(0), a, b);
}
void __sanitizer_cov_trace_switch(uint64_t v, void* c) {
  if (!on) return;
  uint64_t* cases = static_cast<uint64_t*>(c);
  uint64_t k = 0;
  while (k < cases[0] && cases[k + 2] != v) ++k;
  hit(place(__builtin_return_address(0)) * 256 + k, 4);
}
}
