#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include "core.h"
struct Pages {  // a buffer whose first or last byte touches inaccessible memory
  u8 *map = nullptr, *buf = nullptr;
  size_t len = 0, n = 0, pg;
  bool at_end = true;
  Pages() { pg = sysconf(_SC_PAGESIZE); }
  void make(size_t size, bool end, u64 seed) {
    size_t need = (size + pg - 1) / pg * pg;
    if (need + 2 * pg > len) {
      if (map) munmap(map, len);
      len = need + 2 * pg;
      map = (u8 *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    n = size;
    at_end = end;
    mprotect(map, len, PROT_READ | PROT_WRITE);
    Rng r(seed);
    u64 *w = (u64 *)map;
    for (size_t i = 0; i < len / 8; i++) w[i] = mix64(seed) + i;
    buf = end ? map + len - pg - size : map + pg;
    mprotect(map, pg, PROT_NONE);
    mprotect(map + len - pg, pg, PROT_NONE);
    fill = seed;
  }
  u64 fill = 0;
  void readonly() { mprotect(map + pg, len - 2 * pg, PROT_READ); }
  // bytes around the buffer must be as they were
  bool intact() const {
    for (u8 *q = map + pg; q < map + len - pg; q++) {
      if (q >= buf && q < buf + n) continue;
      size_t i = q - map;
      u64 w = mix64(fill) + i / 8;
      if (*q != (u8)(w >> (8 * (i & 7)))) return false;
    }
    return true;
  }
};
