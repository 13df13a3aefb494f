#include "arm.h"
#include <fstream>

enum {
  K_UNIMPL, K_UNDEF, K_DPI, K_DPR, K_SHR, K_MULS, K_ADDHI, K_MOVHI, K_CMPHI, K_BX, K_BLX, K_ADR, K_ADDSPI,
  K_LDRL, K_LSR, K_LSI, K_LDRPC, K_EXT, K_PUSH, K_POP, K_CPS, K_REV, K_REV16, K_REVSH, K_BKPT, K_NOP, K_IT,
  K_STM, K_LDM, K_BC, K_B, K_SVC, K_CBZ, K_BL, K_MOVW, K_MOVT, K_ADDW, K_SUBW, K_BFX, K_BFI, K_SAT, K_SAT16,
  K_PKH, K_LDRD, K_STRD, K_TB, K_PAR, K_EXTA, K_QOP, K_RBIT, K_SEL, K_CLZ, K_MLA, K_MLS, K_SMLAXY, K_SMLAD,
  K_SMLAW, K_SMLSD, K_SMMLA, K_SMMLS, K_USAD8, K_SMULL, K_UMULL, K_SMLAL, K_UMLAL, K_UMAAL, K_SMLALXY, K_SMLALD,
  K_SMLSLD, K_SDIV, K_UDIV, K_MRS, K_MSR, K_VMOVS, K_VMOVSS, K_VLS, K_VLM, K_VMOVD, K_LSX, K_LDREX, K_STREX,
};
// data-processing operations
enum { AND, BIC, ORR, ORN, EOR, MOV, MVN, ADD, ADC, SBC, SUB, RSB, TST, TEQ, CMP, CMN };
enum { LSL, LSRT, ASR, ROR, RRX };
// load/store type in Ins.a: size | 8 signed | 16 store
const char *arm_stop_name(int s) {
  static const char *n[] = {"ok", "limit", "stop", "breakpoint", "instruction not simulated", "undefined instruction",
                            "unaligned access", "access outside permitted memory", "exception return", "supervisor call"};
  return n[s];
}

bool Elf32::load(const std::string &file, std::string &err) {
  std::ifstream f(file, std::ios::binary);
  Bytes b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  auto g32 = [&](size_t o) { return o + 4 <= b.size() ? (u32)b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (u32)b[o + 3] << 24 : 0; };
  auto g16 = [&](size_t o) { return (u32)(o + 2 <= b.size() ? b[o] | b[o + 1] << 8 : 0); };
  if (b.size() < 52 || g32(0) != 0x464c457f) { err = "no ELF image: " + file; return false; }
  u32 ph = g32(28), sh = g32(32), phn = g16(44), shn = g16(48);
  for (u32 i = 0; i < phn; i++) {
    u32 o = ph + 32 * i;
    if (g32(o) != 1 || !g32(o + 20)) continue;
    Seg s; s.vaddr = g32(o + 8); s.paddr = g32(o + 12); s.filesz = g32(o + 16); s.memsz = g32(o + 20); s.w = g32(o + 24) & 2;
    u32 fo = g32(o + 4);
    if ((u64)fo + s.filesz > b.size()) { err = "truncated ELF image: " + file; return false; }
    s.data.assign(b.begin() + fo, b.begin() + fo + s.filesz);
    segs.push_back(s);
  }
  for (u32 i = 0; i < shn; i++) {
    u32 o = sh + 40 * i;
    if (g32(o + 4) != 2) continue;
    u32 off = g32(o + 16), size = g32(o + 20), link = g32(o + 24);
    u32 str = g32(sh + 40 * link + 16);
    for (u32 k = 0; k + 16 <= size; k += 16) {
      u32 e = off + k, nm = g32(e);
      if (!nm || str + nm >= b.size()) continue;
      std::string name((const char *)&b[str + nm]);
      if (name.empty() || name[0] == '$') continue;
      u32 v = g32(e + 4);
      if ((b[e + 12] & 15) == 2) v &= ~1u;
      sym[name] = {v, g32(e + 8)};
    }
  }
  return true;
}

void Arm::map(u32 fb, u32 fs, u32 rb, u32 rs) {
  flash_base = fb; flash_size = fs; ram_base = rb; ram_size = rs;
  flash.assign(fs, 0xff); ram.assign(rs, 0);
  cache.assign(fs / 2, Ins());
  for (auto &i : cache) i.len = 0;
}
bool Arm::place(const Elf32 &e, bool lma) {
  for (auto &s : e.segs) {
    u32 a = lma ? s.paddr : s.vaddr;
    if (s.data.empty()) continue;
    if (a >= flash_base && a - flash_base + s.data.size() <= flash_size) memcpy(&flash[a - flash_base], s.data.data(), s.data.size());
    else if (!lma && a >= ram_base && a - ram_base + s.data.size() <= ram_size) memcpy(&ram[a - ram_base], s.data.data(), s.data.size());
    else return false;
  }
  return true;
}

bool Arm::rd(u32 a, int size, u32 &v) {
  const u8 *p;
  u32 o = a - ram_base;
  if (o < ram_size && ram_size - o >= (u32)size) {
    if (perm) for (int i = 0; i < size; i++) if (!(perm[o + i] & 1)) { fault_addr = a + i; fault_write = false; err = A_ACCESS; return false; }
    p = &ram[o];
  } else if ((o = a - flash_base) < flash_size && flash_size - o >= (u32)size) p = &flash[o];
  else {
    if (mmio && mmio(a, size, false, v)) return true;
    fault_addr = a; fault_write = false; err = A_ACCESS; return false;
  }
  if (size == 4) { memcpy(&v, p, 4); } else if (size == 2) { u16 x; memcpy(&x, p, 2); v = x; } else v = *p;
  return true;
}
bool Arm::wr(u32 a, int size, u32 v) {
  u32 o = a - ram_base;
  if (o < ram_size && ram_size - o >= (u32)size) {
    if (perm) for (int i = 0; i < size; i++) if (!(perm[o + i] & 2)) { fault_addr = a + i; fault_write = true; err = A_ACCESS; return false; }
    memcpy(&ram[o], &v, size);
    return true;
  }
  if (mmio && mmio(a, size, true, v)) return true;
  fault_addr = a; fault_write = true; err = A_ACCESS;
  return false;
}
bool Arm::ld(u32 a, int size, u32 &v, bool strict) {
  if ((a & (size - 1)) && (v6m || strict)) { fault_addr = a; fault_write = false; err = A_ALIGN; return false; }
  if (tracing) tr(a);
  return rd(a, size, v);
}
bool Arm::st(u32 a, int size, u32 v, bool strict) {
  if ((a & (size - 1)) && (v6m || strict)) { fault_addr = a; fault_write = true; err = A_ALIGN; return false; }
  if (tracing) tr(a + 1);
  return wr(a, size, v);
}

static u32 expand_imm(u32 i12) {
  u32 b = i12 & 0xff;
  if (!(i12 >> 10)) switch (i12 >> 8 & 3) {
    case 0: return b;
    case 1: return b << 16 | b;
    case 2: return b << 24 | b << 8;
    case 3: return b << 24 | b << 16 | b << 8 | b;
  }
  u32 v = 0x80 | (i12 & 0x7f), n = i12 >> 7;
  return v >> n | v << (32 - n);
}

void Arm::dec16(u32 op, Ins &i, u32) {
  i.len = 2; i.cyc = 1;
  u32 d3 = op & 7, n3 = op >> 3 & 7, m3 = op >> 6 & 7, d8 = op >> 8 & 7, i8 = op & 0xff, i5 = op >> 6 & 31;
  switch (op >> 11) {
    case 0: case 1: case 2:
      i.k = K_DPR; i.a = MOV; i.s = 2; i.d = d3; i.m = n3; i.sht = op >> 11; i.shn = i5;
      if (i.sht != LSL && !i5) i.shn = 32;
      return;
    case 3:
      i.s = 2; i.d = d3; i.n = n3; i.a = op & 0x200 ? SUB : ADD;
      if (op & 0x400) { i.k = K_DPI; i.imm = m3; } else { i.k = K_DPR; i.m = m3; }
      return;
    case 4: i.k = K_DPI; i.a = MOV; i.s = 2; i.d = d8; i.imm = i8; return;
    case 5: i.k = K_DPI; i.a = CMP; i.s = 1; i.n = d8; i.imm = i8; return;
    case 6: i.k = K_DPI; i.a = ADD; i.s = 2; i.d = i.n = d8; i.imm = i8; return;
    case 7: i.k = K_DPI; i.a = SUB; i.s = 2; i.d = i.n = d8; i.imm = i8; return;
    case 8:
      if (!(op & 0x400)) {
        static const u8 t[16] = {AND, EOR, 0, 0, 0, ADC, SBC, 0, TST, RSB, CMP, CMN, ORR, 0, BIC, MVN};
        u32 o = op >> 6 & 15;
        i.k = K_DPR; i.s = 2; i.d = i.n = d3; i.m = n3; i.a = t[o];
        if (o == 2 || o == 3 || o == 4 || o == 7) { i.k = K_SHR; i.sht = o == 2 ? LSL : o == 3 ? LSRT : o == 4 ? ASR : ROR; }
        else if (o == 9) { i.k = K_DPI; i.a = RSB; i.n = n3; i.imm = 0; }
        else if (o == 13) { i.k = K_MULS; }
        else if (o == 8 || o == 10 || o == 11) i.s = 1;
        return;
      }
      i.d = (op & 7) | (op >> 4 & 8); i.m = op >> 3 & 15;
      switch (op >> 8 & 3) {
        case 0: i.k = K_ADDHI; return;
        case 1: i.k = K_CMPHI; return;
        case 2: i.k = K_MOVHI; return;
        case 3: i.k = op & 0x80 ? K_BLX : K_BX; i.cyc = 3; return;
      }
      return;
    case 9: i.k = K_LDRL; i.d = d8; i.imm = i8 * 4; i.cyc = 2; return;
    case 10: case 11: {
      static const u8 t[8] = {4 | 16, 2 | 16, 1 | 16, 1 | 8, 4, 2, 1, 2 | 8};
      i.k = K_LSR; i.d = d3; i.n = n3; i.m = m3; i.a = t[op >> 9 & 7]; i.cyc = 2; return;
    }
    case 12: i.k = K_LSI; i.a = 4 | 16; i.d = d3; i.n = n3; i.imm = i5 * 4; i.cyc = 2; return;
    case 13: i.k = K_LSI; i.a = 4; i.d = d3; i.n = n3; i.imm = i5 * 4; i.cyc = 2; return;
    case 14: i.k = K_LSI; i.a = 1 | 16; i.d = d3; i.n = n3; i.imm = i5; i.cyc = 2; return;
    case 15: i.k = K_LSI; i.a = 1; i.d = d3; i.n = n3; i.imm = i5; i.cyc = 2; return;
    case 16: i.k = K_LSI; i.a = 2 | 16; i.d = d3; i.n = n3; i.imm = i5 * 2; i.cyc = 2; return;
    case 17: i.k = K_LSI; i.a = 2; i.d = d3; i.n = n3; i.imm = i5 * 2; i.cyc = 2; return;
    case 18: i.k = K_LSI; i.a = 4 | 16; i.d = d8; i.n = 13; i.imm = i8 * 4; i.cyc = 2; return;
    case 19: i.k = K_LSI; i.a = 4; i.d = d8; i.n = 13; i.imm = i8 * 4; i.cyc = 2; return;
    case 20: i.k = K_ADR; i.d = d8; i.imm = i8 * 4; return;
    case 21: i.k = K_ADDSPI; i.d = d8; i.imm = i8 * 4; return;
    case 22: case 23: {
      u32 o = op >> 8 & 15;
      if (o == 0) { i.k = K_ADDSPI; i.d = 13; i.imm = (op & 0x7f) * 4; if (op & 0x80) i.imm = -i.imm; return; }
      if ((o & 5) == 1) { i.k = v6m ? K_UNDEF : K_CBZ; i.n = d3; i.a = op >> 11 & 1; i.imm = (op >> 3 & 31) * 2 + (op >> 9 & 1) * 64; return; }
      if (o == 2) { static const u8 t[4] = {2 | 8, 1 | 8, 2, 1}; i.k = K_EXT; i.d = d3; i.m = n3; i.a = t[op >> 6 & 3]; return; }
      if ((o & 14) == 4) { i.k = K_PUSH; i.imm = i8 | (op & 0x100 ? 0x4000 : 0); i.cyc = 1 + __builtin_popcount(i.imm); return; }
      if ((o & 14) == 12) { i.k = K_POP; i.imm = i8 | (op & 0x100 ? 0x8000 : 0); i.cyc = 1 + __builtin_popcount(i.imm) + (op & 0x100 ? 3 : 0); return; }
      if (o == 6 && (op & 0xe0) == 0x60) { i.k = K_CPS; i.a = op >> 4 & 1; i.imm = op & 7; return; }
      if (o == 10) { u32 x = op >> 6 & 3; i.k = x == 0 ? K_REV : x == 1 ? K_REV16 : x == 3 ? K_REVSH : K_UNDEF; i.d = d3; i.m = n3; return; }
      if (o == 14) { i.k = K_BKPT; i.imm = i8; return; }
      if (o == 15) { if (op & 15) { i.k = v6m ? K_UNDEF : K_IT; i.imm = i8; } else i.k = K_NOP; return; }
      i.k = K_UNDEF; return;
    }
    case 24: i.k = K_STM; i.n = d8; i.imm = i8; i.a = 1 | 4; i.cyc = 1 + __builtin_popcount(i8); return;  // IA, writeback
    case 25: i.k = K_LDM; i.n = d8; i.imm = i8; i.a = 1 | (i8 >> d8 & 1 ? 0 : 4); i.cyc = 1 + __builtin_popcount(i8); return;
    case 26: case 27: {
      u32 c = op >> 8 & 15;
      if (c == 15) { i.k = K_SVC; i.imm = i8; return; }
      if (c == 14) { i.k = K_UNDEF; return; }
      i.k = K_BC; i.a = c; i.imm = (u32)((int)(int8_t)i8 * 2); return;
    }
    case 28: { int o = op & 0x7ff; if (o & 0x400) o -= 0x800; i.k = K_B; i.imm = (u32)(o * 2); i.cyc = 3; return; }
  }
  i.k = K_UNDEF;
}

void Arm::dec32(u32 h1, u32 h2, Ins &i, u32) {
  i.len = 4; i.cyc = 1;
  u32 op1 = h1 >> 11 & 3, op2 = h1 >> 4 & 0x7f, n = h1 & 15, d = h2 >> 8 & 15, t = h2 >> 12, m = h2 & 15;
  i.n = n; i.d = d; i.m = m;
  i.k = K_UNDEF;
  if (v6m) {  // BL, MSR, MRS, barriers only
    if (!(op1 == 2 && (h2 & 0x8000))) return;
  }
  if (op1 == 1) {
    if ((op2 & 0x64) == 0) {  // LDM/STM
      u32 a = h1 >> 7 & 3;
      if (a != 1 && a != 2) return;
      i.k = h1 & 0x10 ? K_LDM : K_STM;
      i.imm = h2; i.a = a | (h1 & 0x20 ? 4 : 0) | 8; i.cyc = 1 + __builtin_popcount(h2);
      return;
    }
    if ((op2 & 0x64) == 4) {
      u32 P = h1 >> 8 & 1, U = h1 >> 7 & 1, W = h1 >> 5 & 1, L = h1 >> 4 & 1;
      if (!P && !W) {
        if (!U) { i.k = L ? K_LDREX : K_STREX; i.a = 4; i.d = t; i.imm = (h2 & 0xff) * 4; i.shn = d; return; }
        u32 o = h2 >> 4 & 15;
        if (L && o < 2) { i.k = K_TB; i.a = o; return; }
        if (o == 4 || o == 5) { i.k = L ? K_LDREX : K_STREX; i.a = o == 4 ? 1 : 2; i.d = t; i.imm = 0; i.shn = m; return; }
        return;
      }
      i.k = L ? K_LDRD : K_STRD; i.d = t; i.m = d; i.imm = (h2 & 0xff) * 4; i.a = P | U << 1 | W << 2; i.cyc = 3;
      return;
    }
    if ((op2 & 0x60) == 0x20) {  // data processing, shifted register
      u32 o = h1 >> 5 & 15, S = h1 >> 4 & 1;
      u32 sh = (h2 >> 12 & 7) << 2 | (h2 >> 6 & 3), ty = h2 >> 4 & 3;
      i.s = S; i.sht = ty; i.shn = sh;
      if (!sh) { if (ty == 1 || ty == 2) i.shn = 32; else if (ty == 3) i.sht = RRX; }
      i.k = K_DPR;
      switch (o) {
        case 0: i.a = d == 15 && S ? TST : AND; return;
        case 1: i.a = BIC; return;
        case 2: i.a = n == 15 ? MOV : ORR; return;
        case 3: i.a = n == 15 ? MVN : ORN; return;
        case 4: i.a = d == 15 && S ? TEQ : EOR; return;
        case 6: i.k = K_PKH; i.a = ty >> 1; i.shn = sh; if (i.a && !sh) i.shn = 32; return;
        case 8: i.a = d == 15 && S ? CMN : ADD; return;
        case 10: i.a = ADC; return;
        case 11: i.a = SBC; return;
        case 13: i.a = d == 15 && S ? CMP : SUB; return;
        case 14: i.a = RSB; return;
      }
      i.k = K_UNDEF; return;
    }
    goto coproc;
  }
  if (op1 == 2) {
    if (!(h2 & 0x8000)) {
      u32 i12 = (h1 >> 10 & 1) << 11 | (h2 >> 12 & 7) << 8 | (h2 & 0xff);
      if (!(h1 & 0x200)) {
        u32 o = h1 >> 5 & 15, S = h1 >> 4 & 1;
        i.s = S; i.imm = expand_imm(i12); i.shn = i12 >> 10 ? 1 : 0;  // shn: C <- bit 31
        i.k = K_DPI;
        switch (o) {
          case 0: i.a = d == 15 && S ? TST : AND; return;
          case 1: i.a = BIC; return;
          case 2: i.a = n == 15 ? MOV : ORR; return;
          case 3: i.a = n == 15 ? MVN : ORN; return;
          case 4: i.a = d == 15 && S ? TEQ : EOR; return;
          case 8: i.a = d == 15 && S ? CMN : ADD; return;
          case 10: i.a = ADC; return;
          case 11: i.a = SBC; return;
          case 13: i.a = d == 15 && S ? CMP : SUB; return;
          case 14: i.a = RSB; return;
        }
        i.k = K_UNDEF; return;
      }
      u32 o = h1 >> 4 & 31, lsb = (h2 >> 12 & 7) << 2 | (h2 >> 6 & 3);
      switch (o) {
        case 0: i.k = K_ADDW; i.imm = i12; return;
        case 10: i.k = K_SUBW; i.imm = i12; return;
        case 4: i.k = K_MOVW; i.imm = n << 12 | i12; return;
        case 12: i.k = K_MOVT; i.imm = n << 12 | i12; return;
        case 16: case 18: case 24: case 26:
          i.a = o >= 24;  // unsigned
          i.imm = h2 & 31;
          if ((o & 2) && !lsb) { i.k = K_SAT16; i.imm = h2 & 15; return; }
          i.k = K_SAT; i.sht = o & 2 ? ASR : LSL; i.shn = lsb; return;
        case 20: case 28: i.k = K_BFX; i.a = o == 20; i.shn = lsb; i.imm = (h2 & 31) + 1; return;
        case 22: i.k = K_BFI; i.shn = lsb; i.imm = h2 & 31; return;
      }
      return;
    }
    u32 S = h1 >> 10 & 1, J1 = h2 >> 13 & 1, J2 = h2 >> 11 & 1;
    if (h2 & 0x1000) {  // B.W, BL
      u32 I1 = !(J1 ^ S), I2 = !(J2 ^ S);
      u32 off = S << 24 | I1 << 23 | I2 << 22 | (h1 & 0x3ff) << 12 | (h2 & 0x7ff) << 1;
      if (S) off |= 0xfe000000;
      i.imm = off; i.k = h2 & 0x4000 ? K_BL : K_B; i.cyc = i.k == K_BL ? 4 : 3;
      if (v6m && i.k == K_B) i.k = K_UNDEF;
      return;
    }
    if (h2 & 0x4000) return;
    if ((h1 & 0x380) != 0x380) {
      u32 off = S << 20 | J2 << 19 | J1 << 18 | (h1 & 0x3f) << 12 | (h2 & 0x7ff) << 1;
      if (S) off |= 0xffe00000;
      i.k = v6m ? K_UNDEF : K_BC; i.a = h1 >> 6 & 15; i.imm = off;
      return;
    }
    switch (h1 >> 4 & 0x7f) {
      case 0x38: case 0x39: i.k = K_MSR; i.imm = h2 & 0xff; i.a = h2 >> 10 & 3; return;
      case 0x3a: i.k = K_NOP; return;
      case 0x3b: i.k = K_NOP; i.cyc = 3; return;
      case 0x3e: case 0x3f: i.k = K_MRS; i.imm = h2 & 0xff; return;
    }
    return;
  }
  // op1 == 3
  if ((op2 & 0x60) == 0x20 || (op2 & 0x60) == 0) {
    if (op2 & 0x20) goto dpreg;
    // loads and stores
    u32 sz = h1 >> 5 & 3, L = h1 >> 4 & 1;
    if (sz == 3 || (!L && (h1 & 0x100))) return;
    i.a = (u8)((1u << sz) | (h1 & 0x100 ? 8 : 0) | (L ? 0 : 16));
    if (sz == 2 && (h1 & 0x100)) return;
    i.d = t; i.cyc = 2;
    if (L && t == 15 && sz < 2) { i.k = K_NOP; return; }  // preload hints
    if (n == 15) { if (!L) return; i.k = K_LDRPC; i.imm = h2 & 0xfff; i.s = h1 >> 7 & 1; return; }
    if (h1 & 0x80) { i.k = K_LSI; i.imm = h2 & 0xfff; return; }
    if (h2 & 0x800) {
      i.k = K_LSX; i.imm = h2 & 0xff; i.shn = h2 >> 8 & 7;  // P U W
      if (i.shn == 6) i.shn = 6;
      return;
    }
    if (h2 & 0x7c0) return;
    i.k = K_LSR; i.shn = h2 >> 4 & 3;
    return;
  }
  if ((op2 & 0x70) == 0x30) { }
dpreg:
  if ((op2 & 0x70) == 0x20) {
    u32 o1 = op2 & 15, o2 = h2 >> 4 & 15;
    if (t != 15) return;
    if (!(o1 & 8)) {
      if (o2 == 0) { i.k = K_SHR; i.sht = o1 >> 1; i.s = o1 & 1; return; }
      if ((o2 & 8) && o1 < 6) { i.k = K_EXTA; i.a = o1; i.shn = (h2 >> 4 & 3) * 8; return; }
      return;
    }
    if (!(o2 & 8)) { i.k = K_PAR; i.a = (h1 >> 4 & 7); i.shn = o2; return; }
    switch (o1) {
      case 8: i.k = K_QOP; i.a = o2 & 3; return;
      case 9: i.k = (o2 & 3) == 0 ? K_REV : (o2 & 3) == 1 ? K_REV16 : (o2 & 3) == 2 ? K_RBIT : K_REVSH; return;
      case 10: i.k = K_SEL; return;
      case 11: i.k = K_CLZ; return;
    }
    return;
  }
  if ((op2 & 0x78) == 0x30) {
    u32 o1 = op2 & 7, o2 = h2 >> 4 & 3;
    i.a = t; i.shn = o2;
    if (h2 & 0xc0) return;
    switch (o1) {
      case 0: i.k = o2 == 0 ? K_MLA : o2 == 1 ? K_MLS : K_UNDEF; return;
      case 1: i.k = K_SMLAXY; return;
      case 2: i.k = K_SMLAD; return;
      case 3: i.k = K_SMLAW; return;
      case 4: i.k = K_SMLSD; return;
      case 5: i.k = K_SMMLA; return;
      case 6: i.k = K_SMMLS; return;
      case 7: i.k = K_USAD8; return;
    }
    return;
  }
  if ((op2 & 0x78) == 0x38) {
    u32 o1 = op2 & 7, o2 = h2 >> 4 & 15;
    i.a = t; i.shn = o2;  // RdLo = t, RdHi = d
    switch (o1) {
      case 0: if (!o2) i.k = K_SMULL; return;
      case 1: if (o2 == 15) i.k = K_SDIV; return;
      case 2: if (!o2) i.k = K_UMULL; return;
      case 3: if (o2 == 15) i.k = K_UDIV; return;
      case 4: i.k = o2 == 0 ? K_SMLAL : (o2 & 12) == 8 ? K_SMLALXY : (o2 & 14) == 12 ? K_SMLALD : K_UNDEF; return;
      case 5: if ((o2 & 14) == 12) i.k = K_SMLSLD; return;
      case 6: i.k = o2 == 0 ? K_UMLAL : o2 == 6 ? K_UMAAL : K_UNDEF; return;
    }
    return;
  }
coproc:
  if ((h2 & 0xe00) != 0xa00) { i.k = K_UNIMPL; return; }
  {
    u32 dbl = h2 >> 8 & 1, Vd = h2 >> 12, D = h1 >> 6 & 1;
    i.k = K_UNIMPL;
    if ((h1 & 0xffe0) == 0xec40) {  // two core registers
      i.k = K_VMOVD; i.a = h1 >> 4 & 1; i.d = t; i.n = n; i.imm = dbl ? ((h2 & 15) | (h2 >> 5 & 1) << 4) * 2 : (h2 & 15) << 1 | (h2 >> 5 & 1);
      return;
    }
    if ((h1 & 0xfe00) == 0xec00) {
      u32 P = h1 >> 8 & 1, U = h1 >> 7 & 1, W = h1 >> 5 & 1, L = h1 >> 4 & 1;
      u32 reg = dbl ? (Vd | D << 4) * 2 : (Vd << 1 | D);
      if (P && !W) { i.k = K_VLS; i.a = L | U << 1 | dbl << 2; i.s = reg; i.imm = (h2 & 0xff) * 4; i.cyc = 2; return; }
      i.k = K_VLM; i.a = L | U << 1 | P << 2 | W << 3; i.s = reg; i.imm = h2 & 0xff; i.cyc = 1 + (h2 & 0xff);
      return;
    }
    if ((h1 & 0xffe0) == 0xee00 && (h2 & 0xf7f) == 0xa10) { i.k = K_VMOVS; i.a = h1 >> 4 & 1; i.d = t; i.imm = n << 1 | (h2 >> 7 & 1); return; }
    if ((h1 & 0xffbf) == 0xeeb0 && (h2 & 0xfd0) == 0xa40) { i.k = K_VMOVSS; i.s = Vd << 1 | D; i.imm = (h2 & 15) << 1 | (h2 >> 5 & 1); return; }
  }
}

void Arm::decode(u32 pc, Ins &i) {
  u32 h1 = 0, h2 = 0;
  i = Ins();
  auto fetch = [&](u32 a, u32 &v) {
    u32 o = a - flash_base;
    if (o < flash_size) { u16 x; memcpy(&x, &flash[o], 2); v = x; return true; }
    o = a - ram_base;
    if (o < ram_size) { u16 x; memcpy(&x, &ram[o], 2); v = x; return true; }
    return false;
  };
  if (!fetch(pc, h1)) { i.k = K_UNDEF; i.len = 2; return; }
  if ((h1 >> 11) >= 29) { if (!fetch(pc + 2, h2)) { i.k = K_UNDEF; return; } dec32(h1, h2, i, pc); }
  else dec16(h1, i, pc);
}

bool Arm::cond(u32 c) const {
  bool b;
  switch (c >> 1) {
    case 0: b = Z; break;
    case 1: b = C; break;
    case 2: b = N; break;
    case 3: b = V; break;
    case 4: b = C && !Z; break;
    case 5: b = N == V; break;
    case 6: b = N == V && !Z; break;
    default: return true;
  }
  return (c & 1) ? !b : b;
}

static inline u32 shift(u32 v, u32 ty, u32 n, u8 &c) {  // c: carry in and out
  switch (ty) {
    case LSL:
      if (!n) return v;
      if (n < 32) { c = v >> (32 - n) & 1; return v << n; }
      c = n == 32 ? v & 1 : 0; return 0;
    case LSRT:
      if (!n) return v;
      if (n < 32) { c = v >> (n - 1) & 1; return v >> n; }
      c = n == 32 ? v >> 31 : 0; return 0;
    case ASR:
      if (!n) return v;
      if (n < 32) { c = v >> (n - 1) & 1; return (u32)((int)v >> n); }
      c = v >> 31; return c ? 0xffffffff : 0;
    case ROR:
      if (!n) return v;
      n &= 31;
      if (n) v = v >> n | v << (32 - n);
      c = v >> 31; return v;
    default: { u32 x = v >> 1 | (u32)c << 31; c = v & 1; return x; }
  }
}

static inline u32 sat(i64 v, u32 bits, bool uns, u8 &Q) {
  i64 lo = uns ? 0 : -(1ll << (bits - 1)), hi = uns ? (1ll << bits) - 1 : (1ll << (bits - 1)) - 1;
  if (v < lo) { Q = 1; return (u32)lo; }
  if (v > hi) { Q = 1; return (u32)hi; }
  return (u32)v;
}

int Arm::exec(const Ins &i, u32 pc) {
  u32 next = pc + i.len;
  auto R = [&](u32 x) -> u32 { return x == 15 ? pc + 4 : r[x]; };
  auto adc = [&](u32 x, u32 y, u32 cin, bool s) -> u32 {
    u64 t = (u64)x + y + cin;
    u32 v = (u32)t;
    if (s) { N = v >> 31; Z = v == 0; C = (u8)(t >> 32); V = (u8)((~(x ^ y) & (x ^ v)) >> 31); }
    return v;
  };
#define JUMP(a) do { u32 _a = (a); if (_a >= 0xfffffff0u) { r[15] = _a; return A_EXCRET; } if (!(_a & 1)) { fault_addr = _a; return A_UNDEF; } r[15] = _a & ~1u; return A_OK; } while (0)
#define FAIL return err
  switch (i.k) {
    case K_DPI: case K_DPR: {
      u8 c = C;
      u32 y;
      if (i.k == K_DPI) { y = i.imm; if (i.shn) c = y >> 31; }
      else y = i.shn || i.sht ? shift(R(i.m), i.sht, i.shn, c) : R(i.m);
      bool s = i.s == 1 || (i.s == 2 && !it);
      u32 x = R(i.n), v;
      switch (i.a) {
        case AND: v = x & y; break;
        case BIC: v = x & ~y; break;
        case ORR: v = x | y; break;
        case ORN: v = x | ~y; break;
        case EOR: v = x ^ y; break;
        case MOV: v = y; break;
        case MVN: v = ~y; break;
        case ADD: r[i.d] = adc(x, y, 0, s); goto dpout;
        case ADC: r[i.d] = adc(x, y, C, s); goto dpout;
        case SBC: r[i.d] = adc(x, ~y, C, s); goto dpout;
        case SUB: r[i.d] = adc(x, ~y, 1, s); goto dpout;
        case RSB: r[i.d] = adc(~x, y, 1, s); goto dpout;
        case TST: v = x & y; N = v >> 31; Z = v == 0; C = c; goto out;
        case TEQ: v = x ^ y; N = v >> 31; Z = v == 0; C = c; goto out;
        case CMP: adc(x, ~y, 1, true); goto out;
        case CMN: adc(x, y, 0, true); goto out;
        default: return A_UNDEF;
      }
      r[i.d] = v;
      if (s) { N = v >> 31; Z = v == 0; C = c; }
    dpout:
      if (i.d == 15) { next = r[15] & ~1u; }
      if (i.d == 13) { r[13] &= ~3u; }
      break;
    }
    case K_SHR: {
      u8 c = C;
      u32 v = shift(r[i.n], i.sht, r[i.m] & 0xff, c);
      r[i.d] = v;
      if (i.s == 1 || (i.s == 2 && !it)) { N = v >> 31; Z = v == 0; C = c; }
      break;
    }
    case K_MULS: {
      u32 v = r[i.d] * r[i.m];
      r[i.d] = v;
      if (!it) { N = v >> 31; Z = v == 0; }
      break;
    }
    case K_ADDHI: {
      u32 v = R(i.d) + R(i.m);
      if (i.d == 15) { next = v & ~1u; cycles += 2; } else r[i.d] = i.d == 13 ? v & ~3u : v;
      break;
    }
    case K_MOVHI: {
      u32 v = R(i.m);
      if (i.d == 15) { next = v & ~1u; cycles += 2; } else r[i.d] = i.d == 13 ? v & ~3u : v;
      break;
    }
    case K_CMPHI: adc(R(i.d), ~R(i.m), 1, true); break;
    case K_BLX: { u32 a = r[i.m]; r[14] = next | 1; JUMP(a); }
    case K_BX: JUMP(r[i.m]);
    case K_ADR: r[i.d] = ((pc + 4) & ~3u) + i.imm; break;
    case K_ADDSPI: r[i.d] = r[13] + i.imm; break;
    case K_LDRL: if (!ld(((pc + 4) & ~3u) + i.imm, 4, r[i.d])) FAIL; break;
    case K_LDRPC: {
      u32 b = (pc + 4) & ~3u, v;
      if (!ld(i.s ? b + i.imm : b - i.imm, i.a & 7, v)) FAIL;
      if (i.a & 8) v = (i.a & 7) == 1 ? (u32)(int)(int8_t)v : (u32)(int)(int16_t)v;
      if (i.d == 15) JUMP(v);
      r[i.d] = v;
      break;
    }
    case K_LSR: case K_LSI: {
      u32 a = r[i.n] + (i.k == K_LSI ? i.imm : r[i.m] << i.shn), v;
      if (i.a & 16) { if (!st(a, i.a & 7, r[i.d])) FAIL; break; }
      if (!ld(a, i.a & 7, v)) FAIL;
      if (i.a & 8) v = (i.a & 7) == 1 ? (u32)(int)(int8_t)v : (u32)(int)(int16_t)v;
      if (i.d == 15) JUMP(v);
      r[i.d] = v;
      break;
    }
    case K_LSX: {
      u32 b = r[i.n], o = i.shn & 2 ? b + i.imm : b - i.imm, a = i.shn & 4 ? o : b, v;
      if (i.a & 16) { if (!st(a, i.a & 7, r[i.d])) FAIL; if (i.shn & 1) r[i.n] = o; break; }
      if (!ld(a, i.a & 7, v)) FAIL;
      if (i.a & 8) v = (i.a & 7) == 1 ? (u32)(int)(int8_t)v : (u32)(int)(int16_t)v;
      if (i.shn & 1) r[i.n] = o;
      if (i.d == 15) JUMP(v);
      r[i.d] = v;
      break;
    }
    case K_LDREX: { u32 v; if (!ld(r[i.n] + i.imm, i.a, v, true)) FAIL; r[i.d] = v; break; }
    case K_STREX: { if (!st(r[i.n] + i.imm, i.a, r[i.d], true)) FAIL; r[i.shn] = 0; break; }
    case K_EXT: {
      u32 v = r[i.m];
      r[i.d] = i.a == 1 ? v & 0xff : i.a == 2 ? v & 0xffff : i.a == 9 ? (u32)(int)(int8_t)v : (u32)(int)(int16_t)v;
      break;
    }
    case K_PUSH: {
      u32 a = r[13] - 4 * __builtin_popcount(i.imm);
      u32 p = a;
      for (int k = 0; k < 15; k++) if (i.imm >> k & 1) { if (!st(p, 4, r[k], true)) FAIL; p += 4; }
      r[13] = a;
      break;
    }
    case K_POP: {
      u32 p = r[13], v = 0;
      for (int k = 0; k < 8; k++) if (i.imm >> k & 1) { if (!ld(p, 4, r[k], true)) FAIL; p += 4; }
      if (i.imm & 0x8000) { if (!ld(p, 4, v, true)) FAIL; p += 4; }
      r[13] = p;
      if (i.imm & 0x8000) JUMP(v);
      break;
    }
    case K_STM: {
      u32 cnt = __builtin_popcount(i.imm), b = r[i.n];
      u32 a = (i.a & 3) == 2 ? b - 4 * cnt : b, p = a;
      for (int k = 0; k < 15; k++) if (i.imm >> k & 1) { if (!st(p, 4, r[k], true)) FAIL; p += 4; }
      if (i.a & 4) r[i.n] = (i.a & 3) == 2 ? a : p;
      break;
    }
    case K_LDM: {
      u32 cnt = __builtin_popcount(i.imm), b = r[i.n];
      u32 a = (i.a & 3) == 2 ? b - 4 * cnt : b, p = a, v[16];
      for (int k = 0; k < 16; k++) if (i.imm >> k & 1) { if (!ld(p, 4, v[k], true)) FAIL; p += 4; }
      if (i.a & 4) r[i.n] = (i.a & 3) == 2 ? a : p;
      for (int k = 0; k < 15; k++) if (i.imm >> k & 1) r[k] = v[k];
      if (i.imm & 0x8000) JUMP(v[15]);
      break;
    }
    case K_CPS: if (i.imm & 2) primask = i.a; break;
    case K_REV: r[i.d] = __builtin_bswap32(r[i.m]); break;
    case K_REV16: { u32 v = r[i.m]; r[i.d] = (v & 0xff00ff) << 8 | (v >> 8 & 0xff00ff); break; }
    case K_REVSH: { u32 v = r[i.m]; r[i.d] = (u32)(int)(int16_t)((v & 0xff) << 8 | (v >> 8 & 0xff)); break; }
    case K_RBIT: { u32 v = r[i.m], x = 0; for (int k = 0; k < 32; k++) x |= (v >> k & 1) << (31 - k); r[i.d] = x; break; }
    case K_CLZ: r[i.d] = r[i.m] ? __builtin_clz(r[i.m]) : 32; break;
    case K_BKPT: bkpt = i.imm; r[15] = next; return A_BKPT;
    case K_SVC: bkpt = i.imm; r[15] = next; return A_SVC;
    case K_NOP: break;
    case K_IT: it = (u8)i.imm; r[15] = next; return A_OK;
    case K_BC: if (cond(i.a)) { next = pc + 4 + i.imm; cycles += 2; } break;
    case K_B: next = pc + 4 + i.imm; break;
    case K_CBZ: if ((r[i.n] != 0) == (i.a == 1)) { next = pc + 4 + i.imm; cycles += 2; } break;
    case K_BL: r[14] = next | 1; next = pc + 4 + i.imm; break;
    case K_TB: {
      u32 v, b = i.n == 15 ? pc + 4 : r[i.n];
      if (!ld(i.a ? b + 2 * r[i.m] : b + r[i.m], i.a ? 2 : 1, v)) FAIL;
      next = pc + 4 + 2 * v;
      break;
    }
    case K_ADDW: r[i.d] = (i.n == 15 ? (pc + 4) & ~3u : r[i.n]) + i.imm; break;
    case K_SUBW: r[i.d] = (i.n == 15 ? (pc + 4) & ~3u : r[i.n]) - i.imm; break;
    case K_MOVW: r[i.d] = i.imm; break;
    case K_MOVT: r[i.d] = (r[i.d] & 0xffff) | i.imm << 16; break;
    case K_BFX: {
      u32 v = r[i.n] >> i.shn;
      if (i.imm < 32) { v &= (1u << i.imm) - 1; if (i.a && (v >> (i.imm - 1) & 1)) v |= ~0u << i.imm; }
      r[i.d] = v;
      break;
    }
    case K_BFI: {
      if (i.imm < i.shn) return A_UNDEF;
      u32 w = i.imm - i.shn + 1, mask = (w == 32 ? ~0u : (1u << w) - 1) << i.shn;
      u32 src = i.n == 15 ? 0 : r[i.n];
      r[i.d] = (r[i.d] & ~mask) | (src << i.shn & mask);
      break;
    }
    case K_SAT: { u8 c = 0; i64 v = (int)shift(r[i.n], i.sht, i.shn, c); r[i.d] = sat(v, i.a ? i.imm : i.imm + 1, i.a, Q); break; }
    case K_SAT16: {
      u32 b = i.a ? i.imm : i.imm + 1;
      u32 lo = sat((int16_t)r[i.n], b, i.a, Q), hi = sat((int16_t)(r[i.n] >> 16), b, i.a, Q);
      r[i.d] = (lo & 0xffff) | hi << 16;
      break;
    }
    case K_PKH: {
      u8 c = 0;
      u32 y = shift(r[i.m], i.a ? ASR : LSL, i.shn, c);
      r[i.d] = i.a ? (r[i.n] & 0xffff0000) | (y & 0xffff) : (r[i.n] & 0xffff) | (y & 0xffff0000);
      break;
    }
    case K_LDRD: case K_STRD: {
      u32 b = i.n == 15 ? (pc + 4) & ~3u : r[i.n], o = i.a & 2 ? b + i.imm : b - i.imm, a = i.a & 1 ? o : b;
      if (i.k == K_LDRD) {
        u32 x, y;
        if (!ld(a, 4, x, true) || !ld(a + 4, 4, y, true)) FAIL;
        if (i.a & 4) r[i.n] = o;
        r[i.d] = x; r[i.m] = y;
      } else {
        if (!st(a, 4, r[i.d], true) || !st(a + 4, 4, r[i.m], true)) FAIL;
        if (i.a & 4) r[i.n] = o;
      }
      break;
    }
    case K_EXTA: {
      u32 v = r[i.m], k = i.shn;
      if (k) v = v >> k | v << (32 - k);
      u32 b = i.n == 15 ? 0 : r[i.n];
      switch (i.a) {
        case 0: r[i.d] = b + (u32)(int)(int16_t)v; break;
        case 1: r[i.d] = b + (v & 0xffff); break;
        case 2: r[i.d] = ((b + (u32)(int)(int8_t)v) & 0xffff) | (((b >> 16) + (u32)(int)(int8_t)(v >> 16)) << 16); break;
        case 3: r[i.d] = ((b + (v & 0xff)) & 0xffff) | (((b >> 16) + (v >> 16 & 0xff)) << 16); break;
        case 4: r[i.d] = b + (u32)(int)(int8_t)v; break;
        case 5: r[i.d] = b + (v & 0xff); break;
      }
      break;
    }
    case K_PAR: {
      u32 x = r[i.n], y = r[i.m], res = 0, ty = i.shn & 3;
      bool uns = i.shn & 4;
      u8 g = 0;
      if (ty == 3) return A_UNDEF;
      auto fin = [&](i64 v, int w, bool isadd) -> u32 {  // w bits wide
        (void)isadd;
        u32 mask = w == 16 ? 0xffff : 0xff;
        if (ty == 0) return (u32)v & mask;
        if (ty == 2) return (u32)(v >> 1) & mask;
        u8 q = 0;
        return sat(v, w, uns, q) & mask;
      };
      auto geb = [&](i64 v, int w, bool add) { return uns && add ? v >= (1ll << w) : v >= 0; };
      if (i.a == 0 || i.a == 4) {
        for (int k = 0; k < 4; k++) {
          i64 p = uns ? (i64)(x >> 8 * k & 0xff) : (i64)(int8_t)(x >> 8 * k), q = uns ? (i64)(y >> 8 * k & 0xff) : (i64)(int8_t)(y >> 8 * k);
          i64 v = i.a == 0 ? p + q : p - q;
          res |= fin(v, 8, i.a == 0) << 8 * k;
          if (geb(v, 8, i.a == 0)) g |= 1 << k;
        }
      } else {
        auto H = [&](u32 z, int k) -> i64 { return uns ? (i64)(z >> 16 * k & 0xffff) : (i64)(int16_t)(z >> 16 * k); };
        i64 lo, hi; bool la, ha;
        switch (i.a) {
          case 1: lo = H(x, 0) + H(y, 0); hi = H(x, 1) + H(y, 1); la = ha = true; break;
          case 5: lo = H(x, 0) - H(y, 0); hi = H(x, 1) - H(y, 1); la = ha = false; break;
          case 2: lo = H(x, 0) - H(y, 1); hi = H(x, 1) + H(y, 0); la = false; ha = true; break;
          case 6: lo = H(x, 0) + H(y, 1); hi = H(x, 1) - H(y, 0); la = true; ha = false; break;
          default: return A_UNDEF;
        }
        res = fin(lo, 16, la) | fin(hi, 16, ha) << 16;
        if (geb(lo, 16, la)) g |= 3;
        if (geb(hi, 16, ha)) g |= 12;
      }
      r[i.d] = res;
      if (ty == 0) ge = g;
      break;
    }
    case K_QOP: {
      i64 x = (int)r[i.m], y = (int)r[i.n];
      if (i.a & 1) y = (int)sat(2 * y, 32, false, Q);
      r[i.d] = sat(i.a & 2 ? x - y : x + y, 32, false, Q);
      break;
    }
    case K_SEL: {
      u32 v = 0;
      for (int k = 0; k < 4; k++) v |= ((ge >> k & 1 ? r[i.n] : r[i.m]) >> 8 * k & 0xff) << 8 * k;
      r[i.d] = v;
      break;
    }
    case K_MLA: r[i.d] = r[i.n] * r[i.m] + (i.a == 15 ? 0 : r[i.a]); break;
    case K_MLS: r[i.d] = r[i.a] - r[i.n] * r[i.m]; break;
    case K_SMLAXY: {
      i64 x = (int16_t)(i.shn & 2 ? r[i.n] >> 16 : r[i.n]), y = (int16_t)(i.shn & 1 ? r[i.m] >> 16 : r[i.m]);
      i64 v = x * y + (i.a == 15 ? 0 : (i64)(int)r[i.a]);
      if (v != (int)v) Q = 1;
      r[i.d] = (u32)v;
      break;
    }
    case K_SMLAD: case K_SMLSD: {
      u32 y = r[i.m];
      if (i.shn & 1) y = y >> 16 | y << 16;
      i64 p = (i64)(int16_t)r[i.n] * (int16_t)y, q = (i64)(int16_t)(r[i.n] >> 16) * (int16_t)(y >> 16);
      i64 v = (i.k == K_SMLAD ? p + q : p - q) + (i.a == 15 ? 0 : (i64)(int)r[i.a]);
      if (v != (int)v) Q = 1;
      r[i.d] = (u32)v;
      break;
    }
    case K_SMLAW: {
      i64 y = (int16_t)(i.shn & 1 ? r[i.m] >> 16 : r[i.m]);
      i64 v = (((i64)(int)r[i.n] * y) >> 16) + (i.a == 15 ? 0 : (i64)(int)r[i.a]);
      if (v != (int)v) Q = 1;
      r[i.d] = (u32)v;
      break;
    }
    case K_SMMLA: case K_SMMLS: {
      i64 v = (i64)(int)r[i.n] * (int)r[i.m];
      i64 acc = i.a == 15 ? 0 : (i64)((u64)r[i.a] << 32);
      v = i.k == K_SMMLA ? (i64)((u64)acc + (u64)v) : (i64)((u64)acc - (u64)v);
      if (i.shn & 1) v = (i64)((u64)v + 0x80000000u);
      r[i.d] = (u32)((u64)v >> 32);
      break;
    }
    case K_USAD8: {
      u32 v = i.a == 15 ? 0 : r[i.a];
      for (int k = 0; k < 4; k++) v += (u32)abs((int)(r[i.n] >> 8 * k & 0xff) - (int)(r[i.m] >> 8 * k & 0xff));
      r[i.d] = v;
      break;
    }
    case K_SMULL: { u64 v = (u64)((i64)(int)r[i.n] * (int)r[i.m]); r[i.a] = (u32)v; r[i.d] = (u32)(v >> 32); break; }
    case K_UMULL: { u64 v = (u64)r[i.n] * r[i.m]; r[i.a] = (u32)v; r[i.d] = (u32)(v >> 32); break; }
    case K_SMLAL: { u64 v = (u64)((i64)(int)r[i.n] * (int)r[i.m]) + ((u64)r[i.d] << 32 | r[i.a]); r[i.a] = (u32)v; r[i.d] = (u32)(v >> 32); break; }
    case K_UMLAL: { u64 v = (u64)r[i.n] * r[i.m] + ((u64)r[i.d] << 32 | r[i.a]); r[i.a] = (u32)v; r[i.d] = (u32)(v >> 32); break; }
    case K_UMAAL: { u64 v = (u64)r[i.n] * r[i.m] + r[i.a] + r[i.d]; r[i.a] = (u32)v; r[i.d] = (u32)(v >> 32); break; }
    case K_SMLALXY: {
      i64 x = (int16_t)(i.shn & 2 ? r[i.n] >> 16 : r[i.n]), y = (int16_t)(i.shn & 1 ? r[i.m] >> 16 : r[i.m]);
      u64 v = (u64)(x * y) + ((u64)r[i.d] << 32 | r[i.a]);
      r[i.a] = (u32)v; r[i.d] = (u32)(v >> 32);
      break;
    }
    case K_SMLALD: case K_SMLSLD: {
      u32 y = r[i.m];
      if (i.shn & 1) y = y >> 16 | y << 16;
      i64 p = (i64)(int16_t)r[i.n] * (int16_t)y, q = (i64)(int16_t)(r[i.n] >> 16) * (int16_t)(y >> 16);
      u64 v = (u64)(i.k == K_SMLALD ? p + q : p - q) + ((u64)r[i.d] << 32 | r[i.a]);
      r[i.a] = (u32)v; r[i.d] = (u32)(v >> 32);
      break;
    }
    case K_SDIV: if (tracing) { tr(r[i.n]); tr(r[i.m]); }
      r[i.d] = !r[i.m] ? 0 : r[i.n] == 0x80000000u && r[i.m] == 0xffffffffu ? r[i.n] : (u32)((int)r[i.n] / (int)r[i.m]); break;
    case K_UDIV: if (tracing) { tr(r[i.n]); tr(r[i.m]); }
      r[i.d] = r[i.m] ? r[i.n] / r[i.m] : 0; break;
    case K_MRS:
      r[i.d] = i.imm < 4 ? (xpsr() & 0xf80f0000) : i.imm == 16 ? primask : i.imm == 8 || i.imm == 9 ? r[13] : 0;
      break;
    case K_MSR:
      if (i.imm < 4) { u32 v = r[i.n]; if (i.a & 2) { N = v >> 31; Z = v >> 30 & 1; C = v >> 29 & 1; V = v >> 28 & 1; Q = v >> 27 & 1; } if (i.a & 1) ge = v >> 16 & 15; }
      else if (i.imm == 16) primask = r[i.n] & 1;
      else if (i.imm == 8) r[13] = r[i.n] & ~3u;
      break;
    case K_VMOVS: if (i.a) r[i.d] = s[i.imm]; else s[i.imm] = r[i.d]; break;
    case K_VMOVSS: s[i.s] = s[i.imm]; break;
    case K_VMOVD:
      if (i.imm + 1 >= 32) return A_UNDEF;
      if (i.a) { r[i.d] = s[i.imm]; r[i.n] = s[i.imm + 1]; } else { s[i.imm] = r[i.d]; s[i.imm + 1] = r[i.n]; }
      break;
    case K_VLS: {
      u32 b = i.n == 15 ? (pc + 4) & ~3u : r[i.n], a = i.a & 2 ? b + i.imm : b - i.imm;
      int cnt = i.a & 4 ? 2 : 1;
      if (i.s + cnt > 32) return A_UNDEF;
      for (int k = 0; k < cnt; k++) if (i.a & 1 ? !ld(a + 4 * k, 4, s[i.s + k], true) : !st(a + 4 * k, 4, s[i.s + k], true)) FAIL;
      break;
    }
    case K_VLM: {
      u32 b = r[i.n], a = i.a & 4 ? b - 4 * i.imm : b, cnt = i.imm & ~0u;
      if (i.s + cnt > 32) return A_UNDEF;
      for (u32 k = 0; k < cnt; k++) if (i.a & 1 ? !ld(a + 4 * k, 4, s[i.s + k], true) : !st(a + 4 * k, 4, s[i.s + k], true)) FAIL;
      if (i.a & 8) r[i.n] = i.a & 4 ? a : b + 4 * cnt;
      break;
    }
    case K_UNIMPL: return A_UNIMPL;
    default: return A_UNDEF;
  }
out:
  r[15] = next;
  return A_OK;
}

int Arm::step() {
  u32 pc = r[15];
  u32 o = pc - flash_base;
  Ins tmp;
  const Ins *i;
  if (o < flash_size) {
    Ins &c = cache[o >> 1];
    if (!c.len) decode(pc, c);
    i = &c;
  } else { decode(pc, tmp); i = &tmp; }
  if (tracing) tr(pc);
  insns++;
  cycles += i->cyc;
  err = 0;
  int rc;
  if (it && i->k != K_IT) {
    u32 c = it >> 4;
    bool go = cond(c);
    u8 cur = it;
    if (go) {
      rc = exec(*i, pc);
      if (rc != A_OK) return rc;
    } else { r[15] = pc + i->len; rc = A_OK; }
    if (it == cur) it = (it & 7) ? (u8)((it & 0xe0) | (it << 1 & 0x1f)) : 0;
  } else rc = exec(*i, pc);
  if (r[13] < minsp) minsp = r[13];
  return rc;
}

int Arm::run(u64 limit, u32 stop_pc) {
  while (insns < limit) {
    if (r[15] == stop_pc) return A_STOP;
    int rc = step();
    if (rc != A_OK) return rc;
  }
  return r[15] == stop_pc ? A_STOP : A_LIMIT;
}

void Arm::exc_entry(u32 target) {
  u32 x = xpsr();
  u32 sp = r[13];
  if (sp & 4) { sp -= 4; x |= 1u << 9; }
  sp -= 32;
  u32 f[8] = {r[0], r[1], r[2], r[3], r[12], r[14], r[15], x};
  for (int k = 0; k < 8; k++) wr(sp + 4 * k, 4, f[k]);
  r[13] = sp;
  if (sp < minsp) minsp = sp;
  r[14] = 0xfffffff9;
  r[15] = target;
  it = 0;
  handler = true;
  cycles += 16;
}
bool Arm::exc_return() {
  u32 f[8];
  for (int k = 0; k < 8; k++) if (!rd(r[13] + 4 * k, 4, f[k])) return false;
  u32 sp = r[13] + 32;
  if (f[7] & 1u << 9) sp += 4;
  r[0] = f[0]; r[1] = f[1]; r[2] = f[2]; r[3] = f[3]; r[12] = f[4]; r[14] = f[5]; r[15] = f[6];
  set_xpsr(f[7]);
  r[13] = sp;
  handler = false;
  cycles += 16;
  return true;
}
