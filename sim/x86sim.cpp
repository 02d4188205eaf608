// x86sim: an in-process i386/x86-64 user-mode machine for pnut-generated
// executables. It executes instructions only; every system call stops the
// machine and is answered by the simulated kernel (Python, sim/kernel.py).
// Nothing here reads clocks, randomness, or host state: a run is a function of
// the memory image, the registers and the answers to the system calls.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <unordered_map>
#include <sys/mman.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;

enum Stop { ST_SYSCALL = 1, ST_LIMIT = 2, ST_FAULT = 3, ST_ILLEGAL = 4, ST_UNSUPPORTED = 5, ST_DIVIDE = 6, ST_TRAP = 7 };

struct Region { u64 base, size; int prot; u8 *host; bool code; };

enum Op : u16 {
  O_BAD, O_UNSUP, O_ALU, O_TEST, O_MOV, O_MOVZX, O_MOVSX, O_LEA, O_PUSH, O_POP, O_CALL, O_CALLI, O_JMP, O_JMPI,
  O_JCC, O_RET, O_SHIFT, O_IMUL2, O_IMUL3, O_F7, O_INCDEC, O_XCHG, O_CBW, O_CWD, O_SETCC, O_CMOV, O_NOP,
  O_INT, O_SYSCALL, O_LEAVE, O_MOVS, O_STOS, O_UD2, O_INT3, O_BT, O_BSWAP, O_LOOP, O_JCXZ, O_CLD,
  // fast paths
  O_MOV_RR, O_MOV_RI, O_MOV_RM, O_MOV_MR, O_ALU_RR, O_ALU_RI, O_PUSH_R, O_POP_R
};

struct Insn {
  u16 op; u8 len; u8 sz;      // sz: operand size in bytes
  u8 sub;                     // ALU op, condition, shift kind...
  u8 rm_is_mem; u8 reg; u8 rm;   // register numbers
  u8 base, index, scale;      // 0xff: none
  u8 dir;                     // 0: rm <- reg, 1: reg <- rm, 2: rm <- imm
  u8 rex, srcsz, rep, a32;
  i64 disp; i64 imm;
};

struct Sim {
  int mode;                   // 32 or 64
  u64 r[16]; u64 rip;
  u64 icount;
  // lazy flags
  u8 fop, fsz; u64 fa, fb, fr; u8 fcf, fof; // fop: 0 logic, 1 add, 2 sub, 3 explicit(cf, of)
  std::vector<Region> regs;
  int mru[2];
  // stop information
  u64 info0, info1, info2;
  // decoded code
  std::vector<Insn*> cache; u64 cbase, csize;
  std::vector<Insn*> blocks;
  std::unordered_map<u64, Insn> far;
};

static u8 *xlat(Sim *s, u64 a, unsigned n, int w) {
  for (int k = 0; k < 2; k++) {
    if (s->mru[k] < 0) continue;
    Region &g = s->regs[s->mru[k]];
    if (a - g.base < g.size && g.size - (a - g.base) >= n && (g.prot & (w ? 2 : 1))) return g.host + (a - g.base);
  }
  for (size_t i = 0; i < s->regs.size(); i++) {
    Region &g = s->regs[i];
    if (a - g.base < g.size && g.size - (a - g.base) >= n) {
      if (!(g.prot & (w ? 2 : 1))) return 0;
      s->mru[1] = s->mru[0]; s->mru[0] = (int)i;
      return g.host + (a - g.base);
    }
  }
  return 0;
}

struct Fault { u64 addr; int kind; };   // kind 1 read 2 write 4 exec

static inline u64 msk(unsigned sz) { return sz == 8 ? ~0ull : sz == 4 ? 0xffffffffull : sz == 2 ? 0xffffull : 0xffull; }
static inline u64 sx(u64 v, unsigned sz) { return sz == 8 ? v : sz == 4 ? (u64)(i64)(i32)v : sz == 2 ? (u64)(i64)(i16)v : (u64)(i64)(i8)v; }

static inline u64 ld(Sim *s, u64 a, unsigned n) {
  u8 *p = xlat(s, a, n, 0);
  if (!p) {
    // an access may straddle two adjacent regions
    u64 v = 0; if (n > 1) { for (unsigned i = 0; i < n; i++) { u8 *q = xlat(s, a + i, 1, 0); if (!q) throw Fault{a + i, 1}; v |= (u64)*q << (8 * i); } return v; }
    throw Fault{a, 1};
  }
  switch (n) { case 1: return *p; case 2: { u16 v; memcpy(&v, p, 2); return v; } case 4: { u32 v; memcpy(&v, p, 4); return v; } default: { u64 v; memcpy(&v, p, 8); return v; } }
}
static inline void st(Sim *s, u64 a, u64 v, unsigned n) {
  u8 *p = xlat(s, a, n, 1);
  if (!p) {
    if (n > 1) { for (unsigned i = 0; i < n; i++) if (!xlat(s, a + i, 1, 1)) throw Fault{a + i, 2};
      for (unsigned i = 0; i < n; i++) *xlat(s, a + i, 1, 1) = (u8)(v >> (8 * i)); return; }
    throw Fault{a, 2};
  }
  switch (n) { case 1: *p = (u8)v; break; case 2: { u16 x = (u16)v; memcpy(p, &x, 2); break; } case 4: { u32 x = (u32)v; memcpy(p, &x, 4); break; } default: memcpy(p, &v, 8); }
  if (s->cbase <= a + n && a < s->cbase + s->csize) { // store into code: forget what was decoded
    u64 lo = a > s->cbase + 16 ? a - 16 - s->cbase : 0;
    for (u64 k = lo; k < s->csize && k <= a + n - s->cbase; k++) s->cache[k] = 0;
  }
}

// registers
static inline u64 rd(Sim *s, unsigned r, unsigned sz, bool rex) {
  if (sz == 1 && !rex && r >= 4 && r < 8) return (s->r[r - 4] >> 8) & 0xff;
  return s->r[r] & msk(sz);
}
static inline void wr(Sim *s, unsigned r, unsigned sz, bool rex, u64 v) {
  switch (sz) {
    case 8: s->r[r] = v; break;
    case 4: s->r[r] = (u32)v; break;
    case 2: s->r[r] = (s->r[r] & ~0xffffull) | (u16)v; break;
    default:
      if (!rex && r >= 4 && r < 8) s->r[r - 4] = (s->r[r - 4] & ~0xff00ull) | ((v & 0xff) << 8);
      else s->r[r] = (s->r[r] & ~0xffull) | (u8)v;
  }
}

// ---------------------------------------------------------------- flags
static inline bool f_cf(Sim *s) {
  switch (s->fop) { case 0: return false; case 1: return s->fr < s->fa || (s->fcf && s->fr == s->fa); case 2: return s->fcf ? s->fa <= s->fb : s->fa < s->fb; default: return s->fcf; }
}
static inline bool f_of(Sim *s) {
  u64 sb = 1ull << (s->fsz * 8 - 1);
  switch (s->fop) { case 0: return false; case 1: return (~(s->fa ^ s->fb) & (s->fa ^ s->fr)) & sb; case 2: return ((s->fa ^ s->fb) & (s->fa ^ s->fr)) & sb; default: return s->fof; }
}
static inline bool f_zf(Sim *s) { return s->fr == 0; }
static inline bool f_sf(Sim *s) { return (s->fr >> (s->fsz * 8 - 1)) & 1; }
static inline bool f_pf(Sim *s) { return !__builtin_parity((u8)s->fr); }
static bool cond(Sim *s, int c) {
  bool v;
  switch (c >> 1) {
    case 0: v = f_of(s); break; case 1: v = f_cf(s); break; case 2: v = f_zf(s); break; case 3: v = f_cf(s) || f_zf(s); break;
    case 4: v = f_sf(s); break; case 5: v = f_pf(s); break; case 6: v = f_sf(s) != f_of(s); break; default: v = f_zf(s) || f_sf(s) != f_of(s); break;
  }
  return v ^ (c & 1);
}

static inline u64 alu(Sim *s, int op, u64 a, u64 b, unsigned sz) {
  u64 m = msk(sz), r; a &= m; b &= m; int c;
  switch (op) {
    case 0: r = (a + b) & m; s->fop = 1; s->fcf = 0; break;
    case 1: r = a | b; s->fop = 0; break;
    case 2: c = f_cf(s); r = (a + b + c) & m; s->fop = 1; s->fcf = c; break;
    case 3: c = f_cf(s); r = (a - b - c) & m; s->fop = 2; s->fcf = c; break;
    case 4: r = a & b; s->fop = 0; break;
    case 5: case 7: r = (a - b) & m; s->fop = 2; s->fcf = 0; break;
    default: r = a ^ b; s->fop = 0; break;
  }
  s->fa = a; s->fb = b; s->fr = r; s->fsz = sz;
  return r;
}

// ---------------------------------------------------------------- decode
struct Fetch { Sim *s; u64 a; unsigned n;
  u8 b() { u8 *p = xlat(s, a + n, 1, 0); if (!p || n >= 15) throw Fault{a + n, 4}; n++; return *p; }
  i64 imm(unsigned k) { u64 v = 0; for (unsigned i = 0; i < k; i++) v |= (u64)b() << (8 * i); return (i64)sx(v, k); }
};

static void modrm(Fetch &f, Insn &I, int mode, int rexr, int rexx, int rexb, int *regop) {
  u8 m = f.b(); int mod = m >> 6, reg = (m >> 3) & 7, rm = m & 7;
  *regop = reg; I.reg = reg | (rexr << 3);
  I.base = I.index = 0xff; I.disp = 0; I.scale = 0;
  if (mod == 3) { I.rm_is_mem = 0; I.rm = rm | (rexb << 3); return; }
  I.rm_is_mem = 1;
  if (rm == 4) {
    u8 sib = f.b(); int ix = ((sib >> 3) & 7) | (rexx << 3), bs = (sib & 7);
    I.scale = sib >> 6; if (ix != 4) I.index = ix;
    if (bs == 5 && mod == 0) I.disp = f.imm(4); else I.base = bs | (rexb << 3);
  } else if (rm == 5 && mod == 0) {
    I.disp = f.imm(4); if (mode == 64) I.base = 0xfe; // rip relative, fixed up by caller
  } else I.base = rm | (rexb << 3);
  if (mod == 1) I.disp = f.imm(1); else if (mod == 2) I.disp = f.imm(4);
}

static void decode(Sim *s, u64 a, Insn &I) {
  memset(&I, 0, sizeof I);
  Fetch f{s, a, 0};
  int mode = s->mode, rexw = 0, rexr = 0, rexx = 0, rexb = 0, o16 = 0, regop = 0, asz = 0;
  u8 c;
  I.base = I.index = 0xff;
  for (;;) {
    c = f.b();
    if (c == 0x66) { o16 = 1; continue; }
    if (c == 0xf3 || c == 0xf2) { I.rep = c; continue; }
    if (c == 0x67) { asz = 1; continue; }
    if (c == 0x2e || c == 0x36 || c == 0x3e || c == 0x26) continue;
    if (mode == 64 && (c & 0xf0) == 0x40) { rexw = (c >> 3) & 1; rexr = (c >> 2) & 1; rexx = (c >> 1) & 1; rexb = c & 1; I.rex = 1; c = f.b(); }
    break;
  }
  I.a32 = asz;
  unsigned osz = rexw ? 8 : o16 ? 2 : 4;
  unsigned ssz = mode == 64 ? 8 : 4; if (o16) ssz = 2;
  #define MODRM() modrm(f, I, mode, rexr, rexx, rexb, &regop)
  unsigned iz = osz == 8 ? 4 : osz;
  I.op = O_UNSUP; I.sz = osz;
  if (c < 0x40 && (c & 7) < 6) {
    I.op = O_ALU; I.sub = c >> 3;
    switch (c & 7) {
      case 0: I.sz = 1; I.dir = 0; MODRM(); break; case 1: I.dir = 0; MODRM(); break;
      case 2: I.sz = 1; I.dir = 1; MODRM(); break; case 3: I.dir = 1; MODRM(); break;
      case 4: I.sz = 1; I.dir = 2; I.rm = 0; I.imm = f.imm(1); break;
      case 5: I.dir = 2; I.rm = 0; I.imm = f.imm(iz); break;
    }
  } else if (c >= 0x40 && c <= 0x4f) { // 32-bit inc/dec
    I.op = O_INCDEC; I.sub = (c >> 3) & 1; I.rm = c & 7;
  } else if (c >= 0x50 && c <= 0x57) { I.op = O_PUSH; I.sub = 0; I.rm = (c & 7) | (rexb << 3); I.sz = ssz; }
  else if (c >= 0x58 && c <= 0x5f) { I.op = O_POP; I.rm = (c & 7) | (rexb << 3); I.sz = ssz; }
  else if (c >= 0x70 && c <= 0x7f) { I.op = O_JCC; I.sub = c & 15; I.imm = f.imm(1); }
  else if (c >= 0xb0 && c <= 0xb7) { I.op = O_MOV; I.dir = 2; I.sz = 1; I.rm = (c & 7) | (rexb << 3); I.imm = f.imm(1); }
  else if (c >= 0xb8 && c <= 0xbf) { I.op = O_MOV; I.dir = 2; I.rm = (c & 7) | (rexb << 3); I.imm = f.imm(osz); }
  else if (c >= 0x91 && c <= 0x97) { I.op = O_XCHG; I.reg = 0; I.rm = (c & 7) | (rexb << 3); }
  else switch (c) {
    case 0x63: if (mode == 64) { MODRM(); I.op = O_MOVSX; I.srcsz = 4; I.dir = 1; } break;
    case 0x68: I.op = O_PUSH; I.sub = 1; I.imm = f.imm(o16 ? 2 : 4); I.sz = ssz; break;
    case 0x6a: I.op = O_PUSH; I.sub = 1; I.imm = f.imm(1); I.sz = ssz; break;
    case 0x69: MODRM(); I.op = O_IMUL3; I.imm = f.imm(iz); break;
    case 0x6b: MODRM(); I.op = O_IMUL3; I.imm = f.imm(1); break;
    case 0x80: case 0x82: I.sz = 1; MODRM(); I.op = O_ALU; I.dir = 2; I.sub = regop; I.imm = f.imm(1); break;
    case 0x81: MODRM(); I.op = O_ALU; I.dir = 2; I.sub = regop; I.imm = f.imm(iz); break;
    case 0x83: MODRM(); I.op = O_ALU; I.dir = 2; I.sub = regop; I.imm = f.imm(1); break;
    case 0x84: I.sz = 1; MODRM(); I.op = O_TEST; break;
    case 0x85: MODRM(); I.op = O_TEST; break;
    case 0xa8: I.sz = 1; I.op = O_TEST; I.dir = 2; I.rm = 0; I.imm = f.imm(1); break;
    case 0xa9: I.op = O_TEST; I.dir = 2; I.rm = 0; I.imm = f.imm(iz); break;
    case 0x86: I.sz = 1; MODRM(); I.op = O_XCHG; break;
    case 0x87: MODRM(); I.op = O_XCHG; break;
    case 0x88: I.sz = 1; MODRM(); I.op = O_MOV; I.dir = 0; break;
    case 0x89: MODRM(); I.op = O_MOV; I.dir = 0; break;
    case 0x8a: I.sz = 1; MODRM(); I.op = O_MOV; I.dir = 1; break;
    case 0x8b: MODRM(); I.op = O_MOV; I.dir = 1; break;
    case 0x8d: MODRM(); I.op = I.rm_is_mem ? O_LEA : O_BAD; break;
    case 0x8f: MODRM(); I.op = O_POP; I.sz = ssz; break;
    case 0x90: I.op = O_NOP; break;
    case 0x98: I.op = O_CBW; break;
    case 0x99: I.op = O_CWD; break;
    case 0xa4: I.sz = 1; I.op = O_MOVS; break;
    case 0xa5: I.op = O_MOVS; break;
    case 0xaa: I.sz = 1; I.op = O_STOS; break;
    case 0xab: I.op = O_STOS; break;
    case 0xfc: I.op = O_CLD; break;
    case 0xc0: I.sz = 1; MODRM(); I.op = O_SHIFT; I.sub = regop; I.dir = 2; I.imm = f.imm(1); break;
    case 0xc1: MODRM(); I.op = O_SHIFT; I.sub = regop; I.dir = 2; I.imm = f.imm(1); break;
    case 0xd0: I.sz = 1; MODRM(); I.op = O_SHIFT; I.sub = regop; I.dir = 2; I.imm = 1; break;
    case 0xd1: MODRM(); I.op = O_SHIFT; I.sub = regop; I.dir = 2; I.imm = 1; break;
    case 0xd2: I.sz = 1; MODRM(); I.op = O_SHIFT; I.sub = regop; I.dir = 0; break;
    case 0xd3: MODRM(); I.op = O_SHIFT; I.sub = regop; I.dir = 0; break;
    case 0xc2: I.op = O_RET; I.imm = (u16)f.imm(2); break;
    case 0xc3: I.op = O_RET; break;
    case 0xc6: I.sz = 1; MODRM(); I.op = O_MOV; I.dir = 2; I.imm = f.imm(1); break;
    case 0xc7: MODRM(); I.op = O_MOV; I.dir = 2; I.imm = f.imm(iz); break;
    case 0xc9: I.op = O_LEAVE; break;
    case 0xcc: I.op = O_INT3; break;
    case 0xcd: I.op = O_INT; I.imm = (u8)f.imm(1); break;
    case 0xe2: I.op = O_LOOP; I.imm = f.imm(1); break;
    case 0xe3: I.op = O_JCXZ; I.imm = f.imm(1); break;
    case 0xe8: I.op = O_CALL; I.imm = f.imm(4); break;
    case 0xe9: I.op = O_JMP; I.imm = f.imm(4); break;
    case 0xeb: I.op = O_JMP; I.imm = f.imm(1); break;
    case 0xf6: I.sz = 1; MODRM(); if (regop < 2) { I.op = O_TEST; I.dir = 2; I.imm = f.imm(1); } else { I.op = O_F7; I.sub = regop; } break;
    case 0xf7: MODRM(); if (regop < 2) { I.op = O_TEST; I.dir = 2; I.imm = f.imm(iz); } else { I.op = O_F7; I.sub = regop; } break;
    case 0xfe: I.sz = 1; MODRM(); if (regop < 2) { I.op = O_INCDEC; I.sub = regop; } else I.op = O_BAD; break;
    case 0xff: MODRM();
      if (regop < 2) { I.op = O_INCDEC; I.sub = regop; }
      else if (regop == 2) { I.op = O_CALLI; I.sz = mode == 64 ? 8 : 4; }
      else if (regop == 4) { I.op = O_JMPI; I.sz = mode == 64 ? 8 : 4; }
      else if (regop == 6) { I.op = O_PUSH; I.sub = 2; I.sz = ssz; }
      else I.op = O_UNSUP;
      break;
    case 0x0f: {
      u8 d = f.b();
      if (d >= 0x80 && d <= 0x8f) { I.op = O_JCC; I.sub = d & 15; I.imm = f.imm(4); }
      else if (d >= 0x90 && d <= 0x9f) { I.sz = 1; MODRM(); I.op = O_SETCC; I.sub = d & 15; }
      else if (d >= 0x40 && d <= 0x4f) { MODRM(); I.op = O_CMOV; I.sub = d & 15; }
      else if (d >= 0xc8 && d <= 0xcf) { I.op = O_BSWAP; I.rm = (d & 7) | (rexb << 3); }
      else switch (d) {
        case 0x05: I.op = mode == 64 ? O_SYSCALL : O_UNSUP; break;
        case 0x0b: I.op = O_UD2; break;
        case 0x1e: case 0x1f: MODRM(); I.op = O_NOP; break;
        case 0xaf: MODRM(); I.op = O_IMUL2; break;
        case 0xa3: MODRM(); I.op = O_BT; I.sub = 4; I.dir = 0; if (I.rm_is_mem) I.op = O_UNSUP; break;
        case 0xba: MODRM(); I.op = O_BT; I.sub = regop; I.dir = 2; I.imm = f.imm(1); if (regop < 4 || I.rm_is_mem) I.op = O_UNSUP; break;
        case 0xb6: MODRM(); I.op = O_MOVZX; I.srcsz = 1; break;
        case 0xb7: MODRM(); I.op = O_MOVZX; I.srcsz = 2; break;
        case 0xbe: MODRM(); I.op = O_MOVSX; I.srcsz = 1; break;
        case 0xbf: MODRM(); I.op = O_MOVSX; I.srcsz = 2; break;
        default: I.op = O_UNSUP;
      }
      break;
    }
    default: I.op = O_UNSUP;
  }
  I.len = f.n;
  if (I.base == 0xfe) { I.base = 0xff; I.disp += a + f.n; }
  // fast paths
  if (I.op == O_MOV && I.sz >= 4) {
    if (I.dir == 2 && !I.rm_is_mem) { I.op = O_MOV_RI; if (I.sz == 4) I.imm = (u32)I.imm; }
    else if (I.dir == 0 && !I.rm_is_mem) I.op = O_MOV_RR;
    else if (I.dir == 1 && I.rm_is_mem) I.op = O_MOV_RM;
    else if (I.dir == 0 && I.rm_is_mem) I.op = O_MOV_MR;
  } else if (I.op == O_ALU && I.sz >= 4 && !I.rm_is_mem) {
    if (I.dir == 0) I.op = O_ALU_RR; else if (I.dir == 2) I.op = O_ALU_RI;
  } else if (I.op == O_PUSH && I.sub == 0 && I.sz == (mode == 64 ? 8 : 4)) I.op = O_PUSH_R;
  else if (I.op == O_POP && !I.rm_is_mem && I.sz == (mode == 64 ? 8 : 4)) I.op = O_POP_R;
}

static inline u64 ea(Sim *s, const Insn &I) {
  u64 a = (u64)I.disp;
  if (I.base != 0xff) a += s->r[I.base];
  if (I.index != 0xff) a += s->r[I.index] << I.scale;
  if (s->mode == 32 || I.a32) a = (u32)a;
  return a;
}
static inline u64 rm_get(Sim *s, const Insn &I, unsigned sz) { return I.rm_is_mem ? ld(s, ea(s, I), sz) : rd(s, I.rm, sz, I.rex); }
static inline void rm_set(Sim *s, const Insn &I, unsigned sz, u64 v) { if (I.rm_is_mem) st(s, ea(s, I), v, sz); else wr(s, I.rm, sz, I.rex, v); }

static inline void push(Sim *s, u64 v, unsigned sz) {
  u64 sp = s->r[4] - sz; if (s->mode == 32) sp = (u32)sp;
  st(s, sp, v, sz); s->r[4] = sp;
}
static inline u64 pop(Sim *s, unsigned sz) {
  u64 v = ld(s, s->r[4], sz); s->r[4] += sz; if (s->mode == 32) s->r[4] = (u32)s->r[4]; return v;
}

static void shift(Sim *s, const Insn &I) {
  unsigned sz = I.sz, bits = sz * 8; unsigned n = (I.dir == 2 ? (unsigned)I.imm : (unsigned)s->r[1]) & (sz == 8 ? 63 : 31);
  u64 a = rm_get(s, I, sz) & msk(sz), r = a; bool cf = f_cf(s), of = f_of(s);
  if (n == 0) return;
  switch (I.sub) {
    case 0: { unsigned k = n % bits; r = k ? ((a << k) | (a >> (bits - k))) & msk(sz) : a; cf = r & 1; of = ((r >> (bits - 1)) & 1) ^ cf; u64 old = s->fr; u8 ofz = s->fsz; s->fop = 3; s->fcf = cf; s->fof = of; s->fr = old; s->fsz = ofz; rm_set(s, I, sz, r); return; }
    case 1: { unsigned k = n % bits; r = k ? ((a >> k) | (a << (bits - k))) & msk(sz) : a; cf = (r >> (bits - 1)) & 1; s->fop = 3; s->fcf = cf; s->fof = of; rm_set(s, I, sz, r); return; }
    case 4: case 6: r = n < 64 ? (a << n) & msk(sz) : 0; cf = n <= bits ? (a >> (bits - n)) & 1 : 0; of = ((r >> (bits - 1)) & 1) ^ cf; break;
    case 5: r = n < bits ? a >> n : 0; cf = n <= bits ? (a >> (n - 1)) & 1 : 0; of = (a >> (bits - 1)) & 1; break;
    case 7: { i64 sa = (i64)sx(a, sz); r = (u64)(sa >> (n < 63 ? n : 63)) & msk(sz); cf = ((u64)(sa >> (n - 1 < 63 ? n - 1 : 63))) & 1; of = 0; break; }
    default: throw Fault{s->rip, 8};
  }
  rm_set(s, I, sz, r);
  s->fop = 3; s->fcf = cf; s->fof = of; s->fr = r; s->fsz = sz; s->fa = s->fb = 0;
}

static int f7(Sim *s, const Insn &I) {
  unsigned sz = I.sz; u64 v = rm_get(s, I, sz); u64 m = msk(sz);
  switch (I.sub) {
    case 2: rm_set(s, I, sz, ~v & m); return 0;
    case 3: { u64 r = alu(s, 5, 0, v, sz); rm_set(s, I, sz, r); return 0; }
    case 4: case 5: {
      u64 a = sz == 1 ? s->r[0] & 0xff : s->r[0] & m, lo, hi; bool ov;
      if (I.sub == 4) { unsigned __int128 p = (unsigned __int128)a * v; lo = (u64)p & m; hi = (u64)(p >> (sz * 8)) & m; ov = hi != 0; }
      else { __int128 p = (__int128)(i64)sx(a, sz) * (i64)sx(v, sz); lo = (u64)p & m; hi = (u64)(p >> (sz * 8)) & m; ov = p != (__int128)(i64)sx(lo, sz); }
      if (sz == 1) wr(s, 0, 2, 1, lo | (hi << 8)); else { wr(s, 0, sz, 1, lo); wr(s, 2, sz, 1, hi); }
      s->fop = 3; s->fcf = s->fof = ov; s->fr = lo; s->fsz = sz; return 0; }
    case 6: {
      if ((v & m) == 0) return ST_DIVIDE;
      unsigned __int128 n = sz == 1 ? (unsigned __int128)(s->r[0] & 0xffff) : ((unsigned __int128)(s->r[2] & m) << (sz * 8)) | (s->r[0] & m);
      unsigned __int128 q = n / (v & m), r = n % (v & m); if (q > m) return ST_DIVIDE;
      if (sz == 1) wr(s, 0, 2, 1, (u64)q | ((u64)r << 8)); else { wr(s, 0, sz, 1, (u64)q); wr(s, 2, sz, 1, (u64)r); } return 0; }
    case 7: {
      i64 d = (i64)sx(v, sz); if (d == 0) return ST_DIVIDE;
      __int128 n = sz == 1 ? (__int128)(i16)s->r[0] : (__int128)(((unsigned __int128)(__int128)(i64)sx(s->r[2] & m, sz) << (sz * 8)) | (s->r[0] & m));
      __int128 q = n / d, r = n % d;
      if (q != (__int128)(i64)sx((u64)q & m, sz)) return ST_DIVIDE;
      if (sz == 1) wr(s, 0, 2, 1, ((u64)q & 0xff) | (((u64)r & 0xff) << 8)); else { wr(s, 0, sz, 1, (u64)q & m); wr(s, 2, sz, 1, (u64)r & m); } return 0; }
  }
  return ST_ILLEGAL;
}

static Insn *get(Sim *s, u64 pc) {
  if (pc - s->cbase < s->csize) {
    Insn *p = s->cache[pc - s->cbase];
    if (p) return p;
    p = new Insn; s->blocks.push_back(p);
    decode(s, pc, *p);
    s->cache[pc - s->cbase] = p;
    return p;
  }
  // code elsewhere (stack, heap): is it executable?
  for (auto &g : s->regs) if (pc - g.base < g.size) { if (!(g.prot & 4)) throw Fault{pc, 4}; Insn &I = s->far[pc]; decode(s, pc, I); return &I; }
  throw Fault{pc, 4};
}

extern "C" {

Sim *sim_new(int mode) { Sim *s = new Sim(); s->mode = mode; s->mru[0] = s->mru[1] = -1; s->fsz = 4; s->fr = 1; s->cbase = ~0ull; s->csize = 0; return s; }
void sim_free(Sim *s) { for (auto &g : s->regs) munmap(g.host, (g.size + 4095) & ~4095ull); for (auto p : s->blocks) delete p; delete s; }
int sim_map(Sim *s, u64 base, u64 size, int prot, int code) {
  for (auto &g : s->regs) if (base < g.base + g.size && g.base < base + size) return -1;
  u8 *h = (u8 *)mmap(0, (size + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (h == MAP_FAILED) return -2;
  s->regs.push_back(Region{base, size, prot, h, code != 0});
  s->mru[0] = s->mru[1] = -1;
  if (code) { s->cbase = base; s->csize = size; s->cache.assign(size, (Insn*)0); }
  return 0;
}
int sim_unmap(Sim *s, u64 base, u64 size) {
  for (size_t i = 0; i < s->regs.size(); i++) if (s->regs[i].base == base) { munmap(s->regs[i].host, (s->regs[i].size + 4095) & ~4095ull); s->regs.erase(s->regs.begin() + i); s->mru[0] = s->mru[1] = -1; return 0; }
  return -1;
}
// Copies; returns the number of bytes that were accessible (prefix).
u64 sim_poke(Sim *s, u64 a, const u8 *p, u64 n) { u64 i = 0; while (i < n) { bool ok = false; for (auto &g : s->regs) if (a + i - g.base < g.size) { u64 k = g.size - (a + i - g.base); if (k > n - i) k = n - i; memcpy(g.host + (a + i - g.base), p + i, k); i += k; ok = true; break; } if (!ok) break; } return i; }
// Kernel copy to/from user memory: honours protection.
u64 sim_copyout(Sim *s, u64 a, const u8 *p, u64 n) { u64 i = 0; while (i < n) { bool ok = false; for (auto &g : s->regs) if (a + i - g.base < g.size && (g.prot & 2)) { u64 k = g.size - (a + i - g.base); if (k > n - i) k = n - i; memcpy(g.host + (a + i - g.base), p + i, k); i += k; ok = true; break; } if (!ok) break; } return i; }
u64 sim_peek(Sim *s, u64 a, u8 *p, u64 n) { u64 i = 0; while (i < n) { bool ok = false; for (auto &g : s->regs) if (a + i - g.base < g.size && (g.prot & 1)) { u64 k = g.size - (a + i - g.base); if (k > n - i) k = n - i; memcpy(p + i, g.host + (a + i - g.base), k); i += k; ok = true; break; } if (!ok) break; } return i; }
u64 *sim_regs(Sim *s) { return s->r; }
u64 sim_getpc(Sim *s) { return s->rip; }
void sim_setpc(Sim *s, u64 v) { s->rip = v; }
u64 sim_icount(Sim *s) { return s->icount; }
u64 sim_info(Sim *s, int k) { return k == 0 ? s->info0 : k == 1 ? s->info1 : s->info2; }
void sim_setcf(Sim *s, int cf) { bool z = f_zf(s); u8 o = f_of(s); (void)z; s->fop = 3; s->fof = o; s->fcf = cf; }

int sim_run(Sim *s, u64 limit) {
  u64 pc = s->rip; u64 n = s->icount; const unsigned W = s->mode == 64 ? 8 : 4; const bool m32 = s->mode == 32;
  int stop = 0; Insn *ip = 0;
  try {
    for (;;) {
      if (n >= limit) { stop = ST_LIMIT; break; }
      s->rip = pc;
      Insn &I = *(ip = get(s, pc));
      n++;
      u64 next = pc + I.len; if (m32) next = (u32)next;
      switch (I.op) {
        case O_MOV_RR: s->r[I.rm] = I.sz == 8 ? s->r[I.reg] : (u32)s->r[I.reg]; break;
        case O_MOV_RI: s->r[I.rm] = I.imm; break;
        case O_MOV_RM: s->r[I.reg] = ld(s, ea(s, I), I.sz); break;
        case O_MOV_MR: st(s, ea(s, I), s->r[I.reg], I.sz); break;
        case O_PUSH_R: push(s, s->r[I.rm], W); break;
        case O_POP_R: s->r[I.rm] = pop(s, W); break;
        case O_ALU_RR: { u64 r = alu(s, I.sub, s->r[I.rm], s->r[I.reg], I.sz); if (I.sub != 7) s->r[I.rm] = r; break; }
        case O_ALU_RI: { u64 r = alu(s, I.sub, s->r[I.rm], I.imm, I.sz); if (I.sub != 7) s->r[I.rm] = r; break; }
        case O_ALU: {
          u64 a, b, r;
          if (I.dir == 1) { a = rd(s, I.reg, I.sz, I.rex); b = rm_get(s, I, I.sz); r = alu(s, I.sub, a, b, I.sz); if (I.sub != 7) wr(s, I.reg, I.sz, I.rex, r); }
          else { a = rm_get(s, I, I.sz); b = I.dir == 2 ? (u64)I.imm : rd(s, I.reg, I.sz, I.rex); r = alu(s, I.sub, a, b, I.sz); if (I.sub != 7) rm_set(s, I, I.sz, r); }
          break; }
        case O_TEST: alu(s, 4, rm_get(s, I, I.sz), I.dir == 2 ? (u64)I.imm : rd(s, I.reg, I.sz, I.rex), I.sz); break;
        case O_MOV:
          if (I.dir == 0) rm_set(s, I, I.sz, rd(s, I.reg, I.sz, I.rex));
          else if (I.dir == 1) wr(s, I.reg, I.sz, I.rex, rm_get(s, I, I.sz));
          else rm_set(s, I, I.sz, (u64)I.imm);
          break;
        case O_MOVZX: wr(s, I.reg, I.sz, I.rex, rm_get(s, I, I.srcsz)); break;
        case O_MOVSX: wr(s, I.reg, I.sz, I.rex, sx(rm_get(s, I, I.srcsz), I.srcsz)); break;
        case O_LEA: wr(s, I.reg, I.sz, I.rex, ea(s, I)); break;
        case O_PUSH: push(s, I.sub == 0 ? s->r[I.rm] : I.sub == 1 ? (u64)I.imm : rm_get(s, I, I.sz), I.sz); break;
        case O_POP: { u64 v = pop(s, I.sz); rm_set(s, I, I.sz, v); break; }
        case O_CALL: push(s, next, W); next += I.imm; break;
        case O_CALLI: { u64 t = rm_get(s, I, W); push(s, next, W); next = t; break; }
        case O_JMP: next += I.imm; break;
        case O_JMPI: next = rm_get(s, I, W); break;
        case O_JCC: if (cond(s, I.sub)) next += I.imm; break;
        case O_RET: next = pop(s, W); s->r[4] += I.imm; break;
        case O_SHIFT: shift(s, I); break;
        case O_IMUL2: case O_IMUL3: {
          __int128 p = (__int128)(i64)sx(rm_get(s, I, I.sz), I.sz) * (I.op == O_IMUL3 ? I.imm : (i64)sx(rd(s, I.reg, I.sz, 1), I.sz));
          u64 r = (u64)p & msk(I.sz); bool ov = p != (__int128)(i64)sx(r, I.sz);
          wr(s, I.reg, I.sz, 1, r); s->fop = 3; s->fcf = s->fof = ov; s->fr = r; s->fsz = I.sz; break; }
        case O_F7: { int e = f7(s, I); if (e) { stop = e; goto out; } break; }
        case O_INCDEC: { u64 a = rm_get(s, I, I.sz); bool cf = f_cf(s); u64 r = alu(s, I.sub ? 5 : 0, a, 1, I.sz); bool of = f_of(s); s->fop = 3; s->fcf = cf; s->fof = of; rm_set(s, I, I.sz, r); break; }
        case O_XCHG: { u64 a = rm_get(s, I, I.sz), b = rd(s, I.reg, I.sz, I.rex); rm_set(s, I, I.sz, b); wr(s, I.reg, I.sz, I.rex, a); break; }
        case O_CBW: if (I.sz == 8) s->r[0] = sx(s->r[0], 4); else if (I.sz == 4) wr(s, 0, 4, 1, sx(s->r[0], 2)); else wr(s, 0, 2, 1, sx(s->r[0], 1)); break;
        case O_CWD: { u64 sgn = (s->r[0] >> (I.sz * 8 - 1)) & 1 ? ~0ull : 0; wr(s, 2, I.sz, 1, sgn & msk(I.sz)); break; }
        case O_SETCC: rm_set(s, I, 1, cond(s, I.sub)); break;
        case O_CMOV: { u64 v = rm_get(s, I, I.sz); if (cond(s, I.sub)) wr(s, I.reg, I.sz, 1, v); else if (I.sz == 4) s->r[I.reg] = (u32)s->r[I.reg]; break; }
        case O_NOP: case O_CLD: break;
        case O_LEAVE: s->r[4] = s->r[5]; s->r[5] = pop(s, W); break;
        case O_BT: { unsigned bit = (I.dir == 2 ? (unsigned)I.imm : (unsigned)s->r[I.reg]) & (I.sz * 8 - 1); u64 v = rd(s, I.rm, I.sz, 1); bool of = f_of(s); u64 fr = s->fr; s->fof = of; s->fop = 3; s->fcf = (v >> bit) & 1; s->fr = fr;
          if (I.sub == 5) wr(s, I.rm, I.sz, 1, v | (1ull << bit)); else if (I.sub == 6) wr(s, I.rm, I.sz, 1, v & ~(1ull << bit)); else if (I.sub == 7) wr(s, I.rm, I.sz, 1, v ^ (1ull << bit)); break; }
        case O_BSWAP: s->r[I.rm] = I.sz == 8 ? __builtin_bswap64(s->r[I.rm]) : __builtin_bswap32((u32)s->r[I.rm]); break;
        case O_MOVS: case O_STOS: {
          u64 cnt = I.rep ? (m32 ? (u32)s->r[1] : s->r[1]) : 1;
          while (cnt) { u64 d = m32 ? (u32)s->r[7] : s->r[7];
            st(s, d, I.op == O_MOVS ? ld(s, m32 ? (u32)s->r[6] : s->r[6], I.sz) : s->r[0], I.sz);
            s->r[7] += I.sz; if (I.op == O_MOVS) s->r[6] += I.sz; if (m32) { s->r[7] = (u32)s->r[7]; s->r[6] = (u32)s->r[6]; }
            cnt--; if (I.rep) s->r[1] = cnt; }
          break; }
        case O_LOOP: s->r[1] = m32 ? (u32)(s->r[1] - 1) : s->r[1] - 1; if (s->r[1]) next += I.imm; break;
        case O_JCXZ: if (s->r[1] == 0) next += I.imm; break;
        case O_INT: if (I.imm == 0x80) { s->rip = next; s->icount = n; s->info0 = 0x80; pc = next; return ST_SYSCALL; } stop = ST_ILLEGAL; goto out;
        case O_SYSCALL: s->rip = next; s->icount = n; s->info0 = 0x0f05; s->r[1] = next; s->r[11] = 0x202; return ST_SYSCALL;
        case O_INT3: stop = ST_TRAP; goto out;
        case O_UD2: case O_BAD: stop = ST_ILLEGAL; goto out;
        default: stop = ST_UNSUPPORTED; goto out;
      }
      pc = m32 ? (u32)next : next;
    }
  } catch (Fault &e) { s->info0 = e.addr; s->info1 = e.kind; stop = ST_FAULT; }
out:
  s->icount = n;
  if (stop != ST_LIMIT) s->info2 = s->rip; else s->rip = pc;
  return stop;
}
}
