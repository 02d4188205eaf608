// Process simulator: runs one command, and every process it creates, one at a
// time under ptrace. The seeded scheduler decides which stopped process takes
// the next step at every traced system call; planned faults replace or shorten
// the calls on the simulated objects (files of the scratch directory, standard
// streams). Everything is a function of the specification read on stdin.
//
//   cwd DIR            scratch directory (becomes the working directory)
//   exe PATH           program
//   arg HEX / env HEX  one per argument / environment string
//   fd N KIND HEX      KIND r|w|a|rw: open file HEX; pipe: data HEX; close
//   seed N             scheduler seed
//   uid N              user to run as (0: unchanged)
//   fault OP OBJ(HEX) N ACT V   N-th OP on OBJ; ACT e: fail with errno V, s: at most V bytes
//   mem 1              trace brk/mmap (objects "brk", "mmap")
//   sys N / cpu N      caps: traced calls, seconds
//   fsize N / as N     resource limits in bytes (0: none)
//   log N              1: list the calls on simulated objects, 2: with their results
//
// Output: "call OP OBJ N RESULT" lines, "sched DECISIONS HASH", "end exit|signal|limit V",
// and "fault I" for each fault that was applied.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <grp.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXP 256
#define MAXF 64
#define MAXARG 4096
#define MAXFD 32
#define MAXOBJ 512
#define CALL_READ 1000   // SYS_read is 0, which means no call

typedef struct { char op[8]; char obj[4200]; long n; char act; long v; int used; } Fault;
typedef struct { int fd; char kind[8]; char *data; long len; } FdSpec;
typedef struct {
  pid_t pid, parent;
  int alive;        // 0 unused, 1 alive
  int ready;        // stopped, may be resumed
  int fresh;        // stop seen before its creation event
  int call;         // blocking call it is stopped at (0: none)
  long a0, a1, a2;
  int vfork_wait;   // vfork parent
  int zombies;      // exited children not yet waited for
  int children;
  int inexit;       // stopped at syscall exit expected
  char op[8]; char obj[4200]; long n; int sig;
  int chld_pending;
} Proc;

static Fault faults[MAXF]; static int nfaults;
static FdSpec fds[MAXFD]; static int nfds;
static char *args[MAXARG + 1], *envs[MAXARG + 1]; static int nargs, nenvs;
static char *exe, cwd[4096]; static size_t cwdlen;
static uint64_t rng = 1; static long uid, mem, sys_cap = 2000000, cpu_cap = 20, dolog, fsize_cap = 1 << 26, as_cap, persona, nofile;
static Proc procs[MAXP]; static int nprocs;
static struct { char op[8]; char obj[4200]; long n; } counts[MAXOBJ]; static int ncounts;
static long ncalls, decisions; static uint64_t schash = 1469598103934665603ULL;
static char pipename[64];

static void die(const char *m) { printf("end error %s errno=%d\n", m, errno); fflush(stdout); _exit(3); }

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static char *unhex(const char *s, long *len) {
  long n = strlen(s) / 2; char *r = malloc(n + 1);
  for (long i = 0; i < n; i++) r[i] = hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]);
  r[n] = 0; if (len) *len = n; return r;
}
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ULL; }

static void read_spec(void) {
  char *line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    if (line[n - 1] == '\n') line[--n] = 0;
    char *k = strtok(line, " "); if (!k) continue;
    char *a = strtok(NULL, " "), *b = strtok(NULL, " "), *c = strtok(NULL, " "), *d = strtok(NULL, " "), *e = strtok(NULL, " ");
    if (!strcmp(k, "cwd")) { if (!realpath(a, cwd)) die("cwd"); cwdlen = strlen(cwd); }
    else if (!strcmp(k, "exe")) exe = strdup(a);
    else if (!strcmp(k, "arg")) { if (nargs < MAXARG) args[nargs++] = unhex(a ? a : "", 0); }
    else if (!strcmp(k, "env")) { if (nenvs < MAXARG) envs[nenvs++] = unhex(a ? a : "", 0); }
    else if (!strcmp(k, "fd")) { FdSpec *f = &fds[nfds++]; f->fd = atoi(a); strcpy(f->kind, b); f->data = unhex(c ? c : "", &f->len); }
    else if (!strcmp(k, "seed")) rng = strtoull(a, 0, 10) * 2654435761ULL + 88172645463325252ULL;
    else if (!strcmp(k, "uid")) uid = atol(a);
    else if (!strcmp(k, "mem")) mem = atol(a);
    else if (!strcmp(k, "sys")) sys_cap = atol(a);
    else if (!strcmp(k, "cpu")) cpu_cap = atol(a);
    else if (!strcmp(k, "fsize")) fsize_cap = atol(a);
    else if (!strcmp(k, "nofile")) nofile = atol(a);
    else if (!strcmp(k, "persona")) persona = atol(a);
    else if (!strcmp(k, "as")) as_cap = atol(a);
    else if (!strcmp(k, "log")) dolog = atol(a);
    else if (!strcmp(k, "fault")) {
      Fault *f = &faults[nfaults++]; strcpy(f->op, a); strcpy(f->obj, unhex(b, 0)); f->n = atol(c); f->act = d[0]; f->v = atol(e);
    }
  }
}

static void setfilter(void) {
  int nrs[] = { SYS_read, SYS_write, SYS_open, SYS_openat, SYS_creat, SYS_wait4, SYS_waitid, SYS_rt_sigsuspend, SYS_pause, SYS_poll, SYS_ppoll,
                SYS_select, SYS_pselect6, SYS_brk, SYS_mmap, SYS_writev, SYS_readv };
  int n = sizeof nrs / sizeof *nrs; struct sock_filter f[64]; int k = 0;
  f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < n; i++) {
    if ((nrs[i] == SYS_brk || nrs[i] == SYS_mmap) && !mem) continue;
    f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], 0, 1);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  }
  f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  struct sock_fprog p = { k, f };
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) _exit(126);
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) _exit(126);
}

static Proc *find(pid_t p) { for (int i = 0; i < nprocs; i++) if (procs[i].alive && procs[i].pid == p) return &procs[i]; return 0; }
static Proc *add(pid_t p, pid_t parent) {
  Proc *q = find(p);
  if (!q) {
    for (int i = 0; i < nprocs && !q; i++) if (!procs[i].alive) q = &procs[i];
    if (!q) { if (nprocs == MAXP) die("processes"); q = &procs[nprocs++]; }
    memset(q, 0, sizeof *q); q->pid = p; q->alive = 1;
  }
  if (parent) { q->parent = parent; Proc *pp = find(parent); if (pp) pp->children++; }
  return q;
}

static long peekstr(pid_t pid, unsigned long addr, char *buf, long cap) {
  long i = 0;
  while (i < cap - 1) {
    errno = 0; long w = ptrace(PTRACE_PEEKDATA, pid, addr + i, 0); if (errno) break;
    for (int k = 0; k < 8 && i < cap - 1; k++, i++) { buf[i] = w >> (8 * k); if (!buf[i]) return i; }
  }
  buf[i] = 0; return i;
}

// Name of the simulated object behind a path or a descriptor; empty if it isn't one.
static void objpath(const char *p, char *out) {
  out[0] = 0;
  if (p[0] == '/') { if (strncmp(p, cwd, cwdlen) || p[cwdlen] != '/') return; p += cwdlen + 1; }
  while (p[0] == '.' && p[1] == '/') p += 2;
  if (!p[0] || strlen(p) > 4000) return;
  strcpy(out, p);
}
static void objfd(pid_t pid, long fd, char *out) {
  char l[64], t[4400]; out[0] = 0;
  snprintf(l, sizeof l, "/proc/%d/fd/%ld", pid, fd); ssize_t n = readlink(l, t, sizeof t - 1); if (n < 0) return;
  t[n] = 0;
  if (pipename[0] && !strcmp(t, pipename)) { strcpy(out, "stdin"); return; }
  if (t[0] == '/') objpath(t, out);
}
static int fdready(pid_t pid, long fd, int wr) {
  char l[64], t[256]; struct stat st;
  snprintf(l, sizeof l, "/proc/%d/fd/%ld", pid, fd); ssize_t n = readlink(l, t, 255); if (n < 0) return 1; t[n] = 0;
  if (strncmp(t, "pipe:", 5)) return 1;
  if (stat(l, &st)) return 1;
  int h = open(l, (wr ? O_WRONLY : O_RDONLY) | O_NONBLOCK); if (h < 0) return 1;
  struct pollfd p = { h, wr ? POLLOUT : POLLIN, 0 }; int r = poll(&p, 1, 0); close(h);
  return r > 0;
}
static long count(const char *op, const char *obj) {
  for (int i = 0; i < ncounts; i++) if (!strcmp(counts[i].op, op) && !strcmp(counts[i].obj, obj)) return counts[i].n++;
  if (ncounts == MAXOBJ) return 1 << 30;
  strcpy(counts[ncounts].op, op); strcpy(counts[ncounts].obj, obj); counts[ncounts].n = 1; ncounts++; return 0;
}
static void show(const char *op, const char *obj, long n, long r) {
  printf("call %s ", op); for (const char *p = obj; *p; p++) printf("%02x", (unsigned char)*p);
  printf(" %ld %ld\n", n, r);
}

// A stop at the entry of a traced call. Returns the request to resume with.
static void entry(Proc *p) {
  struct user_regs_struct r; char path[4200];
  if (ptrace(PTRACE_GETREGS, p->pid, 0, &r)) return;
  ncalls++;
  long nr = r.orig_rax; const char *op = 0; p->obj[0] = 0; p->call = 0; p->inexit = 0; p->op[0] = 0;
  switch (nr) {
    case SYS_open: case SYS_creat: op = "open"; peekstr(p->pid, r.rdi, path, sizeof path); objpath(path, p->obj); break;
    case SYS_openat: op = "open"; peekstr(p->pid, r.rsi, path, sizeof path); if ((int)r.rdi == AT_FDCWD || path[0] == '/') objpath(path, p->obj); break;
    case SYS_read: case SYS_readv: op = "read"; objfd(p->pid, r.rdi, p->obj); p->call = CALL_READ; p->a0 = r.rdi; break;
    case SYS_write: case SYS_writev: op = "write"; objfd(p->pid, r.rdi, p->obj); p->call = SYS_write; p->a0 = r.rdi; break;
    case SYS_wait4: if (!(r.rdx & WNOHANG)) p->call = SYS_wait4; p->a0 = (int)r.rdi; break;
    case SYS_waitid: if (!(r.r10 & WNOHANG)) p->call = SYS_wait4; p->a0 = -1; break;
    case SYS_rt_sigsuspend: case SYS_pause: p->call = SYS_pause; break;
    case SYS_poll: case SYS_ppoll: case SYS_select: case SYS_pselect6: p->call = SYS_poll; break;
    case SYS_brk: op = "mem"; strcpy(p->obj, "brk"); if (r.rdi == 0) op = 0; break;
    case SYS_mmap: op = "mem"; strcpy(p->obj, "mmap"); if ((int)r.r8 != -1) op = 0; break;
  }
  if (!op || !p->obj[0]) { p->obj[0] = 0; return; }
  p->n = count(op, p->obj); strcpy(p->op, op);
  for (int i = 0; i < nfaults; i++) {
    Fault *f = &faults[i];
    if (strcmp(f->op, op) || strcmp(f->obj, p->obj) || !(f->n == p->n || (f->n < 0 && p->n >= -f->n - 1))) continue;
    if (f->act == 'e') {
      r.orig_rax = -1; r.rax = nr == SYS_brk ? 0 : -f->v;
      ptrace(PTRACE_SETREGS, p->pid, 0, &r); f->used++; p->call = 0; p->op[0] = 0;
      if (dolog) show(op, p->obj, p->n, -f->v);
      return;
    }
    if (f->act == 's' && (nr == SYS_read || nr == SYS_write) && (long)r.rdx > f->v && f->v > 0) {
      r.rdx = f->v; ptrace(PTRACE_SETREGS, p->pid, 0, &r); f->used++;
    }
  }
  if (dolog == 1 && strcmp(op, "mem")) show(op, p->obj, p->n, 0);
  p->inexit = dolog > 1 && strcmp(op, "mem");
}

static int eligible(Proc *p) {
  if (!p->alive || !p->ready) return 0;
  switch (p->call) {
    case CALL_READ: return fdready(p->pid, p->a0, 0);
    case SYS_write: return fdready(p->pid, p->a0, 1);
    case SYS_wait4:
      if (p->children == 0) return 1;
      if (p->a0 > 0) { Proc *c = find(p->a0); return !c || c->parent != p->pid; }
      return p->zombies > 0;
    case SYS_pause: return p->chld_pending || p->children == 0; // SIGCHLD was sent and not yet delivered
  }
  return 1;
}

static void resume(Proc *p) {
  int sig = p->sig; p->sig = 0; p->ready = 0; if (sig == SIGCHLD) p->chld_pending = 0;
  if (p->call == SYS_wait4 && p->zombies) { p->zombies--; }
  p->call = 0;
  ptrace(p->inexit ? PTRACE_SYSCALL : PTRACE_CONT, p->pid, 0, sig);
}

static pid_t root; static int rootstatus = -1;
static int running; static volatile int ticks; static void tick(int s) { ticks++; }

// One wait event.
static int event(int flags) {
  int st; pid_t pid = waitpid(-1, &st, __WALL | flags);
  if (pid <= 0) return pid == 0 ? 0 : -1;
  Proc *p = find(pid);
  if (WIFEXITED(st) || WIFSIGNALED(st)) {
    if (pid == root) rootstatus = st;
    if (p) {
      p->alive = 0; running -= !p->ready;
      Proc *pp = find(p->parent); if (pp) { pp->zombies++; pp->children--; pp->chld_pending = 1; if (pp->vfork_wait == pid) pp->vfork_wait = 0; }
    }
    return 1;
  }
  if (!WIFSTOPPED(st)) return 1;
  if (!p) { p = add(pid, 0); p->fresh = 1; p->ready = 1; return 1; }
  int sig = WSTOPSIG(st), ev = st >> 16;
  if (p->ready) return 1;
  running--; p->ready = 1;
  if (ev == PTRACE_EVENT_SECCOMP) entry(p);
  else if (sig == (SIGTRAP | 0x80)) {
    if (p->inexit) {
      struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r);
      if (p->op[0] && !((long)r.rax >= -516 && (long)r.rax <= -512)) show(p->op, p->obj, p->n, (long)r.rax);
      p->inexit = 0;
    }
  } else if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) {
    unsigned long c; ptrace(PTRACE_GETEVENTMSG, pid, 0, &c);
    Proc *q = find(c); int seen = q != 0;
    q = add(c, pid); p = find(pid);
    if (!seen) {       // wait for the child's first stop
      int s2; if (waitpid(c, &s2, __WALL) == (pid_t)c && WIFSTOPPED(s2)) q->ready = 1;
    }
    if (ev == PTRACE_EVENT_VFORK) { p->vfork_wait = c; }
  } else if (ev == PTRACE_EVENT_EXEC) {
    for (int i = 0; i < nprocs; i++) if (procs[i].alive && procs[i].vfork_wait == pid) procs[i].vfork_wait = 0;
  } else if (ev == 0 && sig != SIGTRAP) {
    if (sig != SIGSTOP) p->sig = sig;
  }
  return 1;
}

int main(void) {
  read_spec();
  if (!exe || !cwd[0]) die("spec");
  cpu_set_t cs; CPU_ZERO(&cs); int cpu = sched_getcpu();   // everything is serial: one processor is faster
  if (cpu >= 0) { CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
  if (chdir(cwd)) die("chdir");
  if (uid) { if (setgroups(0, 0) || setgid(uid) || setuid(uid)) die("setuid"); }
  int hold[MAXFD]; 
  for (int i = 0; i < nfds; i++) {
    hold[i] = -1; FdSpec *f = &fds[i];
    if (!strcmp(f->kind, "pipe")) {
      int pp[2]; if (pipe(pp)) die("pipe");
      if (f->len > 60000) fcntl(pp[1], F_SETPIPE_SZ, f->len + 4096);
      fcntl(pp[1], F_SETFL, O_NONBLOCK);
      if (write(pp[1], f->data, f->len) != f->len) die("pipe write");
      close(pp[1]); hold[i] = fcntl(pp[0], F_DUPFD, 100); close(pp[0]);
      if (f->fd == 0) { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", hold[i]); ssize_t n = readlink(l, pipename, 63); pipename[n > 0 ? n : 0] = 0; }
    } else if (strcmp(f->kind, "close")) {
      int fl = f->kind[0] == 'r' ? (f->kind[1] == 'w' ? O_RDWR | O_CREAT : O_RDONLY) : O_WRONLY | O_CREAT | (f->kind[0] == 'a' ? O_APPEND : O_TRUNC);
      int h = open(f->data, fl, 0644); if (h < 0) die("open fd");
      hold[i] = fcntl(h, F_DUPFD, 100); close(h);
    }
  }
  fflush(stdout);
  root = fork();
  if (root == 0) {
    personality(ADDR_NO_RANDOMIZE | persona);
    setpgid(0, 0);
    for (int i = 0; i < nfds; i++) if (hold[i] < 0) close(fds[i].fd);
    for (int i = 0; i < nfds; i++) if (hold[i] >= 0) dup2(hold[i], fds[i].fd);
    for (int i = 100; i < 100 + MAXFD; i++) close(i);
    struct rlimit rl = { cpu_cap, cpu_cap + 1 }; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    if (fsize_cap) { rl.rlim_cur = rl.rlim_max = fsize_cap; setrlimit(RLIMIT_FSIZE, &rl); }
    if (nofile) { rl.rlim_cur = rl.rlim_max = nofile; setrlimit(RLIMIT_NOFILE, &rl); }
    if (as_cap) { rl.rlim_cur = rl.rlim_max = as_cap; setrlimit(RLIMIT_AS, &rl); }
    umask(022);
    for (int i = 1; i < 32; i++) signal(i, SIG_DFL);
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    setfilter();
    args[nargs] = 0; envs[nenvs] = 0;
    execve(exe, args, envs);
    _exit(127);
  }
  if (root < 0) die("fork");
  for (int i = 0; i < nfds; i++) if (hold[i] >= 0) close(hold[i]);
  int st; if (waitpid(root, &st, __WALL) != root || !WIFSTOPPED(st)) die("trace");
  if (ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK |
             PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC)) die("options");
  Proc *p = add(root, 0); p->ready = 1;
  struct sigaction sa = { .sa_handler = tick }; sigaction(SIGALRM, &sa, 0);
  struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_REAL, &it, 0);
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  const char *why = 0; long escapes = 0;
  for (;;) {
    int alive = 0; for (int i = 0; i < nprocs; i++) alive += procs[i].alive;
    if (!alive) break;
    if (ncalls > sys_cap) { why = "calls"; break; }
    clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > cpu_cap * 4 + 20) { why = "time"; break; }
    if (running == 0) {
      int el[MAXP], n = 0;
      for (int i = 0; i < nprocs; i++) if (eligible(&procs[i]) && !(procs[i].vfork_wait && find(procs[i].vfork_wait) && !procs[i].ready)) el[n++] = i;
      if (n == 0) {      // nobody can be shown to be able to go on: let everyone try
        int any = 0; escapes++;
        for (int i = 0; i < nprocs; i++) if (procs[i].alive && procs[i].ready) { running++; resume(&procs[i]); any = 1; }
        if (!any) { why = "stuck"; break; }
      } else {
        int k = 0;
        if (n > 1) { k = rnd() % n; decisions++; }
        schash = (schash ^ (el[k] + 1 + n * 16)) * 1099511628211ULL;
        Proc *q = &procs[el[k]];
        running++; resume(q);
        if (q->vfork_wait && find(q->vfork_wait)) { running--; /* asleep until its child execs or exits */
          Proc *c = find(q->vfork_wait); if (c->ready) { running++; resume(c); } }
      }
    }
    int r = event(0);
    if (r < 0) {
      if (errno != EINTR) break;
      if (ticks >= 2) {   // the running process sleeps in a call not known to block
        escapes++; ticks = 0;
        for (int i = 0; i < nprocs; i++) if (procs[i].alive && procs[i].ready) resume(&procs[i]);
      }
      continue;
    }
    ticks = 0;
    // a vfork parent that woke up reports on its own: count it back
    int act = 0; for (int i = 0; i < nprocs; i++) act += procs[i].alive && !procs[i].ready && !(procs[i].vfork_wait && find(procs[i].vfork_wait) && !procs[i].ready);
    running = act;
  }
  if (why) { kill(-root, SIGKILL); for (int i = 0; i < nprocs; i++) if (procs[i].alive) kill(procs[i].pid, SIGKILL); while (waitpid(-1, &st, __WALL) > 0); }
  for (int i = 0; i < nfaults; i++) if (faults[i].used) printf("fault %d %d\n", i, faults[i].used);
  printf("sched %ld %016llx %ld %ld\n", decisions, (unsigned long long)schash, ncalls, escapes);
  if (why) printf("end limit %s\n", why);
  else if (rootstatus == -1) printf("end error lost\n");
  else if (WIFEXITED(rootstatus)) printf("end exit %d\n", WEXITSTATUS(rootstatus));
  else printf("end signal %d\n", WTERMSIG(rootstatus));
  return 0;
}
