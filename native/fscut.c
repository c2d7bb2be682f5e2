// fscut PREFIX MODE N ERRNO LOG command...
//
// Runs a command and counts its system calls on files below PREFIX, between looking up the paths
// /verif-mark-on and /verif-mark-off. At the N-th of them (1-based) it interferes:
//   count  not at all
//   kill   SIGKILL to the whole process before the call takes effect
//   torn   a write takes effect for its first half only, any other call completely; then SIGKILL
//   fail   the call fails with ERRNO, once
//   dead   this and all later calls fail with ERRNO
//   full   this and all later calls that need space fail with ERRNO
// LOG receives one line per counted call, and "total K" at the end.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXT 4096
static struct thr { pid_t tid; int inside; int act; long ret; } thr[MAXT];
static int nthr;

static struct thr *get(pid_t tid) {
  for (int i = 0; i < nthr; i++) if (thr[i].tid == tid) return &thr[i];
  if (nthr == MAXT) exit(99);
  thr[nthr].tid = tid; thr[nthr].inside = 0; thr[nthr].act = 0;
  return &thr[nthr++];
}

static void peekstr(pid_t tid, unsigned long addr, char *out, size_t cap) {
  size_t n = 0;
  out[0] = 0;
  while (n + sizeof(long) < cap) {
    errno = 0;
    long w = ptrace(PTRACE_PEEKDATA, tid, (void *)(addr + n), 0);
    if (errno) break;
    memcpy(out + n, &w, sizeof w);
    if (memchr(&w, 0, sizeof w)) return;
    n += sizeof w;
  }
  out[n] = 0;
}

static void fdpath(pid_t pid, int fd, char *out, size_t cap) {
  char link[64];
  snprintf(link, sizeof link, "/proc/%d/fd/%d", pid, fd);
  ssize_t n = readlink(link, out, cap - 1);
  out[n < 0 ? 0 : n] = 0;
}

// kind of a call: 0 not interesting, 1 path in arg0, 2 path in arg1, 3 file descriptor in arg0
static int kind(long nr) {
  switch (nr) {
  case SYS_open: case SYS_creat: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_rename: case SYS_unlink:
  case SYS_mkdir: case SYS_rmdir: case SYS_link: case SYS_truncate: case SYS_chmod: case SYS_symlink:
    return 1;
  case SYS_openat: case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: case SYS_renameat:
  case SYS_renameat2: case SYS_unlinkat: case SYS_mkdirat: case SYS_linkat: case SYS_fchmodat: case SYS_utimensat: case SYS_openat2:
    return 2;
  case SYS_read: case SYS_pread64: case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_ftruncate:
  case SYS_fsync: case SYS_fdatasync: case SYS_fchmod: case SYS_fallocate: case SYS_getdents64: case SYS_fstat:
  case SYS_copy_file_range: case SYS_sendfile:
    return 3;
  }
  return 0;
}

static int iswrite(long nr) { return nr == SYS_write || nr == SYS_pwrite64; }

static int needsspace(long nr, struct user_regs_struct *r) {
  switch (nr) {
  case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_fallocate: case SYS_copy_file_range: case SYS_sendfile:
  case SYS_creat: case SYS_mkdir: case SYS_mkdirat: case SYS_link: case SYS_linkat: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_fsync:
    return 1;
  case SYS_open: return (r->rsi & O_CREAT) != 0;
  case SYS_openat: return (r->rdx & O_CREAT) != 0;
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 7) return 99;
  const char *prefix = argv[1], *mode = argv[2];
  long n = atol(argv[3]), en = atol(argv[4]), count = 0;
  FILE *log = fopen(argv[5], "w");
  if (!log) return 99;
  size_t plen = strlen(prefix);
  int active = 0;
  pid_t child = fork();
  if (child == 0) {
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    execv(argv[6], argv + 6);
    _exit(98);
  }
  int st;
  waitpid(child, &st, 0);
  ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL);
  ptrace(PTRACE_SYSCALL, child, 0, 0);
  int code = 97;
  for (;;) {
    pid_t tid = waitpid(-1, &st, __WALL);
    if (tid < 0) break;
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (tid == child) { code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); break; }
      continue;
    }
    int sig = WSTOPSIG(st);
    struct thr *t = get(tid);
    if (sig != (SIGTRAP | 0x80)) {
      int deliver = (sig == SIGTRAP || sig == SIGSTOP) ? 0 : sig;
      ptrace(PTRACE_SYSCALL, tid, 0, deliver);
      continue;
    }
    struct user_regs_struct r;
    if (ptrace(PTRACE_GETREGS, tid, 0, &r) < 0) { ptrace(PTRACE_SYSCALL, tid, 0, 0); continue; }
    if (!t->inside) {
      t->inside = 1;
      long nr = r.orig_rax;
      int k = kind(nr);
      char path[PATH_MAX] = "";
      if (k == 1) peekstr(tid, r.rdi, path, sizeof path);
      else if (k == 2) peekstr(tid, r.rsi, path, sizeof path);
      else if (k == 3) fdpath(tid, r.rdi, path, sizeof path);
      if (k == 1 || k == 2) {
        if (!strcmp(path, "/verif-mark-on")) active = 1;
        if (!strcmp(path, "/verif-mark-off")) active = 0;
      }
      if (active && k && !strncmp(path, prefix, plen)) {
        count++;
        fprintf(log, "%ld %ld %s\n", count, nr, path + plen);
        int hit = count == n;
        if (!strcmp(mode, "kill") && hit) { kill(child, SIGKILL); }
        else if (!strcmp(mode, "torn") && hit) {
          if (iswrite(nr)) { r.rdx /= 2; ptrace(PTRACE_SETREGS, tid, 0, &r); }
          t->act = 1;
        } else if ((!strcmp(mode, "fail") && hit) || (!strcmp(mode, "dead") && count >= n) || (!strcmp(mode, "full") && count >= n && needsspace(nr, &r))) {
          r.orig_rax = -1;
          ptrace(PTRACE_SETREGS, tid, 0, &r);
          t->act = 2;
        }
      }
    } else {
      t->inside = 0;
      if (t->act == 1) { kill(child, SIGKILL); }
      if (t->act == 2) { r.rax = -en; ptrace(PTRACE_SETREGS, tid, 0, &r); }
      t->act = 0;
    }
    ptrace(PTRACE_SYSCALL, tid, 0, 0);
  }
  fprintf(log, "total %ld\n", count);
  fclose(log);
  return code;
}
