#include "h.h"
#include <sys/types.h>

const char *PROP;
static uint64_t st = 88172645463325252ull;
static double tend;
static char now_doing[200000];
static char scratch[200];
static bool quiet_net;

uint64_t rn(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
long rnd(long n) { return n <= 0 ? 0 : (long)((rn() >> 11) % (uint64_t)n); }
long pick(const long *v, int n) { return v[rnd(n)]; }
char *rstr(char *out, long len, const char *al) {
  long m = strlen(al);
  for (long i = 0; i < len; i++) out[i] = al[rnd(m)];
  out[len] = 0;
  return out;
}
char *hmem(const char *s, long n) { char *p = malloc(n > 0 ? n : 1); memcpy(p, s, n); return p; }
char *hstr(const char *s) { return hmem(s, strlen(s) + 1); }
static double secs(void) { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec / 1e6; }
bool later(void) { return secs() > tend; }
const char *esc(const char *s, long n) {
  static char b[8][20000];
  static int k;
  char *o = b[k++ & 7];
  long j = 0;
  if (!s) return "(null)";
  o[j++] = '"';
  for (long i = 0; i < n && j < 19000; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o[j++] = '\\'; o[j++] = c; }
    else if (c == '\n') { o[j++] = '\\'; o[j++] = 'n'; }
    else if (c == '\r') { o[j++] = '\\'; o[j++] = 'r'; }
    else if (c == '\t') { o[j++] = '\\'; o[j++] = 't'; }
    else if (c < 32 || c > 126) j += sprintf(o + j, "\\x%02x", c);
    else o[j++] = c;
  }
  o[j++] = '"';
  o[j] = 0;
  return o;
}
const char *esz(const char *s) { return s ? esc(s, strlen(s)) : "(null)"; }
void doing(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(now_doing, sizeof now_doing, fmt, a); va_end(a); }
void doingmore(const char *fmt, ...) { va_list a; va_start(a, fmt); size_t n = strlen(now_doing); vsnprintf(now_doing + n, sizeof now_doing - n, fmt, a); va_end(a); }
void fail(const char *fmt, ...) {
  va_list a;
  printf("FAIL %s\ninput: %s\n", PROP, now_doing);
  va_start(a, fmt);
  vprintf(fmt, a);
  va_end(a);
  printf("\n");
  fflush(stdout);
  _exit(3);
}
static void death(void) {
  printf("FAIL %s\ninput: %s\nmemory error, or another error the sanitizers report (see stderr)\n", PROP, now_doing);
  fflush(stdout);
}
static void toolong(int s) {
  printf("FAIL %s\ninput: %s\nno result after 20 s of processor time\n", PROP, now_doing);
  fflush(stdout);
  _exit(3);
}
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

// ------------------------------------------------------------ files
vfile vfs[256];
int nvfs;
char opened[64][1200];
char openmode[64][8];
int nopened;
char removed[16][1200];
int nremoved;
FILE *__real_fopen(const char *, const char *);
int __real_unlink(const char *);
int __real_stat(const char *, struct stat *);
static int serial;
bool vall;
void vreset(void) {
  for (int i = 0; i < nvfs; i++)
    if (vfs[i].used && !vfs[i].dir) __real_unlink(vfs[i].real);
  nvfs = 0; nopened = 0; nremoved = 0;
}
vfile *vfind(const char *name) {
  for (int i = 0; i < nvfs; i++)
    if (vfs[i].used && !strcmp(vfs[i].name, name)) return &vfs[i];
  return NULL;
}
static vfile *vnew(const char *name) {
  vfile *f = vfind(name);
  if (f) return f;
  if (nvfs == 256) return &vfs[255];
  f = &vfs[nvfs++];
  memset(f, 0, sizeof *f);
  snprintf(f->name, sizeof f->name, "%s", name);
  snprintf(f->real, sizeof f->real, "%s/f%d", scratch, serial++ % 4000);
  f->used = true;
  return f;
}
void vput(const char *name, const char *data, long n) {
  vfile *f = vnew(name);
  FILE *o = __real_fopen(f->real, "wb");
  if (o) { fwrite(data, 1, n, o); fclose(o); }
}
void vdir(const char *name) { vnew(name)->dir = true; }
char *vread(vfile *f, long *n) {
  FILE *i = __real_fopen(f->real, "rb");
  char *b = calloc(1 << 20, 1);
  *n = i ? fread(b, 1, (1 << 20) - 1, i) : 0;
  if (i) fclose(i);
  return b;
}
FILE *__wrap_fopen(const char *name, const char *mode) {
  if (nopened < 64) { snprintf(opened[nopened], 1200, "%s", name); snprintf(openmode[nopened], 8, "%s", mode); nopened++; }
  vfile *f = vfind(name);
  if (f && f->dir) { errno = EISDIR; return NULL; }
  if (mode[0] == 'r') {
    if (!f && vall && name[0] && name[strlen(name) - 1] != '/') { vput(name, "dummy", 5); f = vfind(name); }
    if (!f) { errno = ENOENT; return NULL; }
    return __real_fopen(f->real, mode);
  }
  if (!f) { f = vnew(name); f->made = true; if (mode[0] == 'a') __real_unlink(f->real); }
  return __real_fopen(f->real, mode);
}
FILE *__wrap_fopen64(const char *name, const char *mode) { return __wrap_fopen(name, mode); }
int __wrap_stat(const char *name, struct stat *s) {
  vfile *f = vfind(name);
  if (!f && vall && name[0] && name[strlen(name) - 1] != '/') { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
  if (!f) { errno = ENOENT; return -1; }
  memset(s, 0, sizeof *s);
  s->st_mode = f->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  return 0;
}
int __wrap_mkdir(const char *name, mode_t m) {
  if (vfind(name)) { errno = EEXIST; return -1; }
  vdir(name);
  return 0;
}
int __wrap_remove(const char *name) {
  vfile *f = vfind(name);
  if (nremoved < 16) snprintf(removed[nremoved++], 1200, "%s", name);
  if (!f) { errno = ENOENT; return -1; }
  if (!f->dir) __real_unlink(f->real);
  f->used = false;
  return 0;
}
int __wrap_unlink(const char *name) { return __wrap_remove(name); }
int __wrap_rename(const char *a, const char *b) { vfile *f = vfind(a); if (!f) return -1; __wrap_remove(b); snprintf(f->name, sizeof f->name, "%s", b); return 0; }

// ------------------------------------------------------------ network
char *net_in, *net_out;
long net_inlen, net_inpos, net_outlen;
static long net_cap;
int net_fd, net_closed, net_sent_after_close, net_wrong_fd;
char peer[32] = "10.0.0.1";
void netreset(int fd, const char *in, long n) {
  free(net_in);
  net_in = hmem(in, n);
  net_inlen = n; net_inpos = 0; net_outlen = 0; net_fd = fd; net_closed = 0; net_sent_after_close = 0; net_wrong_fd = 0;
  if (!net_out) net_out = malloc(net_cap = 1 << 16);
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) {
  if (fd != net_fd) net_wrong_fd++;
  long k = net_inlen - net_inpos;
  if (k > (long)n) k = n;
  memcpy(b, net_in + net_inpos, k);
  if (!(flags & MSG_PEEK)) net_inpos += k;
  return k;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) {
  if (fd != net_fd) net_wrong_fd++;
  if (net_closed) net_sent_after_close++;
  if (!net_out) net_out = malloc(net_cap = 1 << 16);
  while (net_outlen + (long)n + 1 > net_cap) net_out = realloc(net_out, net_cap *= 2);
  memcpy(net_out + net_outlen, b, n);
  net_outlen += n;
  net_out[net_outlen] = 0;
  return n;
}
int (*close_hook)(int);
int __real_close(int);
int __wrap_close(int fd) {
  if (close_hook) return close_hook(fd);
  if (fd == net_fd) net_closed++;
  else net_wrong_fd++;
  return 0;
}
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  struct sockaddr_in *s = (void *)a;
  memset(s, 0, sizeof *s);
  s->sin_family = AF_INET;
  s->sin_addr.s_addr = inet_addr(peer);
  return 0;
}
// ------------------------------------------------------------ locks
int locks;
bool jitter;
static __thread int held;
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (jitter) sched_yield(); int r = __real_pthread_mutex_lock(m); __sync_add_and_fetch(&locks, 1); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { __sync_sub_and_fetch(&locks, 1); return __real_pthread_mutex_unlock(m); }

// ------------------------------------------------------------ the properties
#define P(x) void t_##x(void) __attribute__((weak));
P(C01) P(C02) P(C03) P(C04) P(C05) P(C06) P(C07) P(C08) P(C09) P(C10) P(C11) P(C12) P(C13) P(C14) P(C15) P(C16) P(C17) P(C18) P(C19) P(C20) P(C21) P(C22) P(C23) P(C24) P(C25)
#undef P
int main(int argc, char **argv) {
  PROP = argv[1];
  tend = secs() + atof(argv[2]);
  st ^= (uint64_t)atol(argv[3]) * 0x9E3779B97F4A7C15ull;
  for (int i = 0; i < 20; i++) rn();
  snprintf(scratch, sizeof scratch, "%s", argv[4]);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  signal(SIGPROF, toolong);
  struct itimerval it = {{0, 0}, {20 + (long)atof(argv[2]), 0}};
  setitimer(ITIMER_PROF, &it, 0);
  struct { const char *n; void (*f)(void); } t[] = {
#define P(x) {#x, t_##x},
P(C01) P(C02) P(C03) P(C04) P(C05) P(C06) P(C07) P(C08) P(C09) P(C10) P(C11) P(C12) P(C13) P(C14) P(C15) P(C16) P(C17) P(C18) P(C19) P(C20) P(C21) P(C22) P(C23) P(C24) P(C25)
  };
  for (unsigned i = 0; i < sizeof t / sizeof *t; i++)
    if (!strcmp(t[i].n, PROP)) {
      if (!t[i].f) { printf("no harness\n"); return 0; }
      t[i].f();
      printf("ran %s\n", PROP);
      return 0;
    }
  return 0;
}
