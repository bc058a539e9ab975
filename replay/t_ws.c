// Access lists, limits, connection table, work queue, router and whole requests.
#include "h.h"
#include <openssl/evp.h>
#include "ws.h"
#include "router.h"
#include "string_utils.h"
#include "file_utils.h"
#include "log.h"
#include "wayuu_log.h"

extern char WAYUU_WS_ALLOW[], WAYUU_WS_DENY[];
void accept_request(int socket) __attribute__((weak));
bool connection_add(int socket, char *IP, char *path) __attribute__((weak));
bool connection_validate(char *IP, char *path) __attribute__((weak));
void get_live_stats(char *path, char *IP, int *total, int *by_ip) __attribute__((weak));

static void base(void) {
  static bool done;
  if (done) return;
  done = true;
  WAYUU_SSL_ON = false;
  log_set_level(LOG_FATAL);
  strcpy(WAYUU_WS_ROOT, "/r");
  strcpy(WAYUU_STATIC_ROOT, "/r/www");
  strcpy(WWW_INDEX, "/index.html");
  strcpy(FAVICON_URL, "/img/fav.ico");
  live_connections = calloc(sizeof(connections), WS_MAX_CONNECTIONS);
  limits = calloc(sizeof(path_limits), MAX_LIMIT_RULES);
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }

// ------------------------------------------------------------ allow and deny lists
static char *addr(void) {
  static char b[8][40];
  static int k;
  char *o = b[k++ & 7];
  if (rnd(3)) strcpy(o, ONEOF("10.0.0.1", "10.0.0.11", "110.0.0.1", "1.1.1.1", "10.0.0.2", "0.0.0.1"));
  else sprintf(o, "%ld.%ld.%ld.%ld", rnd(2) * 100 + rnd(20), rnd(2), rnd(2), rnd(256));
  return o;
}
static char *list(char *o) {           // a random list
  *o = 0;
  for (int n = rnd(5); n > 0; n--) {
    if (!rnd(3)) strcat(o, ONEOF(" ", "\t", "  ", "\r"));
    if (!rnd(5)) strcat(o, ONEOF("#", "ip ", "1", "", "\n"));
    strcat(o, addr());
    if (!rnd(5)) strcat(o, ONEOF("0", " 1.1.1.1", ".", "/8", ","));
    if (!rnd(3)) strcat(o, ONEOF(" ", "\t", "  ", "\r", " \r"));
    if (n > 1 || rnd(2)) strcat(o, "\n");
  }
  return o;
}
static bool listed(const char *l, const char *a) {
  while (l && *l) {
    const char *e = strchr(l, '\n'), *x = l, *y = e ? e : l + strlen(l);
    while (x < y && sp(*x)) x++;
    while (y > x && sp(y[-1])) y--;
    if ((long)strlen(a) == y - x && !memcmp(x, a, y - x)) return true;
    l = e ? e + 1 : NULL;
  }
  return false;
}
static bool setlists(char *al, char *dl, bool *ha, bool *hd) {
  vreset();
  *ha = rnd(2); *hd = rnd(4);
  if (*ha) vput("/r/etc/allow", al, strlen(al));
  if (*hd) vput("/r/etc/deny", dl, strlen(dl));
  doing("allow list %s, deny list %s", *ha ? esz(al) : "absent", *hd ? esz(dl) : "absent");
  return true;
}
void t_C03(void) {
  base();
  char al[1000], dl[1000];
  while (!later()) {
    bool ha, hd;
    list(al); list(dl);
    setlists(al, dl, &ha, &hd);
    for (int i = 0; i < 6; i++) {
      char *ip = hstr(addr()), *k = hstr(ip);
      if (rnd(2)) { WAYUU_WS_ALLOW[0] = 0; }
      bool w = !(hd && listed(dl, ip)) && (!ha || listed(al, ip));
      bool g = allowed_address(ip);
      CHECK(g == w, "address %s is %s, expected %s", ip, g ? "served" : "refused", w ? "served" : "refused");
      CHECK(!strcmp(ip, k), "the address changed");
      free(ip); free(k);
    }
  }
}

// ------------------------------------------------------------ limits file
void t_C18(void) {
  base();
  static char f[40000];
  while (!later()) {
    *f = 0;
    path_limits w[MAX_LIMIT_RULES];
    memset(w, 0, sizeof w);
    int n = 0, nl = rnd(6) ? rnd(8) : PICK(63, 64, 65, 70, 100);
    for (int i = 0; i < nl; i++) {
      char line[3000], path[900];
      int nf = nl > 20 ? 3 + rnd(2) : rnd(6), ex = rnd(8);
      int v[4] = {rnd(2) ? rnd(30) : rnd(3) ? rnd(100000) : -rnd(5), rnd(20), rnd(100), rnd(10)};
      rstr(path, rnd(8) ? rnd(12) : PICK(300, 510, 511, 512, 600), "/abc ");
      char first = nl > 20 || rnd(5) ? '/' : *ONEOF("#", " ", "a", ",");
      long m = sprintf(line, "%c%s", first, path);
      for (int k = 0; k < nf && k < 4; k++) m += sprintf(line + m, "%s%d", ex == 1 ? ",, " : ex == 2 ? ", " : ",", v[k]);
      if (ex == 3 && nf != 1) m += sprintf(line + m, ",");
      if (ex == 4 && nf) m += sprintf(line + m, "x");
      if (i + 1 < nl || rnd(2)) strcpy(line + m, "\n");
      strcat(f, line);
      if (first == '/' && nf >= 2 && n < MAX_LIMIT_RULES) {
        memset(&w[n], 0, sizeof w[n]);
        strncpy(w[n].path, line, strcspn(line, ",") < HTTP_MAX_PATH - 1 ? strcspn(line, ",") : HTTP_MAX_PATH - 1);
        w[n].max_connections = v[0];
        w[n].max_connections_per_ip = v[1];
        if (nf >= 3) w[n].max_seconds = v[2];
        n++;
      }
    }
    vreset();
    vput("/r/etc/limits", f, strlen(f));
    doing("limits file %s", esz(f));
    path_limits *l = load_limits();
    for (int i = 0; i < n; i++) {
      CHECK(memchr(l[i].path, 0, HTTP_MAX_PATH) && !strcmp(l[i].path, w[i].path), "rule %d is for %s, expected %s", i, esc(l[i].path, strnlen(l[i].path, HTTP_MAX_PATH)), esz(w[i].path));
      CHECK(l[i].max_connections == w[i].max_connections && l[i].max_connections_per_ip == w[i].max_connections_per_ip, "rule %d: limits %d, %d, expected %d, %d", i,
            l[i].max_connections, l[i].max_connections_per_ip, w[i].max_connections, w[i].max_connections_per_ip);
    }
    for (int i = n; i < MAX_LIMIT_RULES; i++) CHECK(!*l[i].path, "a rule %d for %s, only %d expected", i, esz(l[i].path), n);
    free(l);
  }
}

// ------------------------------------------------------------ connection table
bool __real_startswith(char *s, const char *p);
bool __wrap_startswith(char *s, const char *p) { bool r = __real_startswith(s, p); if (jitter && !(rn() & 3)) usleep(1 + (rn() & 63)); return r; }
static connections model[WS_MAX_CONNECTIONS];
static int lowlimit;
static volatile int over, bothlive;
static int nlive;
static void *adder(void *x) {
  long id = (long)x;
  for (int i = 0; i < 30; i++) {
    int fd = 100 + id * 100 + i;
    if (connection_add(fd, "1.1.1.1", "/api/x")) {
      int n = __sync_add_and_fetch(&nlive, 1);
      if (n > lowlimit) over = n;
      usleep(rnd(40));
      __sync_sub_and_fetch(&nlive, 1);
      connection_del(fd);
    }
  }
  return NULL;
}
static bool samenc(const char *s, const char *p) { return !strncasecmp(s, p, strlen(p)); }
void t_C04(void) {
  base();
  if (!connection_add) return;
  while (!later()) {
    memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
    memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
    memset(model, 0, sizeof model);
    int nr = rnd(4), fd = 5, big = !rnd(30);
    doing("limits:");
    for (int i = 0; i < nr; i++) {
      strcpy(limits[i].path, ONEOF("/", "/api", "/API/a", "/b", "/api/a/b"));
      limits[i].max_connections = big ? 2000 : rnd(6);
      limits[i].max_connections_per_ip = big ? 2000 : rnd(4);
      doingmore(" %s,%d,%d", limits[i].path, limits[i].max_connections, limits[i].max_connections_per_ip);
    }
    doingmore("; operations:");
    for (int k = big ? 1100 : rnd(40); k > 0; k--) {
      int live = 0;
      for (int i = 0; i < WS_MAX_CONNECTIONS; i++) live += model[i].socket != 0;
      if (live && !rnd(big ? 50 : 3)) {
        int i;
        i = rnd(WS_MAX_CONNECTIONS); while (!model[i].socket) i = (i + 1) % WS_MAX_CONNECTIONS;
        doingmore(" del(%d)", model[i].socket);
        connection_del(model[i].socket);
        memset(&model[i], 0, sizeof model[i]);
      } else {
        char *ip = ONEOF("1.1.1.1", "1.1.1.2", "11.1.1.1"), *p = ONEOF("/", "/api", "/api/a", "/Api/a/b", "/b/c", "/c", "");
        bool w = live < WS_MAX_CONNECTIONS;
        for (int i = 0; i < MAX_LIMIT_RULES && *limits[i].path; i++)
          if (samenc(p, limits[i].path)) {
            int t = 0, b = 0;
            for (int j = 0; j < WS_MAX_CONNECTIONS; j++)
              if (model[j].socket && samenc(model[j].path, limits[i].path)) { t++; b += !strcmp(model[j].IP, ip); }
            if (t >= limits[i].max_connections || b >= limits[i].max_connections_per_ip) w = false;
          }
        fd++;
        doingmore(" add(%d,%s,%s)", fd, ip, esz(p));
        bool g = connection_add(fd, ip, p);
        CHECK(g == w, "the last connection was %s, expected %s", g ? "admitted" : "refused", w ? "admitted" : "refused");
        if (w)
          for (int j = 0; j < WS_MAX_CONNECTIONS; j++)
            if (live_connections[j].socket == fd) { model[j].socket = fd; strcpy(model[j].path, p); strcpy(model[j].IP, ip); }
      }
      CHECK(locks == 0, "%d mutexes held after the last operation", locks);
      int nl = 0, nm = 0;
      for (int j = 0; j < WS_MAX_CONNECTIONS; j++) {
        nl += live_connections[j].socket != 0;
        nm += model[j].socket != 0;
        CHECK(live_connections[j].socket == model[j].socket && (!model[j].socket || (!strcmp(live_connections[j].path, model[j].path) && !strcmp(live_connections[j].IP, model[j].IP))),
              "slot %d holds (%d,%s,%s), expected (%d,%s,%s)", j, live_connections[j].socket, esz(live_connections[j].path), live_connections[j].IP, model[j].socket, esz(model[j].path), model[j].IP);
      }
    }
    // several threads at once
    if (!rnd(6)) {
      memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
      memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
      strcpy(limits[0].path, "/api");
      limits[0].max_connections = 2;
      limits[0].max_connections_per_ip = 2;
      lowlimit = 2; over = 0; nlive = 0;
      doing("6 threads adding and removing connections below /api, limit 2");
      jitter = true;
      pthread_t t[6];
      for (long i = 0; i < 6; i++) pthread_create(&t[i], NULL, adder, (void *)i);
      for (int i = 0; i < 6; i++) pthread_join(t[i], NULL);
      jitter = false;
      CHECK(!over, "%d connections were live at once", over);
      for (int j = 0; j < WS_MAX_CONNECTIONS; j++) CHECK(!live_connections[j].socket, "a slot is still taken by %d", live_connections[j].socket);
    }
  }
}

// ------------------------------------------------------------ work queue
extern int (*close_hook)(int);
static bool q_on;
static int q_script, q_phase, q_n1, q_n2, q_workers;
static volatile int q_handled[8000], q_nhandled, q_closed[8000], q_slow;
static char q_denied[8000];
static void *(*q_start)(void *);
static void *q_arg;
static pthread_mutex_t q_m = PTHREAD_MUTEX_INITIALIZER;
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  if (!q_on) return __real_pthread_create(t, a, f, x);
  q_start = f; q_arg = x;
  return 0;
}
int __real_socket(int, int, int);
int __wrap_socket(int a, int b, int c) { return 3; }
int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) { return 0; }
int __wrap_listen(int a, int b) { return 0; }
int __wrap_setsockopt(int a, int b, int c, const void *d, socklen_t e) { return 0; }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static void q_handler(int fd) {
  if (q_slow) usleep(rn() & 255);
  __real_pthread_mutex_lock(&q_m);
  q_handled[q_nhandled++] = fd;
  __real_pthread_mutex_unlock(&q_m);
}
static int q_close(int fd) { if (fd > 0 && fd < 8000) __sync_add_and_fetch(&q_closed[fd], 1); return 0; }
static void q_wait(int n) {
  for (int i = 0; i < 4000 && q_nhandled < n; i++) usleep(1000);
}
static void q_check(int upto, int expect) {
  usleep(2000);
  CHECK(q_nhandled == expect, "%d connections were handled, expected %d", q_nhandled, expect);
  static char seen[8000];
  memset(seen, 0, sizeof seen);
  for (int i = 0; i < q_nhandled; i++) {
    int fd = q_handled[i];
    CHECK(fd >= 10 && fd < 10 + upto, "something that was never accepted (%d) was handled", fd);
    CHECK(!seen[fd], "connection %d was handled twice", fd);
    seen[fd] = 1;
    CHECK(!q_denied[fd], "connection %d was refused and handled", fd);
    CHECK(!q_closed[fd], "connection %d was closed and handled", fd);
    if (q_workers == 1 && i) CHECK(q_handled[i - 1] < fd, "connection %d was handled after %d", fd, q_handled[i - 1]);
  }
  for (int fd = 10; fd < 10 + upto; fd++) if (!seen[fd]) CHECK(q_closed[fd] == 1, "connection %d was neither handled nor closed once (%d)", fd, q_closed[fd]);
  CHECK(locks >= 0 && locks <= q_workers, "mutexes held: %d", locks);
}
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l) {
  struct sockaddr_in *n = (void *)a;
  static int denied;
  if (q_script == q_n1) {
    // everything so far was accepted without any worker
    int e = q_n1 - denied;
    if (e > WS_MAX_CONNECTIONS) e = WS_MAX_CONNECTIONS;
    pthread_t t;
    for (int i = 0; i < q_workers; i++) __real_pthread_create(&t, NULL, q_start, q_arg);
    q_wait(e);
    q_check(q_n1, e);
    q_phase = e;
    denied = 0;
  }
  if (q_script >= q_n1 + q_n2) {
    q_wait(q_phase + q_n2 - denied);
    q_check(q_script, q_phase + q_n2 - denied);
    _exit(0);
  }
  memset(n, 0, sizeof *n);
  n->sin_family = AF_INET;
  bool d = !rnd(6);
  n->sin_addr.s_addr = inet_addr(d ? "6.6.6.6" : "10.0.0.1");
  int fd = 10 + q_script++;
  q_denied[fd] = d;
  denied += d;
  if (q_script > q_n1 && !rnd(10)) usleep(rnd(300));
  return fd;
}
void t_C19(void) {
  base();
  while (!later()) {
    q_n1 = rnd(3) ? rnd(40) : PICK(1023, 1024, 1025, 1030, 1500, 1600);
    q_n2 = rnd(600);
    q_workers = PICK(1, 1, 2, 8);
    q_slow = rnd(2);
    doing("the server accepts %d connections before %d workers start and %d afterwards (one in six from a denied address)", q_n1, q_workers, q_n2);
    vreset();
    vput("/r/etc/deny", "6.6.6.6\n", 8);
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      q_on = true;
      close_hook = q_close;
      alarm(60);
      ws_launch(80, "127.0.0.1", q_handler);
      _exit(0);
    }
    int s;
    waitpid(p, &s, 0);
    if (WIFEXITED(s) && WEXITSTATUS(s) == 3) _exit(3);
    if (WIFEXITED(s) && WEXITSTATUS(s) == 4) { printf("FAIL %s\ninput: %s\nmemory error\n", PROP, "see above"); fflush(stdout); _exit(3); }
    for (int k = rn() % 7; k > 0; k--) rn();
  }
}

// ------------------------------------------------------------ router
typedef struct { int kind, route; char form[6000]; bool formok; } call;
static call calls[16];
static int ncalls;
static bool verdict;
static struct { char t[300]; bool filter; } routes[MAX_ROUTES + 8];
static int nroutes;
static char lastreq[20000];
static void note(api_request *r, int kind, int route) {
  if (ncalls < 16) {
    calls[ncalls].kind = kind;
    calls[ncalls].route = route;
    snprintf(calls[ncalls].form, sizeof calls[ncalls].form, "%s", r->form);
  }
  ncalls++;
}
#define NH 12
#define H(i) static void h##i(api_request *r) { note(r, 1, i); } static bool f##i(api_request *r) { note(r, 0, i); return verdict; }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H(9) H(10) H(11)
static request_handler HS[] = {h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11};
static request_filter FS[] = {f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11};
static void setroutes(void) {
  free_routing_table();
  router_init();
  nroutes = rnd(NH + 1);
  doing("routes:");
  for (int i = 0; i < nroutes; i++) {
    char *t = routes[i].t;
    sprintf(t, "%s:%s", ONEOF("GET", "POST", "PUT"), ONEOF("/a", "/ab", "/a/b", "/", "/b", "", "/A", "/b/"));
    if (!rnd(3)) sprintf(t + strlen(t), "{%s}", ONEOF("id", "x", "name_of_it"));
    routes[i].filter = rnd(2);
    doingmore(" %s%s", t, routes[i].filter ? "(filter)" : "");
    char *k = hstr(t);
    router_add_route(k, HS[i], routes[i].filter ? FS[i] : NULL);
    CHECK(!strcmp(k, t), "registration changed the template to %s", k);
    free(k);
  }
}
static bool routed(int i, const char *mp, char **name, const char **val) {
  char *b = strchr(routes[i].t, '{');
  if (!b) return !strcmp(routes[i].t, mp);
  long n = b - routes[i].t;
  if (strncmp(routes[i].t, mp, n) || !mp[n]) return false;
  *name = b + 1;
  *val = mp + n;
  return true;
}
static void dispatch(api_request *r) {
  char mp[2000], form[4000];
  sprintf(mp, "%s:%s", r->method, r->path);
  strcpy(form, r->form);
  verdict = rnd(2);
  doingmore("; request %s, form %s, filters say %s", esz(mp), esz(form), verdict ? "yes" : "no");
  ncalls = 0;
  netreset(9, "", 0);
  int w = -1;
  char *nm = NULL;
  const char *val = NULL;
  for (int i = 0; i < nroutes && w < 0; i++) { nm = NULL; if (routed(i, mp, &nm, &val)) w = i; }
  if (nm) { if (*form) strcat(form, "&"); sprintf(form + strlen(form), "%.*s=%s", (int)strcspn(nm, "}"), nm, val); }
  router_handle_request(r);
  if (w < 0) {
    CHECK(ncalls == 0, "no route matches, but %s %d was called", calls[0].kind ? "handler" : "filter", calls[0].route);
    CHECK(net_outlen > 24 && !memcmp(net_out, "HTTP/1.1 400 Bad Request\r\n", 26), "no route matches, but the answer is %s", esc(net_out, net_outlen));
    return;
  }
  int k = 0;
  if (routes[w].filter) {
    CHECK(ncalls > 0 && calls[0].kind == 0 && calls[0].route == w, "the filter of route %d is not called first", w);
    k = 1;
  }
  if (!routes[w].filter || verdict) {
    CHECK(ncalls == k + 1 && calls[k].kind == 1 && calls[k].route == w, "route %d matches, calls: %d, last %s of route %d", w, ncalls, ncalls ? calls[ncalls - 1].kind ? "handler" : "filter" : "-", ncalls ? calls[ncalls - 1].route : -1);
    CHECK(!strcmp(calls[k].form, form), "the handler sees the form %s, expected %s", esz(calls[k].form), esz(form));
  } else
    CHECK(ncalls == 1, "the filter refused, but there were %d calls", ncalls);
  CHECK(net_outlen == 0, "the server answered by itself: %s", esc(net_out, net_outlen));
}
static void t_router(void) {
  base();
  while (!later()) {
    setroutes();
    for (int k = 0; k < 5; k++) {
      api_request *r = calloc(1, sizeof *r);
      char m[20], p[300], form[400];
      strcpy(m, ONEOF("GET", "POST", "PUT", "DELETE", "GETX", "get"));
      strcpy(p, ONEOF("/a", "/ab", "/a/b", "/", "/b", "", "/abc", "/a/b/c", "/b/7?x=1", "/A", "/b/&=%41"));
      if (rnd(2) && nroutes) {
        char *t = routes[rnd(nroutes)].t, *c = strchr(t, ':');
        sprintf(m, "%.*s", (int)(c - t), t);
        sprintf(p, "%.*s", (int)strcspn(c + 1, "{"), c + 1);
        if (rnd(2)) rstr(p + strlen(p), rnd(6), "/ab7");
      }
      if (!rnd(6)) rstr(p + strlen(p), rnd(240), "a/");
      r->socket = 9;
      r->method = m; r->path = hstr(p); r->url = "u"; r->IP = "1.1.1.1"; r->session = r->query_string = r->username = ""; r->request_line = "x";
      r->form = rnd(2) ? "" : hstr(rstr(form, 1 + rnd(30), "a=&1"));
      long mark = 0;
      static char save[200000];
      doingmore("%s", "");
      dispatch(r);
      free(r->path);
      free(r);
      (void)mark; (void)save;
      setroutes();
    }
  }
}
void t_C06(void) { t_router(); }
void t_C07(void) { t_router(); }
void t_C08(void) { t_router(); }

// ------------------------------------------------------------ whole requests
static struct {
  int n;
  char *form; long formcap;
  char path[2000], query[2000], session[300], ip[100], url[600], method[300];
  header_t headers[HTTP_MAX_HEADERS];
  int nh;
} seen;
static long formwant;
static void see(api_request *r) {
  seen.n++;
  snprintf(seen.path, sizeof seen.path, "%s", r->path);
  snprintf(seen.query, sizeof seen.query, "%s", r->query_string);
  snprintf(seen.session, sizeof seen.session, "%s", r->session);
  snprintf(seen.ip, sizeof seen.ip, "%s", r->IP);
  snprintf(seen.url, sizeof seen.url, "%s", r->url);
  snprintf(seen.method, sizeof seen.method, "%s", r->method);
  seen.nh = r->n_headers;
  for (int i = 0; i < HTTP_MAX_HEADERS; i++) {
    CHECK(memchr(r->headers[i].name, 0, HTTP_MAX_HEADER_NAME) && memchr(r->headers[i].value, 0, HTTP_MAX_HEADER_VALUE), "header %d is not terminated", i);
    seen.headers[i] = r->headers[i];
  }
  long n = formwant >= 0 ? formwant : (long)strlen(r->form);
  free(seen.form);
  seen.form = calloc(n + 1, 1);
  memcpy(seen.form, r->form, n + (formwant >= 0 ? 1 : 0));
  if (formwant < 0) seen.form[n] = 0;
}
static connections before[WS_MAX_CONNECTIONS];
static char *rq;
static long rqn;
static void put(const char *s, long n) { rq = realloc(rq, rqn + n + 1); memcpy(rq + rqn, s, n); rqn += n; rq[rqn] = 0; }
static void puts_(const char *s) { put(s, strlen(s)); }
static void others(void) {           // some other connections
  memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
  memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
  for (int i = rnd(5); i > 0; i--) {
    int s = rnd(8);
    live_connections[s].socket = 200 + s;
    strcpy(live_connections[s].path, "/api/other");
    strcpy(live_connections[s].IP, "9.9.9.9");
  }
  if (!rnd(5)) {
    strcpy(limits[0].path, ONEOF("/", "/api"));
    limits[0].max_connections = rnd(3);
    limits[0].max_connections_per_ip = rnd(3);
  }
}
static void routeall(void) {
  static bool done;
  if (done) return;
  done = true;
  router_init();
  for (int i = 0; i < 4; i++) {
    char t[100];
    char *m = (char *[]){"GET", "POST", "PUT", "DELETE"}[i];
    sprintf(t, "%s:/x", m); router_add_route(t, see, NULL);
    sprintf(t, "%s:/p/{id}", m); router_add_route(t, see, NULL);
  }
}
static void run_(void) {
  base();
  routeall();
  memcpy(before, live_connections, sizeof before);
  netreset(17, rq, rqn);
  memset(seen.headers, 0, sizeof seen.headers);
  seen.n = 0;
  nopened = nremoved = 0;
  doing("request %s, body included %ld bytes, peer %s", esc(rq, rqn), rqn, peer);
  accept_request(17);
}
static void run(void) { run_(); }
static bool log_name(const char *s) { return !strcmp(s, WAYUU_ANALYTICS_LOG); }
static void rq_start(void) { free(rq); rq = calloc(1, 1); rqn = 0; }

static void header_block(void) {
  for (int k = rnd(5); k > 0; k--) {
    char b[600];
    if (rnd(2)) sprintf(b, "%s%s%s\r\n", ONEOF("Host:", "X-A: ", "User-Agent:", "Referer: ", "x-session:", "Accept", ": "), ONEOF("", " v", "a:b", "  w  ", "\t"), ONEOF("", " ", "z"));
    else { rstr(b, rnd(60), "aA:;= \t-"); strcat(b, rnd(5) ? "\r\n" : "\n"); if (!strcmp(b, "\r\n") || !strcmp(b, "\n")) strcpy(b, "q\r\n"); }
    puts_(b);
  }
}
static void nasty(void) {
  rq_start();
  int k = rnd(8);
  static char b[6000];
  puts_(rnd(4) ? ONEOF("GET ", "POST ", "PUT ", "DELETE ", "get ", "GETX ", "GET\t", "GET") : rstr(b, rnd(300), "GETX /"));
  puts_(rnd(3) ? ONEOF("/", "/api/x", "/api/p/1", "/api", "/api?", "/apix", "/index.html", "/a/", "/favicon.ico", "/?", "?", "") : rstr(b, rnd(2) ? rnd(300) : rnd(2000), "/api?x. "));
  if (rnd(2)) puts_(" HTTP/1.1");
  if (rnd(10)) puts_(rnd(5) ? "\r\n" : "\n");
  for (int h = rnd(30); h > 0; h--) {
    switch (rnd(12)) {
    case 0: puts_("Content-Length:"); if (rnd(4)) { sprintf(b, " %ld", rnd(3) ? rnd(200) : PICK(0, -1, 100000, 5, 12345678, 2147483647)); if (atol(b) > 100000) strcpy(b, " 3000"); puts_(b); } break;
    case 1: puts_("Content-Type:"); puts_(rnd(2) ? ONEOF("", " text/html; charset=x", ";", " multipart/form-data; boundary=XX", " multipart/form-data; boundary=", " multipart/form-data") : rstr(b, rnd(1200), "a;= ")); break;
    case 2: puts_("Content-Type: multipart/form-data; boundary="); puts_(rstr(b, rnd(3) ? rnd(20) : rnd(300), "-aX")); break;
    case 3: puts_("X-Real-IP:"); puts_(rstr(b, rnd(3) ? rnd(20) : rnd(900), "1. ")); break;
    case 4: puts_(ONEOF("X-Session:", "Authorization:", "x-session: ")); puts_(rstr(b, rnd(3) ? rnd(70) : rnd(1200), "s ")); break;
    case 5: puts_("Cookie: WSSESSION="); puts_(rstr(b, rnd(3) ? rnd(70) : rnd(1200), "c; ")); break;
    case 6: puts_(rstr(b, PICK(62, 63, 64, 65, 100, 300), "n")); puts_(":"); puts_(rstr(b, PICK(0, 254, 255, 256, 257, 800), "v")); break;
    case 7: puts_(rstr(b, rnd(3) ? rnd(1100) : rnd(3000), "a: ")); break;
    case 8: for (int i = rnd(40); i > 0; i--) { char c = rn(); put(&c, 1); } break;
    case 9: puts_(":"); break;
    case 10: puts_("Cookie:"); break;
    default: puts_("Host: a");
    }
    if (rnd(40)) puts_(rnd(8) ? "\r\n" : rnd(2) ? "\n" : "\r");
  }
  if (rnd(8)) puts_("\r\n");
  (void)k;
}
void t_C01(void) {
  if (!accept_request) return;
  while (!later()) {
    base(); others(); vreset();
    vput("/r/www//index.html", "hello", 5);
    nasty();
    if (rnd(2)) puts_("some body bytes");
    formwant = -1;
    run();
  }
}
static char bnd[200];
static void multibody(bool wild) {
  char b[3000];
  int parts = rnd(4);
  for (int i = 0; i <= parts; i++) {
    puts_(wild && !rnd(6) ? rstr(b, rnd(20), "-aX\r\n") : "--"); puts_(bnd);
    if (i == parts) { if (rnd(3)) puts_("--\r\n"); break; }
    if (rnd(8)) puts_("\r\n");
    if (rnd(8)) puts_("Content-Disposition: form-data; name=\"");
    puts_(rstr(b, rnd(5) ? rnd(10) : rnd(2000), "fgh-"));
    if (rnd(6)) puts_("\"");
    if (rnd(2)) { puts_("; filename=\""); puts_(rstr(b, rnd(3) ? rnd(40) : PICK(254, 255, 256, 257, 600), "./fn")); if (rnd(6)) puts_("\""); }
    if (rnd(8)) puts_("\r\n\r\n");
    for (int k = rnd(3) ? rnd(40) : rnd(1500); k > 0; k--) { char c = rnd(4) ? "ab-\r\n\"&"[rnd(7)] : rn(); put(&c, 1); }
    if (rnd(8)) puts_("\r\n");
  }
}
static void body_request(bool wild, bool multi) {
  char h[600];
  rq_start();
  sprintf(h, "%s /api/x HTTP/1.1\r\n", ONEOF("POST", "PUT", "GET"));
  puts_(h);
  rstr(bnd, wild ? PICK(0, 1, 2, 10, 70, 96, 97, 98, 120) : 1 + rnd(20), "aXb");
  long at = 0;
  char *keep = rq; long kn = rqn;
  rq = calloc(1, 1); rqn = 0;
  if (multi) multibody(wild);
  else for (int k = rnd(3) ? rnd(50) : rnd(3000); k > 0; k--) { char c = rnd(3) ? "ab=&"[rnd(4)] : rn(); put(&c, 1); }
  char *body = rq; long bn = rqn;
  rq = keep; rqn = kn;
  at = rnd(3) ? bn : rnd(bn + 10);
  if (multi) { sprintf(h, "Content-Type: multipart/form-data; boundary=%s\r\n", bnd); puts_(h); }
  sprintf(h, "Content-Length: %ld\r\n\r\n", at);
  puts_(h);
  long cut = rnd(4) ? bn : rnd(bn + 1);
  put(body, cut);
  formwant = multi ? -1 : at <= 0 ? 0 : cut < at ? cut : at;
  doing("");
  free(lastreq[0] ? NULL : NULL);
  static char *lb;
  free(lb);
  lb = body;
}
void t_C02(void) {
  if (!accept_request) return;
  while (!later()) {
    base(); others(); vreset();
    memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
    body_request(true, rnd(4));
    formwant = -1;
    run();
  }
}
void t_C14(void) {
  if (!accept_request) return;
  while (!later()) {
    base(); vreset();
    memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
    memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
    body_request(false, false);
    long n = formwant;
    char *b = strstr(rq, "\r\n\r\n");
    if (!n) formwant = -1;
    run();
    CHECK(seen.n == 1, "%d handlers ran", seen.n);
    if (!n) CHECK(!*seen.form, "the form is %s, expected nothing", esz(seen.form));
    else CHECK(!memcmp(seen.form, b + 4, n) && !seen.form[n], "the handler sees %s, expected %s and an end", esc(seen.form, n + 1), esc(b + 4, n));
  }
}
void t_C15(void) {
  if (!accept_request) return;
  while (!later()) {
    base(); vreset();
    memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
    memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
    char h[600], fn[400], nm[60];
    static char body[60000], form[60000];
    static struct { char data[3000]; long n; char name[200]; } files[6];
    long bn = 0, np = rnd(4), nf = 0;
    *form = 0;
    if (rnd(2)) vdir(FILE_DOWNLOAD_TMP_DIR);
    rstr(bnd, 5 + rnd(20), "X9");
    strcat(bnd, "QQ");
    for (int i = 0; i < np; i++) {
      rstr(nm, 1 + rnd(8), "fgh");
      bool file = rnd(3);
      bn += sprintf(body + bn, "--%s\r\nContent-Disposition: form-data; name=\"%s\"", bnd, nm);
      rstr(fn, 1 + rnd(30), "./\\ab");
      if (!rnd(3)) strcpy(fn, ONEOF("../../etc/passwd", "/etc/x", "..", "a.b"));
      if (!rnd(8)) rstr(fn, PICK(254, 255, 256, 300), "n");
      if (file) bn += sprintf(body + bn, "; filename=\"%s\"\r\nContent-Type: text/plain", fn);
      bn += sprintf(body + bn, "\r\n\r\n");
      long dn = rnd(3) ? rnd(60) : rnd(2000), d0 = bn;
      for (int k = 0; k < dn; k++) body[bn++] = file ? (rnd(2) ? "ab-\r\n\"&"[rnd(7)] : (char)rn()) : "abc= &"[rnd(6)];
      if (*form) strcat(form, "&");
      if (file) {
        unsigned char dg[EVP_MAX_MD_SIZE];
        unsigned int dl;
        memcpy(files[nf].data, body + d0, dn);
        files[nf].n = dn;
        EVP_Digest(body + d0, dn, dg, &dl, EVP_md5(), NULL);
        char hex[40];
        for (unsigned k = 0; k < dl; k++) sprintf(hex + 2 * k, "%02x", dg[k]);
        sprintf(files[nf].name, "%lu-%s", (unsigned long)pthread_self(), hex);
        fn[255] = 0;
        sprintf(form + strlen(form), "%s=%s&tmpfile=%s", nm, fn, files[nf].name);
        nf++;
      } else sprintf(form + strlen(form), "%s=%.*s", nm, (int)dn, body + d0);
      bn += sprintf(body + bn, "\r\n");
    }
    bn += sprintf(body + bn, "--%s--\r\n", bnd);
    rq_start();
    sprintf(h, "POST /api/x HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=%s\r\nContent-Length: %ld\r\n\r\n", bnd, bn);
    puts_(h);
    put(body, bn);
    formwant = -1;
    run();
    CHECK(seen.n == 1, "%d handlers ran", seen.n);
    CHECK(!strcmp(seen.form, form), "the form is %s, expected %s", esz(seen.form), esz(form));
    for (int i = 0; i < nopened && i < 64; i++) {
      if (log_name(opened[i]) || openmode[i][0] == 'r') continue;
      bool ok = false;
      for (int k = 0; k < nf; k++) {
        sprintf(h, "%s/%s", FILE_DOWNLOAD_TMP_DIR, files[k].name);
        ok = ok || !strcmp(opened[i], h);
      }
      CHECK(ok, "the file %s was written", esz(opened[i]));
    }
    for (int i = 0; i < nremoved; i++) CHECK(!strncmp(removed[i], FILE_DOWNLOAD_TMP_DIR "/", strlen(FILE_DOWNLOAD_TMP_DIR) + 1), "the file %s was removed", esz(removed[i]));
    for (int k = 0; k < nf; k++) {
      sprintf(h, "%s/%s", FILE_DOWNLOAD_TMP_DIR, files[k].name);
      vfile *f = vfind(h);
      CHECK(f && !f->dir, "the file %s was not written", h);
      long n;
      char *c = vread(f, &n);
      CHECK(n == files[k].n && !memcmp(c, files[k].data, n), "the file %s holds %s, expected %s", h, esc(c, n), esc(files[k].data, files[k].n));
      free(c);
    }
  }
}
static void after(void) {
  CHECK(net_closed == 1, "the socket was closed %d times", net_closed);
  CHECK(!net_sent_after_close, "bytes were sent after the close");
  CHECK(!net_wrong_fd, "another descriptor was used");
  CHECK(locks == 0, "%d mutexes held", locks);
  for (int j = 0; j < WS_MAX_CONNECTIONS; j++) {
    CHECK(live_connections[j].socket != 17, "the connection still has slot %d", j);
    if (before[j].socket) CHECK(live_connections[j].socket == before[j].socket && !strcmp(live_connections[j].path, before[j].path) && !strcmp(live_connections[j].IP, before[j].IP), "slot %d of another connection changed", j);
    else CHECK(!live_connections[j].socket, "slot %d is taken", j);
  }
}
void t_C05(void) {
  if (!accept_request) return;
  while (!later()) {
    base(); others(); vreset();
    vput("/r/www//index.html", "hello", 5);
    if (rnd(2)) nasty();
    else { rq_start(); puts_(ONEOF("GET /api/x HTTP/1.1\r\n\r\n", "POST /api/nope HTTP/1.1\r\n\r\n", "GET / HTTP/1.0\r\n\r\n", "HEAD / HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\n\r\n", "", "GET /../x HTTP/1.1\r\n\r\n", "DELETE /api/p/4 HTTP/1.1\r\nContent-Length: 4\r\n\r\nab")); }
    formwant = -1;
    run();
    after();
  }
}
static const char *word(const char *s, char *o, long cap) {
  while (*s && sp(*s)) s++;
  long n = 0;
  while (*s && !sp(*s)) { if (n < cap) o[n++] = *s; s++; }
  o[n] = 0;
  return s;
}
static char *answer(void) {
  static char l[200];
  long n = 0;
  while (n < net_outlen && n < 199 && net_out[n] != '\r') { l[n] = net_out[n]; n++; }
  l[n] = 0;
  return l;
}
void t_C20(void) {
  if (!accept_request) return;
  while (!later()) {
    base(); vreset();
    memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
    memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
    vput("/r/www//index.html", "hello", 5);
    vput("/r/www/a.txt", "aaaa", 4);
    vput("/r/www//a.txt", "aaaa", 4);
    char m[300], u[300], l[700];
    strcpy(m, rnd(2) ? ONEOF("GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH") : ONEOF("get", "GETS", "Post", "GE", "", "XGET", "TRACE", "PUTT", "CONNECT", "DELET", "POS"));
    strcpy(u, rnd(2) ? ONEOF("/api/x", "/api/p/3", "/a.txt", "/", "/index.html") : ONEOF("/API/x", "/ap/x", "/x/api/x", "/api", "/a.txt?q", "//api/x", "api/x", "/api2/x"));
    sprintf(l, "%s %s HTTP/1.1\r\n", m, u);
    rq_start();
    puts_(l);
    header_block();
    puts_("\r\n");
    formwant = -1;
    char wm[300], wu[300];
    word(word(l, wm, 254), wu, 254);
    if (!*m) { strcpy(wm, ""); }
    run();
    bool okm = samenc(wm, "GET") || samenc(wm, "POST") || samenc(wm, "PUT") || samenc(wm, "DELETE");
    bool stat = false;
    for (int i = 0; i < nopened && i < 64; i++) if (!log_name(opened[i])) stat = true;
    if (!*m) okm = false;
    if (!okm) {
      CHECK(!seen.n && !stat, "the method is not supported, but %s", seen.n ? "a handler ran" : "a file was opened");
      CHECK(!strcmp(answer(), "HTTP/1.1 400 Bad Request"), "the answer is %s, expected 400", esz(answer()));
    } else if (samenc(wu, "/api")) {
      CHECK(!stat, "a target below the API mount opened the file");
      char *p = strchr(wu, '?');
      if (p) *p = 0;
      bool r = !strcmp(wu + 4, "/x") || (!strncmp(wu + 4, "/p/", 3) && wu[7]);
      bool mm = !strcmp(wm, "GET") || !strcmp(wm, "POST") || !strcmp(wm, "PUT") || !strcmp(wm, "DELETE");
      CHECK(seen.n == (r && mm), "%d handlers ran, expected %d", seen.n, r && mm);
    } else if (!strcasecmp(wm, "GET")) {
      CHECK(!seen.n, "a handler ran for a target that is not below the API mount");
      CHECK(stat, "the target was not served as a static file: %s", esz(answer()));
    } else {
      CHECK(!seen.n && !stat, "%s", seen.n ? "a handler ran for a static target" : "a file was opened");
      CHECK(!strcmp(answer(), "HTTP/1.1 400 Bad Request"), "the answer is %s, expected 400", esz(answer()));
    }
  }
}
static bool parents(const char *p) {
  while (p) {
    const char *e = strchr(p, '/');
    long n = e ? e - p : (long)strlen(p);
    if (n == 2 && !memcmp(p, "..", 2)) return true;
    p = e ? e + 1 : NULL;
  }
  return false;
}
static char target[300];
static void static_request(const char *al) {
  rq_start();
  if (rnd(2)) {
    *target = 0;
    strcpy(target, rnd(10) ? "/" : "");
    for (int k = rnd(6); k > 0; k--) { strcat(target, ONEOF("..", ".", "a", "...", "b.txt", "..a", "a..", "%2e%2e", "", "index.html", "favicon.ico")); if (rnd(4)) strcat(target, "/"); }
  } else if (rnd(3)) { strcpy(target, "/"); rstr(target + 1, rnd(rnd(4) ? 12 : 240), al); }
  else strcpy(target, ONEOF("/", "/index.html", "/favicon.ico", "/a/", "/a.txt", "/img/fav.ico", "/a", "/sub/favicon.ico", "/index.htm", "/index.html/", "//", "/INDEX.html", "/favicon.ico/"));
  if (!*target || samenc(target, "/api")) strcpy(target, "/z");
  char l[700];
  sprintf(l, "GET %s%s HTTP/1.1\r\n\r\n", target, rnd(6) ? "" : "?q=/../x");
  if (strcspn(l + 4, " ") > 254) { sprintf(l, "GET %s HTTP/1.1\r\n\r\n", target); target[254] = 0; }
  puts_(l);
  memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
  memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
  formwant = -1;
}
void t_C09(void) {
  if (!accept_request) return;
  base();
  while (!later()) {
    vreset();
    vall = true;
    static_request("./a.");
    run();
    vall = false;
    long n = strlen(WAYUU_STATIC_ROOT);
    for (int i = 0; i < nopened && i < 64; i++) {
      if (log_name(opened[i])) continue;
      CHECK(!strncmp(opened[i], WAYUU_STATIC_ROOT, n) && opened[i][n] == '/' && !parents(opened[i] + n), "the file %s was opened", esz(opened[i]));
    }
  }
}
void t_C10(void) {
  if (!accept_request) return;
  base();
  while (!later()) {
    vreset();
    static_request("/ab.");
    char *q = strchr(target, '?');
    char p[400], name[800], idx[800];
    strcpy(p, target);
    if (q) p[q - target] = 0;
    if (!strcmp(p, "/") || !strcmp(p, "/index.html")) strcpy(p, WWW_INDEX);
    else if (!strcmp(p, "/favicon.ico")) strcpy(p, FAVICON_URL);
    else if (p[strlen(p) - 1] == '/') strcat(p, "index.html");
    sprintf(name, "%s/%s", WAYUU_STATIC_ROOT, p);
    sprintf(idx, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
    bool hi = rnd(2), hn = rnd(2);
    if (hi) vput(idx, "the index", 9);
    if (hn) vput(name, strcmp(name, idx) ? "that file" : "the index", 9);
    vput("/r/www//decoy", "decoy", 5);
    run();
    if (parents(target)) continue;
    char *b = net_outlen ? strstr(net_out, "\r\n\r\n") : NULL;
    if (hn || hi) {
      char *w = hn && strcmp(name, idx) ? "that file" : "the index";
      CHECK(!strcmp(answer(), "HTTP/1.1 200 OK") && b && !strcmp(b + 4, w), "the answer is %s, expected the content of %s", esc(net_out, net_outlen), hn ? name : idx);
    } else CHECK(!strcmp(answer(), "HTTP/1.1 404 NOT FOUND"), "the answer is %s, expected 404", esz(answer()));
  }
}
static void strim(char *s) {
  long a = 0, b = strlen(s);
  while (a < b && sp(s[a])) a++;
  while (b > a && sp(s[b - 1])) b--;
  memmove(s, s + a, b - a);
  s[b - a] = 0;
}
void t_C25(void) {
  if (!accept_request) return;
  while (!later()) {
    base(); vreset();
    memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
    memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
    char ses[900] = "", ip[100], b[900], v[300];
    strcpy(peer, ONEOF("10.0.0.1", "255.255.255.255", "1.2.3.4"));
    strcpy(ip, peer);
    rq_start();
    puts_("GET /api/x HTTP/1.1\r\n");
    for (int k = rnd(6); k > 0; k--) {
      rstr(v, rnd(20), rnd(2) ? "ab1" : "a b:;=");
      switch (rnd(8)) {
      case 0: case 1:
        sprintf(b, "%s%s%s\r\n", ONEOF("X-Session:", "Authorization:", "x-session:"), rnd(2) ? " " : "", v);
        strcpy(ses, strchr(b, ':') + 1);
        strim(ses);
        break;
      case 2: case 3:
        sprintf(b, "%s%s\r\n", ONEOF("Cookie: WSSESSION=", "cookie: wssession="), v);
        if (!*ses) { strcpy(ses, b + 18); strim(ses); }
        break;
      case 4:
        sprintf(v, "%ld.%ld.7.7", rnd(256), rnd(256));
        sprintf(b, "X-Real-IP:%s%s\r\n", rnd(2) ? " " : "", v);
        strcpy(ip, v);
        break;
      case 5: sprintf(b, "%s%s\r\n", ONEOF("X-Sessions: ", "Cookie: WSSESSIO=", "Cookie: a=1; WSSESSION=", "X-Real-IPs: ", "Session:", "X-Forwarded-For: ", "Proxy-Authorization: "), v); break;
      case 6: sprintf(b, "Host: %s%s\r\n", ONEOF("X-Session: ", "Cookie: WSSESSION=", "X-Real-IP:"), v); break;
      default: sprintf(b, "%s\r\n", rstr(v, 1 + rnd(100), "qz"));
      }
      puts_(b);
    }
    puts_("\r\n");
    formwant = -1;
    run();
    CHECK(seen.n == 1, "%d handlers ran", seen.n);
    CHECK(!strcmp(seen.session, ses), "the session is %s, expected %s", esz(seen.session), esz(ses));
    CHECK(!strcmp(seen.ip, ip), "the address is %s, expected %s", esz(seen.ip), esz(ip));
  }
}
// headers of a request as the handler sees them
void request_headers(void) {
  if (!accept_request) return;
  base(); vreset();
  memset(live_connections, 0, sizeof(connections) * WS_MAX_CONNECTIONS);
  memset(limits, 0, sizeof(path_limits) * MAX_LIMIT_RULES);
  static header_t w[HTTP_MAX_HEADERS];
  memset(w, 0, sizeof w);
  int n = 0;
  rq_start();
  puts_("GET /api/x HTTP/1.1\r\n");
  for (int k = rnd(4) ? rnd(8) : PICK(19, 20, 21, 25); k > 0; k--) {
    char nm[200], v[700], b[1000];
    rstr(nm, 1 + rnd(rnd(8) ? 5 : 90), "nmN-");
    rstr(v, rnd(rnd(8) ? 12 : 400), "v: w");
    bool col = rnd(8);
    sprintf(b, "%s%s%s%s%s\r\n", rnd(4) ? "" : " ", nm, col ? rnd(3) ? ": " : ":" : "", col ? v : "", rnd(4) ? "" : " ");
    puts_(b);
    if (col && n < HTTP_MAX_HEADERS) {
      strim(v);
      strncpy(w[n].name, nm, HTTP_MAX_HEADER_NAME - 1);
      strncpy(w[n].value, v, HTTP_MAX_HEADER_VALUE - 1);
      n++;
    }
  }
  puts_("\r\n");
  formwant = -1;
  run();
  CHECK(seen.n == 1, "%d handlers ran", seen.n);
  CHECK(seen.nh == n, "%d headers, expected %d", seen.nh, n);
  for (int i = 0; i < n; i++)
    CHECK(!strcmp(seen.headers[i].name, w[i].name) && !strcmp(seen.headers[i].value, w[i].value), "header %d is %s=%s, expected %s=%s", i, esz(seen.headers[i].name), esz(seen.headers[i].value), esz(w[i].name), esz(w[i].value));
}
