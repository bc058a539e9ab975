// String helpers, MD5, configuration, JSON, log, content types, responses, URLs and headers.
#include "h.h"
#include <openssl/evp.h>
#include "string_utils.h"
#include "file_utils.h"
#include "conf_parser.h"
#include "json_utils.h"
#include "http_utils.h"
#include "wayuu_log.h"
#include "log.h"

char *ltrim(const char *str, char sep) __attribute__((weak));
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static char *o_trim(const char *s) {           // new string
  long a = 0, b = strlen(s);
  while (a < b && sp(s[a])) a++;
  while (b > a && sp(s[b - 1])) b--;
  char *r = calloc(b - a + 1, 1);
  memcpy(r, s + a, b - a);
  return r;
}
static long somelen(void) { return rnd(4) ? rnd(12) : rnd(20) ? rnd(90) : PICK(255, 256, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 3000); }
static char *some(const char *al) { long n = somelen(); char b[4000]; return hstr(rstr(b, n, al)); }
#define WS " \t\n\r\v\fab\x81\xff="

static void c_trim(void) {
  char *s = some(rnd(2) ? WS : " \ta"), *k = hstr(s);
  doing("trim(%s)", esz(s));
  char *w = o_trim(s);
  trim(s);
  CHECK(!strcmp(s, w), "result %s, expected %s", esz(s), esz(w));
  free(s); free(w); free(k);
}
static void c_chop(void) {
  char *s = some("ab\"! #cd\x80\n\x7f");
  doing("chop_string(%s)", esz(s));
  char *w = hstr(s);
  for (long i = 0; w[i]; i++) if (w[i] <= 34) { w[i] = 0; break; }
  chop_string(s);
  CHECK(!strcmp(s, w), "result %s, expected %s", esz(s), esz(w));
  free(s); free(w);
}
static void c_cut(void) {
  char sep = *ONEOF(":", "?", ";", "a", "=");
  char *s = some("ab:?;=\n"), *k = hstr(s);
  doing("rtrim(%s, '%c')", esz(s), sep);
  char *r = rtrim(s, sep), *e = hstr(s), *q = strchr(e, sep);
  if (q) *q = 0;
  CHECK(!strcmp(r, e), "result %s, expected %s", esz(r), esz(e));
  CHECK(!strcmp(s, k), "the argument changed to %s", esz(s));
  free(r); free(e);
  if (ltrim) {
    doing("ltrim(%s, '%c')", esz(s), sep);
    r = ltrim(s, sep);
    q = strchr(k, sep);
    CHECK(!strcmp(r, q ? q + 1 : k), "result %s, expected %s", esz(r), esz(q ? q + 1 : k));
    CHECK(!strcmp(s, k), "the argument changed to %s", esz(s));
    free(r);
  }
  free(s); free(k);
}
static void c_starts(void) {
  char *s = some("aAbB:-"), *p = rnd(2) ? some("aAbB:-") : hstr(s);
  if (rnd(2) && *p) p[rnd(strlen(p))] ^= rnd(2) ? 32 : 1;
  if (rnd(2) && *p) p[rnd(strlen(p) + 1)] = 0;
  doing("startswith(%s, %s)", esz(s), esz(p));
  bool w = strlen(p) <= strlen(s);
  for (long i = 0; w && p[i]; i++) if (tolower((unsigned char)p[i]) != tolower((unsigned char)s[i])) w = false;
  CHECK(startswith(s, p) == w, "result %d, expected %d", !w, w);
  const char *l[5];
  int n = rnd(4);
  bool any = false;
  doing("startswithany(%s, {", esz(s));
  for (int i = 0; i < n; i++) {
    l[i] = rnd(3) ? ONEOF("GET", "a", "B", "aa", "ab", "X-", ":", "bA") : p;
    if (!*l[i]) l[i] = "Z";
    doingmore("%s, ", esz(l[i]));
    any = any || !strncasecmp(s, l[i], strlen(l[i]));
  }
  l[n] = rnd(2) ? "" : NULL;
  doingmore("%s})", l[n] ? "\"\"" : "NULL");
  bool g = startswithany(s, l);
  CHECK(g == any, "result %d, expected %d", g, any);
  free(s); free(p);
}
static void c_find(void) {
  char *s = some("ab-\r"), *nd = rnd(3) ? hstr(ONEOF("a", "ab", "aab", "-a", "\r-", "b", "aa", "bab")) : some("ab");
  if (!*nd) { free(nd); nd = hstr("b"); }
  long n = strlen(s), st = rnd(4) ? rnd(3) : rnd(n + 2), en = rnd(2) ? n : rnd(n + 1), w = -1, m = strlen(nd);
  doing("text_find_after(%s, %s, %ld, %ld)", esz(s), esz(nd), st, en);
  for (long i = st; i < en; i++) if (i + m <= n && !memcmp(s + i, nd, m)) { w = i + m; break; }
  long g = text_find_after(s, nd, st, en);
  CHECK(g == w, "result %ld, expected %ld", g, w);
  free(s); free(nd);
}
static void c_alnum(void) {
  char *s = some(rnd(2) ? "abZ09" : "aZ9_ \x80:@[`{/");
  if (rnd(3) == 0 && *s) s[strlen(s) - 1] = *ONEOF("_", " ", "\n", "a", "-");
  bool w = *s != 0;
  for (long i = 0; s[i]; i++) if (!((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'))) w = false;
  doing("string_isalnum(%s)", esz(s));
  CHECK(string_isalnum(s) == w, "result %d, expected %d", !w, w);
  free(s);
}
static void c_join(void) {
  int n = rnd(8) ? rnd(6) : rnd(60);
  char **a = malloc((n ? n : 1) * sizeof *a);
  char *d = ONEOF("", ",", "\",\"", "--", ", ");
  static char w[400000];
  *w = 0;
  doing("join({");
  for (int i = 0; i < n; i++) {
    a[i] = some("ab,");
    doingmore("%s, ", esz(a[i]));
    strcat(w, a[i]);
    if (i + 1 < n) strcat(w, d);
  }
  doingmore("}, %d, %s)", n, esz(d));
  char *r = join(a, n, d);
  CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w));
  r[strlen(r)] = 0;
  free(r);
  for (int i = 0; i < n; i++) free(a[i]);
  free(a);
  doing("join(NULL, 3, %s)", esz(d));
  r = join(NULL, 3, d);
  CHECK(!*r, "result %s, expected \"\"", esz(r));
  free(r);
}
static void c_split(void) {
  char *s = some(rnd(2) ? "ab,;" : "a,"), *k = hstr(s), *d = ONEOF(",", ";", ",;", "x");
  doing("split(%s, %s)", esz(s), esz(d));
  str_list_t *l = split(s, d);
  int n = 0;
  for (long i = 0; k[i] && n < MAX_SPLIT_STR;) {
    while (k[i] && strchr(d, k[i])) i++;
    if (!k[i]) break;
    long j = i;
    while (k[j] && !strchr(d, k[j])) j++;
    long m = j - i < MAX_SPLIT_STR_LEN - 1 ? j - i : MAX_SPLIT_STR_LEN - 1;
    CHECK(n < l->n_str, "%d tokens, expected more", l->n_str);
    CHECK((long)strlen(l->strings[n]) == m && !memcmp(l->strings[n], k + i, m), "token %d is %s, expected %s", n, esz(l->strings[n]), esc(k + i, m));
    n++;
    i = j;
  }
  CHECK(l->n_str == n, "%d tokens, expected %d", l->n_str, n);
  CHECK(!strcmp(s, k), "the argument changed to %s", esz(s));
  free_str_list_t(l);
  free(s); free(k);
}
static void c_once(void) {
  char *s = some(rnd(2) ? "ab: \r" : "a: -"), *k = hstr(s);
  doing("split_once(%s, \":\")", esz(s));
  str_list_t *l = split_once(s, ":");
  char *q = strchr(k, ':'), *e, *x = hstr(k);
  if (q) x[q - k] = 0;
  e = o_trim(x);
  if (strlen(e) > MAX_SPLIT_STR_LEN - 1) e[MAX_SPLIT_STR_LEN - 1] = 0;
  CHECK(l->n_str == (q ? 2 : 1), "%d parts, expected %d", l->n_str, q ? 2 : 1);
  CHECK(!strcmp(l->strings[0], e), "first part %s, expected %s", esz(l->strings[0]), esz(e));
  if (q) {
    free(e);
    e = o_trim(q + 1);
    if (strlen(e) > MAX_SPLIT_STR_LEN - 1) e[MAX_SPLIT_STR_LEN - 1] = 0;
    CHECK(!strcmp(l->strings[1], e), "second part %s, expected %s", esz(l->strings[1]), esz(e));
  }
  CHECK(!strcmp(s, k), "the argument changed to %s", esz(s));
  free_str_list_t(l);
  free(e); free(x); free(s); free(k);
}
void t_C24(void) {
  while (!later()) { c_trim(); c_chop(); c_cut(); c_starts(); c_find(); c_alnum(); c_join(); c_split(); c_once(); }
}

void t_C23(void) {
  while (!later()) {
    int n = rnd(3) ? rnd(600) : PICK(0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 4096, 70000);
    char *d = malloc(n ? n : 1), *k, *out = malloc(33);
    for (int i = 0; i < n; i++) d[i] = rn();
    k = hmem(d, n);
    unsigned char dg[EVP_MAX_MD_SIZE];
    unsigned int dl;
    char w[80];
    doing("md5sum of %d bytes %s", n, esc(d, n < 200 ? n : 200));
    EVP_Digest(d, n, dg, &dl, EVP_md5(), NULL);
    for (unsigned i = 0; i < dl; i++) sprintf(w + 2 * i, "%02x", dg[i]);
    md5sum(out, d, n);
    CHECK(memchr(out, 0, 33) && !strcmp(out, w), "result %s, expected %s", esc(out, 33), w);
    CHECK(!memcmp(d, k, n), "the data changed");
    free(d); free(k); free(out);
  }
}

// ------------------------------------------------------------ configuration
static void c_item(void) {
  char *s = some(rnd(3) ? "ab=, \t" : "a=,"), *k = hstr(s);
  bool multi = rnd(2);
  doing("conf_parse_line(%s, %s)", esz(s), multi ? "true" : "false");
  conf_item *it = conf_parse_line(s, multi);
  CHECK(!strcmp(s, k), "the line changed to %s", esz(s));
  char *q = strchr(k, '=');
  if (!q) { CHECK(!it, "an item, though the line has no '='"); free(s); free(k); return; }
  CHECK(it != NULL, "no item");
  char *a = hstr(k);
  a[q - k] = 0;
  char *key = o_trim(a), *val = o_trim(q + 1);
  CHECK(!strcmp(it->key, key), "key %s, expected %s", esz(it->key), esz(key));
  CHECK(!strcmp(it->value, val), "value %s, expected %s", esz(it->value), esz(val));
  char *p = val, *w = calloc(strlen(key) + strlen(val) + 4, 1);
  sprintf(w, "%s=", key);
  int n = 0;
  if (multi)
    while (n < _CONF_MAX_MULTI_ELEMENTS) {
      p += strspn(p, ",");
      if (!*p) break;
      long m = strcspn(p, ",");
      char *e = strndup(p, m), *t = o_trim(e);
      CHECK(n < it->n_multivalues, "%d values, expected more", it->n_multivalues);
      CHECK(!strcmp(it->multivalue[n], t), "value %d is %s, expected %s", n, esz(it->multivalue[n]), esz(t));
      if (n) strcat(w, ",");
      strcat(w, t);
      free(e); free(t);
      n++;
      p += m;
    }
  CHECK(it->n_multivalues == n, "%d values, expected %d", it->n_multivalues, n);
  if (!n) strcat(w, val);
  char *r = conf_item_to_string(it);
  CHECK(!strcmp(r, w), "printed as %s, expected %s", esz(r), esz(w));
  free(r); free(w); free(key); free(val); free(a); free(s); free(k);
  free_conf_item(it);
}
static void c_build(void) {
  int n = rnd(_CONF_MAX_MULTI_ELEMENTS + 1);
  char *mv[_CONF_MAX_MULTI_ELEMENTS], *key = some("abk"), *val = some("abv ");
  static char w[100000];
  sprintf(w, "%s=", key);
  if (!n) strcat(w, val);
  doing("conf_item_to_string(new_conf_item_with_values(%s, %s, {", esz(key), esz(val));
  for (int i = 0; i < n; i++) {
    mv[i] = some("xyz");
    if (!*mv[i]) { free(mv[i]); mv[i] = hstr("m"); }
    if (i) strcat(w, ",");
    strcat(w, mv[i]);
    doingmore("%s, ", esz(mv[i]));
  }
  doingmore("}, %d))", n);
  conf_item *it = new_conf_item_with_values(key, val, mv, n);
  char *r = conf_item_to_string(it);
  CHECK(!strcmp(r, w), "printed as %s, expected %s", esz(r), esz(w));
  free(r);
  free_conf_item(it);
  for (int i = 0; i < n; i++) free(mv[i]);
  free(key); free(val);
}
void t_C16(void) { while (!later()) { c_item(); c_item(); c_build(); } }

// ------------------------------------------------------------ JSON
static char *ser(void *o) { return strdup(o); }
void t_C17(void) {
  static char w[400000];
  while (!later()) {
    int n = rnd(6) ? rnd(6) : rnd(40);
    int *v = malloc((n ? n : 1) * sizeof *v);
    doing("json_array_of_ints({");
    strcpy(w, "[");
    for (int i = 0; i < n; i++) {
      v[i] = rnd(2) ? rnd(20) - 10 : rnd(3) ? (int)rn() : (int)PICK(-2147483648L, 2147483647L, 0, -1);
      sprintf(w + strlen(w), "%s%d", i ? "," : "", v[i]);
      doingmore("%d, ", v[i]);
    }
    strcat(w, "]");
    doingmore("}, %d)", n);
    char *r = json_array_of_ints(v, n);
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w));
    free(r); free(v);
    char **a = malloc((n ? n : 1) * sizeof *a);
    doing("json_array_of_strings({");
    strcpy(w, n ? "[\"" : "[");
    for (int i = 0; i < n; i++) {
      a[i] = some("abc ");
      sprintf(w + strlen(w), "%s%s", i ? "\",\"" : "", a[i]);
      doingmore("%s, ", esz(a[i]));
    }
    strcat(w, n ? "\"]" : "]");
    doingmore("}, %d)", n);
    r = json_array_of_strings(a, n);
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w));
    free(r);
    doingmore(" as entities");
    strcpy(w, "[");
    for (int i = 0; i < n; i++) sprintf(w + strlen(w), "%s%s", i ? "," : "", a[i]);
    strcat(w, "]");
    json_list_t l = {n, ser, (void **)a};
    r = json_array_of_entities(l);
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w));
    free(r);
    for (int i = 0; i < n; i++) free(a[i]);
    free(a);
    doing("json_array_of_strings(NULL, 2) and json_array_of_ints(NULL, 2)");
    r = json_array_of_strings(NULL, 2); CHECK(!strcmp(r, "[]"), "result %s", esz(r)); free(r);
    r = json_array_of_ints(NULL, 2); CHECK(!strcmp(r, "[]"), "result %s", esz(r)); free(r);
    char *k = some("kK_"), *val = rnd(6) ? some("vV ") : NULL;
    doing("json_key_value(%s, %s)", esz(k), esz(val));
    r = json_key_value(k, val);
    sprintf(w, "\"%s\":\"%s\"", k, val ? val : "");
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w));
    free(r);
    int i = rnd(2) ? (int)rn() : (int)PICK(-2147483648L, 2147483647L, 0, -1, 1);
    doing("json_key_value_int(%s, %d), _bool, _uint32_t", esz(k), i);
    r = json_key_value_int(k, i); sprintf(w, "\"%s\":%d", k, i);
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w)); free(r);
    r = json_key_value_uint32_t(k, i); sprintf(w, "\"%s\":%u", k, (unsigned)i);
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w)); free(r);
    r = json_key_value_bool(k, i & 1); sprintf(w, "\"%s\":%s", k, i & 1 ? "true" : "false");
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w)); free(r);
    free(k); free(val);
  }
}

// ------------------------------------------------------------ log
void t_C22(void) {
  char pid[32];
  sprintf(pid, "%d", getpid());
  while (!later()) {
    vreset();
    int lv = rnd(6), thr = rnd(6);
    char m[300], mark[40];
    sprintf(mark, "mark%llx", (unsigned long long)rn());
    rstr(m, rnd(200), "abc %");
    doing("log level %d with threshold %d, message %s %s", lv, thr, mark, esz(m));
    vput("/l/log", "", 0);
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      log_set_file("/l/log");
      log_set_level(thr);
      bool e = log_level_is_enabled(lv);
      if (e != (lv >= thr)) { printf("FAIL %s\ninput: log_level_is_enabled(%d) with threshold %d\nresult %d, expected %d\n", PROP, lv, thr, e, lv >= thr); fflush(stdout); _exit(3); }
      __logger(lv, "file.c", 7, "fn", "%s %s", mark, m);
      _exit(0);
    }
    int s;
    waitpid(p, &s, 0);
    if (WIFEXITED(s) && WEXITSTATUS(s) == 3) _exit(3);
    long n;
    char *c = vread(vfind("/l/log"), &n), x[400];
    sprintf(x, "%s %s\n", mark, m);
    bool in = strstr(c, x) != NULL;
    free(c);
    CHECK(in == (lv >= thr), "the message is %s the log", in ? "in" : "not in");
    if (lv == LOG_FATAL) CHECK(WIFEXITED(s) && WEXITSTATUS(s) == EXIT_FAILURE, "the process went on after a fatal message, or ended otherwise");
    else CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0, "a message that is not fatal ended the process");
  }
}

// ------------------------------------------------------------ content types
char *get_content_type(char *filename) __attribute__((weak));
char *get_content_type_for_mime(char *mime) __attribute__((weak));
static const char *EXT[][2] = {{".html", "text/html"}, {".js", "text/html"}, {".png", "image/png"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".zip", "application/zip"}, {".css", "text/css"},
  {".svg", "image/svg+xml"}, {".ico", "image/vnd.microsoft.icon"}, {".txt", "text/plain"}, {".csv", "text/csv"}, {".yaml", "text/yaml"}};
static const char *MIME[] = {"text/html", "image/png", "image/jpeg", "application/zip", "text/css", "text/plain", "text/csv", "text/yaml"};
static const char *typeof_name(const char *f) {
  const char *e = strrchr(f, '.');
  if (!e || e == f) return "text/html";
  for (unsigned i = 0; i < sizeof EXT / sizeof *EXT; i++) if (!strcmp(EXT[i][0], e)) return EXT[i][1];
  return "application/octet-stream";
}
void t_C21(void) {
  if (!get_content_type || !get_content_type_for_mime) return;
  while (!later()) {
    char f[400], w[200];
    rstr(f, rnd(12), "ab./-");
    for (int k = rnd(4); k > 0; k--) strcat(f, rnd(4) ? (char *)EXT[rnd(12)][0] : ONEOF(".htm", ".html5", ".", "html", ".JPG", ".exe", ".tar", ".jpgx", ".y"));
    if (!rnd(8) && *f) f[strlen(f) - 1] = 0;
    doing("get_content_type(%s)", esz(f));
    sprintf(w, "Content-Type: %s\r\n", typeof_name(f));
    char *r = get_content_type(f);
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w));
    free(r);
    const char *t = "application/octet-stream";
    if (rnd(3)) strcpy(f, MIME[rnd(8)]); else rstr(f, rnd(14), "text/plimge");
    if (!rnd(4) && *f) f[rnd(strlen(f))] ^= 1;
    for (int i = 0; i < 8; i++) if (!strcmp(f, MIME[i])) t = MIME[i];
    doing("get_content_type_for_mime(%s)", esz(f));
    sprintf(w, "Content-Type: %s\r\n", t);
    r = get_content_type_for_mime(f);
    CHECK(!strcmp(r, w), "result %s, expected %s", esz(r), esz(w));
    free(r);
  }
}

// ------------------------------------------------------------ URL and header lookup
void free_path_and_query_t(path_and_query_t *p) __attribute__((weak));
void t_C12(void) {
  while (!later()) {
    char *u = some("/ab?=&"), *k = hstr(u);
    doing("get_path_and_query_string(%s)", esz(u));
    path_and_query_t *p = get_path_and_query_string(u);
    char *q = strchr(k, '?');
    long n = q ? q - k : (long)strlen(k);
    CHECK(!strcmp(u, k), "the URL changed");
    CHECK((long)strlen(p->path) == n && !memcmp(p->path, k, n), "path %s, expected %s", esz(p->path), esc(k, n));
    CHECK(!strcmp(p->query, q ? q + 1 : ""), "query %s, expected %s", esz(p->query), esz(q ? q + 1 : ""));
    memset(u, 'Z', strlen(u));
    CHECK((long)strlen(p->path) == n && !memcmp(p->path, k, n), "the path is not a copy");
    if (free_path_and_query_t) free_path_and_query_t(p);
    free(u); free(k);
  }
}
char *http_get_header(api_request *req, char *name) __attribute__((weak));
void request_headers(void) __attribute__((weak));
void t_C13(void) {
  while (!later()) {
    api_request *r = calloc(1, sizeof *r);
    r->n_headers = rnd(HTTP_MAX_HEADERS + 1);
    doing("http_get_header, headers:");
    for (int i = 0; i < HTTP_MAX_HEADERS; i++) {
      rstr(r->headers[i].name, rnd(3) ? 1 + rnd(2) : PICK(0, 62, 63), "aAbB");
      rstr(r->headers[i].value, rnd(4) ? rnd(5) : PICK(0, 254, 255), "vw ");
      if (i < r->n_headers) doingmore(" %s=%s", esz(r->headers[i].name), esz(r->headers[i].value));
    }
    char nm[64];
    rstr(nm, 1 + rnd(2), "aAbB");
    if (rnd(2) && r->n_headers) strcpy(nm, r->headers[rnd(r->n_headers)].name);
    doingmore(" asked: %s", esz(nm));
    char *w = "";
    for (int i = r->n_headers - 1; i >= 0; i--) if (!strcmp(nm, r->headers[i].name)) w = r->headers[i].value;
    if (http_get_header) {
      char *g = http_get_header(r, nm);
      CHECK(!strcmp(g, w), "result %s, expected %s", esz(g), esz(w));
      if (*g) free(g);
    }
    free(r);
    c_once();
    if (request_headers && !rnd(20)) request_headers();
  }
}

// ------------------------------------------------------------ responses
static const struct { int s; const char *l; } ST[] = {{200, "HTTP/1.1 200 OK\r\n"}, {201, "HTTP/1.1 201 CREATED\r\n"}, {400, "HTTP/1.1 400 Bad Request\r\n"}, {401, "HTTP/1.1 401 UNAUTHORIZED\r\n"},
  {403, "HTTP/1.1 403 Forbidden\r\n"}, {404, "HTTP/1.1 404 NOT FOUND\r\n"}, {429, "HTTP/1.1 429 Too many connections\r\n"}, {500, "HTTP/1.1 500 Internal Server Error\r\n"}};
static const char *stline(int s) { for (int i = 0; i < 8; i++) if (ST[i].s == s) return ST[i].l; return NULL; }
static char *framed(api_request *r, int status, bool length) {
  const char *l = stline(status);
  if (!net_out) net_out = calloc(1 << 16, 1);
  net_out[net_outlen] = 0;
  if (!l) { CHECK(net_outlen == 0, "status %d is unknown, but %ld bytes were sent: %s", status, net_outlen, esc(net_out, net_outlen)); return NULL; }
  long n = strlen(l);
  CHECK(net_outlen >= n && !memcmp(net_out, l, n), "the response does not start with the status line of %d: %s", status, esc(net_out, net_outlen < 200 ? net_outlen : 200));
  const char *sv = "Server: WAYUU/" WAYUU_WS_VERSION "\r\n";
  CHECK(!strncmp(net_out + n, sv, strlen(sv)), "the status line is not followed by the server header: %s", esc(net_out, net_outlen < 200 ? net_outlen : 200));
  char *b = strstr(net_out, "\r\n\r\n");
  if (r) CHECK((long)r->response_length == net_outlen, "response length %u recorded, %ld bytes sent", r->response_length, net_outlen);
  if (!b) { CHECK(!length, "no blank line: %s", esc(net_out, net_outlen)); return NULL; }
  char *cl = strcasestr(net_out, "Content-Length:");
  if (cl && cl < b) CHECK(atol(cl + 15) == net_outlen - (b + 4 - net_out), "Content-Length %ld announced, %ld bytes follow", atol(cl + 15), net_outlen - (b + 4 - net_out));
  else CHECK(!length, "no Content-Length: %s", esc(net_out, net_outlen < 300 ? net_outlen : 300));
  char *h2 = strstr(net_out + 5, "HTTP/1.1 ");
  CHECK(!h2 || h2 > b, "two status lines");
  return b + 4;
}
static api_request *newreq(void) {
  api_request *r = calloc(1, sizeof *r);
  r->socket = 9;
  r->session = rnd(2) ? "" : "sess-1";
  r->form = r->path = r->url = r->query_string = r->username = "";
  r->IP = "1.2.3.4";
  r->request_line = "GET / HTTP/1.1";
  r->method = "GET";
  netreset(9, "", 0);
  return r;
}
void t_C11(void) {
  WAYUU_SSL_ON = false;
  log_set_level(LOG_FATAL);
  while (!later()) {
    vreset();
    static char big[9000];
    rstr(big, rnd(4) ? rnd(200) : rnd(8000), "abc{}\n :,");
    int s = rnd(3) ? ST[rnd(8)].s : rnd(2) ? rnd(700) : PICK(0, -1, 202, 402, 199, 501, 2000);
    api_request *r = newreq();
    doing("send_http_status(%d, %s)", s, esz(big));
    if (rnd(3) == 0) *big = 0;
    send_http_status(r, s, big);
    char *b = framed(r, s, true);
    if (b) CHECK(net_outlen - (b - net_out) == (*big ? (long)strlen(big) + 2 : 0) || !*big, "the body is not the message");
    if (b && *big) CHECK(!strncmp(b, big, strlen(big)), "the body is not the message: %s", esz(b));
    free(r);
    r = newreq();
    doing("return_json_with_status(%d, %s)", s, esz(big));
    return_json_with_status(r, s, big);
    b = framed(r, s, true);
    if (b) CHECK(!strncmp(b, big, strlen(big)), "the body is not the text");
    free(r);
    struct { const char *n; void (*f)(api_request *); int s; } F[] = {{"not_found", not_found, 404}, {"too_many_connections", too_many_connections, 429}, {"not_authenticated", not_authenticated, 401},
      {"bad_request", bad_request, 400}, {"forbidden", forbidden, 403}, {"ok", ok, 200}, {"created", created, 201}, {"internal_server_error", internal_server_error, 500}};
    int k = rnd(8);
    r = newreq();
    doing("%s", F[k].n);
    F[k].f(r);
    framed(r, F[k].s, true);
    free(r);
    r = newreq();
    wayuu_error_t *e = calloc(1, sizeof *e);
    rstr(e->code, rnd(2) ? rnd(60) : 63, "CODE_");
    if (!rnd(5)) *e->code = 0;
    rstr(e->message, rnd(2) ? rnd(60) : 1023, "message ");
    k = rnd(3);
    doing("%s(code %s, message %s)", k == 0 ? "bad_request_with_error" : k == 1 ? "forbidden_with_error" : "internal_server_error_with_error", esz(e->code), esz(e->message));
    (k == 0 ? bad_request_with_error : k == 1 ? forbidden_with_error : internal_server_error_with_error)(r, e);
    b = framed(r, k == 0 ? 400 : k == 1 ? 403 : 500, true);
    static char w[3000];
    sprintf(w, "{\"code\":\"%s\",\"message\":\"%s\"}", *e->code ? e->code : "UNKNOWN", e->message);
    CHECK(b && !strncmp(b, w, strlen(w)), "the body is %s, expected %s", esz(b), esz(w));
    free(e); free(r);
    r = newreq();
    doing("return_json / created_with_json(%s)", esz(big));
    if (rnd(2)) { return_json(r, big); b = framed(r, 200, true); } else { created_with_json(r, big); b = framed(r, 201, true); }
    CHECK(b && !strncmp(b, big, strlen(big)), "the body is not the text");
    free(r);
    r = newreq();
    char *f = ONEOF("/s/a.html", "/s/b.png", "/s/noext", "/s/x.y.css");
    if (rnd(2)) for (char *p = big; *p; p++) if (!rnd(10)) *p = 1 + rnd(255);
    long bl = strlen(big);
    vput(f, big, bl);
    doing("direct_file(%s), content %s", f, esc(big, bl < 300 ? bl : 300));
    int rc = direct_file(r, f);
    b = framed(r, 200, false);
    CHECK(rc == 0 && b && net_outlen - (b - net_out) == bl && !memcmp(b, big, bl), "the body is not the file");
    free(r);
    r = newreq();
    doing("direct_file of a missing file");
    rc = direct_file(r, "/s/missing");
    CHECK(rc < 0 && net_outlen == 0, "result %d and %ld bytes sent", rc, net_outlen);
    free(r);
    r = newreq();
    doing("return_json_stream(%d), file %s", s, esc(big, bl < 300 ? bl : 300));
    FILE *fp = fopen(f, "r");
    return_json_stream(r, s, fp);
    fclose(fp);
    b = framed(r, s, false);
    if (b) CHECK(net_outlen - (b - net_out) == bl + 2 && !memcmp(b, big, bl), "the body is not the file and a line end");
    free(r);
    r = newreq();
    doing("return_json_headers(%d), return_headers_with_mime(%d)", s, s);
    rc = rnd(2) ? return_json_headers(r, s) : return_headers_with_mime(r, s, "text/plain");
    framed(NULL, s, false);
    CHECK(rc == net_outlen, "%d returned, %ld bytes sent", rc, net_outlen);
    free(r);
  }
}
