// Models of C library functions used by the checked code (symbolic execution only).
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <time.h>
#include <errno.h>
#include <limits.h>
extern uint64_t sx_concretize(uint64_t v);
extern void sx_incomplete(const char *);
extern void sx_error(const char *, const char *);
extern int sx_host_fmt_double(char *dst, size_t n, const char *fmt, double d);

static int vf_errno;
int *__errno_location(void) { return &vf_errno; }

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
int strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char *a, const char *b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; return i == n ? 0 : (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (((c | 32) >= 'a') & ((c | 32) <= 'f')); }
int strcasecmp(const char *a, const char *b) { size_t i = 0; while (a[i] && tolower((unsigned char)a[i]) == tolower((unsigned char)b[i])) i++; return tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]); }
int strncasecmp(const char *a, const char *b, size_t n) { size_t i = 0; while (i < n && a[i] && tolower((unsigned char)a[i]) == tolower((unsigned char)b[i])) i++; return i == n ? 0 : tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]); }
static unsigned short ctab[384]; static const unsigned short *ctabp; static int lotab[384], uptab[384]; static const int *lop, *upp;
const unsigned short **__ctype_b_loc(void) {
  if (!ctabp) { // glibc bit layout (little endian)
    for (int c = -128; c < 256; c++) {
      unsigned short m = 0; int d = c;
      if (d >= 0) { if (isupper(d)) m |= 1 << 8; if (islower(d)) m |= 1 << 9; if (isalpha(d)) m |= 1 << 10; if (isdigit(d)) m |= 1 << 11; if (isxdigit(d)) m |= 1 << 12; if (isspace(d)) m |= 1 << 13; if (isprint(d)) m |= 1 << 14; if (isgraph(d)) m |= 1 << 15; if (isblank(d)) m |= 1 << 0; if (iscntrl(d)) m |= 1 << 1; if (ispunct(d)) m |= 1 << 2; if (isalnum(d)) m |= 1 << 3; }
      ctab[c + 128] = m;
    }
    ctabp = ctab + 128;
  }
  return &ctabp;
}
const int **__ctype_tolower_loc(void) { if (!lop) { for (int c = -128; c < 256; c++) lotab[c + 128] = tolower(c); lop = lotab + 128; } return &lop; }
const int **__ctype_toupper_loc(void) { if (!upp) { for (int c = -128; c < 256; c++) uptab[c + 128] = toupper(c); upp = uptab + 128; } return &upp; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { if (!*n) return (char *)h; for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; } return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
extern void *malloc(size_t); extern void free(void *); extern void *memcpy(void *, const void *, size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *__strdup(const char *s) { return strdup(s); }
static char *tokp;
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
char *strerror(int e) { return "error"; }
void perror(const char *s) { }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }

static int digitOf(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long long strtoxx(const char *s, char **end, int base, int sgn, unsigned long long maxpos, int *ovf, int *negp) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  int neg = 0; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf(p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0; *ovf = 0;
  for (; digitOf(*p) < base; p++) { any = 1; int d = digitOf(*p); unsigned __int128 t = (unsigned __int128)v * base + d; if (t > maxpos + (unsigned long long)(sgn && neg)) { *ovf = 1; v = maxpos; } else if (!*ovf) v = (unsigned long long)t; }
  if (end) *end = (char *)(any ? p : s);
  *negp = neg; return v;
}
long strtol(const char *s, char **e, int b) { int o, n; unsigned long long v = strtoxx(s, e, b, 1, LONG_MAX, &o, &n); if (o) { vf_errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int o, n; unsigned long long v = strtoxx(s, e, b, 0, ULONG_MAX, &o, &n); if (o) { vf_errno = ERANGE; return ULONG_MAX; } return n ? 0 - v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
extern double sx_host_strtod(const char *s, char **end);
double strtod(const char *s, char **e) { return sx_host_strtod(s, e); }
float strtof(const char *s, char **e) { return (float)sx_host_strtod(s, e); }
double atof(const char *s) { return sx_host_strtod(s, 0); }

// ---- printf family ----
struct out { char *b; size_t n, pos; };
static void oc(struct out *o, char c) { if (o->pos + 1 < o->n) o->b[o->pos] = c; o->pos++; }
static int fmtnum(char *t, unsigned long long v, int base, int upper) { // digits reversed
  int n = 0; do { unsigned d = (unsigned)(v % base); t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v); return n;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  struct out o = {b, n, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    f++;
    int minus = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') minus = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { minus = 1; width = -width; } f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng++; else if (*f == 'h') lng--; else if (*f == 'L') lng = 9; else break; }
    char t[72]; int len = 0; char pre[3]; int np = 0;
    switch (*f) {
    case '%': oc(&o, '%'); break;
    case 'c': { char c = (char)va_arg(ap, int); if (!minus) for (int i = 1; i < width; i++) oc(&o, ' '); oc(&o, c); if (minus) for (int i = 1; i < width; i++) oc(&o, ' '); break; }
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t l = prec >= 0 ? strnlen(s, prec) : strlen(s); if (!minus) for (size_t i = l; i < (size_t)width; i++) oc(&o, ' '); for (size_t i = 0; i < l; i++) oc(&o, s[i]); if (minus) for (size_t i = l; i < (size_t)width; i++) oc(&o, ' '); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long long v; int neg = 0;
      if (*f == 'd' || *f == 'i') { long long x = lng > 0 ? va_arg(ap, long long) : lng == 0 ? va_arg(ap, int) : lng == -1 ? (short)va_arg(ap, int) : (signed char)va_arg(ap, int); neg = x < 0; v = neg ? 0 - (unsigned long long)x : x; }
      else if (*f == 'p') { v = (unsigned long long)va_arg(ap, void *); alt = 1; }
      else v = lng > 0 ? va_arg(ap, unsigned long long) : lng == 0 ? va_arg(ap, unsigned) : lng == -1 ? (unsigned short)va_arg(ap, int) : (unsigned char)va_arg(ap, int);
      int base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
      if (prec == 0 && v == 0) len = 0; else len = fmtnum(t, v, base, *f == 'X');
      if (neg) pre[np++] = '-'; else if (plus && base == 10 && *f != 'u') pre[np++] = '+'; else if (space && base == 10 && *f != 'u') pre[np++] = ' ';
      if (alt && base == 16 && v) { pre[np++] = '0'; pre[np++] = *f == 'X' ? 'X' : 'x'; }
      int zeros = prec > len ? prec - len : 0; if (alt && base == 8 && !zeros && v) zeros = 1;
      if (zero && !minus && prec < 0 && width > len + np + zeros) zeros = width - len - np;
      int pad = width - len - np - zeros;
      if (!minus) for (int i = 0; i < pad; i++) oc(&o, ' ');
      for (int i = 0; i < np; i++) oc(&o, pre[i]); for (int i = 0; i < zeros; i++) oc(&o, '0'); while (len) oc(&o, t[--len]);
      if (minus) for (int i = 0; i < pad; i++) oc(&o, ' ');
      break; }
    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
      double d = va_arg(ap, double); char ff[24]; int k = 0; ff[k++] = '%'; if (minus) ff[k++] = '-'; if (zero) ff[k++] = '0'; if (plus) ff[k++] = '+'; if (space) ff[k++] = ' '; if (alt) ff[k++] = '#';
      if (width) { char w[12]; int m = fmtnum(w, width, 10, 0); while (m) ff[k++] = w[--m]; }
      if (prec >= 0) { ff[k++] = '.'; char w[12]; int m = fmtnum(w, prec, 10, 0); while (m) ff[k++] = w[--m]; }
      ff[k++] = *f; ff[k] = 0;
      static char big[700]; int l = sx_host_fmt_double(big, sizeof big, ff, d);
      for (int i = 0; i < l && i < (int)sizeof big - 1; i++) oc(&o, big[i]);
      break; }
    default: sx_incomplete("printf conversion not modelled");
    }
  }
  if (o.n) o.b[o.pos < o.n ? o.pos : o.n - 1] = 0;
  return (int)o.pos;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)1 << 27, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 27, f, ap); va_end(ap); return r; }
struct _IO_FILE; typedef struct _IO_FILE FILE;
FILE *stdout, *stderr, *stdin;
int printf(const char *f, ...) { return 0; }
int fprintf(FILE *s, const char *f, ...) { return 0; }
int vfprintf(FILE *s, const char *f, va_list ap) { return 0; }
int vprintf(const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
int fputs(const char *s, FILE *f) { return 0; }
int fputc(int c, FILE *f) { return c; }
int putc(int c, FILE *f) { return c; }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) { return b; }
int fflush(FILE *f) { return 0; }

static int vsscanf_(const char *s, const char *f, va_list ap) {
  int n = 0; const char *s0 = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return (n == 0 && !*s) ? -1 : n; s++; continue; }
    f++; int sup = 0, width = 0, lng = 0; if (*f == '*') { sup = 1; f++; }
    while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j') lng++; else if (*f == 'h') lng--; else break; }
    if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
    if (*f == '%') { while (isspace((unsigned char)*s)) s++; if (*s != '%') return n; s++; continue; }
    if (*f != 'c' && *f != '[') while (isspace((unsigned char)*s)) s++;
    if (!*s) return n ? n : -1;
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'o' || *f == 'X') {
      int base = *f == 'i' ? 0 : *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10; char tmp[64]; const char *src = s; 
      if (width > 0 && width < 63) { int k = 0; for (; k < width && s[k]; k++) tmp[k] = s[k]; tmp[k] = 0; src = tmp; }
      char *e; long long v = *f == 'u' || *f == 'x' || *f == 'o' || *f == 'X' ? (long long)strtoul(src, &e, base) : strtol(src, &e, base);
      if (e == src) return n; s += e - src;
      if (!sup) { if (lng > 0) *va_arg(ap, long long *) = v; else if (lng == -1) *va_arg(ap, short *) = (short)v; else if (lng < -1) *va_arg(ap, char *) = (char)v; else *va_arg(ap, int *) = (int)v; n++; }
    } else if (*f == 's') { char *d = sup ? 0 : va_arg(ap, char *); int k = 0; while (*s && !isspace((unsigned char)*s) && (!width || k < width)) { if (d) d[k] = *s; k++; s++; } if (d) { d[k] = 0; n++; } }
    else if (*f == 'c') { char *d = sup ? 0 : va_arg(ap, char *); if (d) { *d = *s; n++; } s++; }
    else if (*f == 'f' || *f == 'g' || *f == 'e') { char *e; double v = sx_host_strtod(s, &e); if (e == s) return n; s = e; if (!sup) { if (lng > 0) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float)v; n++; } }
    else sx_incomplete("scanf conversion not modelled");
  }
  return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf_(s, f, ap); va_end(ap); return r; }

// ---- time (the local time zone is UTC) ----
static long long daysFromCivil(long long y, int m, int d) { y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long long)doe - 719468; }
struct tm *gmtime_r(const time_t *tp, struct tm *r) {
  long long t = *tp; long long days = t / 86400; long long rem = t % 86400; if (rem < 0) { rem += 86400; days--; }
  r->tm_hour = (int)(rem / 3600); r->tm_min = (int)(rem % 3600 / 60); r->tm_sec = (int)(rem % 60);
  long long wd = (days + 4) % 7; if (wd < 0) wd += 7; r->tm_wday = (int)wd;
  long long z = days + 719468; long long era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long long y = (long long)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; unsigned d = doy - (153 * mp + 2) / 5 + 1; unsigned m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2;
  if (y - 1900 > 2147483647LL || y - 1900 < -2147483648LL) { vf_errno = EOVERFLOW; return 0; }
  r->tm_year = (int)(y - 1900); r->tm_mon = m - 1; r->tm_mday = d; r->tm_yday = (int)(days - daysFromCivil(y, 1, 1)); r->tm_isdst = 0; 
  r->tm_gmtoff = 0; r->tm_zone = "GMT";
  return r;
}
static struct tm gtm;
struct tm *gmtime(const time_t *t) { return gmtime_r(t, &gtm); }
struct tm *localtime_r(const time_t *t, struct tm *r) { struct tm *x = gmtime_r(t, r); if (x) x->tm_zone = "UTC"; return x; }
struct tm *localtime(const time_t *t) { return localtime_r(t, &gtm); }
time_t timegm(struct tm *t) {
  long long mon = t->tm_mon, y = (long long)t->tm_year + 1900; y += mon / 12; mon %= 12; if (mon < 0) { mon += 12; y--; }
  long long r = daysFromCivil(y, (int)mon + 1, 1) * 86400LL + ((long long)t->tm_mday - 1) * 86400LL + (long long)t->tm_hour * 3600LL + (long long)t->tm_min * 60LL + t->tm_sec;
  time_t tt = r; struct tm n; if (!gmtime_r(&tt, &n)) return -1; *t = n; return tt;
}
time_t mktime(struct tm *t) { time_t r = timegm(t); t->tm_zone = "UTC"; return r; }
size_t strftime(char *b, size_t n, const char *f, const struct tm *t) {
  static const char *wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char *mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  size_t p = 0; char t2[64];
  for (; *f; f++) {
    const char *s = t2; 
    if (*f != '%') { t2[0] = *f; t2[1] = 0; }
    else switch (*++f) {
      case 'Y': snprintf(t2, sizeof t2, "%d", t->tm_year + 1900); break; case 'm': snprintf(t2, sizeof t2, "%02d", t->tm_mon + 1); break; case 'd': snprintf(t2, sizeof t2, "%02d", t->tm_mday); break;
      case 'H': snprintf(t2, sizeof t2, "%02d", t->tm_hour); break; case 'M': snprintf(t2, sizeof t2, "%02d", t->tm_min); break; case 'S': snprintf(t2, sizeof t2, "%02d", t->tm_sec); break;
      case 'y': snprintf(t2, sizeof t2, "%02d", t->tm_year % 100); break; case 'j': snprintf(t2, sizeof t2, "%03d", t->tm_yday + 1); break; case 'e': snprintf(t2, sizeof t2, "%2d", t->tm_mday); break;
      case 'F': snprintf(t2, sizeof t2, "%d-%02d-%02d", t->tm_year + 1900, t->tm_mon + 1, t->tm_mday); break; case 'T': snprintf(t2, sizeof t2, "%02d:%02d:%02d", t->tm_hour, t->tm_min, t->tm_sec); break; case 'D': snprintf(t2, sizeof t2, "%02d/%02d/%02d", t->tm_mon + 1, t->tm_mday, t->tm_year % 100); break; case 'R': snprintf(t2, sizeof t2, "%02d:%02d", t->tm_hour, t->tm_min); break;
      case 'a': s = (unsigned)t->tm_wday < 7 ? wd[t->tm_wday] : "?"; break; case 'b': case 'h': s = (unsigned)t->tm_mon < 12 ? mo[t->tm_mon] : "?"; break; case 'Z': s = t->tm_zone ? t->tm_zone : ""; break; case 'z': s = "+0000"; break; case '%': s = "%"; break; case 'n': s = "\n"; break; case 't': s = "\t"; break;
      case 'c': snprintf(t2, sizeof t2, "%s %s %2d %02d:%02d:%02d %d", (unsigned)t->tm_wday < 7 ? wd[t->tm_wday] : "?", (unsigned)t->tm_mon < 12 ? mo[t->tm_mon] : "?", t->tm_mday, t->tm_hour, t->tm_min, t->tm_sec, t->tm_year + 1900); break;
      default: sx_incomplete("strftime conversion not modelled"); }
    while (*s) { if (p + 1 >= n) return 0; b[p++] = *s++; }
  }
  if (p >= n) return 0;
  b[p] = 0; return p;
}
char *asctime_r(const struct tm *t, char *b) { static const char *wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char *mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; sprintf(b, "%s %s %2d %02d:%02d:%02d %d\n", wd[t->tm_wday], mo[t->tm_mon], t->tm_mday, t->tm_hour, t->tm_min, t->tm_sec, t->tm_year + 1900); return b; }
void tzset(void) { }

// environment variables: set by harnesses through vf_setenv
static struct { char k[32], v[64]; int used; } envt[8];
int vf_setenv(const char *k, const char *v) { for (int i = 0; i < 8; i++) if (!envt[i].used || strcmp(envt[i].k, k) == 0) { envt[i].used = 1; strncpy(envt[i].k, k, 31); strncpy(envt[i].v, v, 63); return 0; } return -1; }
char *getenv(const char *k) { for (int i = 0; i < 8; i++) if (envt[i].used && strcmp(envt[i].k, k) == 0) return envt[i].v; return 0; }
int setenv(const char *k, const char *v, int o) { if (!o && getenv(k)) return 0; return vf_setenv(k, v); }

// stable insertion-based qsort
extern void *memmove(void *, const void *, size_t);
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *p = b; char t[256]; if (w > 256) sx_incomplete("qsort element size");
  for (size_t i = 1; i < n; i++) { memcpy(t, p + i * w, w); size_t j = i; while (j && cmp(p + (j - 1) * w, t) > 0) { memcpy(p + j * w, p + (j - 1) * w, w); j--; } memcpy(p + j * w, t, w); }
}
void *lfind(const void *k, const void *b, size_t *n, size_t w, int (*cmp)(const void *, const void *)) { for (size_t i = 0; i < *n; i++) if (!cmp(k, (const char *)b + i * w)) return (char *)b + i * w; return 0; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { sx_error("assertion-failure", e); }
int getpid(void) { return 4242; }
char *getcwd(char *b, size_t n) { if (!b) { b = malloc(n ? n : 256); } strcpy(b, "/cwd"); return b; }
