// Mini C library compiled to bitcode next to the code under test. Plain reference implementations.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdlib.h>
#include <errno.h>
int sx_native(void) { return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; ++a, ++b) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); while (n && *s) { *e++ = *s++; n--; } *e = 0; return d; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; ++h) if (!strncmp(h, n, l)) return (char*)h; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; --n, ++x, ++y) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (; n; --n, ++x) if (*x == (unsigned char)c) return (void*)x; return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); for (size_t i = 0; i < n; ++i) p[i] = s[i]; return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
char *__strdup(const char *s) { return strdup(s); }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isspace(int c) { return sp(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return lc(c); }
int abs(int a) { return a < 0 ? -a : a; }
static unsigned short ctab[384]; static const unsigned short *ctabp; 
const unsigned short **__ctype_b_loc(void)
{
    if (!ctabp) {
        for (int c = 0; c < 128; ++c) {
            unsigned short v = 0;   // glibc bit layout, little endian
            if (isupper(c)) v |= 1 << 8; if (islower(c)) v |= 1 << 9; if (isalpha(c)) v |= 1 << 10; if (isdigit(c)) v |= 1 << 11; if (isxdigit(c)) v |= 1 << 12;
            if (sp(c)) v |= 1 << 13; if (isprint(c)) v |= 1 << 14; if (c > 32 && c < 127) v |= 1 << 15; if (c == ' ' || c == '\t') v |= 1; if (iscntrl(c)) v |= 2; if (ispunct(c)) v |= 4; if (isalnum(c)) v |= 8;
            ctab[c + 128] = v;
        }
        ctabp = ctab + 128;
    }
    return &ctabp;
}
static int32_t lowtab[384], uptab[384]; static const int32_t *lowp, *upp;
const int32_t **__ctype_tolower_loc(void) { if (!lowp) { for (int c = -128; c < 256; ++c) lowtab[c + 128] = lc(c); lowp = lowtab + 128; } return &lowp; }
const int32_t **__ctype_toupper_loc(void) { if (!upp) { for (int c = -128; c < 256; ++c) uptab[c + 128] = toupper(c); upp = uptab + 128; } return &upp; }
int errno_; int *__errno_location(void) { return &errno_; }
static int dig(int c) { int l = c | 32, d = (c >= '0') & (c <= '9'), h = (l >= 'a') & (l <= 'z'); return d * (c - '0') + h * (l - 'a' + 10) + !(d | h) * 99; }   // no branches
long long strtoll(const char *s, char **end, int base)
{
    const char *p = s; int neg = 0, any = 0, over = 0, nd = 0; unsigned long long v = 0, lim;
    while (sp((unsigned char)*p)) p++;
    if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    lim = neg ? 0x8000000000000000ull : 0x7fffffffffffffffull;
    while (dig(*p) < base) { unsigned d = dig(*p); if (over || (nd++ >= 12 && v > (lim - d) / base)) over = 1; else v = v * base + d; any = 1; p++; }
    if (end) *end = (char*)(any ? p : s);
    if (over) { errno_ = ERANGE; return neg ? INT64_MIN : INT64_MAX; }
    return neg ? (long long)(0 - v) : (long long)v;
}
// sscanf: literals, white space and %Nx / %Nd / %Nu
int __isoc99_sscanf(const char *s, const char *f, ...)
{
    va_list ap; va_start(ap, f); int n = 0; const char *start = s;
    for (; *f; ++f)
    {
        if (*f == ' ') { while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; continue; }
        if (*f != '%') { if (*s != *f) { if (!*s && !n) n = -1; break; } s++; continue; }
        f++; int width = 0; while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (!width) width = 1 << 30;
        int base = *f == 'x' ? 16 : 10, neg = 0, digits = 0; unsigned long v = 0;
        while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
        if (!*s) { if (!n) n = -1; break; }
        if (*s == '-' || *s == '+') { neg = *s == '-'; s++; width--; }
        if (base == 16 && width > 1 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; width -= 2; digits = 1; }
        for (; width > 0; --width, ++s) { int c = (unsigned char)*s, d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; v = v * base + d; digits = 1; }
        if (!digits) break;
        *va_arg(ap, unsigned *) = neg ? 0 - (unsigned)v : (unsigned)v; n++;
    }
    va_end(ap); (void)start; return n;
}
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(const char *s) { return (int)strtoll(s, 0, 10); }
long atol(const char *s) { return strtoll(s, 0, 10); }
char *getenv(const char *n) { return 0; }
int isatty(int fd) { return 0; }
int atexit(void (*f)(void)) { return 0; }
typedef struct { char *d; size_t cap, n; } Out;
static void oc(Out *o, char c) { if (o->n + 1 < o->cap) o->d[o->n] = c; o->n++; }
static void num(Out *o, unsigned long long v, int neg, unsigned base, int up, int width, int zero, int left, int prec, int alt, int plus)
{
    char t[70]; int k = 0;
    while (v) { unsigned d = v % base; t[k++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; }
    if (k == 0 && prec != 0) t[k++] = '0';
    while (k < prec && k < 60) t[k++] = '0';
    int len = k + (neg || plus ? 1 : 0) + (alt ? 2 : 0);
    if (prec >= 0) zero = 0;
    if (!left && !zero) for (int i = len; i < width; ++i) oc(o, ' ');
    if (neg) oc(o, '-'); else if (plus) oc(o, '+');
    if (alt) { oc(o, '0'); oc(o, up ? 'X' : 'x'); }
    if (!left && zero) for (int i = len; i < width; ++i) oc(o, '0');
    while (k) oc(o, t[--k]);
    if (left) for (int i = len; i < width; ++i) oc(o, ' ');
}
int vsnprintf(char *d, size_t cap, const char *f, va_list ap)
{
    Out o = {d, cap, 0};
    for (; *f; ++f) {
        if (*f != '%') { oc(&o, *f); continue; }
        f++;
        int left = 0, zero = 0, alt = 0, plus = 0, width = 0, prec = -1, l = 0;
        for (;; ++f) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '#') alt = 1; else if (*f == '+') plus = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
        for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l++; else if (*f == 'h') ; else break; }
        switch (*f) {
        case '%': oc(&o, '%'); break;
        case 'c': { int c = va_arg(ap, int); for (int i = 1; !left && i < width; ++i) oc(&o, ' '); oc(&o, (char)c); for (int i = 1; left && i < width; ++i) oc(&o, ' '); break; }
        case 's': {
            const char *s = va_arg(ap, const char*); if (!s) s = "(null)";
            size_t n = prec >= 0 ? strnlen(s, prec) : strlen(s);
            for (size_t i = n; !left && i < (size_t)width; ++i) oc(&o, ' ');
            for (size_t i = 0; i < n; ++i) oc(&o, s[i]);
            for (size_t i = n; left && i < (size_t)width; ++i) oc(&o, ' ');
            break;
        }
        case 'd': case 'i': { long long v = l ? va_arg(ap, long long) : va_arg(ap, int); num(&o, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0, 10, 0, width, zero, left, prec, 0, plus); break; }
        case 'u': { unsigned long long v = l ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); num(&o, v, 0, 10, 0, width, zero, left, prec, 0, 0); break; }
        case 'x': case 'X': { unsigned long long v = l ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); num(&o, v, 0, 16, *f == 'X', width, zero, left, prec, alt && v, 0); break; }
        case 'o': { unsigned long long v = l ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); num(&o, v, 0, 8, 0, width, zero, left, prec, 0, 0); break; }
        case 'p': { void *v = va_arg(ap, void*); num(&o, (unsigned long long)(uintptr_t)v, 0, 16, 0, width, zero, left, prec, 1, 0); break; }
        default: abort();
        }
    }
    if (cap) d[o.n < cap ? o.n : cap - 1] = 0;
    return (int)o.n;
}
int snprintf(char *d, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, cap, f, ap); va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int vsprintf(char *d, const char *f, va_list ap) { return vsnprintf(d, (size_t)1 << 30, f, ap); }
static char fstd[3][8]; void *stdin = fstd[0], *stdout = fstd[1], *stderr = fstd[2];
