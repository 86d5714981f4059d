// Models of C library functions that code under test (or an edit of it) may call.
typedef unsigned long sz; typedef unsigned char uc;
int nb_errno; int* __errno_location(void);
static uc lo(uc c) { return c + (uc)((uc)((c >= 'A') & (c <= 'Z')) << 5); }
static uc up(uc c) { return c - (uc)((uc)((c >= 'a') & (c <= 'z')) << 5); }
int tolower(int c) { unsigned in = (unsigned)(c - 65) < 26u; return c + (int)(in << 5); }
int toupper(int c) { unsigned in = (unsigned)(c - 97) < 26u; return c - (int)(in << 5); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int strncmp(const char* a, const char* b, sz n) { for (sz i = 0; i < n; i++) { uc x = a[i], y = b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { for (sz i = 0;; i++) { uc x = lo(a[i]), y = lo(b[i]); if (x != y) return (int)x - (int)y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, sz n) { for (sz i = 0; i < n; i++) { uc x = lo(a[i]), y = lo(b[i]); if (x != y) return (int)x - (int)y; if (!x) return 0; } return 0; }
sz strnlen(const char* s, sz n) { sz i = 0; while (i < n && s[i]) i++; return i; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
void* memrchr(const void* s, int c, sz n) { const uc* p = s; while (n--) if (p[n] == (uc)c) return (void*)(p + n); return 0; }
char* strstr(const char* h, const char* n) { for (;; h++) { sz i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
void* memmem(const void* h, sz hn, const void* n, sz nn) { const uc *a = h, *b = n; for (sz i = 0; i + nn <= hn; i++) { sz j = 0; while (j < nn && a[i + j] == b[j]) j++; if (j == nn) return (void*)(a + i); } return 0; }
sz strspn(const char* s, const char* a) { sz i = 0; for (; s[i]; i++) { sz j = 0; while (a[j] && a[j] != s[i]) j++; if (!a[j]) break; } return i; }
sz strcspn(const char* s, const char* a) { sz i = 0; for (; s[i]; i++) { sz j = 0; while (a[j] && a[j] != s[i]) j++; if (a[j]) break; } return i; }
char* strcpy(char* d, const char* s) { sz i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, sz n) { sz i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
static int dig(uc c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long conv(const char* s, char** end, int base, int* neg, int* over) {
  const char* p = s; while (isspace((uc)*p)) p++; *neg = 0; *over = 0; if (*p == '-' || *p == '+') { *neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; const char* q = p; for (int d; (d = dig(*q)) < base; q++) { unsigned __int128 t = (unsigned __int128)v * base + d; if (t >> 64) *over = 1; v = (unsigned long)t; }
  if (end) *end = (char*)(q == p ? s : q); return v; }
long strtol(const char* s, char** e, int b) { int n, o; unsigned long v = conv(s, e, b, &n, &o); if (o || (!n && v > 0x7fffffffffffffffUL) || (n && v > 0x8000000000000000UL)) { *__errno_location() = 34; return n ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; } return n ? (long)-v : (long)v; }
unsigned long strtoul(const char* s, char** e, int b) { int n, o; unsigned long v = conv(s, e, b, &n, &o); if (o) { *__errno_location() = 34; return ~0UL; } return n ? -v : v; }
long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
