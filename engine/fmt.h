/* Captures what is printed: a line is collected as text in which every number is a '#'; vp_text() is called at the end
   of each line. Numbers are in vp_num[0..vp_nn-1]. FMT_ON: whether printing is to be looked at. */
#ifndef VP_FMT_H
#define VP_FMT_H
#include <stdint.h>
#define VP_LINE 120
#ifdef FMT_DOUBLE
#define VP_T double
#define VP_U(x) _Generic((x) + 0, char *: 0.0, const char *: 0.0, default: (x))
#define VP_STR(x) "@"
#elif defined FMT_INT
#define VP_T uint64_t
#define VP_U(x) ((uint64_t)(x))
#define VP_STR(x) ((const char *)(x))
#else
#define VP_T uint64_t
#define VP_U(x) ((uint64_t)_Generic((x), double: 0, float: 0, default: (x)))
#define VP_STR(x) ((const char *)(x))
#endif
static char vp_line[VP_LINE]; static int vp_len, vp_nn; static VP_T vp_num[16], vp_arg[16];
static void vp_text(void);
static void vp_chr(char c)
{
    if (c == '\n') { vp_line[vp_len] = 0; vp_text(); vp_len = 0; vp_nn = 0; }
    else if (vp_len < VP_LINE - 1) vp_line[vp_len++] = c;
}
static void vp_str(const char *s) { for (int i = 0; s[i]; i++) vp_chr(s[i]); }
static int vp_flag(char c) { return c == '-' || c == '+' || c == ' ' || c == '.' || c == 'z' || c == 'l' || c == 'h' || c == 'j' || c == 't' || (c >= '0' && c <= '9'); }
static void vp_fmt(const char *f, const VP_T *a)
{
    int i = 0, k = 0;
    while (f[i]) {
        if (f[i] != '%') { vp_chr(f[i]); i++; continue; }
        i++;
        while (vp_flag(f[i])) i++;
        if (f[i] == '%') vp_chr('%');
        else if (f[i] == 's') { vp_str(VP_STR(a[k])); k++; }
        else { vp_chr('#'); if (vp_nn < 16) vp_num[vp_nn++] = a[k]; k++; }
        i++;
    }
}
/* is p at the start of the line, followed by a worker (number) or by something else: 1, 2, or 0 when the line is another */
static int vp_is(const char *p)
{
    int i = 0;
    for (; p[i]; i++) if (vp_line[i] != p[i]) return 0;
    return vp_line[i] == '#' ? 1 : 2;
}
#define VP_N(a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,n,...) n
#define VP_C(...) VP_N(__VA_ARGS__,12,11,10,9,8,7,6,5,4,3,2,1,0)
#define VP_J_(a, b) a##b
#define VP_J(a, b) VP_J_(a, b)
#define VP_F0(f) f, vp_arg
#define VP_F1(f,a) f, (vp_arg[0] = VP_U(a), vp_arg)
#define VP_F2(f,a,b) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg)
#define VP_F3(f,a,b,c) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg)
#define VP_F4(f,a,b,c,d) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg)
#define VP_F5(f,a,b,c,d,e) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg)
#define VP_F6(f,a,b,c,d,e,g) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg[5] = VP_U(g), vp_arg)
#define VP_F7(f,a,b,c,d,e,g,h) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg[5] = VP_U(g), vp_arg[6] = VP_U(h), vp_arg)
#define VP_F8(f,a,b,c,d,e,g,h,i) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg[5] = VP_U(g), vp_arg[6] = VP_U(h), vp_arg[7] = VP_U(i), vp_arg)
#define VP_F9(f,a,b,c,d,e,g,h,i,j) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg[5] = VP_U(g), vp_arg[6] = VP_U(h), vp_arg[7] = VP_U(i), vp_arg[8] = VP_U(j), vp_arg)
#define VP_F10(f,a,b,c,d,e,g,h,i,j,k) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg[5] = VP_U(g), vp_arg[6] = VP_U(h), vp_arg[7] = VP_U(i), vp_arg[8] = VP_U(j), vp_arg[9] = VP_U(k), vp_arg)
#define VP_F11(f,a,b,c,d,e,g,h,i,j,k,l) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg[5] = VP_U(g), vp_arg[6] = VP_U(h), vp_arg[7] = VP_U(i), vp_arg[8] = VP_U(j), vp_arg[9] = VP_U(k), vp_arg[10] = VP_U(l), vp_arg)
#define VP_F12(f,a,b,c,d,e,g,h,i,j,k,l,m) f, (vp_arg[0] = VP_U(a), vp_arg[1] = VP_U(b), vp_arg[2] = VP_U(c), vp_arg[3] = VP_U(d), vp_arg[4] = VP_U(e), vp_arg[5] = VP_U(g), vp_arg[6] = VP_U(h), vp_arg[7] = VP_U(i), vp_arg[8] = VP_U(j), vp_arg[9] = VP_U(k), vp_arg[10] = VP_U(l), vp_arg[11] = VP_U(m), vp_arg)
#define VP_PRINT(...) VP_J(VP_F, VP_C(__VA_ARGS__))(__VA_ARGS__)
#ifndef FMT_ON
#define FMT_ON 1
#endif
#undef fprintf
#undef printf
#undef fputs
#undef fputc
#undef putc
#undef puts
#undef putchar
#undef fflush
#define fprintf(file, ...) (FMT_ON ? vp_fmt(VP_PRINT(__VA_ARGS__)) : (void)0)
#define printf(...) fprintf(0, __VA_ARGS__)
#define fputs(s, file) (FMT_ON ? vp_str(s) : (void)0)
#define puts(s) (FMT_ON ? (vp_str(s), vp_chr('\n')) : (void)0)
#define fputc(c, file) (FMT_ON ? vp_chr(c) : (void)0)
#define putc(c, file) fputc(c, file)
#define putchar(c) fputc(c, 0)
#define fflush(f) 0
#endif
