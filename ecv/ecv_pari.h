/* Prelude forced in front of every translation unit when the verifier compiles /repo's sources.
 * It replaces PARI's raw-memory access macros by calls to functions that only have contracts, and the
 * va_arg builtins (which clang expands to register-save-area arithmetic) by contract calls.  Nothing else of the
 * sources is changed or dropped. */
#ifndef ECV_PARI_H
#define ECV_PARI_H
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <pari/pari.h>

extern long ecv_typ(GEN x);
extern long ecv_signe(GEN x);
extern long ecv_lg(GEN x);
extern long ecv_lgefint(GEN x);
extern void ecv_setsigne(GEN x, long s);
extern long ecv_isclone(GEN x);
extern char *ecv_GSTR(GEN x);
#undef typ
#define typ(x) ecv_typ((GEN)(x))
#undef signe
#define signe(x) ecv_signe((GEN)(x))
#undef lg
#define lg(x) ecv_lg((GEN)(x))
#undef lgefint
#define lgefint(x) ecv_lgefint((GEN)(x))
#undef setsigne
#define setsigne(x, s) ecv_setsigne((GEN)(x), s)
#undef isclone
#define isclone(x) ecv_isclone((GEN)(x))
#undef GSTR
#define GSTR(x) ecv_GSTR((GEN)(x))

extern void ecv_va_start(__builtin_va_list ap);
extern void ecv_va_end(__builtin_va_list ap);
extern void ecv_va_copy(__builtin_va_list d, __builtin_va_list s);
extern void *ecv_va_arg(__builtin_va_list ap);
#undef va_start
#undef va_end
#undef va_arg
#undef va_copy
#define va_start(ap, last) ecv_va_start(ap)
#define va_end(ap) ecv_va_end(ap)
#define va_copy(d, s) ecv_va_copy(d, s)
#define va_arg(ap, T) ((T)ecv_va_arg(ap))

/* ctype macros expand to table lookups in glibc */
#undef isxdigit
#undef isdigit
#undef isspace
#undef tolower
#undef toupper
extern int ecv_isxdigit(int c);
extern int ecv_isdigit(int c);
extern int ecv_isspace(int c);
extern int ecv_tolower(int c);
extern int ecv_toupper(int c);
#define isxdigit(c) ecv_isxdigit(c)
#define isdigit(c) ecv_isdigit(c)
#define isspace(c) ecv_isspace(c)
#define tolower(c) ecv_tolower(c)
#define toupper(c) ecv_toupper(c)
#endif
