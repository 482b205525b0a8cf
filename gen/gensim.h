#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long u64;
struct GUnit { const char *name; u64 (*f)(void *, u64); };
extern struct GUnit g_units[];
extern int g_nunits;
struct GTls { const char *name; int size, align; u64 init, mask; u64 (*kget)(void); void (*kset)(u64); u64 (*kaddr)(void); u64 (*hget)(void); void (*hset)(u64); u64 (*haddr)(void); };
extern struct GTls g_tls[];
extern int g_ntls;
/* C16: a type of array element (or a set of globals, base == 0). leaf >= 0: kind 0 = lvalue with address, 1 = bit-field */
struct GLeaf { int bit, run; void (*loc)(void *base, u64 v, u64 *addr, u64 *size); void (*ones)(void *base); };
struct GStore { const char *name; const char *text; int leaf; void (*loc)(void *base, u64 v, u64 *addr, u64 *size); void (*st)(void *base, u64 v); };
struct GType { const char *name; int global; u64 (*size)(void); int nleaf; struct GLeaf *leaf; int nstore; struct GStore *store; };
extern struct GType g_types[];
extern int g_ntypes;
/* C17 */
struct GReg { const char *name; int off, size; };
struct GDev { const char *name; const char *text; u64 (*k)(void *, u64); u64 (*h)(void *, u64); };
extern struct GReg g_regs[];
extern int g_nregs, g_devsize;
extern struct GDev g_devs[];
extern int g_ndevs;
#ifdef __cplusplus
}
#endif
