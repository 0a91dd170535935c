/* What the translation units of the macro driver (C37) offer */
#pragma once
#include <glib.h>
#include "gutil_types.h"
typedef struct {
    int cond;               /* the branch taken */
    int other;              /* number of times the other branch was run */
    int args;               /* number of evaluations of the arguments */
    int exprs, vals;        /* the same for asserts */
    gint64 zero, ones, cmp; /* operands the compiler knows nothing about */
    const char* fn;
    int line;
} MacroEval;
typedef struct {
    gint64 value;
    int size;               /* size of the result type */
    int is_signed;
} MacroInt;
typedef struct {
    const char* name;
    const char* file;
    int level_max;          /* what is compiled in */
    int asserts;            /* asserts are compiled in */
    int assert_level;
    int defs[6];            /* GUTIL_LOG_ANY.. GUTIL_LOG_VERBOSE */
    int def_assert;
    const char* module_name;
    GLogModule* module;     /* the one which the unit has been given (NULL = none) */
    GLogModule* parent;     /* its parent */
    GLogModule* (*current)(void);
    int (*log)(int k, MacroEval* e, const char* s, int n);
    int (*dump)(int k, MacroEval* e, const void* p, gsize n, GBytes* b);
    int (*enabled)(MacroEval* e, int level);
    const char* (*errmsg)(MacroEval* e, const GError* err, int i);
    int (*verify)(int k, MacroEval* e, gint64 a, gint64 b);
    MacroInt (*align)(int to, int type, MacroEval* e, gint64 v);
    void* (*cast)(int k, MacroEval* e, void* p, int back);
    int (*packed)(int k);
    void (*slice)(int k, MacroEval* e, void* p);
} MacroUnit;
extern const MacroUnit macro_unit_1, macro_unit_2, macro_unit_3, macro_unit_4, macro_unit_5, macro_unit_6, macro_unit_7, macro_unit_8;
extern const gsize macro_slice_sizes[5];
