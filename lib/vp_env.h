/* logs, test registration and internal assertions of the library */
#ifndef VP_ENV_H
#define VP_ENV_H
#include "vp.h"
#include <ecoli_test.h>
#undef EC_TEST_REGISTER
#define EC_TEST_REGISTER(t) struct ec_test
#include <ecoli_log.h>
#include <ecoli_assert.h>
int ec_log_type_register(const char *name) { (void)name; return 0; }
int ec_log(int type, enum ec_log_level level, const char *format, ...)
{ (void)type; (void)level; (void)format; return 0; }
void __ec_assert_print(bool expr, const char *expr_str, const char *format, ...)
{ (void)expr_str; (void)format; VP_ASSERT(expr, "internal assertion of the library"); }
#endif
