#ifndef C35_H
#define C35_H
enum { K_ASSERT, K_NF, K_ALWAYS, K_RETURN, K_RETURNV, K_ABORT, K_ENABLE, K_EXPR, K_MAX };
struct c35 { int ok, evals, after, value; const char *text, *file, *func; unsigned line; };
#endif
