#ifdef __cplusplus
extern "C" {
#endif
enum { CONSTANT, LOGN, LINEAR, NLOGN };
struct c37_op { const char *name; int work, mem; long base; int copies; void (*run)(long n, unsigned long seed, int how); };
extern const struct c37_op c37_ops[]; extern const int c37_nops;
void c37_go(void); void c37_halt(void); void c37_path(const char *);
void c37_error(const char *); void c37_wrong(const char *);
#ifdef __cplusplus
}
#endif
