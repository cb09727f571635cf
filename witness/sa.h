// Vocabulary of the analysis.  None of these functions has a body: a witness is
// never run, it is only compiled to LLVM IR and interpreted abstractly.
#pragma once
extern "C" {
double sa_real(const char *name, int i, int j);            // unknown real
int sa_int(const char *name);                              // unknown integer
int sa_bool(const char *name);                             // unknown 0/1
double sa_fun(const char *name, int k, const double *args, int n); // unknown function
void sa_eq(const double *cell, double want, const char *rule, int i, int j);
void sa_eq_tol(const double *cell, double want, const char *rule, int i, int j, double tol);
int sa_eq_pm(const double *cell, double want, const char *rule, int i, int j); // equal or opposite: 1 or -1
void sa_veq(double got, double want, const char *rule, int i, int j);
void sa_ieq(long got, long want, const char *rule, int i, int j);
void sa_true(int cond, const char *rule, int i, int j);
void sa_reach(const char *rule);
void sa_unreach(const char *rule);
void sa_depends_not(double v, const char *prefix, const char *rule, int i, int j);
void sa_init(const void *p, int n, int granule, const char *rule);
void sa_havoc(double *p, int n, const char *prefix);
void sa_generic(int);
void sa_small(double);                                     // numbers down to this magnitude are not rounding
void sa_scope(const char *);
void sa_also(const char *rule);                            // what follows counts for this rule as well ...
void sa_done();                                            // ... until here
void sa_assume(int);
void sa_heap_mark();
void sa_heap_check(const char *rule);
int sa_alive(const void *);
long sa_objsize(const void *);
int sa_stream_count(const void *);
int sa_stream_text(const void *, const char *);
void sa_stream_only(const void *, const char *rule); // nothing was written to any other output
void sa_print(...);
}
struct Also { // obligations in this scope count for the rule as well
  Also(const char *r) { sa_also(r ? r : ""); }
  ~Also() { sa_done(); }
  Also(const Also &) = delete;
};
