/* Mock of the robot's model library. Every function fills its output with values that depend on
 * the function, on every input value and on a salt which the harness writes into the file. */
#include <stdint.h>
#include <string.h>
/* "VERIFSLT" followed by the salt */
volatile const struct { char mark[16]; uint64_t salt; } vm_salt = {"VERIF-MODEL-SALT", 1};
static uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t start(const char *tag) {
  uint64_t h = mix(vm_salt.salt);
  for (; *tag; tag++) h = mix(h ^ (uint64_t)(unsigned char)*tag);
  return h;
}
static uint64_t in(uint64_t h, const double *a, int n) {
  for (int i = 0; i < n; i++) {
    double x = a[i] + 0.0;
    uint64_t b;
    memcpy(&b, &x, 8);
    h = mix(h ^ b);
  }
  return h;
}
static void out(uint64_t h, double *o, int n) {
  for (int i = 0; i < n; i++) o[i] = (double)(mix(h + (uint64_t)i + 1) >> 11) / 9007199254740992.0 * 2.0 - 1.0;
}
void M_NE(const double *q, const double *I, double m, const double *F, double *o) {
  out(in(in(in(in(start("M_NE"), q, 7), I, 9), &m, 1), F, 3), o, 49);
}
void c_NE(const double *q, const double *dq, const double *I, double m, const double *F, double *o) {
  out(in(in(in(in(in(start("c_NE"), q, 7), dq, 7), I, 9), &m, 1), F, 3), o, 7);
}
void g_NE(const double *q, const double *g, double m, const double *F, double *o) {
  out(in(in(in(in(start("g_NE"), q, 7), g, 3), &m, 1), F, 3), o, 7);
}
void Ji_J_J1(double *o) { out(start("Ji_J_J1"), o, 42); }
void O_J_J1(double *o) { out(start("O_J_J1"), o, 42); }
#define Q(name, n) void name(const double *q, double *o) { out(in(start(#name), q, 7), o, n); }
Q(Ji_J_J2, 42) Q(Ji_J_J3, 42) Q(Ji_J_J4, 42) Q(Ji_J_J5, 42) Q(Ji_J_J6, 42) Q(Ji_J_J7, 42) Q(Ji_J_J8, 42)
Q(O_J_J2, 42) Q(O_J_J3, 42) Q(O_J_J4, 42) Q(O_J_J5, 42) Q(O_J_J6, 42) Q(O_J_J7, 42) Q(O_J_J8, 42)
Q(O_T_J1, 16) Q(O_T_J2, 16) Q(O_T_J3, 16) Q(O_T_J4, 16) Q(O_T_J5, 16) Q(O_T_J6, 16) Q(O_T_J7, 16) Q(O_T_J8, 16)
#define QF(name, n) void name(const double *q, const double *F, double *o) { out(in(in(start(#name), q, 7), F, 16), o, n); }
QF(Ji_J_J9, 42) QF(O_J_J9, 42) QF(O_T_J9, 16)
