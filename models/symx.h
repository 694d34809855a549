// Harness interface. The same harness source is compiled (a) to bitcode for the
// symbolic executor and (b) natively (with /repo's real dependencies) to replay a
// counterexample: there the inputs are read back from a file.
#pragma once
#include <cstdint>
#include <string>
extern "C" {
unsigned long symx_var(const char* name, int bits);      // fresh input, 1..64 bits
unsigned long symx_choose(const char* name, unsigned long n);   // input in [0,n), explored one by one
void symx_assume(int c);
void symx_assert(int c, const char* msg);
void symx_reached(const char* what);
void symx_note(const char* what, unsigned long v);
unsigned long symx_umax(unsigned long v);
int symx_is_symbolic(unsigned long v);
int symx_same(unsigned long a, unsigned long b);         // structurally identical values
unsigned long symx_concretize(unsigned long v);
void symx_end(void);
unsigned long symx_param(const char* name, unsigned long dflt);
int symx_fmt_double(char* buf, int cap, double v, int prec, int mode);
void symx_out_write(int fd, const char* p, unsigned long n);
void symx_set_clock(long (*f)());
long symx_now_ns();
void symx_set_stdin(const char* p, unsigned long n);
void symx_add_file(const char* name, const char* p, unsigned long n);
void symx_getopt_reset();
void symx_set_tz(long off, int dst);
}
void symx_capture_(int fd, std::string* s);
