// What the scenarios of the R session share.
#pragma once
#include <Rcpp.h>
#define CSTACK_DEFNS
#define R_INTERFACE_PTRS
#include <R_ext/Parse.h>
#include <Rembedded.h>
#include <Rinterface.h>
#include <map>
#include <set>
#include <string>
#include <vector>
struct Flat { // a result, as numbers and texts under the names a user reads
  std::map<std::string, std::vector<double>> num;
  std::map<std::string, std::string> txt;
  std::map<std::string, std::multiset<std::string>> all; // the list of all models has no order
};
Flat flat(SEXP res);
void compare(const Flat &a, const Flat &r, const char *ctx);
extern std::string g_console;
void steps_init();
void est_init();
void torture_end();
void torture(bool dense); // have the collector of R run at arbitrary allocations
