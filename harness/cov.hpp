// What of the code under test a case reaches: the library is compiled with
// -fsanitize-coverage=trace-pc,trace-cmp, and the functions that this calls
// collect, while it is switched on, the features of the case: places reached,
// outcomes of comparisons and, coarsely, how often and how far apart.  They
// only serve to select cases, see Check.guided in vlib.py.
#ifndef VERIF_COV_HPP
#define VERIF_COV_HPP
#include <string>

// Before the first case, once (before processes are forked).
void cov_init();
void cov_begin();
// Ends the case.  The features of it that few cases before had, as
// "[class,id,class,id...]".
std::string cov_end();
#endif
