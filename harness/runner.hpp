// The part shared by all drivers: reads cases (lists of calls on the code
// under test), executes them in child processes and writes one line of JSON
// per call with its outcome.  See runner.cpp.
#ifndef VERIF_RUNNER_HPP
#define VERIF_RUNNER_HPP
#include <memory>
#include <string>
#include <vector>

typedef std::vector<std::string> Tokens;

// Holds the objects a case works on; a new one is made for every case.
struct Context {
  virtual ~Context() {}
  // Executes one call; the result is the inside of a JSON object ("" for
  // nothing to report).
  virtual std::string call(const Tokens& t) = 0;
  // What can be observed after a call that threw.
  virtual std::string observe() { return ""; }
};

std::unique_ptr<Context> make_context();

// Whether cases are executed at the same time.
extern bool at_once;
// Whether they are executed together: at the same time or alternately.
extern bool grouped;

// What the code under test has written to the standard output in this call
// (nothing, when it is not known which call it was).
std::string captured();

// JSON helpers
std::string json_string(const std::string& s);
std::string json_bytes(const std::string& s);   // array of byte codes
std::string json_int(double v);                 // integer, or a sentinel
std::string json_ints(const std::vector<double>& v);
std::string json_sci(double v);   // {"m": mantissa, "e": exponent}

#endif
