// usage: driver CASES RESULTS TIMEOUT
//
// CASES holds one call per line, "case <id>" starts a new case.  The words of
// a call are separated by single blanks, special characters in them are
// written as %XX, the empty word as %.
//
// Cases run in a child process, so that the end of the process (exit, a
// signal, a call that does not return) is an outcome like any other.  A case
// is given up at such an outcome, the next one runs in a new child.
//
// "group N how" before a case: the next N cases are executed together, each
// with its objects, in one process.  how: "one S" (call by call in the order
// S, a list of numbers of the cases), "turns S" (the same, each case in a
// thread of its own), or "free" (each in a thread, all at the same time).
// The process is given up at the same outcomes, for all cases of the group;
// what the thread sanitizer reports is the outcome "race".
#include "runner.hpp"
#include "cov.hpp"

#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;

static int out_fd = -1;   // captured standard output
static int res_fd = -1;   // results

struct Progress {
  volatile long pos;      // line being executed
  volatile long beat;     // changes with every call
  volatile long done;     // next case to execute
};
static Progress* progress;

bool at_once = false;
bool grouped = false;

string captured() {
  if (at_once) return "";
  cout.flush();
  fflush(stdout);
  struct stat st;
  if (fstat(out_fd, &st) != 0 || st.st_size == 0) return "";
  size_t n = st.st_size > 8000000 ? 8000000 : st.st_size;
  string s(n, '\0');
  ssize_t got = pread(out_fd, &s[0], n, 0);
  s.resize(got > 0 ? got : 0);
  return s;
}

static void clear_captured() {
  if (at_once) return;
  cout.flush();
  fflush(stdout);
  struct stat st;
  if (fstat(out_fd, &st) == 0 && st.st_size > 0) {
    if (ftruncate(out_fd, 0) != 0) abort();
  }
}

string json_string(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

string json_bytes(const string& s) {
  string r = "[";
  for (size_t i = 0; i < s.size(); ++i) {
    if (i) r += ",";
    r += to_string(static_cast<unsigned char>(s[i]));
  }
  return r + "]";
}

string json_int(double v) {
  if (!(v > -2e9 && v < 2e9) || v != floor(v)) return "2000000001";
  return to_string(static_cast<long>(v));
}

string json_ints(const vector<double>& v) {
  string r = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += ",";
    r += json_int(v[i]);
  }
  return r + "]";
}

// v = m * 10^e with nine digits in m
string json_sci(double v) {
  char b[64];
  if (!(fabs(v) < 1e300)) return "{\"m\":2000000001,\"e\":0}";
  snprintf(b, sizeof b, "%.8e", v);
  string s(b);
  size_t p = s.find('e');
  string m = s.substr(0, p);
  int e = atoi(s.c_str() + p + 1);
  m.erase(m.find('.'), 1);
  return "{\"m\":" + to_string(atol(m.c_str())) + ",\"e\":" + to_string(e - 8) + "}";
}

static string decode(const string& s) {
  if (s == "%") return "";
  string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      r += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

static bool coverage = false;   // report what the cases reach

struct Line {
  long id;      // case
  long op;      // number of the call in the case, 0 for the start
  string text;
};

static vector<Line> lines;

static vector<size_t> starts;   // line on which each case starts

static void put(const string& s) {
  size_t n = 0;
  while (n < s.size()) {
    ssize_t w = write(res_fd, s.data() + n, s.size() - n);
    if (w <= 0) _exit(97);
    n += w;
  }
}

static void result(const Line& l, const char* kind, const string& body) {
  string s = "{\"c\":" + to_string(l.id) + ",\"o\":" + to_string(l.op) +
             ",\"k\":\"" + kind + "\"";
  if (!body.empty()) s += "," + body;
  put(s + "}\n");
}

static void reached(size_t c) {
  if (!coverage) return;
  put("{\"c\":" + to_string(lines[starts[c]].id) + ",\"k\":\"cov\",\"f\":" + cov_end() + "}\n");
}

static string execute(Context& ctx, const Line& line, string& kind) {
  Tokens t;
  istringstream is(line.text);
  string w, body;
  while (is >> w) t.push_back(decode(w));
  clear_captured();
  kind = "ok";
  try {
    body = ctx.call(t);
  } catch (const exception& e) {
    kind = "throw";
  } catch (...) {
    kind = "throw";
  }
  if (kind == "throw") body = ctx.observe();
  return body;
}

// ---- cases executed together ------------------------------------------------
struct Group {
  size_t first, n;         // cases
  string how;
  vector<size_t> order;    // of their calls
};

static vector<Group> groups;

static size_t end_of(size_t c) { return c + 1 < starts.size() ? starts[c + 1] : lines.size(); }

struct Outcome {
  size_t line;
  string kind, body;
};

static void together(const Group& g) {
  vector<unique_ptr<Context>> ctx(g.n);
  vector<vector<Outcome>> got(g.n);
  vector<size_t> next(g.n);
  for (size_t k = 0; k < g.n; ++k) next[k] = starts[g.first + k] + 1;
  auto step = [&](size_t k) {
    Outcome o;
    o.line = next[k]++;
    o.body = execute(*ctx[k], lines[o.line], o.kind);
    got[k].push_back(o);
  };
  for (size_t k = 0; k < g.n; ++k) ctx[k] = make_context();
  if (g.how == "one") {
    for (size_t k : g.order) step(k);
  } else {
    mutex m;
    condition_variable cv;
    size_t here = 0, turn = 0;
    at_once = g.how == "free";
    vector<thread> threads;
    for (size_t k = 0; k < g.n; ++k)
      threads.push_back(thread([&, k] {
        {
          unique_lock<mutex> lock(m);
          ++here;
          cv.notify_all();
          cv.wait(lock, [&] { return here == g.n; });
        }
        if (g.how == "free") {
          while (next[k] < end_of(g.first + k)) step(k);
          return;
        }
        unique_lock<mutex> lock(m);
        while (next[k] < end_of(g.first + k)) {
          cv.wait(lock, [&] { return turn >= g.order.size() || g.order[turn] == k; });
          if (turn >= g.order.size()) return;
          step(k);
          ++turn;
          cv.notify_all();
        }
      }));
    for (auto& t : threads) t.join();
    at_once = false;
  }
  for (auto& c : ctx) c.reset();
  for (auto& os : got)
    for (auto& o : os) result(lines[o.line], o.kind.c_str(), o.body);
}

static void work_together(size_t first) {
  for (size_t i = first; i < groups.size(); ++i) {
    progress->done = i;
    progress->beat = progress->beat + 1;
    together(groups[i]);
  }
  progress->done = groups.size();
  _exit(0);
}

static void work(size_t first) {
  size_t n = 0;
  for (size_t c = first; c < starts.size(); ++c) {
    progress->done = c;
    if (++n > 3000) _exit(98);   // a new process for the rest
    size_t end = end_of(c);
    unique_ptr<Context> ctx = make_context();
    if (coverage) cov_begin();
    for (size_t i = starts[c] + 1; i < end; ++i) {
      progress->pos = i;
      progress->beat = progress->beat + 1;
      string kind, body = execute(*ctx, lines[i], kind);
      progress->beat = progress->beat + 1;
      result(lines[i], kind.c_str(), body);
    }
    progress->pos = -1;
    ctx.reset();
    reached(c);
  }
  progress->done = starts.size();
  _exit(0);
}

int main(int argc, char** argv) {
  if (argc != 4) return 2;
  int timeout = atoi(argv[3]);
  ifstream in(argv[1]);
  string s;
  long id = 0, op = 0;
  while (getline(in, s)) {
    if (s.compare(0, 6, "group ") == 0) {
      istringstream is(s.substr(6));
      Group g;
      g.first = starts.size();
      is >> g.n >> g.how;
      size_t k;
      while (is >> k) g.order.push_back(k);
      groups.push_back(g);
      continue;
    }
    if (s.compare(0, 5, "case ") == 0) {
      id = atol(s.c_str() + 5);
      op = 0;
      starts.push_back(lines.size());
    }
    lines.push_back(Line{id, op++, s});
  }
  res_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  out_fd = memfd_create("stdout", 0);
  if (res_fd < 0 || out_fd < 0) return 2;
  fcntl(out_fd, F_SETFL, O_APPEND);
  progress = static_cast<Progress*>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  coverage = getenv("VERIF_COV") != nullptr;
  cov_init();
  size_t next = 0;
  int hung = 0;
  grouped = !groups.empty();
  const size_t all = groups.empty() ? starts.size() : groups.size();
  while (next < all) {
    int p[2];
    if (pipe(p) != 0) return 2;
    progress->pos = -1;
    progress->done = next;
    clear_captured();
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(p[0]);
      int null = open("/dev/null", O_RDWR);
      dup2(null, 0);
      dup2(out_fd, 1);
      dup2(null, 2);
      if (groups.empty())
        work(next);
      else
        work_together(next);
    }
    close(p[1]);
    bool killed = false;
    long beat = progress->beat;
    int idle = 0;
    while (true) {
      struct pollfd f = {p[0], POLLIN, 0};
      int r = poll(&f, 1, 1000);
      if (r != 0) break;
      if (progress->beat == beat) {
        if (++idle >= timeout) {
          killed = true;
          kill(pid, SIGKILL);
          break;
        }
      } else {
        idle = 0;
        beat = progress->beat;
      }
    }
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (!killed && WIFEXITED(status) && WEXITSTATUS(status) == 98 && progress->pos == -1) {
      next = progress->done;
      continue;
    }
    if (progress->done >= (long)all) break;
    if (!groups.empty()) {
      const Group& g = groups[progress->done];
      int code = WIFEXITED(status) ? WEXITSTATUS(status) : 0;
      if (!killed && (code == 96 || code == 97)) return 2;
      for (size_t k = 0; k < g.n; ++k)
        result(lines[starts[g.first + k] + 1],
               killed ? "timeout" : WIFSIGNALED(status) ? "signal" : code == 66 ? "race" : "gone", "");
      next = progress->done + 1;
      if (killed && ++hung >= 3) break;
      continue;
    }
    long pos = progress->pos;
    if (pos < 0) {
      // The process ended between two calls: while the objects of the case
      // were destroyed, or a broken driver.
      size_t c = progress->done;
      size_t end = end_of(c);
      Line l = lines[end - 1];
      l.op = lines[end - 1].op + 1;
      result(l, killed ? "timeout" : WIFSIGNALED(status) ? "signal" : "exit",
             "\"after\":true");
      reached(c);
      next = c + 1;
      continue;
    }
    string out = "\"out\":" + json_string(captured());
    if (killed) {
      result(lines[pos], "timeout", out);
      if (++hung >= 3) break;
    } else if (WIFSIGNALED(status)) {
      result(lines[pos], "signal", "\"code\":" + to_string(WTERMSIG(status)) + "," + out);
    } else {
      int code = WEXITSTATUS(status);
      if (code == 96 || code == 97) return 2;   // the driver itself
      result(lines[pos], code == 0 ? "exit0" : "exit",
             "\"code\":" + to_string(code) + "," + out);
    }
    reached(progress->done);
    next = progress->done + 1;
  }
  return 0;
}
