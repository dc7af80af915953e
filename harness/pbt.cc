#include "pbt.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <exception>
#include <fstream>
#include <iostream>
#include <typeinfo>

extern "C" const char *__asan_default_options() {
  return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:"
         "allocator_may_return_null=1:detect_container_overflow=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:abort_on_error=1"; }

namespace pbt {
namespace {

std::string g_scratch_root = "/tmp", g_scratch;
bool g_thorough = false;
double g_case_cpu_limit = 60;

int g_note_fd = -1;

double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

enum Outcome { kPass = 0, kDiscard = 1, kFail = 2 };

void set_cpu_limit(double seconds) {
  struct itimerval t {};
  t.it_value.tv_sec = static_cast<time_t>(seconds);
  setitimer(ITIMER_PROF, &t, nullptr);
}

Outcome run_case(const std::function<void(Src &)> &prop, Src *s, std::string *msg) {
  set_cpu_limit(g_case_cpu_limit);
  try {
    prop(*s);
    return kPass;
  } catch (Discard &) {
    return kDiscard;
  } catch (Failure &f) {
    *msg = f.msg;
  } catch (std::exception &e) {
    *msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
  } catch (...) {
    *msg = "unexpected exception of unknown type";
  }
  return kFail;
}

void make_scratch(const std::string &name) {
  g_scratch = g_scratch_root + "/" + name;
  mkdir(g_scratch.c_str(), 0700);
}

void remove_tree(const std::string &dir) {
  DIR *d = opendir(dir.c_str());
  if (!d) return;
  while (dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string full = dir + "/" + n;
    struct stat st {};
    if (lstat(full.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      remove_tree(full);
    } else {
      unlink(full.c_str());
    }
  }
  closedir(d);
  rmdir(dir.c_str());
}

struct Shared {
  volatile uint64_t stop_at;             // workers stop at indices above this
  volatile uint64_t current[64];         // index under evaluation per worker
};

std::string read_tail(const std::string &file, size_t max = 3000) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p == std::string::npos) p = s.find("Assertion");
  if (p != std::string::npos) return s.substr(p > 200 ? p - 200 : 0, max);
  return s.size() > max ? s.substr(s.size() - max) : s;
}

// Evaluates one choice sequence in a child process. Returns true if it fails; fills msg and the used choices.
bool eval_in_child(const std::function<void(Src &)> &prop, const std::vector<uint64_t> &choices, bool verbose,
                   std::string *msg, std::vector<uint64_t> *used, std::vector<std::string> *notes, bool *hang) {
  static int counter = 0;
  std::string name = "e" + std::to_string(getpid()) + "_" + std::to_string(counter++);
  std::string nfile = g_scratch_root + "/" + name + ".notes";
  std::string out = g_scratch_root + "/" + name + ".out", err = g_scratch_root + "/" + name + ".err";
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    make_scratch(name + ".d");
    Src s(choices);
    s.set_verbose(verbose);
    std::string m;
    if (verbose) g_note_fd = open(nfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    Outcome o = run_case(prop, &s, &m);
    std::ofstream f(out);
    f << static_cast<int>(o) << "\n" << s.choices().size() << "\n";
    for (uint64_t c : s.choices()) f << c << " ";
    f << "\n" << m.size() << "\n" << m << "\n" << s.notes().size() << "\n";
    for (const auto &n : s.notes()) f << n.size() << "\n" << n << "\n";
    f.close();
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  bool failed = false;
  *hang = false;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    std::ifstream f(out);
    int o = 0;
    size_t n = 0;
    f >> o >> n;
    used->resize(n);
    for (auto &c : *used) f >> c;
    size_t len = 0;
    f >> len;
    f.get();
    msg->resize(len);
    f.read(&(*msg)[0], static_cast<std::streamsize>(len));
    size_t k = 0;
    f >> k;
    notes->resize(k);
    for (auto &nt : *notes) {
      f >> len;
      f.get();
      nt.resize(len);
      f.read(&nt[0], static_cast<std::streamsize>(len));
    }
    failed = o == kFail;
  } else {
    failed = true;
    *used = choices;
    notes->clear();
    std::ifstream nf(nfile);
    std::string line;
    while (std::getline(nf, line)) notes->push_back(line);
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) {
      *hang = true;
      *msg = "the case did not terminate within the CPU limit";
    } else {
      *msg = (WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status))
                                  : "aborted with status " + std::to_string(WEXITSTATUS(status))) +
             ": " + read_tail(err);
    }
  }
  unlink(nfile.c_str());
  unlink(out.c_str());
  unlink(err.c_str());
  remove_tree(g_scratch_root + "/" + name + ".d");
  return failed;
}

std::vector<uint64_t> shrink(const std::function<void(Src &)> &prop, std::vector<uint64_t> best, bool was_hang,
                             int *evals) {
  double end = now() + (was_hang ? 1 : 45);
  *evals = 0;
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (now() > end || *evals > 4000) return false;
    ++*evals;
    std::string m;
    std::vector<uint64_t> used;
    std::vector<std::string> notes;
    bool hang;
    if (!eval_in_child(prop, c, false, &m, &used, &notes, &hang)) return false;
    if (hang && !was_hang) return false;
    if (used.size() < c.size() || (used.size() == c.size() && used <= c)) {
      best = used;
    } else {
      best = c;
    }
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i >= k && i > 0;) {
        size_t start = i - k;
        std::vector<uint64_t> c(best.begin(), best.begin() + static_cast<long>(start));
        c.insert(c.end(), best.begin() + static_cast<long>(i), best.end());
        size_t before = best.size();
        if (attempt(c)) {
          progress = true;
          i = std::min(start, best.size());
          if (best.size() >= before) break;
        } else {
          i = start >= k || k == 1 ? start : (start > 0 ? start : 0);
          if (i < k) break;
        }
        if (now() > end) break;
      }
    }
    for (size_t k : {16, 8, 4, 2}) {
      for (size_t i = 0; i + k <= best.size(); i += k) {
        std::vector<uint64_t> c = best;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          any |= c[j] != 0;
          c[j] = 0;
        }
        if (any && attempt(c)) progress = true;
        if (now() > end) break;
      }
    }
    for (size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c = best;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0;  // lo does not fail (as far as we know), best[i] fails
      while (i < best.size() && best[i] - lo > 1 && now() < end) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        c = best;
        c[i] = mid;
        size_t n = best.size();
        uint64_t old = best[i];
        if (attempt(c)) {
          progress = true;
          if (best.size() != n || best[i] >= old) break;
        } else {
          lo = mid;
        }
      }
    }
  }
  return best;
}

struct WorkerStats {
  uint64_t evaluations = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> hashes;
};

}  // namespace

void Src::sink(const std::string &note) {
  if (g_note_fd < 0) return;
  std::string line = note + "\n";
  if (write(g_note_fd, line.data(), line.size()) < 0) g_note_fd = -1;
}

std::string scratch() { return g_scratch; }
bool thorough() { return g_thorough; }

int run_main(int argc, char **argv, const char *property, const std::function<void(Src &)> &prop, const char *rule) {
  uint64_t seed = 1, cases = 1000;
  double max_time = 300;
  int workers = 8;
  std::string out = "/dev/stdout", replay, only;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--cases") cases = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--time") max_time = atof(v.c_str());
    else if (a == "--workers") workers = atoi(v.c_str());
    else if (a == "--out") out = v;
    else if (a == "--scratch") g_scratch_root = v;
    else if (a == "--replay") replay = v;
    else if (a == "--thorough") g_thorough = v == "1";
    else if (a == "--cpu") g_case_cpu_limit = atof(v.c_str());
    else if (a == "--index") only = v;
  }
  signal(SIGPROF, SIG_DFL);
  workers = std::max(1, std::min(workers, 64));

  if (!replay.empty()) {  // the file holds whitespace-separated choices after a line "choices"
    std::ifstream f(replay);
    std::string line;
    std::vector<uint64_t> choices;
    while (std::getline(f, line) && line != "choices") {}
    uint64_t c;
    while (f >> c) choices.push_back(c);
    std::string msg;
    std::vector<uint64_t> used;
    std::vector<std::string> notes;
    bool hang;
    bool failed = eval_in_child(prop, choices, true, &msg, &used, &notes, &hang);
    for (const auto &n : notes) std::cout << "  " << n << "\n";
    std::cout << (failed ? "FAILS: " + msg : std::string("passes")) << std::endl;
    return failed ? 1 : 0;
  }

  auto *shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                            MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  shared->stop_at = UINT64_MAX;
  double start = now();
  std::vector<pid_t> pids(workers);
  auto file = [&](const char *kind, int w) { return g_scratch_root + "/" + kind + std::to_string(w); };
  uint64_t first = 0;
  if (!only.empty()) {
    first = strtoull(only.c_str(), nullptr, 10);
    cases = first + 1;
    workers = 1;
  }
  for (int w = 0; w < workers; ++w) {
    shared->current[w] = UINT64_MAX;
    pids[w] = fork();
    if (pids[w] != 0) continue;
    int fd = open(file("err", w).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    make_scratch("w" + std::to_string(w));
    WorkerStats st;
    std::unordered_set<uint64_t> seen;
    std::ofstream samples(file("samples", w));
    int sampled = 0;
    for (uint64_t i = first + w; i < cases; i += workers) {
      if (i > shared->stop_at || now() - start > max_time) break;
      shared->current[w] = i;
      Src s(mix(seed, i));
      // A few cases per worker are recorded verbosely as samples.
      bool want_sample = sampled < 2 && (i >= static_cast<uint64_t>(4 * workers));
      s.set_verbose(want_sample);
      std::string msg;
      Outcome o = run_case(prop, &s, &msg);
      ++st.evaluations;
      for (const auto &l : s.labels()) ++st.labels[l];
      if (o == kDiscard) {
        ++st.discards;
        continue;
      }
      if (o == kFail) {
        std::ofstream f(file("fail", w));
        f << i << "\n" << s.choices().size() << "\n";
        for (uint64_t c : s.choices()) f << c << " ";
        f << "\n" << msg;
        f.close();
        uint64_t cur = shared->stop_at;
        if (i < cur) shared->stop_at = i;
        break;
      }
      if (s.is_nontrivial()) {
        ++st.nontrivial;
        if (seen.insert(s.hash()).second) st.hashes.push_back(s.hash());
        if (want_sample) {
          ++sampled;
          std::string t = "case " + std::to_string(i) + ":";
          for (const auto &n : s.notes()) {
            t += " " + n + ";";
            if (t.size() > 1500) break;
          }
          samples << "\"" << json_escape(t.substr(0, 1500)) << "\"\n";
        }
      }
    }
    set_cpu_limit(0);
    std::ofstream f(file("stats", w));
    f << st.evaluations << " " << st.discards << " " << st.nontrivial << " " << st.labels.size() << "\n";
    for (auto &l : st.labels) f << l.second << " " << l.first << "\n";
    f << st.hashes.size() << "\n";
    for (uint64_t h : st.hashes) f << h << "\n";
    f.close();
    samples.close();
    shared->current[w] = UINT64_MAX;
    _exit(0);
  }
  uint64_t fail_index = UINT64_MAX;
  std::vector<uint64_t> fail_choices;
  std::string fail_msg;
  bool crashed = false, hang = false;
  for (int w = 0; w < workers; ++w) {
    int status = 0;
    pid_t pid = waitpid(-1, &status, 0);
    int k = 0;
    while (k < workers && pids[k] != pid) ++k;
    if (k == workers) {
      --w;
      continue;
    }
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
      uint64_t idx = shared->current[k];
      if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
        std::cerr << "worker killed (memory?) at case " << idx << "\n";
        return 3;
      }
      if (idx < fail_index) {
        fail_index = idx;
        crashed = true;
        hang = WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF;
        fail_msg = hang ? "no termination" : read_tail(file("err", k));
        if (idx < shared->stop_at) shared->stop_at = idx;
      }
    }
  }
  WorkerStats total;
  std::unordered_set<uint64_t> all;
  std::vector<std::string> samples;
  for (int w = 0; w < workers; ++w) {
    std::ifstream f(file("stats", w));
    uint64_t e = 0, d = 0, n = 0, l = 0, h = 0;
    if (f >> e >> d >> n >> l) {
      total.evaluations += e;
      total.discards += d;
      total.nontrivial += n;
      for (uint64_t i = 0; i < l; ++i) {
        uint64_t c;
        std::string name;
        f >> c;
        f.get();
        std::getline(f, name);
        total.labels[name] += c;
      }
      f >> h;
      for (uint64_t i = 0; i < h; ++i) {
        uint64_t v;
        f >> v;
        all.insert(v);
      }
    }
    std::ifstream sf(file("samples", w));
    std::string line;
    while (std::getline(sf, line)) samples.push_back(line);
    std::ifstream ff(file("fail", w));
    uint64_t idx;
    if (ff >> idx && idx < fail_index) {
      fail_index = idx;
      crashed = false;
      size_t len;
      ff >> len;
      fail_choices.resize(len);
      for (auto &c : fail_choices) ff >> c;
      ff.get();
      std::stringstream ss;
      ss << ff.rdbuf();
      fail_msg = ss.str();
    }
  }
  bool failed = fail_index != UINT64_MAX;
  std::vector<std::string> notes;
  int shrink_evals = 0;
  bool reproduced = true;
  uint64_t original_len = 0;
  if (failed) {
    std::vector<uint64_t> used;
    if (crashed) {
      // Recover the choices: the sequence is a function of the seed; a child records it until it dies.
      auto *buf = static_cast<uint64_t *>(mmap(nullptr, sizeof(uint64_t) << 20, PROT_READ | PROT_WRITE,
                                               MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      pid_t pid = fork();
      if (pid == 0) {
        int fd = open((g_scratch_root + "/recover.err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        make_scratch("recover");
        Src s(mix(seed, fail_index));
        // The choices vector lives in this process; publish it from an at-death hook and after the run.
        static Src *gs = &s;
        static uint64_t *gb = buf;
        auto publish = [](int) {
          const auto &c = gs->choices();
          gb[0] = c.size();
          for (size_t i = 0; i < c.size() && i + 1 < (1u << 20); ++i) gb[i + 1] = c[i];
          _exit(9);
        };
        signal(SIGABRT, publish);
        signal(SIGSEGV, publish);
        signal(SIGBUS, publish);
        signal(SIGILL, publish);
        signal(SIGFPE, publish);
        signal(SIGPROF, publish);
        std::string m;
        run_case(prop, &s, &m);
        publish(0);
      }
      int status;
      waitpid(pid, &status, 0);
      fail_choices.assign(buf + 1, buf + 1 + buf[0]);
    }
    original_len = fail_choices.size();
    std::string m;
    bool h;
    reproduced = eval_in_child(prop, fail_choices, true, &m, &used, &notes, &h);
    if (reproduced) {
      fail_msg = m;
      hang = h;
      fail_choices = shrink(prop, fail_choices, hang, &shrink_evals);
      eval_in_child(prop, fail_choices, true, &m, &used, &notes, &h);
      fail_msg = m;
    }
  }
  std::ofstream f(out);
  f << "{\"property\": \"" << property << "\", \"seed\": " << seed << ", \"evaluations\": " << total.evaluations
    << ", \"discards\": " << total.discards << ", \"nontrivial\": " << total.nontrivial
    << ", \"distinct_nontrivial\": " << all.size() << ", \"rule\": \"" << json_escape(rule) << "\", \"labels\": {";
  bool firstl = true;
  for (auto &l : total.labels) {
    f << (firstl ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
    firstl = false;
  }
  f << "}, \"samples\": [";
  for (size_t i = 0; i < samples.size() && i < 8; ++i) f << (i ? ", " : "") << samples[i];
  f << "], \"wall\": " << now() - start << ", \"failed\": " << (failed ? "true" : "false")
    << ", \"reproduced\": " << (reproduced ? "true" : "false");
  if (failed) {
    f << ", \"fail_index\": " << fail_index << ", \"message\": \"" << json_escape(fail_msg)
      << "\", \"original_choices\": " << original_len << ", \"shrink_evaluations\": " << shrink_evals
      << ", \"notes\": [";
    for (size_t i = 0; i < notes.size(); ++i) f << (i ? ", " : "") << "\"" << json_escape(notes[i]) << "\"";
    f << "], \"choices\": [";
    for (size_t i = 0; i < fail_choices.size(); ++i) f << (i ? ", " : "") << fail_choices[i];
    f << "]";
  }
  f << "}\n";
  f.close();
  return failed ? 1 : 0;
}

}  // namespace pbt
