// Stateless, deviation-bounded choice explorer that drives the real library code.
//
// A "space" is a body function that runs ONE execution of the real code and asks the explorer for every
// nondeterministic decision (inputs, environment answers, schedules).  The explorer enumerates all choice sequences:
//   free(name, n) : all n alternatives are always explored (full product)
//   dev(name, n)  : alternative 0 is the default; choosing any other one costs one deviation, and only sequences with
//                   at most `bound` deviations are explored (all of them).
// An execution is identified by its choice vector, which is what a replay file stores.
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <tuple>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace verif
{
struct Violation
{
  std::string msg;
};
struct SkipExecution
{
};
struct ReplayDivergence
{
  std::string msg;
};

inline void fail(const std::string & msg)
{
  throw Violation{msg};
}

constexpr int kMaxChoices = 4000;

// Progress record shared with the supervising process: survives a crash of the worker.
struct Shared
{
  volatile int space;
  volatile int bound;
  volatile int len;
  volatile long seq;
  volatile long executions;
  int choice[kMaxChoices];
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashStr(const std::string & s)
{
  uint64_t h = 1469598103934665603ull;
  for(unsigned char c : s)
  {
    h = (h ^ c) * 1099511628211ull;
  }
  return h;
}
inline uint64_t hashDouble(uint64_t h, double d)
{
  // Canonical form: rounded to about 9 significant digits, so rounding noise does not inflate the state count.
  if(d != d)
  {
    return mix(h, 0x7ff8);
  }
  if(d == 0 || (d < 1e-12 && d > -1e-12))
  {
    return mix(h, 0);
  }
  uint64_t b;
  memcpy(&b, &d, 8);
  b = (b + (1ull << 21)) & ~((1ull << 22) - 1);
  return mix(h, b);
}

class Ctx
{
public:
  struct Pt
  {
    int c;
    int n;
    bool dev;
    std::string name;
  };

  int free(const char * name, int n)
  {
    return choose(name, n, false);
  }
  int dev(const char * name, int n)
  {
    return choose(name, n, true);
  }
  template<class T>
  T devOf(const char * name, std::initializer_list<T> l)
  {
    return *(l.begin() + dev(name, static_cast<int>(l.size())));
  }
  template<class T>
  T freeOf(const char * name, std::initializer_list<T> l)
  {
    return *(l.begin() + free(name, static_cast<int>(l.size())));
  }

  // Called once the inputs of the execution are fixed: executions are distributed over workers by prefix hash.
  void claim()
  {
    if(nshards <= 1 || claimed)
    {
      claimed = true;
      return;
    }
    claimed = true;
    uint64_t h = 7;
    for(auto & p : pts)
    {
      h = mix(h, static_cast<uint64_t>(p.c) + 17);
    }
    if(static_cast<int>((h >> 7) % nshards) != shard)
    {
      throw SkipExecution();
    }
  }

  void state(uint64_t h)
  {
    states.insert(h);
  }
  void outcome(const std::string & o)
  {
    if(outcomes.size() < 400 || outcomes.count(o))
    {
      outcomes[o]++;
    }
  }
  void trans(long n = 1)
  {
    transitions += n;
  }
  void traces(long n = 1)
  {
    traces_validated += n;
  }
  void nontrivialCase()
  {
    is_nontrivial = true;
  }
  std::string describe() const
  {
    std::string s;
    for(auto & p : pts)
    {
      if(p.c != 0 || !p.dev)
      {
        s += (s.empty() ? "" : " ") + p.name + "=" + std::to_string(p.c);
      }
    }
    return s.empty() ? "(all defaults)" : s;
  }
  std::string key() const
  {
    return space_name + ": " + describe();
  }

  // --- engine side ---
  std::vector<int> prefix;
  std::vector<Pt> pts;
  std::string space_name;
  int bound = 0;
  int min_cost = 0; // only executions with at least this cost are "new" when iterating the bound
  int shard = 0;
  int nshards = 1;
  bool claimed = false;
  bool thorough = false;
  bool is_nontrivial = false;
  Shared * sh = nullptr;
  std::unordered_set<uint64_t> states;
  std::map<std::string, long> outcomes;
  long transitions = 0;
  long traces_validated = 0;
  long executions = 0;
  long nontrivial = 0;
  std::vector<std::string> samples;

  int cost() const
  {
    int k = 0;
    for(auto & p : pts)
    {
      k += (p.dev && p.c > 0);
    }
    return k;
  }

  void begin(const std::vector<int> & pf)
  {
    prefix = pf;
    pts.clear();
    claimed = false;
    is_nontrivial = false;
    if(sh)
    {
      sh->len = 0;
      sh->seq = sh->seq + 1;
    }
  }

  // Next choice vector in depth-first order within the deviation bound; false when the space is exhausted.
  bool next(std::vector<int> & out) const
  {
    for(int i = static_cast<int>(pts.size()) - 1; i >= 0; i--)
    {
      if(pts[i].c + 1 >= pts[i].n)
      {
        continue;
      }
      int k = 0;
      for(int j = 0; j < i; j++)
      {
        k += (pts[j].dev && pts[j].c > 0);
      }
      if(pts[i].dev && k + 1 > bound)
      {
        continue;
      }
      out.clear();
      for(int j = 0; j < i; j++)
      {
        out.push_back(pts[j].c);
      }
      out.push_back(pts[i].c + 1);
      return true;
    }
    return false;
  }

private:
  int choose(const char * name, int n, bool dev)
  {
    if(n <= 0)
    {
      throw std::logic_error(std::string("empty choice: ") + name);
    }
    size_t i = pts.size();
    int c = 0;
    if(i < prefix.size())
    {
      c = prefix[i];
      if(c < 0 || c >= n)
      {
        throw ReplayDivergence{std::string("choice out of range while replaying: ") + name};
      }
    }
    pts.push_back(Pt{c, n, dev, name});
    if(sh && i < kMaxChoices)
    {
      sh->choice[i] = c;
      sh->len = static_cast<int>(i) + 1;
    }
    if(i >= kMaxChoices)
    {
      throw std::logic_error("too many choices");
    }
    return c;
  }
};

struct Space
{
  std::string name;
  std::function<void(Ctx &)> body;
  int bound_quick = 0;
  int bound_thorough = 0;
};

inline double now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

inline std::string jesc(const std::string & s)
{
  std::string o;
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if(c == '\n')
    {
      o += "\\n";
    }
    else if(c < 0x20)
    {
      o += ' ';
    }
    else
    {
      o += c;
    }
  }
  return o;
}

struct ExecResult
{
  bool violated = false;
  std::string msg;
};

inline ExecResult runOne(const Space & sp, Ctx & c)
{
  ExecResult r;
  try
  {
    sp.body(c);
  }
  catch(const Violation & v)
  {
    r.violated = true;
    r.msg = v.msg;
  }
  catch(const SkipExecution &)
  {
    throw;
  }
  catch(const ReplayDivergence &)
  {
    throw;
  }
  catch(const std::exception & e)
  {
    r.violated = true;
    r.msg = std::string("unexpected exception escaped: ") + e.what();
  }
  return r;
}

struct Found
{
  int space;
  int bound;
  std::vector<int> choices;
  std::string msg;
  std::string key;
  int shard = 0;
};

inline void writeFound(FILE * f, const char * tag, const Found & v)
{
  fprintf(f, "%s %d %d %zu", tag, v.space, v.bound, v.choices.size());
  for(int c : v.choices)
  {
    fprintf(f, " %d", c);
  }
  fprintf(f, "\n%s\n%s\n", jesc(v.key).c_str(), jesc(v.msg).c_str());
}

inline void silenceStdout()
{
  fflush(stdout);
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
}

// Worker: explores its shard of every space; writes results to a file.
inline int worker(const std::vector<Space> & spaces,
                  int shard,
                  int nshards,
                  bool thorough,
                  double deadline,
                  const std::set<std::string> & known,
                  Shared * sh,
                  const std::string & out)
{
  silenceStdout();
  FILE * f = fopen(out.c_str(), "w");
  std::string state_file = out + ".states";
  FILE * fs = fopen(state_file.c_str(), "wb");
  std::vector<Found> known_hit;
  for(size_t si = 0; si < spaces.size(); si++)
  {
    const Space & sp = spaces[si];
    int maxb = thorough ? sp.bound_thorough : sp.bound_quick;
    Ctx c;
    c.sh = sh;
    c.shard = shard;
    c.nshards = nshards;
    c.thorough = thorough;
    c.space_name = sp.name;
    long done_bound = -1;
    bool capped = false;
    // Deviation bound iterated: all executions with 0 deviations first, then 1, ... so the first counterexample is
    // a smallest one.
    for(int b = 0; b <= maxb && !capped; b++)
    {
      c.bound = b;
      sh->space = static_cast<int>(si);
      sh->bound = b;
      std::vector<int> pf;
      bool more = true;
      while(more)
      {
        if(deadline > 0 && now() > deadline)
        {
          capped = true;
          break;
        }
        c.begin(pf);
        bool skipped = false;
        long t0 = c.transitions, v0 = c.traces_validated;
        ExecResult r;
        // executions with fewer than b deviations were completed in an earlier round: generate, but do not recount
        try
        {
          r = runOne(sp, c);
        }
        catch(const SkipExecution &)
        {
          skipped = true;
        }
        catch(const ReplayDivergence & d)
        {
#ifdef VERIF_DIVERGENCE_IS_VIOLATION
          // the choices made so far determine the inputs completely: the code under test behaved differently this time
          Found v{static_cast<int>(si), b, pf, "the same inputs led to a different execution than before (" + d.msg + ")",
                  c.key()};
          writeFound(f, "VIOL", v);
          fprintf(f, "END\n");
          fclose(f);
          fclose(fs);
          return 0;
#else
          fprintf(f, "DIVERGE %s\n", d.msg.c_str());
          fclose(f);
          return 3;
#endif
        }
        if(!skipped)
        {
          if(!c.claimed && nshards > 1 && shard != 0)
          {
            // body never claimed: only worker 0 counts it
            skipped = true;
          }
        }
        if(!skipped)
        {
          if(c.cost() < b)
          {
            c.transitions = t0;
            c.traces_validated = v0;
          }
          else
          {
            c.executions++;
            sh->executions = sh->executions + 1;
            if(c.is_nontrivial)
            {
              c.nontrivial++;
              if(c.samples.size() < 3 || (c.samples.size() < 6 && c.executions % 977 == 0))
              {
                c.samples.push_back(c.key());
              }
            }
          }
          if(r.violated)
          {
            Found v{static_cast<int>(si), b, {}, r.msg, c.key()};
            for(auto & p : c.pts)
            {
              v.choices.push_back(p.c);
            }
            if(known.count(v.key))
            {
              if(c.cost() == b)
              {
                known_hit.push_back(v);
              }
            }
            else
            {
              writeFound(f, "VIOL", v);
              fprintf(f, "END\n");
              fclose(f);
              fclose(fs);
              return 0;
            }
          }
        }
        more = c.next(pf);
      }
      if(!capped)
      {
        done_bound = b;
      }
    }
    fprintf(f, "SPACE %zu %ld %ld %ld %ld %ld %d\n", si, c.executions, c.nontrivial, c.transitions, c.traces_validated,
            done_bound, capped ? 1 : 0);
    for(auto & o : c.outcomes)
    {
      fprintf(f, "OUT %zu %ld %s\n", si, o.second, jesc(o.first).c_str());
    }
    for(auto & s : c.samples)
    {
      fprintf(f, "SAMPLE %s\n", jesc(s).c_str());
    }
    for(uint64_t h : c.states)
    {
      uint64_t hh = mix(h, si);
      fwrite(&hh, 8, 1, fs);
    }
  }
  for(auto & v : known_hit)
  {
    writeFound(f, "KNOWN", v);
  }
  fprintf(f, "END\n");
  fclose(f);
  fclose(fs);
  return 0;
}

// CPU time used by a process: a loaded machine must not look like a hang.
inline double cpuTime(pid_t pid)
{
  clockid_t id;
  struct timespec ts;
  if(clock_getcpuclockid(pid, &id) != 0 || clock_gettime(id, &ts) != 0) return 0;
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// Run a single execution in a fresh child. Returns: 0 ok, 1 violated, 2 crashed (signal), 3 hang, 4 error
inline int isolated(const Space & sp,
                    int bound,
                    const std::vector<int> & choices,
                    bool thorough,
                    double limit,
                    std::string & msg,
                    bool quiet = true)
{
  int pfd[2];
  if(pipe(pfd) != 0)
  {
    return 4;
  }
  pid_t pid = fork();
  if(pid == 0)
  {
    close(pfd[0]);
    if(quiet)
    {
      silenceStdout();
    }
    Ctx c;
    c.bound = bound;
    c.thorough = thorough;
    c.space_name = sp.name;
    c.begin(choices);
    int rc = 0;
    std::string m;
    try
    {
      ExecResult r = runOne(sp, c);
      rc = r.violated ? 1 : 0;
      m = r.msg + "\nCASE " + c.key();
    }
    catch(const ReplayDivergence & d)
    {
      rc = 4;
      m = d.msg;
    }
    ssize_t w = write(pfd[1], m.data(), m.size());
    (void)w;
    _exit(rc);
  }
  close(pfd[1]);
  double t_end = now() + limit;
  int st = 0;
  bool hang = false;
  while(true)
  {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if(r == pid)
    {
      break;
    }
    if(now() > t_end && (cpuTime(pid) > limit / 2 || now() > t_end + 4 * limit))
    {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      hang = true;
      break;
    }
    usleep(2000);
  }
  char buf[65536];
  ssize_t n;
  msg.clear();
  while((n = read(pfd[0], buf, sizeof(buf))) > 0)
  {
    msg.append(buf, n);
  }
  close(pfd[0]);
  if(hang)
  {
    msg = "execution does not terminate (killed after " + std::to_string(limit) + " s)";
    return 3;
  }
  if(WIFSIGNALED(st))
  {
    msg = std::string("crash: signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    return 2;
  }
  return WEXITSTATUS(st);
}

// First violation written by a worker, if any.
inline bool firstViolation(const std::string & out, std::string & key, std::string & msg)
{
  FILE * f = fopen(out.c_str(), "r");
  if(!f) return false;
  char * line = nullptr;
  size_t cap = 0;
  bool found = false;
  while(!found && getline(&line, &cap, f) > 0)
  {
    if(strncmp(line, "VIOL ", 5) == 0)
    {
      found = true;
      if(getline(&line, &cap, f) > 0) key = line;
      if(getline(&line, &cap, f) > 0) msg = line;
    }
  }
  free(line);
  fclose(f);
  while(!key.empty() && key.back() == '\n') key.pop_back();
  while(!msg.empty() && msg.back() == '\n') msg.pop_back();
  return found;
}
// Runs one worker again from the beginning, in a fresh process: for violations that need what was executed before in the
// same process (hidden process-wide state). Returns 1 if it ends with a violation of the given case.
inline int rerunShard(const std::vector<Space> & sel,
                      int shard,
                      int nshards,
                      bool thorough,
                      const std::set<std::string> & known,
                      const std::string & scratch,
                      double limit,
                      const std::string & key,
                      std::string & msg)
{
  std::string out = scratch + "/rerun" + std::to_string(shard);
  Shared * sh = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(static_cast<void *>(sh), 0, sizeof(Shared));
  pid_t pid = fork();
  if(pid == 0)
  {
    _exit(worker(sel, shard, nshards, thorough, 0, known, sh, out));
  }
  double t_end = now() + limit;
  int st = 0;
  while(waitpid(pid, &st, WNOHANG) != pid)
  {
    if(now() > t_end && (cpuTime(pid) > limit / 2 || now() > t_end + 4 * limit))
    {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(3000);
  }
  munmap(sh, sizeof(Shared));
  std::string k;
  return firstViolation(out, k, msg) && k == key ? 1 : 0;
}

inline int exploreMain(int argc, char ** argv, const std::vector<Space> & spaces)
{
  std::string scratch, replay, out_json, replay_dir;
  int nshards = 8;
  bool thorough = false;
  double budget = 0;
  std::set<std::string> known;
  std::string only;
  double case_limit = 20;
  for(int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if(a == "--scratch")
      scratch = nx();
    else if(a == "--replay")
      replay = nx();
    else if(a == "--json")
      out_json = nx();
    else if(a == "--replay-dir")
      replay_dir = nx();
    else if(a == "--jobs")
      nshards = atoi(nx().c_str());
    else if(a == "--thorough")
      thorough = true;
    else if(a == "--budget")
      budget = atof(nx().c_str());
    else if(a == "--space")
      only = nx();
    else if(a == "--known")
      known.insert(nx());
    else if(a == "--list")
    {
      for(auto & s : spaces)
      {
        printf("%s bound_quick=%d bound_thorough=%d\n", s.name.c_str(), s.bound_quick, s.bound_thorough);
      }
      return 0;
    }
  }
  if(!replay.empty())
  {
    // replay file: line 1 space name, line 2 bound thorough, line 3 choices
    FILE * f = fopen(replay.c_str(), "r");
    if(!f)
    {
      fprintf(stderr, "cannot open %s\n", replay.c_str());
      return 2;
    }
    char name[512];
    int b = 0, th = 0;
    if(!fgets(name, sizeof(name), f) || fscanf(f, "%d %d", &b, &th) != 2)
    {
      return 2;
    }
    name[strcspn(name, "\n")] = 0;
    int shard = 0, shards = 0;
    if(sscanf(name, "HISTORY %d %d", &shard, &shards) == 2)
    {
      char key[4096] = "";
      int ch1 = fgetc(f); // end of line
      (void)ch1;
      if(!fgets(key, sizeof(key), f)) return 2;
      key[strcspn(key, "\n")] = 0;
      fclose(f);
      std::string msg;
      int rc = rerunShard(spaces, shard, shards, th, {}, scratch, 600, key, msg);
      printf("replay of the executions of worker %d of %d: %s\n%s\nCASE %s\n", shard, shards,
             rc ? "PROPERTY VIOLATED" : "property held", msg.c_str(), key);
      return rc;
    }
    std::vector<int> ch;
    int v;
    while(fscanf(f, "%d", &v) == 1)
    {
      ch.push_back(v);
    }
    fclose(f);
    for(auto & s : spaces)
    {
      if(s.name == name)
      {
        std::string msg;
        int rc = isolated(s, b, ch, th, 60, msg, false);
        printf("replay of space '%s': %s\n%s\n", name,
               rc == 0 ? "property held" : (rc == 4 ? "error" : "PROPERTY VIOLATED"), msg.c_str());
        return rc == 0 ? 0 : (rc == 4 ? 2 : 1);
      }
    }
    fprintf(stderr, "no space %s\n", name);
    return 2;
  }

  std::vector<Space> sel;
  for(auto & s : spaces)
  {
    if(only.empty() || s.name == only)
    {
      sel.push_back(s);
    }
  }
  double start = now();
  double deadline = budget > 0 ? start + budget : 0;
  Shared * sh = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared) * nshards, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(static_cast<void *>(sh), 0, sizeof(Shared) * nshards);
  std::vector<pid_t> pids(nshards);
  std::vector<std::string> outs(nshards);
  fflush(stdout);
  for(int i = 0; i < nshards; i++)
  {
    outs[i] = scratch + "/shard" + std::to_string(i);
    pids[i] = fork();
    if(pids[i] == 0)
    {
      int rc = worker(sel, i, nshards, thorough, deadline, known, &sh[i], outs[i]);
      _exit(rc);
    }
  }
  std::vector<long> seq(nshards, -1);
  std::vector<double> seen(nshards, now()), seen_cpu(nshards, 0.0);
  std::vector<int> alive(nshards, 1);
  std::vector<Found> cand; // crash / hang candidates
  int left = nshards;
  bool infra = false;
  while(left > 0)
  {
    bool progress = false;
    for(int i = 0; i < nshards; i++)
    {
      if(!alive[i])
      {
        continue;
      }
      int st;
      pid_t r = waitpid(pids[i], &st, WNOHANG);
      bool gone = (r == pids[i]);
      bool hang = false;
      if(!gone)
      {
        if(sh[i].seq != seq[i])
        {
          seq[i] = sh[i].seq;
          seen[i] = now();
          seen_cpu[i] = cpuTime(pids[i]);
        }
        else if(now() - seen[i] > case_limit
                && (cpuTime(pids[i]) - seen_cpu[i] > case_limit || now() - seen[i] > 8 * case_limit))
        {
          kill(pids[i], SIGKILL);
          waitpid(pids[i], &st, 0);
          gone = true;
          hang = true;
        }
      }
      if(gone)
      {
        alive[i] = 0;
        left--;
        progress = true;
        if(hang || WIFSIGNALED(st))
        {
          Found v{sh[i].space, sh[i].bound, {}, hang ? "hang" : "crash", ""};
          for(int k = 0; k < sh[i].len; k++)
          {
            v.choices.push_back(sh[i].choice[k]);
          }
          cand.push_back(v);
        }
        else if(WEXITSTATUS(st) != 0)
        {
          infra = true;
          fprintf(stderr, "worker %d exit %d\n", i, WEXITSTATUS(st));
        }
      }
    }
    if(!progress)
    {
      usleep(3000);
    }
    if(!cand.empty())
    {
      // stop early: a crash or hang was seen
      for(int i = 0; i < nshards; i++)
      {
        if(alive[i])
        {
          kill(pids[i], SIGKILL);
          waitpid(pids[i], nullptr, 0);
          alive[i] = 0;
          left--;
        }
      }
    }
  }

  struct Agg
  {
    long ex = 0, nt = 0, tr = 0, va = 0, bound = 1 << 30;
    int capped = 0;
    std::map<std::string, long> out;
  };
  std::vector<Agg> agg(sel.size());
  std::vector<std::string> samples;
  std::vector<Found> known_hit;
  std::unordered_set<uint64_t> states;
  std::vector<Found> viols;
  for(int i = 0; i < nshards; i++)
  {
    FILE * f = fopen(outs[i].c_str(), "r");
    if(!f)
    {
      continue;
    }
    char * line = nullptr;
    size_t cap = 0;
    bool ended = false;
    while(getline(&line, &cap, f) > 0)
    {
      std::istringstream is(line);
      std::string tag;
      is >> tag;
      if(tag == "SPACE")
      {
        size_t si;
        long ex, nt, tr, va, bd;
        int cp;
        is >> si >> ex >> nt >> tr >> va >> bd >> cp;
        agg[si].ex += ex;
        agg[si].nt += nt;
        agg[si].tr += tr;
        agg[si].va += va;
        agg[si].bound = std::min(agg[si].bound, bd);
        agg[si].capped |= cp;
      }
      else if(tag == "OUT")
      {
        size_t si;
        long n;
        is >> si >> n;
        std::string rest;
        getline(is, rest);
        agg[si].out[rest.substr(rest.empty() ? 0 : 1)] += n;
      }
      else if(tag == "SAMPLE")
      {
        std::string rest;
        getline(is, rest);
        samples.push_back(rest.substr(rest.empty() ? 0 : 1));
      }
      else if(tag == "VIOL" || tag == "KNOWN")
      {
        Found v;
        size_t n;
        is >> v.space >> v.bound >> n;
        for(size_t k = 0; k < n; k++)
        {
          int x;
          is >> x;
          v.choices.push_back(x);
        }
        if(getline(&line, &cap, f) > 0)
        {
          v.key = line;
        }
        if(getline(&line, &cap, f) > 0)
        {
          v.msg = line;
        }
        while(!v.key.empty() && v.key.back() == '\n') v.key.pop_back();
        while(!v.msg.empty() && v.msg.back() == '\n') v.msg.pop_back();
        v.shard = i;
        (tag == "VIOL" ? viols : known_hit).push_back(v);
      }
      else if(tag == "END")
      {
        ended = true;
      }
    }
    free(line);
    fclose(f);
    if(!ended && cand.empty() && viols.empty())
    {
      infra = true;
    }
    FILE * fs = fopen((outs[i] + ".states").c_str(), "rb");
    if(fs)
    {
      uint64_t h;
      while(fread(&h, 8, 1, fs) == 1)
      {
        states.insert(h);
      }
      fclose(fs);
    }
  }

  // Confirm candidates by re-execution in isolation; smallest deviation count first.
  int confirmed = 0;
  std::string vio_path;
  std::string vio_msg;
  auto confirm = [&](Found & v, double limit)
  {
    std::string m1, m2;
    int r1 = isolated(sel[v.space], v.bound, v.choices, thorough, limit, m1);
    if(r1 == 0 || r1 == 4)
    {
      fprintf(stderr, "not reproduced in isolation (rc %d): %s | %s\n", r1, v.key.c_str(), v.msg.c_str());
      infra = true;
      return false;
    }
    if(r1 != 3)
    {
      int r2 = isolated(sel[v.space], v.bound, v.choices, thorough, limit, m2);
      if(r2 != r1)
      {
        fprintf(stderr, "replay not deterministic: rc %d then %d\n", r1, r2);
        infra = true;
        return false;
      }
    }
    v.msg = m1;
    return true;
  };
  std::vector<Found> all = viols;
  std::sort(all.begin(), all.end(), [](const Found & a, const Found & b)
            { return std::make_tuple(a.bound, a.space, a.choices) < std::make_tuple(b.bound, b.space, b.choices); });
  for(auto & v : cand)
  {
    all.push_back(v);
  }
  for(auto & v : all)
  {
    if(confirm(v, v.msg == "hang" ? 60 : 40))
    {
      infra = false;
      confirmed++;
      std::string path = replay_dir + "/" + std::to_string(hashStr(sel[v.space].name + v.key + v.msg) % 1000000) + ".replay";
      FILE * f = fopen(path.c_str(), "w");
      if(f)
      {
        fprintf(f, "%s\n%d %d\n", sel[v.space].name.c_str(), v.bound, thorough ? 1 : 0);
        for(int c : v.choices)
        {
          fprintf(f, "%d ", c);
        }
        fprintf(f, "\n# %s\n", v.msg.c_str());
        fclose(f);
      }
      vio_path = path;
      vio_msg = v.msg;
      break;
    }
  }

  if(!confirmed && !viols.empty() && only.empty())
  {
    // Violations that were found in a worker but not by executing the case alone: does the same worker find it again?
    Found & v = viols.front();
    std::string m;
    if(rerunShard(sel, v.shard, nshards, thorough, known, scratch, std::max(60.0, 2 * (now() - start)), v.key, m))
    {
      infra = false;
      confirmed++;
      vio_msg = m + " (only after the executions before it in the same process: hidden process-wide state)\nCASE " + v.key;
      vio_path = replay_dir + "/" + std::to_string(hashStr("history" + v.key + v.msg) % 1000000) + ".replay";
      FILE * f = fopen(vio_path.c_str(), "w");
      if(f)
      {
        fprintf(f, "HISTORY %d %d\n0 %d\n%s\n", v.shard, nshards, thorough ? 1 : 0, v.key.c_str());
        fclose(f);
      }
    }
  }

  double wall = now() - start;
  FILE * j = out_json.empty() ? stdout : fopen(out_json.c_str(), "w");
  long ex = 0, nt = 0, tr = 0, va = 0;
  bool complete = true;
  for(auto & a : agg)
  {
    ex += a.ex;
    nt += a.nt;
    tr += a.tr;
    va += a.va;
    complete = complete && !a.capped;
  }
  fprintf(j, "{\"executions\": %ld, \"nontrivial\": %ld, \"transitions\": %ld, \"traces\": %ld, \"states\": %zu, ", ex, nt,
          tr, va, states.size());
  fprintf(j, "\"complete\": %s, \"wall_s\": %.3f, \"infra_error\": %s, ", complete && cand.empty() ? "true" : "false", wall,
          infra ? "true" : "false");
  fprintf(j, "\"violations\": %d, \"violation_replay\": \"%s\", \"violation_msg\": \"%s\", ", confirmed,
          jesc(vio_path).c_str(), jesc(vio_msg).c_str());
  fprintf(j, "\"known\": [");
  for(size_t i = 0; i < known_hit.size(); i++)
  {
    fprintf(j, "%s{\"key\": \"%s\", \"msg\": \"%s\"}", i ? ", " : "", known_hit[i].key.c_str(), known_hit[i].msg.c_str());
  }
  fprintf(j, "], \"spaces\": [");
  for(size_t i = 0; i < sel.size(); i++)
  {
    fprintf(j, "%s{\"name\": \"%s\", \"executions\": %ld, \"nontrivial\": %ld, \"transitions\": %ld, \"bound_completed\": "
               "%ld, \"capped\": %s, \"distinct_outcomes\": %zu, \"outcomes\": {",
            i ? ", " : "", jesc(sel[i].name).c_str(), agg[i].ex, agg[i].nt, agg[i].tr, agg[i].bound,
            agg[i].capped ? "true" : "false", agg[i].out.size());
    size_t k = 0;
    for(auto & o : agg[i].out)
    {
      if(k < 12)
      {
        fprintf(j, "%s\"%s\": %ld", k ? ", " : "", o.first.c_str(), o.second);
      }
      k++;
    }
    fprintf(j, "}}");
  }
  fprintf(j, "], \"samples\": [");
  size_t step = samples.size() > 8 ? samples.size() / 8 : 1;
  bool first = true;
  for(size_t i = 0; i < samples.size(); i += step)
  {
    fprintf(j, "%s\"%s\"", first ? "" : ", ", samples[i].c_str());
    first = false;
  }
  fprintf(j, "]}\n");
  if(j != stdout)
  {
    fclose(j);
  }
  munmap(sh, sizeof(Shared) * nshards);
  if(confirmed)
  {
    return 1;
  }
  return infra ? 2 : 0;
}
} // namespace verif
