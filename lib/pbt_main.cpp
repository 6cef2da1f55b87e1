#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
std::vector<Facet>& facets()
{
  static std::vector<Facet> f;
  return f;
}
static const Facet* findFacet(const std::string& n)
{
  for (auto& f : facets())
    if (f.name == n)
      return &f;
  return nullptr;
}
static double nowSec()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static std::string jsonEsc(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\')
    {
      o += '\\';
      o += ch;
    }
    else if (ch == '\n')
      o += "\\n";
    else if (ch < 0x20 || ch > 0x7e)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    }
    else
      o += ch;
  }
  return o + "\"";
}

enum Status
{
  PASS = 0,
  FAIL = 1,
  DISCARD = 2
};
struct Outcome
{
  Status st = PASS;
  std::string tag, msg, text;
  std::vector<uint64_t> rec;
};

static Outcome runOne(const Facet& f, Src& s, Ctx& c)
{
  Outcome o;
  try
  {
    f.fn(c);
  }
  catch (const Fail& e)
  {
    o.st = FAIL;
    o.tag = e.tag;
    o.msg = e.msg;
  }
  catch (const Discard&)
  {
    o.st = DISCARD;
  }
  catch (const std::exception& e)
  {
    o.st = FAIL;
    o.tag = "exception";
    o.msg = std::string("uncaught exception: ") + e.what();
  }
  o.rec = s.rec;
  o.text = c.text;
  return o;
}

#ifndef PBT_LIBFUZZER
static void writeAll(int fd, const std::string& s)
{
  size_t p = 0;
  while (p < s.size())
  {
    ssize_t n = write(fd, s.data() + p, s.size() - p);
    if (n <= 0)
      break;
    p += n;
  }
}
static std::string readAll(int fd)
{
  std::string o;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0)
    o.append(b, n);
  return o;
}

static std::string tmpDir()
{
  const char* t = getenv("PBT_TMP");
  return t ? t : "/tmp";
}

int g_scribe_fd = -1;
// Cases run in the same process before the tape: needed where a failure depends on what
// earlier cases left behind in the process (corrupted memory, static state).
typedef std::vector<std::pair<std::string, uint64_t>> Prelude;
static Prelude g_prelude;
static void runPrelude();

// Run a tape in a forked child.  Returns the outcome; crash and hang are failures.
static Outcome runForked(const Facet& f, const std::vector<uint64_t>& tape, double timeout, bool text)
{
  int p[2];
  if (pipe(p))
    abort();
  std::string log = tmpDir() + "/pbt_child_" + std::to_string(getpid()) + ".log";
  const std::string desc = log + ".txt";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    close(p[0]);
    if (text)
      g_scribe_fd = open(desc.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int lf = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(lf, 1);
    dup2(lf, 2);
    runPrelude();
    Src s(tape);
    Ctx c(s);
    c.want_text = text;
    Outcome o = runOne(f, s, c);
    std::ostringstream os;
    os << int(o.st) << "\n"
       << o.tag.size() << " " << o.msg.size() << " " << o.text.size() << " " << o.rec.size() << "\n"
       << o.tag << o.msg << o.text;
    for (auto v : o.rec)
      os << v << " ";
    os << "END";
    writeAll(p[1], os.str());
    close(p[1]);
    _exit(0);
  }
  setpgid(pid, pid);
  close(p[1]);
  // read with timeout
  std::string data;
  double end = nowSec() + timeout;
  bool hang = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  while (true)
  {
    char b[65536];
    ssize_t n = read(p[0], b, sizeof b);
    if (n > 0)
    {
      data.append(b, n);
      continue;
    }
    if (n == 0)
      break;
    if (nowSec() > end)
    {
      hang = true;
      break;
    }
    fd_set fs;
    FD_ZERO(&fs);
    FD_SET(p[0], &fs);
    timeval tv{0, 20000};
    select(p[0] + 1, &fs, nullptr, nullptr, &tv);
  }
  close(p[0]);
  if (hang)
    kill(-pid, SIGKILL), kill(pid, SIGKILL);
  int st = 0;
  waitpid(pid, &st, 0);
  kill(-pid, SIGKILL);
  Outcome o;
  if (data.size() > 3 && data.compare(data.size() - 3, 3, "END") == 0)
  {
    std::istringstream is(data);
    int s;
    size_t a, b, cc, d;
    is >> s >> a >> b >> cc >> d;
    is.get();
    o.st = Status(s);
    o.tag.resize(a);
    o.msg.resize(b);
    o.text.resize(cc);
    is.read(&o.tag[0], a);
    is.read(&o.msg[0], b);
    is.read(&o.text[0], cc);
    o.rec.resize(d);
    for (auto& v : o.rec)
      is >> v;
  }
  else
  {
    o.st = FAIL;
    o.rec = tape;
    if (text)
    {
      std::ifstream df(desc);
      o.text.assign(std::istreambuf_iterator<char>(df), std::istreambuf_iterator<char>());
    }
    std::ifstream lf(log);
    std::string l((std::istreambuf_iterator<char>(lf)), std::istreambuf_iterator<char>());
    if (l.size() > 3000)
      l = l.substr(0, 3000);
    if (hang)
    {
      o.tag = "hang";
      o.msg = "no result within " + std::to_string(timeout) + " s";
    }
    else
    {
      o.tag = "crash";
      std::ostringstream os;
      if (WIFSIGNALED(st))
        os << "killed by signal " << WTERMSIG(st);
      else
        os << "exit code " << WEXITSTATUS(st);
      os << "\n" << l;
      o.msg = os.str();
    }
  }
  unlink(log.c_str());
  unlink(desc.c_str());
  return o;
}

static Outcome shrink(const Facet& f, Outcome best, double budget, double case_timeout, long* steps)
{
  const double end = nowSec() + budget;
  auto try_ = [&](const std::vector<uint64_t>& t) -> bool {
    if (nowSec() > end)
      return false;
    ++*steps;
    Outcome o = runForked(f, t, case_timeout, false);
    if (o.st == FAIL && o.tag == best.tag)
    {
      const bool smaller = o.rec.size() < best.rec.size() ||
                           (o.rec.size() == best.rec.size() &&
                            std::lexicographical_compare(o.rec.begin(), o.rec.end(), best.rec.begin(), best.rec.end()));
      // A crash returns the candidate tape itself.
      if (smaller)
      {
        best = o;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && nowSec() < end)
  {
    progress = false;
    // truncate
    for (size_t cut = best.rec.size() / 2; cut >= 1 && nowSec() < end; cut /= 2)
    {
      if (best.rec.size() < cut)
        continue;
      std::vector<uint64_t> t(best.rec.begin(), best.rec.end() - cut);
      while (try_(t) && best.rec.size() >= cut)
      {
        progress = true;
        t.assign(best.rec.begin(), best.rec.end() - cut);
      }
    }
    // delete chunks
    for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
    {
      if (len > best.rec.size())
        continue;
      for (size_t i = best.rec.size() - len + 1; i-- > 0 && nowSec() < end;)
      {
        if (i + len > best.rec.size())
          continue;
        std::vector<uint64_t> t = best.rec;
        t.erase(t.begin() + i, t.begin() + i + len);
        if (try_(t))
          progress = true;
        // also: delete and lower a preceding "length" choice
        else if (i > 0 && best.rec.size() >= i + len)
        {
          for (size_t back = 1; back <= 4 && back <= i; ++back)
          {
            if (best.rec[i - back] == 0)
              continue;
            t = best.rec;
            t[i - back] -= 1;
            t.erase(t.begin() + i, t.begin() + i + len);
            if (best.rec.size() < 400 && try_(t))
            {
              progress = true;
              break;
            }
          }
        }
      }
    }
    // zero chunks
    for (size_t len : {16, 8, 4, 2, 1})
    {
      for (size_t i = 0; i + len <= best.rec.size() && nowSec() < end; i += len)
      {
        std::vector<uint64_t> t = best.rec;
        bool any = false;
        for (size_t k = i; k < i + len; ++k)
        {
          any = any || t[k];
          t[k] = 0;
        }
        if (any && try_(t))
          progress = true;
      }
    }
    // lower values
    for (size_t i = 0; i < best.rec.size() && nowSec() < end; ++i)
    {
      uint64_t lo = 0;
      while (i < best.rec.size() && best.rec[i] > lo && nowSec() < end)
      {
        const uint64_t hi = best.rec[i];
        const uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> t = best.rec;
        t[i] = mid;
        if (try_(t))
        {
          progress = true;
          if (i >= best.rec.size())
            break;
        }
        else
        {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

static constexpr int kHist = 256;
struct Shared
{
  volatile uint64_t hist_n;  // cases finished
  volatile int hist_facet[kHist];
  volatile uint64_t hist_seed[kHist];
  volatile int facet;
  volatile uint64_t seed;
  volatile double t0;
  volatile int running;
};

static std::string tapeFile(const Facet& f, const std::string& prop, const Outcome& o)
{
  std::ostringstream os;
  os << "# replay with: python3 run.py " << prop << " --replay <this file>\n";
  os << "property " << prop << "\nfacet " << f.name << "\ntag " << o.tag << "\n";
  if (!g_prelude.empty())
  {
    os << "prelude " << g_prelude.size();
    for (auto& v : g_prelude)
      os << " " << v.first << " " << v.second;
    os << "\n";
  }
  os << "tape " << o.rec.size();
  for (auto v : o.rec)
    os << " " << v;
  os << "\n";
  std::istringstream a(o.msg), b(o.text);
  std::string l;
  while (std::getline(a, l))
    os << "# message: " << l << "\n";
  while (std::getline(b, l))
    os << "# case: " << l << "\n";
  return os.str();
}
static bool readTape(const std::string& path, std::string& facet, std::vector<uint64_t>& tape)
{
  std::ifstream f(path);
  std::string l;
  bool ok = false;
  while (std::getline(f, l))
  {
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "facet")
      is >> facet;
    if (k == "prelude")
    {
      size_t n;
      is >> n;
      g_prelude.resize(n);
      for (auto& v : g_prelude)
        is >> v.first >> v.second;
    }
    if (k == "tape")
    {
      size_t n;
      is >> n;
      tape.resize(n);
      for (auto& v : tape)
        is >> v;
      ok = true;
    }
  }
  return ok;
}

static void runPrelude()
{
  for (const auto& v : g_prelude)
  {
    const Facet* f = findFacet(v.first);
    if (!f)
      continue;
    Src s(v.second);
    Ctx c(s);
    runOne(*f, s, c);
  }
}

static int realMain(int argc, char** argv)
{
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2)
    a[argv[i]] = argv[i + 1];
  auto opt = [&](const std::string& k, const std::string& d) { return a.count(k) ? a[k] : d; };
  const std::string prop = opt("--property", "X00");
  const std::string only = opt("--only", "");
  const double caseTimeout = std::stod(opt("--case-timeout", "30"));

  if (a.count("--replay"))
  {
    std::string fn;
    std::vector<uint64_t> tape;
    if (!readTape(a["--replay"], fn, tape) || !findFacet(fn))
    {
      std::cerr << "cannot read replay file\n";
      return 2;
    }
    if (a.count("--direct"))  // in this process, for a debugger
    {
      g_scribe_fd = 2;
      runPrelude();
      Src s(tape);
      Ctx c(s);
      c.want_text = true;
      Outcome o = runOne(*findFacet(fn), s, c);
      std::cerr << "\n" << o.tag << "\n" << o.msg << "\n";
      return o.st == FAIL ? 1 : 0;
    }
    Outcome o = runForked(*findFacet(fn), tape, caseTimeout * 2, true);
    std::cout << "facet " << fn << "\nstatus " << (o.st == FAIL ? "FAIL" : o.st == PASS ? "PASS" : "DISCARD") << "\n"
              << "tag " << o.tag << "\n"
              << o.msg << "\n"
              << o.text << "\n";
    return o.st == FAIL ? 1 : 0;
  }

  const uint64_t seed = std::stoull(opt("--seed", "1"));
  const double budget = std::stod(opt("--time", "10"));
  const int workers = std::stoi(opt("--workers", "8"));
  const double shrinkBudget = std::stod(opt("--shrink", "20"));
  const std::string out = opt("--out", "/dev/stdout");
  const std::string replays = opt("--replays", "/tmp");
  const uint64_t maxCases = std::stoull(opt("--max-cases", "0"));
  const bool keepGoing = opt("--keep-going", "0") == "1";

  std::vector<Facet> fs;
  {
    std::set<std::string> want;
    std::istringstream is(only);
    std::string t;
    while (std::getline(is, t, ','))
      want.insert(t);
    for (auto& f : facets())
      if (want.empty() || want.count(f.name))
        fs.push_back(f);
  }
  if (fs.empty())
  {
    std::cerr << "no facet selected\n";
    return 2;
  }

  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(static_cast<void*>(sh), 0, sizeof(Shared) * workers);
  const double t_start = nowSec();
  const double t_end = t_start + budget;

  struct W
  {
    pid_t pid;
    std::string res, log;
    bool done = false;
  };
  std::vector<W> ws(workers);
  for (int w = 0; w < workers; ++w)
  {
    ws[w].res = tmpDir() + "/pbt_res_" + std::to_string(getpid()) + "_" + std::to_string(w);
    ws[w].log = tmpDir() + "/pbt_log_" + std::to_string(getpid()) + "_" + std::to_string(w);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      int lf = open(ws[w].log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      dup2(lf, 1);
      dup2(lf, 2);
      std::vector<double> spent(fs.size(), 0);
      std::vector<uint64_t> n(fs.size(), 0), disc(fs.size(), 0), nt(fs.size(), 0);
      std::vector<std::unordered_set<uint64_t>> hs(fs.size());
      std::vector<std::vector<std::string>> samples(fs.size());
      std::map<std::string, uint64_t> labels;
      Outcome bad;
      int badFacet = -1;
      uint64_t total = 0;
      while (true)
      {
        if (nowSec() > t_end && total > 0)
        {
          // every facet must have run at least a few times
          bool all = true;
          for (size_t i = 0; i < fs.size(); ++i)
            all = all && n[i] >= 2;
          if (all || nowSec() > t_end + budget)
            break;
        }
        if (maxCases && total >= maxCases)
          break;
        // facet with the least weighted time
        size_t fi = 0;
        for (size_t i = 1; i < fs.size(); ++i)
          if (spent[i] / fs[i].weight < spent[fi] / fs[fi].weight)
            fi = i;
        uint64_t fh = 0;
        for (char ch : fs[fi].name)
          fh = mix(fh, ch);
        const uint64_t cs = mix(mix(mix(seed, fh), w), n[fi]);
        sh[w].facet = fi;
        sh[w].seed = cs;
        const double t0 = nowSec();
        sh[w].t0 = t0;
        sh[w].running = 1;
        Src s(cs);
        Ctx c(s);
        c.want_text = samples[fi].size() < 2 && w < 2;
        Outcome o = runOne(fs[fi], s, c);
        sh[w].running = 0;
        if (o.st != FAIL)
        {
          sh[w].hist_facet[sh[w].hist_n % kHist] = fi;
          sh[w].hist_seed[sh[w].hist_n % kHist] = cs;
          sh[w].hist_n = sh[w].hist_n + 1;
        }
        spent[fi] += nowSec() - t0 + 1e-6;
        ++n[fi];
        ++total;
        if (total % 4096 == 0 && ftruncate(lf, 0))
          break;
        if (o.st == FAIL)
        {
          bad = o;
          badFacet = fi;
          break;
        }
        if (o.st == DISCARD)
        {
          ++disc[fi];
          continue;
        }
        for (auto& l : c.labels)
          ++labels[fs[fi].name + "/" + l];
        if (c.nontrivial_)
        {
          ++nt[fi];
          if (hs[fi].size() < 60000)
          {
            uint64_t h = 77;
            for (auto v : s.rec)
              h = mix(h, v);
            hs[fi].insert(h);
          }
          if (c.want_text && !c.text.empty())
            samples[fi].push_back(c.text.substr(0, 1500));
        }
      }
      std::ofstream r(ws[w].res, std::ios::binary);
      auto putS = [&](const std::string& s) {
        uint64_t z = s.size();
        r.write(reinterpret_cast<char*>(&z), 8);
        r.write(s.data(), z);
      };
      auto putU = [&](uint64_t v) { r.write(reinterpret_cast<char*>(&v), 8); };
      putU(badFacet + 1);
      putS(bad.tag);
      putS(bad.msg);
      putU(bad.rec.size());
      for (auto v : bad.rec)
        putU(v);
      for (size_t i = 0; i < fs.size(); ++i)
      {
        putU(n[i]);
        putU(disc[i]);
        putU(nt[i]);
        putU(hs[i].size());
        for (auto h : hs[i])
          putU(h);
        putU(samples[i].size());
        for (auto& t : samples[i])
          putS(t);
      }
      putU(labels.size());
      for (auto& l : labels)
      {
        putS(l.first);
        putU(l.second);
      }
      r.close();
      _exit(r.good() ? 0 : 3);
    }
    ws[w].pid = pid;
  }

  // Supervise.
  struct Failure
  {
    size_t first;
    Outcome second;
    int worker;
    Prelude prelude;
  };
  std::vector<Failure> failures;
  int unreproduced = 0;
  // Fails twice in a row, alone or after the last cases of the same process.
  auto reproduce = [&](const Facet& f, const std::vector<uint64_t>& tape, int w, Outcome& o, Prelude& pre)
  {
    const size_t have = sh[w].hist_n < kHist ? sh[w].hist_n : kHist;
    for (size_t k = 0;; k = k ? k * 2 : 1)
    {
      const size_t m = std::min(k, have);
      g_prelude.clear();
      for (size_t i = 0; i < m; ++i)
      {
        const size_t at = (sh[w].hist_n - m + i) % kHist;
        g_prelude.push_back({fs[sh[w].hist_facet[at]].name, sh[w].hist_seed[at]});
      }
      const double t0 = nowSec();
      o = runForked(f, tape, caseTimeout * 2, false);
      const double took = nowSec() - t0;
      if (o.st == FAIL)
      {
        const Outcome again = runForked(f, tape, caseTimeout * 2, false);
        if (again.st == FAIL)
        {
          pre = g_prelude;
          g_prelude.clear();
          return true;
        }
      }
      if (k >= have || took > 15)
        break;
    }
    g_prelude.clear();
    return false;
  };
  // A worker died or hung in a case: rebuild the case from its seed.
  auto suspect = [&](int w)
  {
    const size_t fi = sh[w].facet;
    // A tape of raw generator outputs reproduces the seed-driven case: draw()
    // reduces an entry modulo n+1 in both modes.
    Rng r(sh[w].seed);
    std::vector<uint64_t> raw(100000);
    for (auto& v : raw)
      v = r.next();
    Failure x{fi, Outcome(), w, {}};
    if (reproduce(fs[fi], raw, w, x.second, x.prelude))
    {
      failures.push_back(x);
      return true;
    }
    ++unreproduced;
    return false;
  };
  std::vector<uint64_t> n(fs.size(), 0), disc(fs.size(), 0), nt(fs.size(), 0);
  std::vector<std::unordered_set<uint64_t>> hs(fs.size());
  std::vector<std::vector<std::string>> samples(fs.size());
  std::map<std::string, uint64_t> labels;
  int alive = workers;
  bool stopAll = false;
  while (alive > 0)
  {
    bool any = false;
    for (int w = 0; w < workers; ++w)
    {
      if (ws[w].done)
        continue;
      int st;
      pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
      if (r == ws[w].pid)
      {
        any = true;
        ws[w].done = true;
        --alive;
        kill(-ws[w].pid, SIGKILL);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
          std::ifstream f(ws[w].res, std::ios::binary);
          auto getU = [&]() {
            uint64_t v = 0;
            f.read(reinterpret_cast<char*>(&v), 8);
            return v;
          };
          auto getS = [&]() {
            uint64_t z = getU();
            std::string s(z, 0);
            f.read(&s[0], z);
            return s;
          };
          uint64_t bf = getU();
          Outcome o;
          o.st = FAIL;
          o.tag = getS();
          o.msg = getS();
          o.rec.resize(getU());
          for (auto& v : o.rec)
            v = getU();
          if (bf > 0)
          {
            failures.push_back({static_cast<size_t>(bf - 1), o, w, {}});
            if (!keepGoing)
              stopAll = true;
          }
          for (size_t i = 0; i < fs.size(); ++i)
          {
            n[i] += getU();
            disc[i] += getU();
            nt[i] += getU();
            uint64_t k = getU();
            for (uint64_t j = 0; j < k; ++j)
              hs[i].insert(getU());
            k = getU();
            for (uint64_t j = 0; j < k; ++j)
            {
              std::string s = getS();
              if (samples[i].size() < 3)
                samples[i].push_back(s);
            }
          }
          uint64_t k = getU();
          for (uint64_t j = 0; j < k; ++j)
          {
            std::string s = getS();
            labels[s] += getU();
          }
        }
        else if (!stopAll)
        {
          if (sh[w].running && suspect(w))
            stopAll = true;
        }
      }
      else if (!stopAll && sh[w].running && nowSec() - sh[w].t0 > caseTimeout)
      {
        sh[w].running = 0;
        kill(-ws[w].pid, SIGKILL);
        kill(ws[w].pid, SIGKILL);
        if (suspect(w))
          stopAll = true;
      }
    }
    if (stopAll)
    {
      for (auto& w : ws)
        if (!w.done)
          kill(-w.pid, SIGKILL), kill(w.pid, SIGKILL);
    }
    if (!any)
      usleep(10000);
  }
  for (auto& w : ws)
  {
    unlink(w.res.c_str());
    unlink(w.log.c_str());
  }

  long shrinkSteps = 0;
  std::ostringstream fj;
  int nviol = 0, flaky = 0;
  std::set<std::string> seen;
  std::sort(failures.begin(), failures.end(),
            [](const auto& x, const auto& y) { return x.second.rec.size() < y.second.rec.size(); });
  for (auto& fo : failures)
  {
    const Facet& f = fs[fo.first];
    if (seen.count(f.name + "/" + fo.second.tag))
      continue;
    // must reproduce from its tape
    int rep = 0;
    Outcome o0;
    g_prelude = fo.prelude;
    for (int k = 0; k < 3; ++k)
    {
      o0 = runForked(f, fo.second.rec, caseTimeout * 2, false);
      rep += o0.st == FAIL;
    }
    if (rep == 0 && !reproduce(f, fo.second.rec, fo.worker, o0, fo.prelude))
    {
      ++flaky;
      continue;
    }
    g_prelude = fo.prelude;
    seen.insert(f.name + "/" + fo.second.tag);
    if (o0.st != FAIL)
      o0 = fo.second;
    if (seen.size() > 4)
      continue;
    Outcome best = shrink(f, o0, nviol == 0 ? shrinkBudget : shrinkBudget / 4,
                          o0.tag == "hang" ? std::min(caseTimeout, 5.0) : caseTimeout, &shrinkSteps);
    Outcome fin = runForked(f, best.rec, caseTimeout * 2, true);
    if (fin.st != FAIL)
      fin = o0;
    mkdir(replays.c_str(), 0755);
    uint64_t h = 0;
    for (auto v : fin.rec)
      h = mix(h, v);
    char hx[32];
    snprintf(hx, sizeof hx, "%016llx", static_cast<unsigned long long>(h));
    std::string path = replays + "/" + prop + "-" + f.name + "-" + hx + ".tape";
    std::ofstream(path) << tapeFile(f, prop, fin);
    fj << (nviol ? "," : "") << "{\"facet\":" << jsonEsc(f.name) << ",\"tag\":" << jsonEsc(fin.tag)
       << ",\"message\":" << jsonEsc(fin.msg) << ",\"case\":" << jsonEsc(fin.text) << ",\"replay\":" << jsonEsc(path)
       << ",\"reproduced\":" << rep << "}";
    ++nviol;
  }

  std::ofstream o(out);
  o << "{\"facets\":[";
  for (size_t i = 0; i < fs.size(); ++i)
  {
    o << (i ? "," : "") << "{\"name\":" << jsonEsc(fs[i].name) << ",\"rule\":" << jsonEsc(fs[i].rule)
      << ",\"cases\":" << n[i] << ",\"discarded\":" << disc[i] << ",\"nontrivial\":" << nt[i]
      << ",\"distinct_nontrivial\":" << hs[i].size() << ",\"samples\":[";
    for (size_t k = 0; k < samples[i].size(); ++k)
      o << (k ? "," : "") << jsonEsc(samples[i][k]);
    o << "]}";
  }
  o << "],\"labels\":{";
  bool first = true;
  for (auto& l : labels)
  {
    o << (first ? "" : ",") << jsonEsc(l.first) << ":" << l.second;
    first = false;
  }
  o << "},\"failures\":[" << fj.str() << "],\"flaky\":" << flaky << ",\"unreproduced_crashes\":" << unreproduced
    << ",\"shrink_steps\":" << shrinkSteps << ",\"wall_s\":" << nowSec() - t_start << "}\n";
  o.close();
  return nviol ? 1 : 0;
}
#endif
}  // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
  static const pbt::Facet* f = nullptr;
  static std::string dump;
  if (!f)
  {
    const char* n = getenv("PBT_FACET");
    f = n ? pbt::findFacet(n) : &pbt::facets()[0];
    dump = getenv("PBT_DUMP") ? getenv("PBT_DUMP") : "/dev/stderr";
    if (!f)
      abort();
  }
  pbt::Src s(data, size);
  pbt::Ctx c(s);
  pbt::Outcome o = pbt::runOne(*f, s, c);
  if (o.st == pbt::FAIL)
  {
    std::ofstream d(dump);
    d << "facet " << f->name << "\ntag " << o.tag << "\ntape " << o.rec.size();
    for (auto v : o.rec)
      d << " " << v;
    d << "\n# message: " << o.msg << "\n";
    d.close();
    abort();
  }
  return 0;
}
#else
int main(int argc, char** argv)
{
  return pbt::realMain(argc, argv);
}
#endif
