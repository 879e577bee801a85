// Runner of the property-based testing engine: parallel generation, crash and hang detection,
// shrinking, replay, evidence.
#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{

static uint64_t splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void resetShared(Shared *sh)
{
  sh->status = 0;
  sh->nChoices = sh->nSpans = sh->traceLen = sh->msgLen = 0;
  sh->trace[0] = sh->msg[0] = 0;
}

Case::Case(Shared *s, uint64_t seed, uint64_t stream) : sh(s), mode(GEN)
{
  resetShared(sh);
  uint64_t x = seed * 0x2545F4914F6CDD1Dull + 0x1234567;
  uint64_t a = splitmix(x);
  x = a ^ (stream * 0xD1342543DE82EF95ull + 99);
  rng[0] = splitmix(x);
  rng[1] = splitmix(x) | 1;
}

Case::Case(Shared *s, const std::vector<uint64_t> &choices) : sh(s), mode(REPLAY), replay(&choices)
{
  resetShared(sh);
}

Case::Case(Shared *s, const uint8_t *data, size_t size) : sh(s), mode(FUZZ), fuzzData(data), fuzzSize(size)
{
  resetShared(sh);
}

uint64_t Case::next()
{
  uint64_t s1 = rng[0], s0 = rng[1];
  uint64_t result = s0 + s1;
  rng[0] = s0;
  s1 ^= s1 << 23;
  rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return result;
}

uint64_t Case::draw(uint64_t max)
{
  uint64_t v = 0;
  if (sh->nChoices >= Shared::MAX_CHOICES)
  {
    sh->status = 3;
    throw Failure{"OVERRUN"};
  }
  switch (mode)
  {
    case GEN:
      v = max == UINT64_MAX ? next() : (uint64_t) (((unsigned __int128) next() * (max + 1)) >> 64);
      break;
    case REPLAY:
      v = sh->nChoices < replay->size() ? (*replay)[sh->nChoices] : 0;
      if (v > max) v = max;
      break;
    case FUZZ:
    {
      int n = max <= 0xFF ? 1 : max <= 0xFFFF ? 2 : max <= 0xFFFFFFFFull ? 4 : 8;
      for (int i = 0; i < n; ++i) v = (v << 8) | (fuzzPos < fuzzSize ? fuzzData[fuzzPos++] : 0);
      if (max != UINT64_MAX) v %= (max + 1);
      break;
    }
  }
  sh->maxes[sh->nChoices] = max;
  sh->choices[sh->nChoices++] = v;
  return v;
}

long Case::edgy(long lo, long hi)
{
  if (hi <= lo) return lo;
  switch (draw(5))
  {
    case 4: return lo + (long) draw(std::min<long>(2, hi - lo));
    case 5: return hi - (long) draw(std::min<long>(2, hi - lo));
    default: return range(lo, hi);
  }
}

int Case::weighted(std::initializer_list<int> weights)
{
  long sum = 0;
  for (int w : weights) sum += w;
  long v = (long) draw((uint64_t) sum - 1);
  int i = 0;
  for (int w : weights)
  {
    if (v < w) return i;
    v -= w;
    ++i;
  }
  return i - 1;
}

uint8_t Case::sbyte()
{
  static const uint8_t special[] = {0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF};
  if (draw(3) == 3) return special[draw(6)];
  return (uint8_t) draw(255);
}

bool Case::more(int &count, int avg, int max)
{
  if (count >= max || fuzzExhausted()) return false;
  // Stop with probability 1/avg; value 0 means stop so that truncation shrinks.
  if (draw((uint64_t) avg) == 0) return false;
  ++count;
  return true;
}

void Case::log(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  uint32_t room = Shared::TRACE - sh->traceLen;
  if (room > 300)
  {
    int n = vsnprintf(sh->trace + sh->traceLen, room - 2, fmt, ap);
    if (n > (int) room - 3) n = room - 3;
    sh->traceLen += n;
    sh->trace[sh->traceLen++] = '\n';
    sh->trace[sh->traceLen] = 0;
  }
  va_end(ap);
}

void Case::cls(const char *label)
{
  for (auto &s : classes) if (s == label) return;
  classes.push_back(label);
}

void Case::count(const char *label, long n)
{
  for (auto &p : counts) if (p.first == label) { p.second += n; return; }
  counts.emplace_back(label, n);
}

void Case::fail(const char *fmt, ...)
{
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Failure{buf};
}

size_t Case::openSpan()
{
  if (sh->nSpans >= Shared::MAX_SPANS) return SIZE_MAX;
  sh->spanStart[sh->nSpans] = sh->nChoices;
  sh->spanEnd[sh->nSpans] = UINT32_MAX;
  return sh->nSpans++;
}

void Case::closeSpan(size_t s)
{
  if (s != SIZE_MAX) sh->spanEnd[s] = sh->nChoices;
}

std::string hex(const uint8_t *p, size_t n)
{
  std::string s;
  char b[4];
  for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, i ? " %02X" : "%02X", p[i]); s += b; }
  return s;
}

// ------------------------------------------------------------------------------------------------

static Shared *newShared()
{
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared *) p;
}

static const int CPU_LIMIT_S = 25; // CPU seconds (not wall) of one case; only an endless loop gets there

static void armCpuLimit(int s)
{
  struct itimerval it = {};
  it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

// Run one prepared case in this process. Returns true when it passed.
static bool execute(Case &c, const std::function<void(Case &)> &body)
{
  armCpuLimit(CPU_LIMIT_S);
  bool ok = true;
  try
  {
    body(c);
    c.sh->status = 1;
  }
  catch (const Failure &f)
  {
    if (c.sh->status == 3 && f.msg == "OVERRUN")
    {
      // Used up the choice buffer: discard the case.
      c.sh->status = 1;
    }
    else
    {
      ok = false;
      size_t n = std::min(f.msg.size(), sizeof(c.sh->msg) - 1);
      memcpy(c.sh->msg, f.msg.data(), n);
      c.sh->msg[n] = 0;
      c.sh->msgLen = n;
      c.sh->status = 2;
    }
  }
  return ok;
}

static std::string tmpDir;

static std::string readFile(const std::string &p)
{
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

static std::string crashMessage(int status, const std::string &errFile)
{
  std::string err = readFile(errFile);
  std::string out;
  if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF))
  {
    out = "does not terminate (used " + std::to_string(CPU_LIMIT_S) + " s of CPU time)";
  }
  else if (WIFSIGNALED(status))
  {
    out = std::string("killed by signal ") + strsignal(WTERMSIG(status));
  }
  else
  {
    out = "crashed with exit status " + std::to_string(WEXITSTATUS(status));
  }
  std::istringstream is(err);
  std::string line;
  int n = 0;
  while (std::getline(is, line) && n < 12)
  {
    if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
        line.find("    #") != std::string::npos || line.find("terminate called") != std::string::npos)
    {
      out += " | " + line;
      ++n;
    }
  }
  return out;
}

struct Outcome
{
  bool failed = false;
  std::string msg;
  std::vector<uint64_t> choices;
  std::vector<uint64_t> maxes;
  std::vector<std::pair<uint32_t, uint32_t>> spans;
  std::string trace;
};

static void redirectStderr(const std::string &f)
{
  int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static Outcome collect(Shared *sh, int status, const std::string &errFile)
{
  Outcome o;
  if (sh->status == 2)
  {
    o.failed = true;
    o.msg = sh->msg;
  }
  else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
  {
    o.failed = true;
    o.msg = crashMessage(status, errFile);
  }
  o.choices.assign(sh->choices, sh->choices + sh->nChoices);
  o.maxes.assign(sh->maxes, sh->maxes + sh->nChoices);
  for (uint32_t i = 0; i < sh->nSpans; ++i)
  {
    o.spans.emplace_back(sh->spanStart[i], std::min(sh->spanEnd[i], sh->nChoices));
  }
  o.trace.assign(sh->trace, sh->traceLen);
  return o;
}

// Run a sequence of bodies in one fresh process; only the last one's outcome matters unless an earlier one fails.
static Outcome runForked(Shared *sh, const std::function<void()> &body)
{
  std::string errFile = tmpDir + "/err.single";
  resetShared(sh);
  pid_t pid = fork();
  if (pid == 0)
  {
    redirectStderr(errFile);
    signal(SIGPROF, SIG_DFL);
    body();
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  return collect(sh, status, errFile);
}

static Outcome runChoices(Shared *sh, const std::vector<uint64_t> &ch)
{
  return runForked(sh, [&] { Case c(sh, ch); execute(c, property.run); });
}

// Which kind of failure is it? A shrunk case must fail in the same way as the original (first words of the message).
static std::string kindOf(const std::string &msg)
{
  std::string k = msg.substr(0, msg.find(':'));
  if (k.size() > 60) k.resize(60);
  return k;
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static Outcome shrink(Shared *sh, Outcome best)
{
  const std::string kind = kindOf(best.msg);
  int attempts = 0;
  time_t start = time(nullptr);
  std::set<std::vector<uint64_t>> seen;
  auto over = [&] { return attempts > 3000 || time(nullptr) - start > 60; };
  auto attempt = [&](const std::vector<uint64_t> &ch) -> bool {
    if (over() || !seen.insert(ch).second) return false;
    ++attempts;
    Outcome o = runChoices(sh, ch);
    if (o.failed && kindOf(o.msg) == kind && simpler(o.choices, best.choices))
    {
      best = o;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && !over())
  {
    improved = false;
    // Delete spans, largest first.
    for (bool again = true; again && !over();)
    {
      again = false;
      auto spans = best.spans;
      std::stable_sort(spans.begin(), spans.end(), [](auto &a, auto &b) { return a.second - a.first > b.second - b.first; });
      for (auto &s : spans)
      {
        if (s.second <= s.first || s.second > best.choices.size()) continue;
        auto ch = best.choices;
        // The draw in front of a span is normally the "continue" decision of the sequence.
        ch.erase(ch.begin() + s.first, ch.begin() + s.second);
        if (attempt(ch)) { again = improved = true; break; }
        if (s.first > 0)
        {
          ch = best.choices;
          ch.erase(ch.begin() + s.first - 1, ch.begin() + s.second);
          if (attempt(ch)) { again = improved = true; break; }
        }
        if (over()) break;
      }
    }
    // Delete blocks.
    for (size_t k : {16, 8, 4, 2, 1})
    {
      for (long i = (long) best.choices.size() - (long) k; i >= 0 && !over(); --i)
      {
        if ((size_t) i + k > best.choices.size()) continue;
        auto ch = best.choices;
        ch.erase(ch.begin() + i, ch.begin() + i + k);
        if (attempt(ch)) improved = true;
      }
    }
    // Zero and minimise values.
    for (size_t i = 0; i < best.choices.size() && !over(); ++i)
    {
      if (best.choices[i] == 0) continue;
      auto ch = best.choices;
      ch[i] = 0;
      if (attempt(ch)) { improved = true; continue; }
      uint64_t lo = 0;
      while (i < best.choices.size() && best.choices[i] > lo + 1 && !over())
      {
        uint64_t mid = lo + (best.choices[i] - lo) / 2;
        ch = best.choices;
        ch[i] = mid;
        if (attempt(ch)) improved = true;
        else lo = mid;
      }
      if (i < best.choices.size() && best.choices[i] > 0)
      {
        ch = best.choices;
        ch[i] -= 1;
        if (attempt(ch)) improved = true;
      }
    }
  }
  return best;
}

// ------------------------------------------------------------------------------------------------

static std::string jsonStr(const std::string &s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 0x20 || ch >= 0x7F) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char) ch;
  }
  return o + "\"";
}

struct Totals
{
  long evaluations = 0;
  long nontrivial = 0;
  long enumerated = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> classes;
  std::map<std::string, long> counts;
  std::map<long, std::string> samples;
  long violations = 0;
  long probes = 0;
  std::vector<std::string> known;
};

static void mergeBlob(Totals &t, const std::string &blob)
{
  std::istringstream is(blob);
  std::string line;
  while (std::getline(is, line))
  {
    if (line.empty()) continue;
    std::istringstream ls(line.substr(1));
    switch (line[0])
    {
      case 'E': { long n; ls >> n; t.evaluations += n; break; }
      case 'N': { long n; ls >> n; t.nontrivial += n; break; }
      case 'H': { uint64_t h; ls >> std::hex >> h; t.distinct.insert(h); break; }
      case 'C': { long n; std::string l; ls >> n; std::getline(ls, l); t.classes[l.substr(1)] += n; break; }
      case 'T': { long n; std::string l; ls >> n; std::getline(ls, l); t.counts[l.substr(1)] += n; break; }
      case 'S': { long i; std::string l; ls >> i; std::getline(ls, l); t.samples[i] = l.substr(1); break; }
    }
  }
}

static bool writeEvidence(const Totals &t, const char *tier, uint64_t seed, double wall)
{
  const char *path = getenv("VERIF_EVIDENCE");
  if (!path) return true;
  std::ofstream f(std::string(path) + ".tmp");
  f << "{\n \"property\": " << jsonStr(property.id) << ",\n \"tier\": " << jsonStr(tier) << ",\n \"seed\": " << seed
    << ",\n \"level\": " << jsonStr(property.level) << ",\n \"coverage\": {\n"
    << "  \"evaluations\": " << t.evaluations << ",\n  \"nontrivial\": " << t.nontrivial
    << ",\n  \"distinct_nontrivial\": " << t.distinct.size() << ",\n  \"rule\": " << jsonStr(property.rule) << ",\n";
  if (property.enumerated) f << "  \"enumerated_cases\": " << t.enumerated << ",\n";
  f << "  \"fixed_scenarios\": " << t.probes << ",\n";
  f << "  \"classes\": {";
  bool first = true;
  for (auto &p : t.classes) { f << (first ? "" : ", ") << jsonStr(p.first) << ": " << p.second; first = false; }
  f << "},\n  \"totals\": {";
  first = true;
  for (auto &p : t.counts) { f << (first ? "" : ", ") << jsonStr(p.first) << ": " << p.second; first = false; }
  f << "},\n  \"known_findings_seen\": [";
  first = true;
  for (auto &k : t.known) { f << (first ? "" : ", ") << jsonStr(k); first = false; }
  f << "],\n";
  const char *fz = getenv("VERIF_FUZZ_EXECS");
  if (fz) f << "  \"coverage_guided_executions\": " << atol(fz) << ",\n";
  f << "  \"samples\": [";
  first = true;
  int n = 0;
  for (auto &p : t.samples)
  {
    if (n++ >= 5) break;
    f << (first ? "\n   " : ",\n   ") << jsonStr("case " + std::to_string(p.first) + ":\n" + p.second);
    first = false;
  }
  f << "]\n },\n \"assumptions\": [";
  first = true;
  for (auto a : property.assumptions) { f << (first ? "" : ", ") << jsonStr(a); first = false; }
  f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << t.violations << "\n}\n";
  f.close();
  return rename((std::string(path) + ".tmp").c_str(), path) == 0;
}

static double now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static uint64_t caseStream(long idx)
{
  uint64_t h = 1469598103934665603ull;
  for (const char *p = property.id; *p; ++p) h = (h ^ (unsigned char) *p) * 1099511628211ull;
  return h ^ (uint64_t) idx * 0x9E3779B97F4A7C15ull;
}

static void runIndex(Shared *sh, uint64_t seed, long idx, Case *&out, bool &ok)
{
  static Case *keep = nullptr;
  delete keep;
  keep = new Case(sh, seed, caseStream(idx));
  sh->caseIndex = idx;
  if (idx < property.enumerated)
  {
    ok = execute(*keep, [idx](Case &c) { property.runEnumerated(c, idx); });
  }
  else
  {
    ok = execute(*keep, property.run);
  }
  out = keep;
}

struct Worker
{
  pid_t pid = 0;
  int fd = -1;
  long first = 0, last = 0;
  Shared *sh = nullptr;
  std::string blob;
  std::string errFile;
};

static std::string replayDir()
{
  const char *d = getenv("VERIF_REPLAY_DIR");
  std::string dir = d ? d : "/tmp";
  mkdir(dir.c_str(), 0755);
  return dir;
}

static std::string writeReplay(const Outcome &o, uint64_t seed, const std::string &kind, const std::string &args)
{
  std::string path = replayDir() + "/" + property.id + "-" + kind + ".replay";
  std::ofstream f(path);
  f << "property " << property.id << "\nkind " << kind << "\nseed " << seed << "\nargs " << args << "\nchoices";
  if (kind == "choices") for (auto v : o.choices) f << " " << v;
  f << "\n# replay with: ./check " << property.id << " --replay <this file>\n# " << property.title << "\n# failure: ";
  std::string m = o.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  f << m << "\n# what was done:\n";
  std::istringstream is(o.trace);
  std::string line;
  while (std::getline(is, line)) f << "#   " << line << "\n";
  return path;
}

static std::set<std::string> knownIds()
{
  std::set<std::string> ids;
  const char *p = getenv("VERIF_KNOWN");
  if (!p) return ids;
  std::ifstream f(p);
  std::string line;
  while (std::getline(f, line))
  {
    // known: property=<id> id=<probe id> <what>
    std::string a = std::string("known: property=") + property.id + " id=";
    if (line.compare(0, a.size(), a) == 0)
    {
      std::istringstream is(line.substr(a.size()));
      std::string id;
      is >> id;
      ids.insert(id);
    }
  }
  return ids;
}

// Confirm three times in fresh processes, then report.
static int report(Totals &t, const Outcome &o, const std::string &path, const std::function<Outcome()> &again, bool sure = false)
{
  int reproduced = 0;
  for (int i = 0; i < 3; ++i) reproduced += again().failed;
  if (!reproduced && !sure)
  {
    fprintf(stderr, "error: a failure of %s did not reproduce: %s\n", property.id, o.msg.c_str());
    return 3;
  }
  if (reproduced < 3) printf("# reproduced %d times of 3: the behaviour depends on more than the input\n", reproduced);
  t.violations = 1;
  printf("# %s\n# %s\n", property.title, o.msg.substr(0, 1500).c_str());
  std::string tr = o.trace;
  if (tr.size() > 4000) tr = "...\n" + tr.substr(tr.size() - 4000);
  std::istringstream is(tr);
  std::string line;
  while (std::getline(is, line)) printf("#   %s\n", line.c_str());
  printf("VIOLATION property=%s replay=%s\n", property.id, path.c_str());
  fflush(stdout);
  return 1;
}

static Outcome runRange(Shared *sh, uint64_t seed, long first, long last)
{
  return runForked(sh, [&] {
    for (long i = first; i <= last; ++i)
    {
      Case *c;
      bool ok;
      runIndex(sh, seed, i, c, ok);
      if (!ok) break;
    }
  });
}

static int campaign(const char *tier, uint64_t seed, long nCases, int nWorkers)
{
  double t0 = now();
  Totals t;
  Shared *single = newShared();
  std::set<std::string> known = knownIds();
  int rc = 0;

  for (auto &p : property.probes)
  {
    ++t.probes;
    auto go = [&] { return runForked(single, [&] { Case c(single, std::vector<uint64_t>()); execute(c, p.run); }); };
    Outcome o = go();
    if (!o.failed) continue;
    // Only the failure that was recorded is known: the probe marks it.
    if (known.count(p.id) && o.msg.compare(0, 7, "known: ") == 0)
    {
      printf("KNOWN-FINDING: property=%s %s: %s\n", property.id, p.id, o.msg.c_str() + 7);
      t.known.push_back(std::string(p.id) + ": " + o.msg);
      continue;
    }
    std::string path = writeReplay(o, seed, std::string("probe-") + p.id, p.id);
    rc = report(t, o, path, go);
    writeEvidence(t, tier, seed, now() - t0);
    return rc;
  }

  long total = nCases + property.enumerated;
  std::vector<Worker> ws(nWorkers);
  for (int i = 0; i < nWorkers; ++i)
  {
    ws[i].sh = newShared();
    ws[i].errFile = tmpDir + "/err." + std::to_string(i);
  }
  long nextIdx = 0;
  long failIdx = -1; // smallest failing index so far
  long failFirst = 0; // start of its batch
  bool failSure = false; // the oracle or a sanitizer failed, it was not ended from outside
  std::string failMsg, failTrace;
  int failCount = 0;
  int active = 0;
  std::vector<long> sampleAt;
  for (;;)
  {
    for (auto &w : ws)
    {
      if (w.pid || nextIdx >= total || (failIdx >= 0 && nextIdx > failIdx)) continue;
      w.first = nextIdx;
      w.last = std::min(total, nextIdx + property.batch) - 1;
      nextIdx = w.last + 1;
      w.blob.clear();
      w.sh->caseIndex = w.first;
      w.sh->status = 0;
      int fds[2];
      if (pipe(fds) != 0) { perror("pipe"); return 3; }
      fflush(stdout);
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); return 3; }
      if (pid == 0)
      {
        close(fds[0]);
        redirectStderr(w.errFile);
        std::ostringstream os;
        long ev = 0, nt = 0, en = 0;
        std::map<std::string, long> cl, ct;
        bool sampled = false;
        for (long i = w.first; i <= w.last; ++i)
        {
          Case *c;
          bool ok;
          runIndex(w.sh, seed, i, c, ok);
          ++ev;
          if (i < property.enumerated) ++en;
          for (auto &l : c->classes) ++cl[l];
          for (auto &l : c->counts) ct[l.first] += l.second;
          if (c->isNontrivial)
          {
            ++nt;
            uint64_t h = 1469598103934665603ull;
            for (uint32_t k = 0; k < w.sh->nChoices; ++k) h = (h ^ w.sh->choices[k]) * 1099511628211ull + 7;
            if (i < property.enumerated) h = (h ^ (uint64_t) i) * 0x9E3779B97F4A7C15ull;
            os << "H " << std::hex << h << std::dec << "\n";
            if (!sampled && w.first / property.batch < 12 && w.sh->traceLen < 3000 && w.sh->traceLen > 0)
            {
              sampled = true;
              std::string s(w.sh->trace, w.sh->traceLen);
              std::replace(s.begin(), s.end(), '\n', ';');
              os << "S " << i << " " << s << "\n";
            }
          }
          if (!ok) break;
        }
        os << "E " << ev << "\nN " << nt << "\n";
        for (auto &p : cl) os << "C " << p.second << " " << p.first << "\n";
        for (auto &p : ct) os << "T " << p.second << " " << p.first << "\n";
        if (en) os << "T " << en << " enumerated\n";
        std::string s = os.str();
        size_t off = 0;
        while (off < s.size())
        {
          ssize_t k = write(fds[1], s.data() + off, s.size() - off);
          if (k <= 0) break;
          off += k;
        }
        _exit(w.sh->status == 2 ? 42 : 0);
      }
      close(fds[1]);
      w.pid = pid;
      w.fd = fds[0];
      ++active;
    }
    if (!active) break;
    std::vector<struct pollfd> pf;
    std::vector<Worker *> pw;
    for (auto &w : ws) if (w.pid) { pf.push_back({w.fd, POLLIN, 0}); pw.push_back(&w); }
    if (poll(pf.data(), pf.size(), 1000) < 0 && errno != EINTR) { perror("poll"); return 3; }
    for (size_t i = 0; i < pf.size(); ++i)
    {
      if (!pf[i].revents) continue;
      char buf[65536];
      ssize_t k = read(pw[i]->fd, buf, sizeof buf);
      if (k > 0) { pw[i]->blob.append(buf, k); continue; }
      Worker &w = *pw[i];
      close(w.fd);
      int status = 0;
      while (waitpid(w.pid, &status, 0) < 0 && errno == EINTR) {}
      w.pid = 0;
      --active;
      mergeBlob(t, w.blob);
      if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
      {
        ++failCount;
        long idx = w.sh->caseIndex;
        if (failIdx < 0 || idx < failIdx)
        {
          failIdx = idx;
          failFirst = w.first;
          failSure = WIFEXITED(status) || WTERMSIG(status) == SIGSEGV || WTERMSIG(status) == SIGABRT || WTERMSIG(status) == SIGBUS;
          Outcome f = collect(w.sh, status, w.errFile);
          failMsg = f.msg;
          failTrace = f.trace;
        }
      }
    }
  }
  if (t.counts.count("enumerated")) { t.enumerated = t.counts["enumerated"]; t.counts.erase("enumerated"); }

  if (failIdx >= 0)
  {
    Outcome o = runRange(single, seed, failIdx, failIdx);
    if (o.failed && failIdx >= property.enumerated)
    {
      o = shrink(single, o);
      std::vector<uint64_t> ch = o.choices;
      std::string path = writeReplay(o, seed, "choices", "-");
      rc = report(t, o, path, [&] { return runChoices(single, ch); }, failSure);
    }
    else
    {
      // Either an enumerated case, or one that needs the cases before it in the same process.
      long first = o.failed ? failIdx : failFirst;
      if (!o.failed) o = runRange(single, seed, first, failIdx);
      while (o.failed && first < failIdx)
      {
        Outcome p = runRange(single, seed, first + 1, failIdx);
        if (!p.failed) break;
        o = p;
        ++first;
      }
      if (!o.failed)
      {
        o.msg = failMsg;
        o.trace = failTrace;
      }
      std::string path = writeReplay(o, seed, "range", std::to_string(first) + " " + std::to_string(failIdx));
      rc = report(t, o, path, [&] { return runRange(single, seed, first, failIdx); }, failSure);
    }
  }
  if (!writeEvidence(t, tier, seed, now() - t0)) return 3;
  printf("%s: %ld cases, %ld non-trivial, %zu distinct non-trivial, %.1f s, %s\n", property.id, t.evaluations, t.nontrivial,
         t.distinct.size(), now() - t0, rc == 0 ? "held" : "BROKEN");
  for (auto &p : t.classes) printf("   %-60s %ld\n", p.first.c_str(), p.second);
  return rc;
}

static int replayFile(const std::string &path)
{
  std::ifstream f(path);
  if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 3; }
  std::string line, kind, args;
  uint64_t seed = 1;
  std::vector<uint64_t> ch;
  while (std::getline(f, line))
  {
    std::istringstream is(line);
    std::string w;
    is >> w;
    if (w == "kind") is >> kind;
    else if (w == "seed") is >> seed;
    else if (w == "args") std::getline(is, args);
    else if (w == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
  }
  Shared *sh = newShared();
  Outcome o;
  if (kind == "choices") o = runChoices(sh, ch);
  else if (kind == "range")
  {
    std::istringstream is(args);
    long a, b;
    is >> a >> b;
    o = runRange(sh, seed, a, b);
  }
  else
  {
    std::istringstream is(args);
    std::string id;
    is >> id;
    for (auto &p : property.probes)
    {
      if (id == p.id) o = runForked(sh, [&] { Case c(sh, std::vector<uint64_t>()); execute(c, p.run); });
    }
  }
  printf("%s\n%s\n", o.trace.c_str(), o.failed ? o.msg.c_str() : "passes");
  if (o.failed) printf("VIOLATION property=%s replay=%s\n", property.id, path.c_str());
  return o.failed ? 1 : 0;
}

// A finding of the coverage-guided search: decode, shrink, report.
static int fuzzInput(const std::string &path, uint64_t seed, const char *tier)
{
  std::string data = readFile(path);
  Shared *sh = newShared();
  double t0 = now();
  Outcome o = runForked(sh, [&] { Case c(sh, (const uint8_t *) data.data(), data.size()); execute(c, property.run); });
  if (!o.failed) return 0;
  Outcome r = runChoices(sh, o.choices);
  if (!r.failed) return 0; // only an artefact of running in the fuzzer's process
  o = shrink(sh, r);
  std::vector<uint64_t> ch = o.choices;
  std::string rp = writeReplay(o, seed, "choices", "-");
  Totals t;
  int rc = report(t, o, rp, [&] { return runChoices(sh, ch); });
  t.evaluations = 1;
  t.samples[0] = o.trace;
  writeEvidence(t, tier, seed, now() - t0);
  return rc;
}

static int runMain(int argc, char **argv)
{
  const char *tier = getenv("VERIF_TIER");
  if (!tier || strcmp(tier, "thorough") != 0) tier = "quick";
  const char *s = getenv("VERIF_SEED");
  uint64_t seed = s && *s ? strtoull(s, nullptr, 10) : 1;
  long cases = strcmp(tier, "thorough") == 0 ? property.thoroughCases : property.quickCases;
  int workers = (int) sysconf(_SC_NPROCESSORS_ONLN);
  if (workers < 1) workers = 1;
  if (workers > 16) workers = 16;
  std::string replay, fuzzFile;
  for (int i = 1; i + 1 < argc; i += 2)
  {
    std::string a = argv[i];
    if (a == "--cases") cases = atol(argv[i + 1]);
    else if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--workers") workers = atoi(argv[i + 1]);
    else if (a == "--replay") replay = argv[i + 1];
    else if (a == "--fuzz-input") fuzzFile = argv[i + 1];
  }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
  tmpDir = tmpl;
  int rc = !fuzzFile.empty() ? fuzzInput(fuzzFile, seed, tier) : replay.empty() ? campaign(tier, seed, cases, workers) : replayFile(replay);
  for (int i = 0; i < workers; ++i) unlink((tmpDir + "/err." + std::to_string(i)).c_str());
  unlink((tmpDir + "/err.single").c_str());
  rmdir(tmpDir.c_str());
  return rc;
}

}

#ifdef PBT_FUZZ
// Coverage-guided tier: the fuzzer's bytes are the choices.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
  static pbt::Shared *sh = pbt::newShared();
  pbt::Case c(sh, data, size);
  struct itimerval it = {};
  if (!pbt::execute(c, pbt::property.run))
  {
    setitimer(ITIMER_PROF, &it, nullptr);
    fprintf(stderr, "FUZZ-FAILURE %s\n", sh->msg);
    __builtin_trap();
  }
  setitimer(ITIMER_PROF, &it, nullptr);
  return 0;
}
#else
int main(int argc, char **argv)
{
  setvbuf(stdout, nullptr, _IOLBF, 0);
  return pbt::runMain(argc, argv);
}
#endif
