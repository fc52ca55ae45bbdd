#include "mc.hpp"

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace mc {

namespace {
struct Fam {
  char const* name;
  void (*fn)(Ctx&);
};
std::vector<Fam>& fams() {
  static std::vector<Fam> f;
  return f;
}
double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
std::string jesc(std::string const& s) {
  std::string r;
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if(c == '\n')
      r += "\\n";
    else if(c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}
constexpr std::size_t MAX_FAMS = 64;
struct Slot { // shared with the parent
  volatile uint32_t fam;
  volatile uint64_t idx;
  volatile uint64_t seq; // incremented at begin and end of a case
  volatile bool in_case;
  volatile uint64_t trans, validated, cases;
  volatile uint64_t fam_cases[MAX_FAMS];
  volatile uint64_t fam_total[MAX_FAMS];
  volatile bool capped; // deadline hit
  volatile bool finished;
};
constexpr std::size_t STATE_CAP = 3000000;
} // namespace

Registrar::Registrar(char const* name, void (*fn)(Ctx&)) {
  fams().push_back({name, fn});
}

struct Ctx::Impl {
  int shard = 0, nshards = 1;
  bool replay = false;
  uint64_t replay_idx = 0;
  bool replay_done = false;
  uint64_t skip_below = 0; // resume point in the current family
  Slot* slot = nullptr;
  double deadline = 0;
  bool capped = false;
  uint64_t ncheck = 0;
  std::unordered_set<uint64_t> states;
  bool states_capped = false;
  FILE* out = nullptr; // failures & samples as JSON lines
  uint64_t nfail = 0;
  uint64_t executed_in_fam = 0;
  uint64_t next_sample = 1;
  std::vector<std::string> bounds;
};

void Ctx::state(uint64_t h) {
  if(impl_->states.size() < STATE_CAP)
    impl_->states.insert(h);
  else
    impl_->states_capped = true;
}
void Ctx::trans(uint64_t n) { impl_->slot->trans += n; }
void Ctx::validated(uint64_t n) { impl_->slot->validated += n; }
void Ctx::bound(std::string const& s) {
  if(impl_->shard == 0 && !impl_->replay) {
    fprintf(impl_->out, "{\"kind\":\"bound\",\"family\":\"%s\",\"text\":\"%s\"}\n", fams()[fam_].name, jesc(s).c_str());
    fflush(impl_->out);
  }
}
bool Ctx::done() const {
  if(impl_->replay) return impl_->replay_done;
  return impl_->capped;
}
bool Ctx::mine_next() const {
  if(done()) throw StopEnum{};
  if(impl_->replay) return next_idx_ == impl_->replay_idx && !impl_->replay_done;
  return !impl_->capped && next_idx_ >= impl_->skip_below && int(next_idx_ % impl_->nshards) == impl_->shard;
}
bool Ctx::begin_case(uint64_t idx) {
  if(done()) throw StopEnum{};
  Impl& im = *impl_;
  if(im.replay) {
    if(idx != im.replay_idx || im.replay_done) return false;
  } else {
    if(int(idx % im.nshards) != im.shard) return false;
    if(im.capped) return false;
    if(idx < im.skip_below) return false;
    if((++im.ncheck & 15) == 0 && now() > im.deadline) {
      im.capped = true;
      im.slot->capped = true;
      return false;
    }
  }
  im.slot->idx = idx;
  im.slot->fam = fam_;
  im.slot->seq = im.slot->seq + 1;
  im.slot->in_case = true;
  return true;
}
bool Ctx::want_desc() {
  Impl& im = *impl_;
  return im.replay || im.executed_in_fam + 1 == im.next_sample;
}
void Ctx::end_case(uint64_t idx, std::string const& desc, std::string const& err) {
  Impl& im = *impl_;
  im.slot->in_case = false;
  im.slot->seq = im.slot->seq + 1;
  im.slot->cases = im.slot->cases + 1;
  im.slot->fam_cases[fam_] = im.slot->fam_cases[fam_] + 1;
  ++im.executed_in_fam;
  if(im.replay) im.replay_done = true;
  if(!err.empty()) {
    ++im.nfail;
    if(im.nfail <= 400) {
      fprintf(im.out,
              "{\"kind\":\"failure\",\"family\":\"%s\",\"case\":%llu,\"desc\":\"%s\",\"msg\":\"%s\"}\n",
              fams()[fam_].name,
              (unsigned long long)idx,
              jesc(desc).c_str(),
              jesc(err.substr(0, 2000)).c_str());
      fflush(im.out);
    }
  } else if(im.executed_in_fam == im.next_sample) {
    im.next_sample = im.next_sample * 23 + 1;
    fprintf(im.out, "{\"kind\":\"sample\",\"family\":\"%s\",\"case\":%llu,\"desc\":\"%s\"}\n", fams()[fam_].name, (unsigned long long)idx, jesc(desc.substr(0, 400)).c_str());
    fflush(im.out);
  }
}

namespace {
struct Opts {
  std::string outdir = ".";
  bool thorough = false;
  int jobs = 8;
  double deadline = 300;
  double case_timeout = 30;
  std::string family;
  long long kase = -1;
};

// Run all families (worker body)
int worker(Opts const& o, int shard, Slot* slot, std::string const& outfile, uint32_t from_fam, uint64_t from_idx, double t_end, bool replay) {
  Ctx::Impl im;
  im.shard = shard;
  im.nshards = o.jobs;
  im.slot = slot;
  im.deadline = t_end;
  im.replay = replay;
  im.replay_idx = replay ? o.kase : 0;
  im.out = fopen(outfile.c_str(), "a");
  if(!im.out) return 3;
  for(uint32_t f = from_fam; f < fams().size(); ++f) {
    if(!o.family.empty() && o.family != fams()[f].name) continue;
    Ctx cx;
    cx.impl_ = &im;
    cx.thorough_ = o.thorough;
    cx.fam_ = f;
    im.skip_below = (f == from_fam) ? from_idx : 0;
    im.executed_in_fam = 0;
    im.next_sample = (shard % 4 == 0) ? 1 : 997;
    slot->fam = f;
    slot->in_case = false;
    slot->seq = slot->seq + 1;
    try {
      fams()[f].fn(cx);
    } catch(StopEnum const&) {
    } catch(std::exception const& e) {
      fprintf(im.out, "{\"kind\":\"enum_error\",\"family\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}\n", fams()[f].name, (unsigned long long)cx.next_idx_, jesc(e.what()).c_str());
    } catch(Failure const& e) {
      fprintf(im.out, "{\"kind\":\"enum_error\",\"family\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}\n", fams()[f].name, (unsigned long long)cx.next_idx_, jesc(e.msg).c_str());
    }
    slot->fam_total[f] = cx.next_idx_;
    if(im.capped) break;
    if(replay) break;
  }
  if(replay && !im.replay_done) fprintf(im.out, "{\"kind\":\"no_such_case\"}\n");
  fclose(im.out);
  if(!replay) {
    std::vector<uint64_t> v(im.states.begin(), im.states.end());
    std::string sf = outfile + ".states";
    FILE* s = fopen(sf.c_str(), "ab");
    if(s) {
      if(!v.empty() && fwrite(v.data(), 8, v.size(), s) != v.size()) return 3;
      fclose(s);
    }
    if(im.states_capped) slot->capped = slot->capped; // hash cap only affects the count
  }
  slot->finished = true;
  return 0;
}

void limit_self() {
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

struct Proc {
  pid_t pid = -1;
  int shard = 0;
  uint64_t last_seq = ~0ull;
  double last_change = 0;
  int restarts = 0;
  bool alive = false;
  std::string errfile;
};

std::string tail(std::string const& file, std::size_t n) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // sanitizer reports: prefer the first lines of the report
  auto p = s.find("ERROR: AddressSanitizer");
  if(p == std::string::npos) p = s.find("runtime error");
  if(p == std::string::npos) p = s.find("Assertion");
  if(p != std::string::npos) {
    p = s.rfind('\n', p);
    s = s.substr(p == std::string::npos ? 0 : p + 1);
    return s.substr(0, n);
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

// A case that allocates without bound would take the machine down with it.
constexpr double rss_limit_mb = 3500;
double rss_mb(pid_t pid) {
  std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
  double size = 0, res = 0;
  f >> size >> res;
  return res * double(sysconf(_SC_PAGESIZE)) / 1048576.;
}

pid_t spawn(Opts const& o, int shard, Slot* slot, std::string const& out, std::string const& err, uint32_t ff, uint64_t fi, double t_end, bool replay) {
  fflush(stdout);
  pid_t pid = fork();
  if(pid == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    limit_self();
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    int rc = worker(o, shard, slot, out, ff, fi, t_end, replay);
    fflush(stdout);
    _exit(rc);
  }
  return pid;
}
} // namespace

int run_main(int argc, char** argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL); // do not outlive bin/check
  Opts o;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string {
      return i + 1 < argc ? argv[++i] : "";
    };
    if(a == "--out") o.outdir = next();
    else if(a == "--thorough")
      o.thorough = true;
    else if(a == "--jobs")
      o.jobs = std::atoi(next().c_str());
    else if(a == "--deadline")
      o.deadline = std::atof(next().c_str());
    else if(a == "--case-timeout")
      o.case_timeout = std::atof(next().c_str());
    else if(a == "--family")
      o.family = next();
    else if(a == "--case")
      o.kase = std::atoll(next().c_str());
    else if(a == "--list") {
      for(auto& f : fams())
        std::cout << f.name << "\n";
      return 0;
    }
  }
  // Static initialisation order across translation units depends on the link
  // order; numbering must not.
  std::stable_sort(fams().begin(), fams().end(), [](Fam const& a, Fam const& b) { return std::strcmp(a.name, b.name) < 0; });
  if(fams().size() > MAX_FAMS) return 3;

  Slot* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * (o.jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset((void*)slots, 0, sizeof(Slot) * (o.jobs + 1));
  double t0 = now();

  // Single-case replay in a child process; returns: 0 pass, 1 fail, 2 crash/hang, 3 no such case
  auto replay_one = [&](std::string fam, uint64_t idx, std::string& report) {
    Opts ro = o;
    ro.family = fam;
    ro.kase = idx;
    ro.jobs = 1;
    std::string out = o.outdir + "/replay.jsonl", err = o.outdir + "/replay.err";
    unlink(out.c_str());
    Slot* s = &slots[o.jobs];
    std::memset((void*)s, 0, sizeof(Slot));
    pid_t pid = spawn(ro, 0, s, out, err, 0, 0, now() + 1e9, true);
    double ts = now();
    int st = 0;
    bool hang = false, oom = false;
    while(true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if(r == pid) break;
      oom = rss_mb(pid) > rss_limit_mb;
      if(oom || now() - ts > 4 * o.case_timeout) {
        kill(-pid, SIGKILL);
        waitpid(pid, &st, 0);
        hang = !oom;
        break;
      }
      usleep(2000);
    }
    std::ifstream f(out);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string line, rep;
    int res = 0;
    while(std::getline(ss, line)) {
      if(line.find("\"kind\":\"failure\"") != std::string::npos) {
        res = 1;
        rep = line;
      }
      if(line.find("\"kind\":\"no_such_case\"") != std::string::npos) res = 3;
    }
    if(oom) {
      res = 2;
      rep = "hang: the case allocated more than " + std::to_string(int(rss_limit_mb)) + " MB";
    } else if(hang) {
      res = 2;
      rep = "hang: the case did not terminate within " + std::to_string(int(4 * o.case_timeout)) + " s";
    } else if(WIFSIGNALED(st)) {
      res = 2;
      rep = std::string("killed by signal ") + strsignal(WTERMSIG(st)) + ": " + tail(err, 1500);
    } else if(WEXITSTATUS(st) != 0) {
      res = 2;
      rep = "aborted (exit code " + std::to_string(WEXITSTATUS(st)) + "): " + tail(err, 1500);
    }
    report = rep;
    return res;
  };

  if(o.kase >= 0) {
    std::string rep;
    int r = replay_one(o.family, o.kase, rep);
    if(r) std::cout << rep << "\n";
    std::cout << (r == 0 ? "PASS" : r == 1 ? "FAIL" : r == 2 ? "CRASH" : "NO SUCH CASE") << "\n";
    return r ? 1 : 0;
  }

  std::string resfile = o.outdir + "/result.jsonl";
  std::vector<Proc> procs(o.jobs);
  double t_end = t0 + o.deadline;
  std::vector<std::string> crash_lines;
  for(int s = 0; s < o.jobs; ++s) {
    procs[s].shard = s;
    procs[s].errfile = o.outdir + "/w" + std::to_string(s) + ".err";
    procs[s].pid = spawn(o, s, &slots[s], o.outdir + "/w" + std::to_string(s) + ".jsonl", procs[s].errfile, 0, 0, t_end, false);
    procs[s].alive = true;
    procs[s].last_change = now();
  }
  bool incomplete = false;
  int alive = o.jobs;
  // One confirmed hang (or slow death) answers the question; every further one would cost minutes.
  bool stop_all = false;
  double replay_time = 0;
  while(alive > 0) {
    if(stop_all) {
      for(auto& p : procs) {
        if(!p.alive) continue;
        int st = 0;
        kill(-p.pid, SIGKILL);
        waitpid(p.pid, &st, 0);
        p.alive = false;
      }
      incomplete = true;
      break;
    }
    usleep(3000);
    for(auto& p : procs) {
      if(!p.alive) continue;
      Slot& sl = slots[p.shard];
      int st = 0;
      pid_t r = waitpid(p.pid, &st, WNOHANG);
      bool dead = r == p.pid, timed_out = false;
      if(!dead) {
        if(sl.seq != p.last_seq) {
          p.last_seq = sl.seq;
          p.last_change = now();
        } else if(sl.in_case && (now() - p.last_change > o.case_timeout || (now() - p.last_change > 0.3 && rss_mb(p.pid) > rss_limit_mb))) {
          timed_out = true;
          kill(-p.pid, SIGKILL);
          waitpid(p.pid, &st, 0);
          dead = true;
        } else if(!sl.in_case && now() > t_end + 60) {
          // enumeration itself does not finish
          kill(-p.pid, SIGKILL);
          waitpid(p.pid, &st, 0);
          p.alive = false;
          --alive;
          incomplete = true;
          continue;
        }
      }
      if(!dead) continue;
      if(sl.finished && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        p.alive = false;
        --alive;
        continue;
      }
      // crash or hang: attribute to the case
      std::string fam = fams()[sl.fam].name;
      uint64_t idx = sl.idx;
      uint32_t ffam = sl.fam;
      if(sl.in_case) {
        std::string rep;
        double t_replay = now();
        int rr = replay_one(fam, idx, rep);
        if(rr != 0 && (rep.compare(0, 5, "hang:") == 0 || now() - t_replay > 8)) stop_all = true;
        replay_time += now() - t_replay;
        if(replay_time > 150) stop_all = true; // neither confirmed nor affordable: incomplete
        if(rr == 2)
          crash_lines.push_back("{\"kind\":\"failure\",\"family\":\"" + fam + "\",\"case\":" + std::to_string(idx) + ",\"desc\":\"crash\",\"msg\":\"" + jesc(rep) + "\"}");
        else if(rr == 1)
          crash_lines.push_back(rep);
        else if(!timed_out) {
          // dies in sequence but not alone: report with the worker's message
          crash_lines.push_back("{\"kind\":\"failure\",\"family\":\"" + fam + "\",\"case\":" + std::to_string(idx) + ",\"desc\":\"crash (in sequence only)\",\"msg\":\"" + jesc(tail(p.errfile, 1500)) + "\"}");
        }
        if(!stop_all && p.restarts++ < 6) {
          sl.in_case = false;
          p.last_seq = ~0ull;
          p.last_change = now();
          p.pid = spawn(o, p.shard, &sl, o.outdir + "/w" + std::to_string(p.shard) + ".jsonl", p.errfile, ffam, idx + 1, t_end, false);
          continue;
        }
      } else {
        crash_lines.push_back("{\"kind\":\"enum_error\",\"family\":\"" + fam + "\",\"case\":" + std::to_string(idx) + ",\"msg\":\"worker died outside a case: " + jesc(tail(p.errfile, 1500)) + "\"}");
      }
      p.alive = false;
      --alive;
      incomplete = true;
    }
  }
  // Merge
  uint64_t cases = 0, trans = 0, val = 0;
  bool capped = incomplete;
  std::vector<uint64_t> fam_cases(fams().size()), fam_total(fams().size());
  for(int s = 0; s < o.jobs; ++s) {
    cases += slots[s].cases;
    trans += slots[s].trans;
    val += slots[s].validated;
    capped = capped || slots[s].capped;
    for(std::size_t f = 0; f < fams().size(); ++f) {
      fam_cases[f] += slots[s].fam_cases[f];
      fam_total[f] = std::max<uint64_t>(fam_total[f], uint64_t(slots[s].fam_total[f]));
    }
  }
  std::vector<uint64_t> st;
  std::ofstream res(resfile);
  for(int s = 0; s < o.jobs; ++s) {
    std::string b = o.outdir + "/w" + std::to_string(s) + ".jsonl";
    std::ifstream f(b);
    if(f.peek() != EOF) res << f.rdbuf();
    std::ifstream sf(b + ".states", std::ios::binary | std::ios::ate);
    if(sf) {
      auto n = std::size_t(sf.tellg()) / 8;
      sf.seekg(0);
      std::size_t old = st.size();
      st.resize(old + n);
      sf.read(reinterpret_cast<char*>(st.data() + old), std::streamsize(n * 8));
    }
    unlink((b + ".states").c_str());
    unlink(b.c_str());
  }
  std::sort(st.begin(), st.end());
  auto nstates = std::unique(st.begin(), st.end()) - st.begin();
  for(auto const& l : crash_lines)
    res << l << "\n";
  res << "{\"kind\":\"summary\",\"states\":" << nstates << ",\"transitions\":" << trans << ",\"validated\":" << val << ",\"cases\":" << cases << ",\"complete\":" << (capped ? "false" : "true") << ",\"wall\":" << now() - t0 << ",\"families\":{";
  for(std::size_t f = 0; f < fams().size(); ++f)
    res << (f ? "," : "") << "\"" << fams()[f].name << "\":{\"executed\":" << fam_cases[f] << ",\"enumerated\":" << fam_total[f] << "}";
  res << "}}\n";
  res.close();
  return 0;
}

} // namespace mc

int main(int argc, char** argv) { return mc::run_main(argc, argv); }
