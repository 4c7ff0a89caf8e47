// Search, replay and minimisation.
#include "scen.h"
#include "ref.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <unordered_set>
#include <sys/personality.h>
#include <sys/resource.h>

using namespace rt;

static std::vector<const Scenario*>& registry() { static std::vector<const Scenario*> r; return r; }
RegisterScenario::RegisterScenario(const Scenario* s) { registry().push_back(s); }
const Scenario* find_scenario(const std::string& id) { for (auto s : registry()) if (id == s->id) return s; return 0; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void put(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t r = write(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } }
static std::string slurp(const char* p) { std::string s; int fd = open(p, O_RDONLY); if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static bool spit(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return false; put(fd, s); close(fd); return true; }
static std::string jstr(const std::string& s) {
  std::string r = "\""; char t[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\u%04x", c); r += t; } else r += c; }
  return r + "\"";
}
static uint64_t idhash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

static void put_str(std::string& o, const std::string& s) { uint64_t n = s.size(); o.append((const char*)&n, 8); o += s; }
static bool get_str(const std::string& s, size_t& at, std::string& o) { uint64_t n; if (at + 8 > s.size()) return false; memcpy(&n, s.data() + at, 8); at += 8; if (n > s.size() - at) return false; o = s.substr(at, n); at += n; return true; }
// ------------------------------------------------------------------ the second image
std::string (*other_image)(const std::string&); std::string (*remote_fn)(const std::string&);
static int img_in = -1, img_out = -1;
static bool put_all(int fd, const void* p, size_t n) { size_t o = 0; while (o < n) { ssize_t r = write(fd, (const char*)p + o, n - o); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; o += r; } return true; }
static bool get_all(int fd, void* p, size_t n) { size_t o = 0; while (o < n) { ssize_t r = read(fd, (char*)p + o, n - o); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; o += r; } return true; }
static bool put_msg(int fd, const std::string& s) { uint64_t n = s.size(); return put_all(fd, &n, 8) && put_all(fd, s.data(), n); }
static bool get_msg(int fd, std::string& s) { uint64_t n; if (!get_all(fd, &n, 8) || n > (64u << 20)) return false; s.resize(n); return !n || get_all(fd, &s[0], n); }
static std::string ask_image(const std::string& req) { std::string a; if (!put_msg(img_out, req) || !get_msg(img_in, a)) return ""; return a; }
static void need_image() {
  if (img_in >= 0) return;
  char me[4096]; ssize_t n = readlink("/proc/self/exe", me, sizeof me - 3); if (n <= 0) return; me[n] = 0; if (n > 2 && !strcmp(me + n - 2, "-s")) me[n - 2] = 0; strcat(me, "-b");
  int a[2], b[2]; if (pipe(a) || pipe(b)) return;
  pid_t p = fork();
  if (p == 0) { dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 64; ++i) close(i); char* av[] = { me, (char*)"serve", 0 }; execv(me, av); _exit(3); }
  close(a[0]); close(b[1]); img_out = a[1]; img_in = b[0]; other_image = ask_image;
}
static int serve() {
  std::string q;
  while (get_msg(0, q)) if (!put_msg(1, isolated(q, [](const std::string& t) { return remote_fn(t); }))) return 1;
  return 0;
}

// one run, in a process of its own
static Outcome execute(const Scenario* sc, const Plan& p) {
  std::string text = p.str(); if (text.find(" img=1") != std::string::npos) need_image();
  std::string r = isolated(text, [sc](const std::string& t) {
    Plan q; std::string s; Outcome o;
    if (!Plan::parse(t, q)) o.toolerr = "the plan does not survive being written down"; else o = sc->exec(q);
    put_str(s, o.cls); put_str(s, o.detail); put_str(s, o.toolerr); put_str(s, o.resolved.str()); put_str(s, std::string((const char*)&o.hash, 8)); put_str(s, o.nontrivial ? "1" : "");
    return s;
  });
  Outcome o; std::string res, h, n; size_t at = 0;
  if (!get_str(r, at, o.cls) || !get_str(r, at, o.detail) || !get_str(r, at, o.toolerr) || !get_str(r, at, res) || !get_str(r, at, h) || !get_str(r, at, n) || h.size() != 8) { Outcome e; e.toolerr = "the simulator process ended early"; return e; }
  memcpy(&o.hash, h.data(), 8); o.nontrivial = !n.empty(); if (!res.empty()) Plan::parse(res, o.resolved);
  return o;
}

// ------------------------------------------------------------------ minimisation
struct Mini {
  const Scenario* sc; std::string cls; double deadline; int execs = 0; Plan best; Outcome bo;
  bool out() { return now() > deadline || execs > 6000; }
  bool attempt(const Plan& p) {
    if (out()) return false;
    ++execs; Outcome o = execute(sc, p);
    if (o.cls != cls) return false;
    best = p; bo = o; return true;
  }
  void lines() {
    size_t chunk = best.lines.size() / 2; if (!chunk) chunk = 1;
    for (;;) {
      bool any = false;
      for (size_t i = 0; i < best.lines.size() && !out();) {
        Plan p = best; size_t e = std::min(i + chunk, p.lines.size());
        p.lines.erase(p.lines.begin() + i, p.lines.begin() + e);
        if (attempt(p)) any = true; else i += chunk;
      }
      if (out()) return;
      if (chunk == 1) { if (!any) return; } else chunk = (chunk + 1) / 2;
    }
  }
  bool token(size_t li, size_t ti) {
    bool any = false;
    { Plan p = best; p.lines[li].kv.erase(p.lines[li].kv.begin() + ti); if (attempt(p)) return true; }
    std::string v = best.lines[li].kv[ti].second;
    auto with = [&](const std::string& nv) { if (nv == v) return false; Plan p = best; p.lines[li].kv[ti].second = nv; if (attempt(p)) { v = nv; any = true; return true; } return false; };
    if (v.size() && v[0] == 'x') {
      std::string b = unhex(v.substr(1));
      for (size_t chunk = b.size(); chunk >= 1 && !out(); chunk /= 2) {
        for (size_t i = 0; i < b.size() && !out();) {
          std::string c = b; c.erase(i, chunk);
          if (with("x" + tohex(c))) b = c; else i += chunk;
        }
      }
      for (size_t i = 0; i < b.size() && b.size() < 200 && !out(); ++i) {
        if (b[i] == 'a') continue;
        unsigned char ch = b[i]; if (ch > ' ' && ch < 127 && !(ch >= 'b' && ch <= 'z')) continue;
        std::string c = b; c[i] = 'a'; if (with("x" + tohex(c))) b = c;
      }
    } else {
      char* e; long long n = strtoll(v.c_str(), &e, 10);
      if (!v.empty() && !*e && n != 0) {
        with("0");
        for (int k = 0; k < 40 && !out(); ++k) { n = strtoll(v.c_str(), 0, 10); if (!n) break; if (!with(std::to_string(n / 2))) break; }
        n = strtoll(v.c_str(), 0, 10);
        for (int k = 0; k < 8 && n && !out(); ++k) { if (!with(std::to_string(n > 0 ? n - 1 : n + 1))) break; n = strtoll(v.c_str(), 0, 10); }
      }
    }
    return any;
  }
  void run() {
    for (int round = 0; round < 4 && !out(); ++round) {
      std::string before = best.str();
      lines();
      for (size_t i = 0; i < best.lines.size() && !out(); ++i)
        for (size_t t = 0; t < best.lines[i].kv.size() && !out();) { size_t n = best.lines[i].kv.size(); token(i, t); if (best.lines[i].kv.size() == n) ++t; }
      if (best.str() == before) break;
    }
  }
};

extern "C" const char sim_redzones __attribute__((weak));
static std::string replay_text(const Scenario* sc, const Plan& p, const Outcome& o, uint64_t seed) {
  char h[64]; snprintf(h, sizeof h, "%016llx", (unsigned long long)o.hash);
  std::string d; for (char c : o.detail) d += c == '\n' ? ' ' : c;
  return std::string("# property ") + sc->id + (&sim_redzones ? "\n# image s" : "") + "\n# seed " + std::to_string(seed) + "\n# class " + o.cls + "\n# detail " + d + "\n# hash " + h + "\n" + p.str();
}

static int usage() { put(2, "usage: sim search PROP --seed S --worker I --workers N --time T --out DIR [--thorough] | replay FILE | gen PROP SEED | once PROP SEED | list\n"); return 2; }

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  if (argc < 2) return usage();
  std::string mode = argv[1];
  if (mode == "list") { for (auto s : registry()) put(1, std::string(s->id) + "\t" + s->rule + "\n"); return 0; }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  rt::init();
  warm_crypto();
  if (mode == "serve") return serve();
  if (argc < 3) return usage();
  if (mode == "replay") {
    std::string t = slurp(argv[2]); Plan p; std::string id, cls, hash;
    size_t i = 0;
    while (i < t.size()) {
      size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size();
      std::string l = t.substr(i, j - i); i = j + 1;
      if (l.compare(0, 11, "# property ") == 0) id = l.substr(11);
      if (l.compare(0, 8, "# class ") == 0) cls = l.substr(8);
      if (l.compare(0, 7, "# hash ") == 0) hash = l.substr(7);
    }
    if (t.find("\n# image s\n") != std::string::npos && !&sim_redzones) {   // found in the other image
      char me[4096]; ssize_t n = readlink("/proc/self/exe", me, sizeof me - 3); if (n > 0) { me[n] = 0; strcat(me, "-s"); argv[0] = me; execv(me, argv); }
      put(2, "sim: no such image\n"); return 2;
    }
    const Scenario* sc = find_scenario(id);
    if (!sc || !Plan::parse(t, p)) { put(2, "sim: cannot read the replay file\n"); return 2; }
    Outcome o = execute(sc, p);
    char h[64]; snprintf(h, sizeof h, "%016llx", (unsigned long long)o.hash);
    if (!o.toolerr.empty()) { put(1, "TOOLERR " + o.toolerr + "\n"); return 3; }
    if (o.cls.empty()) { put(1, std::string("HELD hash=") + h + "\n"); return 0; }
    put(1, "VIOLATED class=" + o.cls + " hash=" + h + (o.cls == cls && hash == h ? " same-as-recorded" : " differs-from-recorded") + "\n" + o.detail + "\n");
    return 1;
  }
  const Scenario* sc = find_scenario(argv[2]);
  if (!sc) { put(2, "sim: no such property\n"); return 2; }
  if (mode == "gen" || mode == "once") {
    if (argc < 4) return usage();
    uint64_t seed = strtoull(argv[3], 0, 10); Rng r(seed); Plan p; sc->gen(r, p, argc > 4 && !strcmp(argv[4], "--thorough"));
    if (mode == "gen") { put(1, p.str()); return 0; }
    Outcome o = execute(sc, p);
    char h[64]; snprintf(h, sizeof h, "%016llx", (unsigned long long)o.hash);
    put(1, (o.toolerr.empty() ? o.cls.empty() ? std::string("held") : "violated " + o.cls + ": " + o.detail : "toolerr " + o.toolerr) + " hash=" + h + (o.nontrivial ? " nontrivial" : "") + "\n");
    return o.cls.empty() ? 0 : 1;
  }
  if (mode != "search") return usage();
  uint64_t seed = 1, worker = 0, workers = 1, maxruns = ~0ull; double secs = 10; std::string out = "."; bool thorough = false; bool hashes = false; uint64_t twice = 32;
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed") seed = strtoull(v, 0, 10), ++i;
    else if (a == "--worker") worker = strtoull(v, 0, 10), ++i;
    else if (a == "--workers") workers = strtoull(v, 0, 10), ++i;
    else if (a == "--time") secs = atof(v), ++i;
    else if (a == "--runs") maxruns = strtoull(v, 0, 10), ++i;
    else if (a == "--twice") twice = strtoull(v, 0, 10), ++i;
    else if (a == "--out") out = v, ++i;
    else if (a == "--thorough") thorough = true;
    else if (a == "--hashes") hashes = true;
    else return usage();
  }
  double t0 = now(), tend = t0 + secs;
  uint64_t runs = 0, nontriv = 0, checked2 = 0, nondet = 0; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples; std::string status = "ok", msg, hashlog;
  std::string tag = out + "/" + sc->id + "." + std::to_string(worker);
  for (uint64_t k = worker; runs < maxruns && now() < tend; k += workers) {
    uint64_t s = mix(mix(seed, idhash(sc->id)), k);
    Rng r(s); Plan p; sc->gen(r, p, thorough);
    Outcome o = execute(sc, p); ++runs;
    if (hashes) { char h[80]; snprintf(h, sizeof h, "%llu %016llx %s\n", (unsigned long long)k, (unsigned long long)o.hash, o.cls.c_str()); hashlog += h; }
    if (!o.toolerr.empty()) { if (status == "ok") { status = "toolerr"; msg = o.toolerr + " (seed " + std::to_string(s) + ")"; } if (++nondet > 20) break; continue; }
    if (o.nontrivial) { if (distinct.insert(o.hash).second) ++nontriv; }
    if (o.cls.empty() && samples.size() < 2 && o.nontrivial && p.str().size() < 6000) samples.push_back(p.str());
    if (o.cls.empty() && twice && k % twice == worker % twice) {
      set_counting(false); Outcome o2 = execute(sc, p); set_counting(true); ++checked2;
      if (o2.hash != o.hash || o2.cls != o.cls) { // nothing this plan shows can be relied on; another one may show a violation that repeats
        if (status == "ok") { status = "nondeterminism"; msg = "the same plan gave two executions (seed " + std::to_string(s) + ")"; spit(tag + ".nondet", p.str()); }
        if (++nondet > 200) break;
        continue;
      }
    }
    if (!o.cls.empty()) {
      set_counting(false);
      Outcome o2 = execute(sc, p);
      if (o2.cls != o.cls) {
        if (status == "ok") { status = "nondeterminism"; msg = "a violation did not repeat: " + o.cls + " / " + (o2.cls.empty() ? "held" : o2.cls) + ": " + o.detail + " (seed " + std::to_string(s) + ")"; spit(tag + ".nondet", p.str()); }
        set_counting(true); if (++nondet > 200) break;
        continue;
      }
      Mini m; m.sc = sc; m.cls = o.cls; m.deadline = now() + (thorough ? 120 : 40); m.best = p; m.bo = o;
      if (o.resolved.lines.size()) m.attempt(o.resolved);
      spit(tag + ".full", replay_text(sc, p, o, s));
      m.run();
      spit(tag + ".replay", replay_text(sc, m.best, m.bo, s));
      status = "violation"; msg = m.bo.cls + ": " + m.bo.detail;
      break;
    }
  }
  std::string j = "{\"status\":" + jstr(status) + ",\"msg\":" + jstr(msg) + ",\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"twice\":" + std::to_string(checked2);
  char t[64]; snprintf(t, sizeof t, ",\"secs\":%.3f", now() - t0); j += t;
  j += ",\"rule\":" + jstr(sc->rule) + ",\"counts\":{";
  bool first = true; for (auto& c : snapshot_counts()) { if (!first) j += ","; first = false; j += jstr(c.first) + ":" + std::to_string(c.second); }
  j += "},\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + jstr(samples[i]); j += "]}\n";
  spit(tag + ".json", j);
  std::string hs; { size_t n; const unsigned char* b = cover_bits(&n); hs.assign((const char*)b, n); } spit(tag + ".cov", hs);
  std::string dh; dh.reserve(distinct.size() * 8); for (uint64_t h : distinct) dh.append((const char*)&h, 8); spit(tag + ".distinct", dh);
  if (hashes) spit(tag + ".hashes", hashlog);
  return status == "ok" ? 0 : status == "violation" ? 1 : 3;
}
