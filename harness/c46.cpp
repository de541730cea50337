#include "kit.h"
#include <fstream>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
// The debug log: every step of a run is written as one record that can be read back, and writing it changes nothing.
#if __has_feature(address_sanitizer)
#define DUMP 1
#else
#define DUMP 0
#endif
static bool noLocalTime;
#if __has_feature(address_sanitizer)
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
static std::string dir; static std::string where(const char* n) { return dir + "/" + n; }
static void hostBegin() { const char* base = getenv("VF_TMP"); std::string t = std::string(base ? base : "/tmp") + "/vf46XXXXXX"; dir = mkdtemp(&t[0]); vf_assert(chdir(dir.c_str()) == 0, "scratch directory"); unsetenv("HSMCPP_DUMP_PATH"); }
static void hostEnd() { vf_assert(chdir("/") == 0, "scratch directory"); for (const char* n : {"dump.hsmlog", "a.hsmlog", "b.hsmlog"}) { unlink(where(n).c_str()); rmdir(where(n).c_str()); } rmdir(dir.c_str()); }
static void hostExisting(const char* n, const char* text) { std::ofstream(where(n)) << text; }
static void hostRefuse(const char* n) { mkdir(where(n).c_str(), 0700); }   // a directory cannot be opened for writing
static std::string hostRead(const char* n) { std::ifstream f(where(n)); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void hostEnv(const char* v) { setenv("HSMCPP_DUMP_PATH", v, 1); }
#else
HostFile hostFiles[3]; static const char* envPath; static std::string where(const char* n) { return std::string("./") + n; }
static void hostBegin() { envPath = nullptr; const char* n[] = {"./dump.hsmlog", "./a.hsmlog", "./b.hsmlog"}; for (int i = 0; i < 3; i++) { hostFiles[i] = HostFile(); hostFiles[i].path = n[i]; } } static void hostEnd() { for (auto& f : hostFiles) { f.path = std::string(); f.content = std::string(); } }
static HostFile& F(const char* n) { return *hostFile(where(n).c_str()); }
static void hostExisting(const char* n, const char* text) { F(n).exists = true; F(n).content = text; } static void hostRefuse(const char* n) { F(n).exists = F(n).refuses = true; } static std::string hostRead(const char* n) { return F(n).content; } static std::string envText; static void hostEnv(const char* v) { envText = v; envPath = envText.c_str(); }
extern "C" {
char* getenv(const char* n) noexcept { return strcmp(n, "HSMCPP_DUMP_PATH") == 0 ? const_cast<char*>(envPath) : nullptr; }
int access(const char* p, int) noexcept { HostFile* f = hostFile(p); return f && f->exists ? 0 : -1; }
static struct tm hostTm; struct tm* localtime(const time_t*) noexcept { return noLocalTime ? nullptr : &hostTm; } struct tm* localtime_r(const time_t*, struct tm* t) noexcept { if (noLocalTime) return nullptr; *t = hostTm; return t; }
size_t strftime(char* b, size_t n, const char*, const struct tm*) noexcept { if (n < 20) return 0; memcpy(b, "2001-02-03 04:05:06", 20); return 19; }
int snprintf(char* b, size_t n, const char* f, ...) { if (strcmp(f, ".%03d")) vf_fail("snprintf: format not modelled"); if (n > 4) memcpy(b, ".007", 5); return 4; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
}
#endif
enum Act { A_IDLE = 1, A_TRANSITION, A_ENTRYPOINT, A_EXIT, A_ENTER, A_STATE, A_ONENTER, A_ONEXIT };
static const char* const actName[] = {"", "idle", "transition", "transition_entrypoint", "callback_exit", "callback_enter", "callback_state", "onenter_actions", "onexit_actions"};
static std::string num(int64_t v) { char b[24]; int i = 24; uint64_t u = v < 0 ? 0 - static_cast<uint64_t>(v) : static_cast<uint64_t>(v); do { b[--i] = static_cast<char>('0' + u % 10); u /= 10; } while (u); if (v < 0) b[--i] = '-'; return std::string(b + i, 24 - i); }
static bool same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; unsigned x = 0; for (size_t i = 0; i < a.size(); i++) x |= static_cast<unsigned char>(a[i] ^ b[i]); return x == 0; }
struct Rec { std::string action, from, to, event, status, time; std::vector<std::string> active, args; };
// ---- reading the file as YAML, as far as records of this shape need it
struct Reader {
  const std::string& t; size_t p; explicit Reader(const std::string& s, size_t from) : t(s), p(from) {}
  bool end() const { return p >= t.size(); }
  bool is(const char* s) { size_t n = strlen(s); if (p >= t.size() || t.compare(p, n, s) != 0) return false; p += n; return true; }
  void need(const char* s) { if (!is(s)) vf_fail("the log can be read back: structure"); }
  static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (vf_fail("the log can be read back: escape"), 0); }
  char at(size_t i) const { return i < t.size() ? t[i] : '\n'; }
  std::string scalar() {
    std::string r;
    if (at(p) == '"') {
      for (p++; at(p) != '"'; p++) { unsigned char c = static_cast<unsigned char>(at(p)); if (c < 32 || c == 127) vf_fail("the log can be read back: control character"); if (c != '\\') { r += static_cast<char>(c); continue; }
        switch (at(++p)) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case '0': r += '\0'; break; case '\\': r += '\\'; break; case '"': r += '"'; break; case '/': r += '/'; break; case 'a': r += '\a'; break; case 'b': r += '\b'; break; case 'e': r += '\x1b'; break; case 'f': r += '\f'; break; case 'v': r += '\v'; break;
          case 'x': { int h = hex(at(p + 1)), l = hex(at(p + 2)); r += static_cast<char>(h * 16 + l); p += 2; break; } default: vf_fail("the log can be read back: escape"); } }
      p++; if (at(p) != '\n') vf_fail("the log can be read back: text after a quoted value"); p++; return r;
    }
    size_t b = p; for (; at(p) != '\n'; p++) { unsigned char c = static_cast<unsigned char>(at(p)); if (c < 32 || c == 127) vf_fail("the log can be read back: control character"); if (p > b && c == '#' && at(p - 1) == ' ') vf_fail("the log can be read back: comment"); if (c == ':' && (at(p + 1) == ' ' || at(p + 1) == '\n')) vf_fail("the log can be read back: nested mapping"); r += static_cast<char>(c); }
    p++; if (r.empty()) return r; if (r.front() == ' ' || r.back() == ' ') vf_fail("the log can be read back: blanks around a plain value"); if (r.front() == '[' && r.back() == ']') return r;
    static const char ind[] = ",[]{}#&*!|>'%@`"; for (const char* q = ind; *q; q++) if (r[0] == *q) vf_fail("the log can be read back: plain value starts with an indicator");
    if ((r[0] == '-' || r[0] == '?' || r[0] == ':') && (r.size() == 1 || r[1] == ' ')) vf_fail("the log can be read back: plain value starts with an indicator"); return r;
  }
  void list(std::vector<std::string>& v) { if (end()) return; need("\n"); while (is("    - ") || is("    -\n")) { if (at(p - 1) == '\n') v.push_back(std::string()); else v.push_back(scalar()); } }
  Rec record() {
    Rec r; while (is("\n")) {} need("-\n"); bool seen[7] = {false}; static const char* const key[] = {"timestamp:", "active_states:", "action:", "from_state:", "target_state:", "event:", "status:", "args:"};
    for (int n = 0; n < 8; n++) { need("  "); int k = 0; for (; k < 8; k++) if (is(key[k])) break; if (k == 8 || (k < 7 && seen[k])) vf_fail("the log can be read back: fields"); if (k < 7) seen[k] = true;
      if (k == 1) list(r.active); else if (k == 7) list(r.args); else { std::string v; if (is("\n")) {} else { need(" "); v = is("\n") ? std::string() : scalar(); } (k == 0 ? r.time : k == 2 ? r.action : k == 3 ? r.from : k == 4 ? r.to : k == 5 ? r.event : r.status) = v; } }
    return r;
  }
};
// ---- what has to be written
struct Want { Act act; int from, to, ev; bool failed; bool args; std::vector<int> active; };
static std::vector<Want>* want; static int curEvent; static bool on; 
static std::vector<std::string>* argText; static Kit* K;
static std::vector<int> activeNow(const HierarchicalStateMachine& h) { std::vector<int> v; for (StateID_t s : h.getActiveStates()) v.push_back(s); return v; }
static void expect(Act a, int from, int to, int ev, bool failed, bool args) { if (on) want->push_back(Want{a, from, to, ev, failed, args, activeNow(K->hsm)}); }
static void hook(Kit& k, int kind, int id) {
  const Entry& e = k.log.e[k.log.n - 1];
  switch (kind) { case K_EXIT: expect(A_EXIT, id, 0, 0, e.refused, false); break; case K_ENTER: expect(A_ENTER, 0, id, 0, e.refused, e.nargs > 0); break; case K_CHANGED: expect(A_STATE, 0, id, 0, false, e.nargs > 0); break;
    case K_TRANS: expect(A_TRANSITION, k.m.t[id].from, k.m.t[id].to, curEvent, false, true); break; default: break; }
}
static std::string name(int s) { return s > 0 ? num(s) : std::string(); }
static void check(const Rec& r, const Want& w, bool anyActive) {
  vf_assert(same(r.action, actName[w.act]), "record: the action of the step"); vf_assert(same(r.from, name(w.from)), "record: the state which is left"); vf_assert(same(r.to, name(w.to)), "record: the target state"); vf_assert(same(r.event, name(w.ev)), "record: the event"); vf_assert(same(r.status, w.failed ? "failed" : ""), "record: the status of the step");
  vf_assert(r.time.size() == 23, "record: a time");
  size_t n = w.args ? argText->size() : 0; vf_assert(r.args.size() == n, "record: the number of arguments"); for (size_t i = 0; i < n && i < r.args.size(); i++) vf_assert(same(r.args[i], (*argText)[i]), "record: the arguments of the step");
  if (!anyActive) { vf_assert(r.active.size() == w.active.size(), "record: the number of active states"); for (size_t i = 0; i < r.active.size() && i < w.active.size(); i++) vf_assert(same(r.active[i], name(w.active[i])), "record: the active states"); }
}
static size_t pos; static const char* file;
// the records added since the last call are those of the steps, with idle, entry point and action records at their places
static int consume(const Model& m, bool* lastIdle) {
  std::string t = hostRead(file); if (DUMP) puts(t.c_str() + pos); vf_assert(t.size() >= pos, "the log only grows"); Reader rd(t, pos); size_t i = 0; int idle = 0; *lastIdle = false; bool ep = false, acted[MS][2]; memset(acted, 0, sizeof acted);
  while (!rd.end()) {
    Rec r = rd.record(); *lastIdle = false; int a = 0; for (int k = 1; k < 9; k++) if (same(r.action, actName[k])) a = k; vf_assert(a != 0, "record: a known action");
    if (a == A_IDLE) { vf_assert(same(r.from, "") && same(r.to, "") && same(r.event, "") && same(r.status, "") && r.args.empty() && r.time.size() == 23, "record: idle has no states, event, status and arguments"); idle++; *lastIdle = true;
      std::vector<int> now = activeNow(K->hsm); if (i == want->size()) { vf_assert(r.active.size() == now.size(), "record: the number of active states"); for (size_t k = 0; k < now.size() && k < r.active.size(); k++) vf_assert(same(r.active[k], name(now[k])), "record: the active states"); } }
    else if (a == A_ENTRYPOINT) { if (i >= want->size() || (*want)[i].act != A_ENTER) { vf_fail("record: an entry transition is followed by the entry"); break; } int to = (*want)[i].to; bool known = false; for (int k = 0; k < m.ne; k++) known |= m.e[k].sub == to; vf_assert(known, "record: the target of an entry point"); Want w = (*want)[i]; w.act = A_ENTRYPOINT; w.from = m.parent[to]; w.ev = curEvent; w.failed = false; w.args = curEvent != 0; check(r, w, false); ep = true; }
    else if (a == A_TRANSITION && m.nh && same(r.from, name(m.h[0].st))) { if (i >= want->size() || (*want)[i].act != A_ENTER) { vf_fail("record: a step of a history transition is followed by the entry"); break; } Want w = (*want)[i]; w.act = A_TRANSITION; w.from = m.h[0].st; w.ev = curEvent; w.failed = false; w.args = true; check(r, w, false); vf_reach("history"); ep = true; }
    else if (a == A_ONENTER || a == A_ONEXIT) { vf_assert(same(r.from, "") && same(r.event, "") && same(r.status, "") && r.args.empty(), "record: actions have no event, status and arguments"); vf_assert(i > 0 && i <= want->size(), "record: actions belong to a state's callback"); if (i > 0) { const Want& w = (*want)[i - 1]; int s = a == A_ONENTER ? w.to : w.from; vf_assert(w.act == (a == A_ONENTER ? A_ENTER : A_EXIT) && !w.failed && same(r.to, name(s)) && s == 4, "record: actions follow the accepted callback of their state"); } vf_reach("actions"); }
    else { if (i >= want->size()) { vf_fail("exactly one record for each step"); break; } check(r, (*want)[i], false); i++; ep = false; }
  }
  vf_assert(!ep, "record: an entry transition is followed by the entry"); vf_assert(i == want->size(), "exactly one record for each step"); want->clear(); pos = t.size(); return idle;
}
static void build(Model& m) {   // 1 leaf with conditions for veto; 2{3,4} with entry points; 5 leaf
  m.states(5); m.initial = 1; m.entry(2, 3); m.entry(2, 4, 101); m.tr(1, 2, 100); m.tr(1, 2, 101); m.tr(2, 5, 102); m.tr(5, 1, 100); m.self(1, 102, true); m.self(5, 101, false); m.tr(3, 4, 103);
  if (vf_param("history", 0)) { m.states(6); m.initial = vf_bool("start_inside") ? 2 : 5; m.hist(2, 6, vf_bool("deep"), vf_bool("default_target") ? 4 : INVALID_HSM_STATE_ID); m.noCb[6] = true; m.tr(5, 6, 103); }
}
extern "C" void harness() {
  hostBegin(); std::vector<Want> wv; want = &wv; std::vector<std::string> av; argText = &av; argSkip = vf_param("text", 0); curEvent = 0; on = false; file = "a.hsmlog"; pos = 0; bool opening = vf_param("opening", 0); noLocalTime = opening && vf_pick("no_local_time", 0, 1);
  Model m; build(m); static Log la, lb; la.n = lb.n = 0; bool actions = vf_pick("actions", 0, 1);
  Kit* a = new Kit(m, la); K = a; a->hook = hook; Kit* b = new Kit(m, lb);
  if (actions) for (Kit* k : {a, b}) { k->hsm.registerStateAction(4, StateActionTrigger::ON_STATE_ENTRY, StateAction::START_TIMER, 1, 1000, true); k->hsm.registerStateAction(4, StateActionTrigger::ON_STATE_EXIT, StateAction::STOP_TIMER, 1); }
  // ---- opening
  const char* old = "---\n\n-\n  kept: 1"; int how = opening ? vf_pick("open", 0, 4) : 0; bool opened = true;
  switch (how) {
    case 0: opened = a->hsm.enableHsmDebugging(where("a.hsmlog")); break;
    case 1: hostExisting("a.hsmlog", old); opened = a->hsm.enableHsmDebugging(where("a.hsmlog")); break;
    case 2: file = "dump.hsmlog"; opened = a->hsm.enableHsmDebugging(); break;
    case 3: file = "b.hsmlog"; { std::string p = where("b.hsmlog"); hostEnv(p.c_str()); } opened = a->hsm.enableHsmDebugging(); break;
    default: hostRefuse("a.hsmlog"); vf_assert(!a->hsm.enableHsmDebugging(where("a.hsmlog")), "a log that cannot be opened is reported"); opened = false; vf_reach("refused"); break;
  }
  vf_assert(opened == (how != 4), "debugging is enabled"); on = opened; if (opened) { std::string t = hostRead(file), w = how == 1 ? old : "---\n"; vf_assert(same(t, w), "a new log starts with a header, an existing one is continued"); pos = t.size(); }
  bool li; a->start(); b->start(); if (on) { int idle = consume(m, &li); vf_assert(idle >= 1, "idle is recorded"); }
  int n = static_cast<int>(vf_param("events", 2)), stopAt = opening ? vf_pick("disable_before", 0, n) : n;
  for (int i = 0; i < n; i++) {
    if (i == stopAt && on) { a->hsm.disableHsmDebugging(); on = false; vf_reach("disabled"); }
    for (int q = 1; q <= m.ns; q++) { m.vx[q] = m.ve[q] = false; if (opening || m.nh) continue; m.vx[q] = vf_bool("veto_exit"); m.ve[q] = vf_bool("veto_entry"); }
    av.clear(); curEvent = 100 + vf_pick("event", 0, 3); int64_t x = 7; bool text = vf_param("text", 0) && i == n - 1; std::string str; if (text) { int len = vf_pick("length", 0, 2); char c[2]; vf_bytes(c, 2, "text"); for (int k = 0; k < len; k++) { vf_assume(c[k] != 0 && static_cast<unsigned char>(c[k]) < 127); str += c[k]; } vf_reach("text"); } else if (vf_param("numbers", 0)) x = vf_range("number", -9, 9);
    int r0 = a->log.n; (void)r0; if (text) { av.push_back(str); a->hsm.transition(curEvent, str); b->hsm.transition(curEvent, str); } else { av.push_back(num(x)); av.push_back(num(5)); a->hsm.transition(curEvent, x, 5); b->hsm.transition(curEvent, x, 5); }
    int failedBefore = la.countKind(K_FAILED); a->d->drain(); b->d->drain(); bool failed = la.countKind(K_FAILED) > failedBefore;
    if (on) { int idle = consume(m, &li); if (!failed) { vf_assert(idle >= 1 && li, "idle is recorded after a completed event"); vf_reach("completed"); } else { vf_reach("failed"); } }
    else if (how != 4) { std::string t = hostRead(file); vf_assert(t.size() == pos, "nothing is written while debugging is off"); }
    curEvent = 0;
  }
  // ---- the same machine without a log
  vf_assert(a->mask() == b->mask(), "the log does not change the active states"); sameLog(la, lb, KALL | KB(K_FAILED), "the log does not change the callbacks");
  vf_trace("n", la.n); delete a; delete b; if (how != 4) { std::string t = hostRead(file); vf_assert(t.size() == pos, "the log is complete"); } vf_reach("end"); hostEnd();
}
