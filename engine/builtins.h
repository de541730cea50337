#pragma once
#include "engine.h"
#include <set>
#include <map>
namespace sx {
enum PathEnd { PE_OK, PE_VIOL, PE_ERROR, PE_ASSUME, PE_TIME, PE_CUT, PE_N };
struct Stats {
  uint64_t insts = 0, forks = 0, branchQ = 0, concQ = 0, assertQ = 0, assertC = 0, taintedBranches = 0, schedChoices = 0, symDeref = 0, maxSteps = 0, transitions = 0;
  uint64_t paths[PE_N] = {0};
  bool timedOut = false;
  std::map<std::string, uint64_t> cuts;
};
struct ViolationRec { uint64_t count = 0; std::string text; };
extern Stats g_st;
extern std::set<std::string> g_reached;
extern std::map<std::string, long long> g_params;
extern long g_maxViolPaths, g_memLimitKb;
void endPath(State& st, PathEnd why);
void violation(State& st, const std::string& kind, const std::string& msg);
void engineError(State& st, const std::string& msg);
E newInput(State& st, const char* name, uint8_t w, uint64_t init);
uint64_t evalM(State& st, E e);
Res query(State& st, E q, Model* out);
int decide(State& st, E e);
bool concretize(State& st, Val& v, uint8_t w, unsigned limit = 0);
bool loadVal(State& st, const Val& addr, unsigned w, Val& out);
bool storeVal(State& st, const Val& addr, unsigned w, const Val& v);
bool memCopy(State& st, uint64_t d, uint64_t s, uint64_t n);
bool memFill(State& st, uint64_t d, const Val& v, uint64_t n);
bool readCStr(State& st, uint64_t a, std::string& s);
Obj* checkAccess(State& st, uint64_t a, uint64_t n, bool write);
void unwind(State& st, uint64_t exc, uint64_t type);
void schedule(State& st); void wakeExpired(State& st);
void finishCall(State& st, const std::vector<Val>& ret);
bool pushFrame(State& st, Func* f, const std::vector<Val>& args);
void pushState(State* s);
bool derives(State& st, uint64_t t, uint64_t base, int64_t* off);
std::string typeName(uint64_t ti);
void callBuiltin(State& st, Func* f, const Inst& in, std::vector<Val>& args);
bool gatePoint(State& st);
void longjmp_child() __attribute__((noreturn));
void setModelSym(State& st, uint32_t sym, uint64_t v);
}  // namespace sx
