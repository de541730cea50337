#pragma once
// Registers members for race detection by name; a member that does not exist under that name is skipped.
#define WATCHER(M) template <class T> static auto watch_##M(T* o, int mode, int) -> decltype((void)&o->M) { vf_watch(&o->M, sizeof o->M, mode, #M); } template <class T> static void watch_##M(T*, int, long) {}
