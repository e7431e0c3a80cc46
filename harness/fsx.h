// File-operation monitor. Linked in with -Wl,--wrap for the calls Jungle and the ForestDB
// stand-in use. Off until start(): then everything below `root` is shadowed in memory, so that
// the harness can write out what the disk would hold if the process or the machine died now,
// and calls can be made to fail.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include "common.h"

namespace fsx {
enum Kind { OPEN, WRITE, READ, FSYNC, TRUNC, UNLINK, RENAME, CLOSE };
struct Event { Kind kind; std::string path; uint64_t off; uint64_t len; uint64_t n; };

// Files already below root count as durable, unless root is an image of a process crash: what was
// unsynced there stays unsynced.
void start(const std::string& root);
void stop();
// Called before each tracked mutating call takes effect, with the monitor's lock held.
void onEvent(std::function<void(const Event&)> f);
// Returns 0 to let the call through, an errno to fail it, or a negative number -k to perform only
// k bytes of a read or write. Reads reach it too.
void onFault(std::function<int(const Event&)> f);
// Shorten the project's retry back-off sleeps (nanosleep) to at most `us`; 0 restores.
void maxSleepUs(uint64_t us);

// Runs f with the monitor's lock held.
void locked(const std::function<void()>& f);

enum Crash { PROCESS, POWER };
// Writes the image of `root` after a crash now to directory `dst`. May be called from onEvent.
// Returns what it dropped, as text.
std::string image(const std::string& dst, Crash c, hx::Rng& rng, uint64_t* dropped = nullptr);
uint64_t events();
uint64_t unsyncedBytes();
// fsync calls seen per path since start
uint64_t fsyncs(const std::string& path);
// Open descriptors below root
size_t openFds();
}  // namespace fsx
