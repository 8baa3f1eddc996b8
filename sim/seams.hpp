// The seams: disk, memory, stack, threads.  Everything the library meets goes through these.
#pragma once
#include "core.hpp"

// ------------------------------------------------------------------ disk
enum FsOpKind { FS_OPEN_R, FS_OPEN_W, FS_READ, FS_WRITE, FS_SEEK, FS_CLOSE };
extern const char* fs_op_name[];
struct FsOp { FsOpKind kind; const std::string& path; size_t len; long index; };
enum FsActKind { FA_OK, FA_ERR, FA_SHORT, FA_SHORT_ERR };
struct FsAct { FsActKind kind = FA_OK; int err = 0; size_t n = 0; };
using FsImage = std::map<std::string, std::string>;
struct SimFs {
	FsImage img;       // contents of the files as the kernel sees them
	long nops = 0;     // operations on simulated files so far
	int open_fds = 0;  // simulated descriptors currently open
	std::function<FsAct(const FsOp&)> hook;
	std::string cwd;   // working folder of the process, if it lies on the simulated disk
	// process crash: the image as it is when operation crash_at happens (crash_keep bytes of that write included)
	long crash_at = -1;
	size_t crash_keep = 0;
	bool crashed = false;
	FsImage crash_img;
	std::string crash_op;
	void reset();
};
SimFs& fs();

// ------------------------------------------------------------------ memory
struct SimMem {
	bool track = false;       // account allocations made inside library calls
	long n = 0;               // allocations made inside library calls since reset
	long fail_at = -1;        // index of the allocation that fails
	long fail_count = 1;      // how many consecutive ones fail from there
	long failed = 0;          // how many failed
	size_t max_single = (size_t)1 << 30; // a single allocation larger than this fails, as on a small machine
	long live = 0;            // tracked allocations not yet released
	size_t live_bytes = 0;
	int poison = -1;          // byte to fill new memory with (-1: leave alone); 256: pseudo random bytes
};
extern SimMem g_mem;
void mem_reset();
void mem_forget(); // forget all tracked allocations

// scope of a library call
struct InLib { InLib(); ~InLib(); };
struct SimCode { int d; SimCode(); ~SimCode(); }; // code of the simulator reached from within library code
bool in_lib(); // this thread is in library code
void scribble_stack(int byte);
extern int g_stack_poison;

// ------------------------------------------------------------------ terminal
void mute_terminal();
