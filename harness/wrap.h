#pragma once
#include <stdint.h>
enum { K_OPENW, K_OPENR, K_READ, K_WRITE, K_SYNC, K_TRUNC, K_RENAME, K_UNLINK, K_MKDIR, K_MAX };
struct wrap_state
{
	char     dir[1024];     // only calls on files under this directory are seen
	int      armed;         // counting/faults/snapshots are active
	uint64_t count;
	uint64_t kcount[K_MAX];
	uint64_t syncs;
	int      real_sync;     // actually issue fsync
	// fault injection
	unsigned fault_kinds;   // bit set of K_*
	int      fault_skip;    // number of matching calls to let through
	int      fault_left;    // number of matching calls to fail
	int      fault_errno;
	int      fault_short;   // percentage written before the failure (writes)
	int      fault_hits;
	char     fault_match[128]; // substring of the path
	int      shorts;        // permille of transfers which are short or interrupted
	// single image: at the kill_at-th mutating call (0: off)
	int      kill_at;
	int      kill_torn;
	int      kill_done;
	void   (*on_kill)(const char *what);
	// fake wall clock, microseconds
	uint64_t clock;
	int      clock_on;
	// crash images: on_snap is called in the state left by all previous calls
	int      snap_on;
	int      snap_torn;
	int      snap_every;
	int      snap_skip;
	void   (*on_snap)(const char *what, int torn);
};
extern struct wrap_state wrap;
void wrap_sync_mark_all(const char *dir);
void wrap_stable(const char *path);
void wrap_copy_tree(const char *from, const char *to, int power);
void wrap_remove_tree(const char *p);
void wrap_mkdir(const char *p);
void wrap_srand(uint64_t s);
uint64_t wrap_rand(void);
void wrap_shorts(int permille, uint64_t seed);
