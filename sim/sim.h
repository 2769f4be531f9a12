// Public interface of the deterministic simulator (libsim.so).
// Scenario code (instrumented, linked with the unmodified sources of /repo) uses only this header.
#ifndef NUSQ_SIM_H
#define NUSQ_SIM_H
#include <cstddef>
#include <cstdint>
#include <string>

#define SIM_API __attribute__((visibility("default")))

namespace sim {

// ---- fault classes -------------------------------------------------------------------------
enum FaultClass {
  F_ALLOC,     // operator new refuses
  F_MALLOC,    // malloc/calloc/realloc refuses (only while armed)
  F_THREAD,    // pthread_create -> EAGAIN
  F_SPURIOUS,  // spurious wake-up of a condition-variable waiter
  F_ELEM,      // element operation throws (tracked element types of the scenario)
  F_USER,      // scenario-defined failure (task throws, integrand throws, ...)
  F_OPEN,      // open/fopen fails
  F_READ,      // read: EIO / EINTR / short
  F_WRITE,     // write: EIO / ENOSPC / EINTR / short / torn
  F_META,      // ftruncate/fstat/lseek/fsync fails
  F_CLOSE,     // close fails (EIO)
  F_CRASH,     // process crash: all later disk operations vanish
  F_NCLASS
};

// ---- choices: one stream decides the workload ----------------------------------------------
SIM_API uint32_t choose(uint32_t n);              // in [0,n); 0 is the simplest
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; } // 0 -> false
SIM_API double real(double lo, double hi);        // 0-choice -> lo

// ---- faults --------------------------------------------------------------------------------
SIM_API bool fault(FaultClass c, uint32_t* param = nullptr); // a fault site; true: fail here
SIM_API void faults_on(bool on);      // for the calling thread (main starts on, others off); off: sites neither fire nor count
SIM_API void faults_default(bool on); // setting with which new threads start
SIM_API bool faults_enabled();
SIM_API void malloc_arm(bool on);     // malloc sites of libraries count as fault sites / are ledgered
SIM_API uint64_t fired(FaultClass c); // how often this class fired in this run
SIM_API uint64_t fired_total();       // all classes

struct FaultsOff {                    // RAII region without faults
  bool was; FaultsOff(): was(faults_enabled()) { faults_on(false); } ~FaultsOff() { faults_on(was); }
};
struct FaultsOn {
  bool was; FaultsOn(): was(faults_enabled()) { faults_on(true); } ~FaultsOn() { faults_on(was); }
};

// ---- outcome -------------------------------------------------------------------------------
[[noreturn]] SIM_API void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if(!(cond)) ::sim::fail(cls, __VA_ARGS__); } while(0)
SIM_API void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3))); // listed known finding hit
SIM_API bool is_known(const char* id);       // is this finding listed in known_findings.txt?
SIM_API void probe(const char* name);        // "this rare condition was reached"
SIM_API void nontrivial();                   // the run really exercised something
SIM_API void event(const char* what, int64_t a = 0, int64_t b = 0, int64_t c = 0); // into log + hash
SIM_API void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // human-readable workload description
SIM_API void hash_bytes(const void* p, size_t n); // fold result bytes into the run hash

// ---- history kept by the simulator (never seen by the race detector) ------------------------
SIM_API void note(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
struct Note { int kind; int tid; uint64_t step; int64_t a, b, c; };
SIM_API size_t notes();
SIM_API Note note_at(size_t i);

// ---- threads -------------------------------------------------------------------------------
SIM_API int self();
SIM_API uint64_t step();
SIM_API void yield();                        // explicit preemption point
SIM_API unsigned threads_alive();            // simulated threads that have not exited (including main)
SIM_API unsigned threads_started();          // created since the run began (excluding main)
SIM_API unsigned threads_runnable();
SIM_API void race_detection(bool on);
SIM_API void block_until(bool (*pred)(void*), void* arg, const char* why); // simulated wait on scenario state
SIM_API uint64_t now_ns();

struct SIM_API Quiet { Quiet(); ~Quiet(); }; // no preemption, no race checks, no alloc faults inside

// ---- memory --------------------------------------------------------------------------------
SIM_API size_t live_blocks();                // operator-new blocks outstanding in this run
SIM_API size_t live_bytes();
SIM_API size_t live_mallocs();               // malloc blocks allocated while armed and still live
struct Mark { size_t blocks, mallocs; uint32_t seq; };
SIM_API Mark mark();                         // for leaked()
SIM_API long leaked(const Mark&);            // operator-new blocks gained since the mark which static and thread-local storage do not keep
SIM_API long leaked_c(const Mark&);          // the same for malloc blocks (while armed)
SIM_API uint64_t alloc_count();
SIM_API bool addr_live(const void* p, size_t n);  // lies wholly inside one live block
SIM_API size_t block_size(const void* p);         // size of the live block starting at p, 0 if none
SIM_API void heap_fill(int pattern);              // contents of fresh memory: 0 zeros,1 0xff(NaN),2 random,3 small doubles
SIM_API void check_heap();                        // verify red zones of all live blocks
SIM_API void dump_live(const char* tag);          // describe outstanding blocks into the log

// ---- simulated disk (paths below /simfs/) ---------------------------------------------------
SIM_API void disk_put(const char* path, const void* data, size_t n);
SIM_API bool disk_exists(const char* path);
SIM_API size_t disk_size(const char* path);
SIM_API size_t disk_read(const char* path, void* out, size_t n);
SIM_API std::string disk_get(const char* path);
SIM_API void disk_remove(const char* path);
SIM_API void disk_readonly(const char* path, bool ro);
SIM_API void disk_limit(uint64_t bytes);     // total capacity; ~0 = unlimited
SIM_API void disk_crash_clear();             // "restart": disk usable again with what had reached it
SIM_API bool disk_crashed();
SIM_API unsigned disk_open_fds();
SIM_API uint64_t disk_ops();
SIM_API void disk_benign(bool on);           // short/EINTR transfers at random (never an error)
SIM_API void disk_heal();                    // end persistent disk failure
SIM_API uint64_t benign_count();

// ---- scenario table ------------------------------------------------------------------------
struct Scenario {
  const char* prop;          // property id
  const char* name;          // workload name
  void (*run)();             // the body of one simulated run (main thread)
  unsigned weight;           // how often it is drawn for its property
  unsigned fault_mask;       // which classes the planner may use (bit set of FaultClass)
  bool threads;              // does the scenario use simulated threads (enables scheduler swarm)
  uint64_t max_steps;        // step budget (0 = default)
};
SIM_API int main(int argc, char** argv, const Scenario* s, size_t n);

inline unsigned bit(FaultClass c) { return 1u << c; }
} // namespace sim
#endif
