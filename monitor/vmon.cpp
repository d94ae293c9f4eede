// vmon: the monitor plugin.  Loaded by the simulator through OCLGRIND_PLUGINS
// (once per context), it observes every execution event the simulator emits and
// keeps them in memory; the drivers read them through the C functions below.
#include "config.h"
#include "core/common.h"
#include "core/Context.h"
#include "core/Kernel.h"
#include "core/KernelInvocation.h"
#include "core/Memory.h"
#include "core/Plugin.h"
#include "core/WorkGroup.h"
#include "core/WorkItem.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Type.h"
#include <atomic>
#include <cstdio>
#include <iostream>
#include <map>
#include <mutex>
#include <thread>
#include <unistd.h>

using namespace oclgrind;

enum Kind
{
  K_LOG = 1, K_ALLOC, K_FREE, K_HLOAD, K_HSTORE, K_LOAD, K_STORE, K_ALOAD,
  K_ASTORE, K_GLOAD, K_GSTORE, K_MAP, K_UNMAP, K_BARRIER, K_WGBEGIN, K_WGEND,
  K_WIBEGIN, K_WIEND, K_KBEGIN, K_KEND, K_INST
};

struct Rec
{
  uint32_t kind, tid;
  uint64_t wi, wg;     // packed global id / group id (21 bits per dimension)
  uint64_t a, b, c, d; // kind dependent
};

static std::mutex mtx;
static std::vector<Rec> recs;
static std::string blob;
static std::atomic<uint64_t> mask{1u << K_LOG};
static std::atomic<uint64_t> dropped{0};
static uint64_t limit = 4000000;
static std::map<std::string, std::pair<uint64_t, uint64_t>> counts; // inst -> (n, bytes)
static std::atomic<int> jitter{0};
static std::atomic<uint64_t> jrng{88172645463325252ull};
static int contexts = 0;

static uint64_t pack(Size3 s) { return (uint64_t)s.x | ((uint64_t)s.y << 21) | ((uint64_t)s.z << 42); }
static uint32_t tid()
{
  static std::atomic<uint32_t> next{1};
  static thread_local uint32_t t = 0;
  if (!t)
    t = next++;
  return t;
}
static const uint64_t NONE = ~0ull;
static bool on(int k) { return (mask.load(std::memory_order_relaxed) >> k) & 1; }

static void put(uint32_t k, uint64_t wi, uint64_t wg, uint64_t a = 0, uint64_t b = 0,
                uint64_t c = 0, uint64_t d = 0)
{
  std::lock_guard<std::mutex> g(mtx);
  if (recs.size() >= limit)
  {
    dropped++;
    return;
  }
  recs.push_back({k, tid(), wi, wg, a, b, c, d});
}

// Perturbs the schedule of the worker threads (stress), off by default
static void shake()
{
  int j = jitter.load(std::memory_order_relaxed);
  if (!j)
    return;
  uint64_t x = jrng.load(std::memory_order_relaxed);
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  jrng.store(x, std::memory_order_relaxed);
  if ((x >> 20) % 64 < (uint64_t)j)
  {
    if ((x >> 40) & 1)
      std::this_thread::yield();
    else
      usleep((x >> 41) % 40);
  }
}

class Mon : public Plugin
{
public:
  Mon(const Context* c) : Plugin(c) {}
  uint64_t wi(const WorkItem* w) { return w ? pack(w->getGlobalID()) : NONE; }
  uint64_t wg(const WorkItem* w) { return w && w->getWorkGroup() ? pack(w->getWorkGroup()->getGroupID()) : NONE; }
  uint64_t g(const WorkGroup* w) { return w ? pack(w->getGroupID()) : NONE; }
  unsigned as(const Memory* m) { return m->getAddressSpace(); }

  void hostMemoryLoad(const Memory* m, size_t a, size_t s) override
  { if (on(K_HLOAD)) put(K_HLOAD, NONE, NONE, as(m), a, s); }
  void hostMemoryStore(const Memory* m, size_t a, size_t s, const uint8_t*) override
  { if (on(K_HSTORE)) put(K_HSTORE, NONE, NONE, as(m), a, s); }
  void instructionExecuted(const WorkItem* w, const llvm::Instruction* I, const TypedValue&) override
  {
    shake();
    if (!on(K_INST))
      return;
    std::string key = I->getOpcodeName();
    uint64_t bytes = 0;
    const llvm::DataLayout& dl = I->getModule()->getDataLayout();
    auto asname = [](unsigned s) {
      const char* n[] = {"private", "global", "constant", "local"};
      return std::string(s < 4 ? n[s] : "?");
    };
    if (auto* L = llvm::dyn_cast<llvm::LoadInst>(I))
    {
      key = "load " + asname(L->getPointerAddressSpace());
      bytes = dl.getTypeStoreSize(L->getType());
    }
    else if (auto* S = llvm::dyn_cast<llvm::StoreInst>(I))
    {
      key = "store " + asname(S->getPointerAddressSpace());
      bytes = dl.getTypeStoreSize(S->getValueOperand()->getType());
    }
    else if (auto* C = llvm::dyn_cast<llvm::CallInst>(I))
    {
      const llvm::Function* f = C->getCalledFunction();
      key = "call " + (f ? f->getName().str() : std::string("?"));
    }
    std::lock_guard<std::mutex> l(mtx);
    auto& c = counts[key];
    c.first++;
    c.second += bytes;
  }
  void kernelBegin(const KernelInvocation* k) override
  { if (on(K_KBEGIN)) put(K_KBEGIN, NONE, NONE, pack(k->getGlobalSize()), pack(k->getLocalSize()), pack(k->getGlobalOffset()), k->getWorkDim()); }
  void kernelEnd(const KernelInvocation* k) override
  { if (on(K_KEND)) put(K_KEND, NONE, NONE); }
  void log(MessageType type, const char* msg) override
  {
    if (!on(K_LOG))
      return;
    std::lock_guard<std::mutex> l(mtx);
    if (recs.size() >= limit) { dropped++; return; }
    size_t off = blob.size(), n = strlen(msg);
    blob.append(msg, n);
    recs.push_back({K_LOG, tid(), NONE, NONE, (uint64_t)type, off, n, 0});
  }
  void memoryAllocated(const Memory* m, size_t a, size_t s, cl_mem_flags f, const uint8_t* init) override
  { if (on(K_ALLOC)) put(K_ALLOC, NONE, NONE, as(m), a, s, f); }
  void memoryDeallocated(const Memory* m, size_t a) override
  { if (on(K_FREE)) put(K_FREE, NONE, NONE, as(m), a); }
  void memoryAtomicLoad(const Memory* m, const WorkItem* w, AtomicOp op, size_t a, size_t s) override
  { shake(); if (on(K_ALOAD)) put(K_ALOAD, wi(w), wg(w), as(m), a, s, op); }
  void memoryAtomicStore(const Memory* m, const WorkItem* w, AtomicOp op, size_t a, size_t s) override
  { shake(); if (on(K_ASTORE)) put(K_ASTORE, wi(w), wg(w), as(m), a, s, op); }
  void memoryLoad(const Memory* m, const WorkItem* w, size_t a, size_t s) override
  { shake(); if (on(K_LOAD)) put(K_LOAD, wi(w), wg(w), as(m), a, s); }
  void memoryLoad(const Memory* m, const WorkGroup* w, size_t a, size_t s) override
  { if (on(K_GLOAD)) put(K_GLOAD, NONE, g(w), as(m), a, s); }
  void memoryStore(const Memory* m, const WorkItem* w, size_t a, size_t s, const uint8_t*) override
  { shake(); if (on(K_STORE)) put(K_STORE, wi(w), wg(w), as(m), a, s); }
  void memoryStore(const Memory* m, const WorkGroup* w, size_t a, size_t s, const uint8_t*) override
  { if (on(K_GSTORE)) put(K_GSTORE, NONE, g(w), as(m), a, s); }
  void memoryMap(const Memory* m, size_t a, size_t o, size_t s, cl_map_flags f) override
  { if (on(K_MAP)) put(K_MAP, NONE, NONE, a, o, s, f); }
  void memoryUnmap(const Memory* m, size_t a, const void* p) override
  { if (on(K_UNMAP)) put(K_UNMAP, NONE, NONE, a, (uint64_t)p); }
  void workGroupBarrier(const WorkGroup* w, uint32_t f) override
  { if (on(K_BARRIER)) put(K_BARRIER, NONE, g(w), f); }
  void workGroupBegin(const WorkGroup* w) override
  { shake(); if (on(K_WGBEGIN)) put(K_WGBEGIN, NONE, g(w), pack(w->getGroupSize())); }
  void workGroupComplete(const WorkGroup* w) override
  { shake(); if (on(K_WGEND)) put(K_WGEND, NONE, g(w)); }
  void workItemBegin(const WorkItem* w) override
  { if (on(K_WIBEGIN)) put(K_WIBEGIN, wi(w), wg(w), pack(w->getLocalID())); }
  void workItemComplete(const WorkItem* w) override
  { if (on(K_WIEND)) put(K_WIEND, wi(w), wg(w), pack(w->getLocalID())); }
  bool isThreadSafe() const override { return true; }
};

static std::map<Context*, Mon*> mons;

extern "C" {
void initializePlugins(Context* c)
{
  Mon* m = new Mon(c);
  {
    std::lock_guard<std::mutex> l(mtx);
    mons[c] = m;
    contexts++;
  }
  c->registerPlugin(m);
}
void releasePlugins(Context* c)
{
  Mon* m;
  {
    std::lock_guard<std::mutex> l(mtx);
    m = mons[c];
    mons.erase(c);
    contexts--;
  }
  c->unregisterPlugin(m);
  delete m;
}
void vmon_mask(uint64_t m) { mask = m; }
void vmon_limit(uint64_t n) { limit = n; }
void vmon_jitter(int j, uint64_t seed) { jrng = seed * 2654435761u + 88172645463325252ull; jitter = j; }
uint64_t vmon_count() { std::lock_guard<std::mutex> l(mtx); return recs.size(); }
uint64_t vmon_dropped() { return dropped; }
int vmon_contexts() { return contexts; }
const Rec* vmon_recs() { return recs.data(); }
const char* vmon_blob() { return blob.data(); }
uint64_t vmon_bloblen() { return blob.size(); }
void vmon_clear() { std::lock_guard<std::mutex> l(mtx); recs.clear(); blob.clear(); counts.clear(); dropped = 0; }
static std::string ctext;
const char* vmon_counts()
{
  std::lock_guard<std::mutex> l(mtx);
  ctext.clear();
  for (auto& c : counts)
    ctext += c.first + "\t" + std::to_string(c.second.first) + "\t" + std::to_string(c.second.second) + "\n";
  return ctext.c_str();
}
void vmon_flush() { std::cout.flush(); std::cerr.flush(); fflush(NULL); }
}
