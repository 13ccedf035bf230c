PS = "include/falcon/engine/pagedstack.h"
HEAD = "#include <falcon/engine/pagedstack.h>\n#include <cstdio>\n#define CHECK(c) do { if(!(c)) { fprintf(stderr, \"line %d: %s\\n\", __LINE__, #c); return 1; } } while(0)\n"
SEEDS = [
 dict(id="stack-from-top-two-pages", property="C01", edits=[(PS, "   reverse_iterator internal_from_top(size_t depth) noexcept {\n      typename base_type::iterator iBase = m_curBase;\n      while(depth > iBase->size()) {\n         depth -= iBase->size();\n         iBase--;\n      }", "   reverse_iterator internal_from_top(size_t depth) noexcept {\n      typename base_type::iterator iBase = m_curBase;\n      if(depth > iBase->size()) {\n         // it can only be in the previous page.\n         depth -= iBase->size();\n         iBase--;\n         if(depth > m_pageSize) {\n            depth = m_pageSize;\n         }\n      }")],
   needs="a pop_reverse() or from_top() reaching back three pages or more",
   breaks="the wrong elements are given, and others removed",
   demo=HEAD + """int main() {
   falcon::PagedStack<int> st(2, 2);
   for(int i = 0; i < 7; ++i) st.push(i);
   int a, b, c, d;
   st.pop_reverse(a, b, c, d);
   CHECK(a == 3 && b == 4 && c == 5 && d == 6);
   CHECK(st.size() == 3); CHECK(st.top() == 2);
   return 0;
}"""),
 dict(id="stack-from-top-end", property="C02", edits=[(PS, "return const_reverse_iterator(iBase, iBase->begin() + (iBase->size() - depth), m_curBase);", "return const_reverse_iterator(iBase, iBase->begin() + (iBase->size() - depth), --typename base_type::const_iterator(m_base.end()));")],
   needs="a bottom-up walk from from_top() of a const stack with spare preallocated pages, up to the end",
   breaks="the walk does not meet rend(): it goes on in the spare pages",
   demo=HEAD + """int main() {
   falcon::PagedStack<int> st(4, 3);
   for(int i = 0; i < 6; ++i) st.push(i);
   const auto& c = st;
   auto i = c.from_top(5); int want = 1, n = 0;
   while(i != c.rend() && n < 5) { CHECK(*i == want); ++want; ++n; ++i; }
   CHECK(n == 5); CHECK(i == c.rend());
   return 0;
}"""),
 dict(id="stack-shrink-forgotten", property="C03", edits=[(PS, "         m_shrinkRequest = false;\n", "")],
   needs="a shrink deferred while synchronous iterators are alive, and later another generation of iterators with no shrink requested",
   breaks="every later release of the last iterator shrinks the stack again, though nobody asked",
   demo=HEAD + """int main() {
   falcon::PagedStack<int> st(2, 4);
   st.push(1);
   size_t blocks, depth, page, data;
   { auto i = st.sync_begin(); st.shrink_to_fit(); }
   st.getStats(blocks, depth, page, data); CHECK(blocks == 1);
   st.push(2); st.push(3); st.pop();
   size_t before; st.getStats(before, depth, page, data); CHECK(before > 1);
   { auto i = st.sync_begin(); }
   st.getStats(blocks, depth, page, data); CHECK(blocks == before);
   return 0;
}"""),
 dict(id="stack-sync-stale-page", property="C03", edits=[(PS, "            _IBase nbase = m_iBase;\n            while(++nbase != m_owner->m_base.end()) {", "            _IBase nbase = m_iBaseBegin;\n            while(++nbase != m_owner->m_base.end()) {")],
   needs="an iterator two pages ahead of the current page after elements were popped while it was alive",
   breaks="an iterator in a page that was left is taken as in synch and reads destroyed elements",
   demo=HEAD + """int main() {
   falcon::PagedStack<int> st(2, 4);
   for(int i = 1; i <= 6; ++i) st.push(i);
   auto it = st.sync_begin();           // at 6, in the third page
   st.discard(3);                       // 1 2 | 3
   int v = 0; it.get(v);
   CHECK(v == 3);
   return 0;
}"""),
 dict(id="stack-shrink-keeps-one", property="C04", edits=[(PS, "        typename base_type::iterator iter = m_curBase;\n        ++iter;\n", "        typename base_type::iterator iter = m_curBase;\n        ++iter;\n        if(iter != m_base.end() && m_curBase->size() == m_pageSize) ++iter;\n")],
   needs="a shrink when the current page is exactly full and there are spare pages",
   breaks="a spare page survives shrink_to_fit()",
   demo=HEAD + """int main() {
   falcon::PagedStack<int> st(4, 3);
   for(int i = 0; i < 8; ++i) st.push(i);
   st.shrink_to_fit();
   size_t blocks, depth, page, data; st.getStats(blocks, depth, page, data);
   CHECK(blocks == 2); CHECK(page == 2);
   return 0;
}"""),
 dict(id="stack-clear-keeps-elements", property="C04", edits=[(PS, "      while(m_curBase != m_base.begin()) {\n         m_curBase->clear();\n         --m_curBase;\n      }\n", "      for(auto page = m_base.begin(); m_curBase != m_base.begin(); --m_curBase) {\n         ++page;\n         if(page != m_curBase) page->clear(); else { m_curBase->clear(); m_curBase = m_base.begin(); break; }\n      }\n")],
   needs="clear() of a stack of at least three pages",
   breaks="the elements of some pages are not destroyed, and come back in later use",
   demo=HEAD + """#include <memory>
int main() {
   for(int n = 1; n < 24; ++n) {
      std::weak_ptr<int> w[24];
      falcon::PagedStack<std::shared_ptr<int>> st(3, 2);
      for(int i = 0; i < n; ++i) { auto p = std::make_shared<int>(i); w[i] = p; st.push(p); }
      st.clear();
      CHECK(st.empty());
      for(int i = 0; i < n; ++i) CHECK(w[i].expired());
   }
   return 0;
}"""),
 dict(id="stack-pop-loses", property="C05", edits=[(PS, "      value = m_curBase->back();\n      internal_pop_one();\n", "      _T last(std::move(m_curBase->back()));\n      internal_pop_one();\n      value = std::move(last);\n")],
   needs="an element whose assignment throws while popping into a variable",
   breaks="the element is lost: it is neither in the stack nor in the variable",
   demo=HEAD + """#include <stdexcept>
static bool g_throw = false;
struct E { int v; E(int x = 0): v(x) {} E(const E&) = default; E& operator=(const E& o) { if(g_throw) throw std::runtime_error("no"); v = o.v; return *this; } };
int main() {
   falcon::PagedStack<E> st(2, 2);
   for(int i = 0; i < 5; ++i) st.push(E(i));
   E e; g_throw = true;
   try { st.pop(e); return 1; } catch(std::runtime_error&) {}
   g_throw = false;
   CHECK(st.size() == 5); CHECK(st.top().v == 4);
   return 0;
}"""),
 dict(id="stack-pop-two-locks", property="C06", edits=[(PS, "      std::lock_guard<_Mutex> guard(m_mutex);\n      internal_pop(value, std::forward<_Args>(__args)...);", "      if constexpr(sizeof...(__args) == 0) {\n         // don't copy and release in the same lock.\n         value = top();\n         pop();\n      }\n      else {\n         std::lock_guard<_Mutex> guard(m_mutex);\n         internal_pop(value, std::forward<_Args>(__args)...);\n      }")],
   needs="two threads popping single values from the same stack, switched between the copy and the removal",
   breaks="two threads get the same element while another one is lost",
   demo=HEAD + """#include <thread>
#include <vector>
#include <set>
#include <mutex>
struct Slow { int v; Slow(int x = 0): v(x) {} Slow(const Slow&) = default; Slow& operator=(const Slow& o) { v = o.v; std::this_thread::sleep_for(std::chrono::milliseconds(1)); return *this; } };
int main() {
   falcon::PagedStack<Slow, std::allocator, std::mutex> st(4, 2);
   for(int i = 0; i < 80; ++i) st.push(Slow(i));
   std::vector<int> got[4]; std::vector<std::thread> ts;
   for(auto& g: got) ts.emplace_back([&] { for(int i = 0; i < 20; ++i) { Slow s; st.pop(s); g.push_back(s.v); } });
   for(auto& t: ts) t.join();
   std::set<int> all; for(auto& g: got) all.insert(g.begin(), g.end());
   CHECK(all.size() == 80);
   return 0;
}"""),
 dict(id="futex-relaxed-unlock", property="C08", edits=[("include/falcon/futex.h", "m_owned.store(false, std::memory_order_release);", "m_owned.store(false, std::memory_order_relaxed);")],
   needs="a reader of the protected data on another thread; shows on weakly ordered processors and to a race detector",
   breaks="what was written in the critical section need not be seen by the next owner",
   flags="-fsanitize=thread", src=["futex"],
   demo="""#include <falcon/futex.h>
#include <thread>
#include <cstdio>
int main() {
   falcon::Futex<1> f; long data = 0;
   auto w = [&] { for(int i = 0; i < 20000; ++i) { f.lock(); ++data; f.unlock(); } };
   std::thread a(w), b(w); a.join(); b.join();
   return data == 40000 ? 0 : 1;
}"""),
 dict(id="futex-try-window", property="C08", edits=[("include/falcon/futex.h", "      while(!m_owned.compare_exchange_weak(\n            isOwned, true,\n            std::memory_order_acq_rel,\n            std::memory_order_relaxed) || isOwned ) {", "      while((isOwned = m_owned.load(std::memory_order_acquire)) || !m_owned.exchange(true, std::memory_order_acq_rel) == false ) {")],
   needs="two threads that find the lock free at the same time",
   breaks="placeholder", demo="int main() { return 0; }", skip=True),
 dict(id="rfutex-release-first", property="C09", edits=[("include/falcon/futex.h", "      if(m_count > 0 && --m_count == 0) {\n         m_owner.store(0, std::memory_order_seq_cst);\n      }", "      if(m_count == 1) {\n         m_owner.store(0, std::memory_order_seq_cst);\n      }\n      if(m_count > 0) {\n         --m_count;\n      }")],
   needs="another thread locking between the release of the owner and the decrement of the count",
   breaks="the nesting count is shared for a moment: a thread holding the lock loses one of its levels",
   flags="-fsanitize=thread", src=["futex"],
   demo="""#include <falcon/futex.h>
#include <thread>
#include <cstdio>
int main() {
   falcon::RFutex f; long data = 0;
   auto w = [&] { for(int i = 0; i < 20000; ++i) { f.lock(); f.lock(); ++data; f.unlock(); f.unlock(); } };
   std::thread a(w), b(w); a.join(); b.join();
   return data == 40000 ? 0 : 1;
}"""),
 dict(id="futex-spin-off-by-one", property="C10", edits=[("include/falcon/futex.h", "if(spinCount && --sc == 0) {", "if(spinCount && sc-- == 0) {")],
   needs="a contended lock: count the failed attempts between two yields",
   breaks="the thread yields every N+1 failed attempts instead of every N",
   demo="""#include <cstdio>
#include <atomic>
#include <thread>
#include <iostream>
// counts the attempts and the yields of this thread
static int g_attempts = 0, g_yields = 0, g_free = 12; static int g_at[64];
namespace falcon { namespace std { using namespace ::std;
   template<typename T> struct atomic { T v; atomic(T x): v(x) {} atomic(): v() {} 
      bool compare_exchange_weak(T& e, T d, ::std::memory_order, ::std::memory_order) { ++g_attempts; if(g_attempts > g_free) v = false; if(v == e) { v = d; return true; } e = v; return false; }
      bool compare_exchange_strong(T& e, T d, ::std::memory_order a, ::std::memory_order b) { return compare_exchange_weak(e, d, a, b); }
      T exchange(T d, ::std::memory_order = ::std::memory_order_seq_cst) { ++g_attempts; if(g_attempts > g_free) v = false; T o = v; v = d; return o; }
      void store(T d, ::std::memory_order = ::std::memory_order_seq_cst) { v = d; } T load(::std::memory_order = ::std::memory_order_seq_cst) const { return v; } T operator++() { return ++v; } };
   namespace this_thread { inline void yield() { g_at[g_yields++ % 64] = g_attempts; } } } }
#include <falcon/futex.h>
int main() {
   falcon::Futex<3> f;
   f.lock(); g_attempts = g_yields = 0;
   f.lock();                               // gets the lock after 12 failed attempts
   if(g_yields != 4) { fprintf(stderr, "%d yields in 12 failed attempts\\n", g_yields); return 1; }
   for(int i = 0; i < 4; ++i) if(g_at[i] != 3 * (i + 1)) return 1;
   return 0;
}"""),
 dict(id="atomic-exchange-split", property="C11", edits=[("include/falcon/atomic_gcc.h", "   return (int32) __sync_lock_test_and_set( &atomic, value );", "   atomic_int_base old = atomicFetch( atomic );\n   atomicSet( atomic, value );\n   return old;")],
   needs="two threads exchanging on the same variable at the same moment",
   breaks="a value is returned to two threads and another one to none",
   demo="""#include <falcon/atomic.h>
#include <thread>
#include <vector>
#include <set>
#include <cstdio>
int main() {
   for(int round = 0; round < 20; ++round) {
      falcon::atomic_int v = 0; const int N = 200000, T = 4;
      std::vector<std::vector<int>> got(T); std::vector<std::thread> ts;
      for(int t = 0; t < T; ++t) ts.emplace_back([&, t] { got[t].reserve(N); for(int i = 0; i < N; ++i) got[t].push_back(falcon::atomicExchange(v, 1 + t * N + i)); });
      for(auto& t: ts) t.join();
      std::vector<char> seen(T * N + 1); seen[v] = 1;
      for(auto& g: got) for(int x: g) { if(seen[x]) { fprintf(stderr, "%d returned twice\\n", x); return 1; } seen[x] = 1; }
   }
   return 0;
}"""),
 dict(id="singleton-unguarded", property="C12", edits=[("include/falcon/singleton.h", "\t\tstatic T inst;\n\t\treturn &inst;", "\t\t// avoid the guard of function statics in every access\n\t\tstatic T* inst = nullptr;\n\t\tif(inst == nullptr) {\n\t\t\tinst = new T;\n\t\t}\n\t\treturn inst;")],
   needs="two threads using the singleton for the first time at once",
   breaks="several instances are created, different threads see different ones",
   demo="""#include <falcon/singleton.h>
#include <thread>
#include <atomic>
#include <vector>
#include <set>
#include <chrono>
static std::atomic<int> g_made{0};
struct Slow { Slow() { ++g_made; std::this_thread::sleep_for(std::chrono::milliseconds(100)); } };
int main() {
   falcon::Singleton<Slow> h; std::vector<Slow*> got(6); std::vector<std::thread> ts;
   for(auto& g: got) ts.emplace_back([&] { g = h.get(); });
   for(auto& t: ts) t.join();
   return g_made == 1 && std::set<Slow*>(got.begin(), got.end()).size() == 1 ? 0 : 1;
}"""),
 dict(id="item-uint32-sign", property="C13", edits=[("include/falcon/engine/itemdata.h", "            uint64Value = static_cast<uint64>(value);\n        } else if constexpr (std::is_same_v<T, uint64>) {", "            int64Value = static_cast<int32>(value);\n        } else if constexpr (std::is_same_v<T, uint64>) {")],
   needs="an unsigned 32 bit value of 2^31 or more",
   breaks="it becomes negative",
   src=["item"], demo="""#include <falcon/engine/item.h>
int main() { falcon::Item a(falcon::uint32(3000000000u)), b(falcon::uint32(7)); return a.toInt() == 3000000000ll && a.toString() == "3000000000" && b.toInt() == 7 ? 0 : 1; }"""),
 dict(id="float-negative-false", property="C13", edits=[("include/falcon/engine/floathandler.h", "return data.numericValue != 0.0;", "return data.numericValue > 0.0;")],
   needs="a negative floating point value used as a condition",
   breaks="negative numbers are false",
   src=["item"], demo="""#include <falcon/engine/item.h>
int main() { falcon::Item a(2.5), b(-2.5), c(0.0); return a.toBool() && b.toBool() && !c.toBool() ? 0 : 1; }"""),
 dict(id="deep-destroy-flatcopy", property="C14", edits=[("include/falcon/engine/deephandler.h", "{ delete reinterpret_cast<T *>(data.ptrValue);}", "{ if(!isCopyFlat()) { delete reinterpret_cast<T *>(data.ptrValue); } }")],
   needs="any string or big number item going away, observed on the heap",
   breaks="the values of deep items that are flat to copy are never released",
   src=["item"], demo="""#include <falcon/engine/item.h>
#include <cstdlib>
#include <new>
static long g_live = 0;
void* operator new(std::size_t n) { ++g_live; return malloc(n); }
void operator delete(void* p) noexcept { if(p) --g_live; free(p); }
void operator delete(void* p, std::size_t) noexcept { if(p) --g_live; free(p); }
int main() {
   long before = g_live;
   { falcon::Item a(std::string("some text that is long enough to be on the heap")), b(a); a = falcon::Item(falcon::int64(1)); falcon::Item c(falcon::BigNum(3)); c = b; }
   return g_live == before ? 0 : 1;
}"""),
 dict(id="distribute-by-value", property="C35", edits=[("include/falcon/engine/distribute.h", "template<typename _iterator, typename _tgt, typename ...Args>\nvoid distribute(_iterator&& iter,", "template<typename _iterator, typename _tgt, typename ...Args>\nvoid distribute(_iterator iter,")],
   needs="a caller that goes on using the iterator variable it passed",
   breaks="the caller's iterator does not advance",
   demo="""#include <falcon/engine/distribute.h>
#include <vector>
int main() { std::vector<int> v{1, 2, 3, 4, 5}; auto i = v.begin(); int a, b, c; falcon::distribute(i, a, b, c); return a == 1 && b == 2 && c == 3 && i == v.begin() + 2 ? 0 : 1; }"""),
 dict(id="atomic-xor-not-inline", property="C34", edits=[("include/falcon/atomic_gcc.h", "inline atomic_int_base atomicXor(", "atomic_int_base atomicXor(")],
   needs="two source files of one program including the header",
   breaks="the program does not link",
   script="""printf '#include <falcon/atomic.h>\\nint f() { falcon::atomic_int a = 1; return falcon::atomicInc(a); }\\n' > "$t/a.cpp"
printf '#include <falcon/engine/item.h>\\n#include <falcon/atomic.h>\\nint f(); int main() { falcon::atomic_int a = 1; return f() + falcon::atomicInc(a) == 4 ? 0 : 1; }\\n' > "$t/b.cpp"
g++ -std=gnu++17 -w -Isrc/include -I_build/include/falcon -Isrc/include/falcon "$t/a.cpp" "$t/b.cpp" src/engine/handlerfactory.cpp -o "$t/demo" && "$t/demo" """),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
