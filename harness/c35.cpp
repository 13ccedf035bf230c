// C35: distributing an iterator fills every target once, in order.
#include "pbt.hpp"
#include <falcon/engine/distribute.h>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <tuple>
#include <utility>

enum { MAXN = 14 };
/// What was done to the sequence and to the targets, in order.
struct Log {
   struct E { char what; size_t at; };        // 'r'ead, 's'tep from, 'a'ssign to
   std::vector<E> es;
   std::vector<size_t> of(char w) const { std::vector<size_t> o; for(auto& e: es) if(e.what == w) o.push_back(e.at); return o; }
};
/// An element convertible to whatever a target may want, once read.
struct Elem {
   long v;
   operator long() const { return v; }
};
struct Text { std::string t; Text& operator=(const Elem& e) { t = "#" + std::to_string(e.v); return *this; } bool operator==(const std::string& o) const { return t == o; } };
struct Target { Log* log = nullptr; size_t no = 0; long got = -1; int times = 0; bool isConst = false;
   Target() {} Target(const Target&) = delete;
   Target& operator=(const Target&) = delete;
   Target& operator=(const Elem& e) { log->es.push_back({'a', no}); got = e.v; ++times; return *this; }
   Target& operator=(long v) { log->es.push_back({'a', no}); got = v; ++times; return *this; }
};
// --- iterators that watch
template<class Cat> struct WatchIt {
   typedef Cat iterator_category; typedef Elem value_type; typedef std::ptrdiff_t difference_type; typedef const Elem* pointer; typedef const Elem& reference;
   const std::vector<Elem>* seq; Log* log; size_t pos;
   WatchIt(const std::vector<Elem>& q, Log& l, size_t p): seq(&q), log(&l), pos(p) {}
   const Elem& operator*() const { log->es.push_back({'r', pos}); return (*seq)[pos]; }
   const Elem* operator->() const { return &**this; }
   WatchIt& operator++() { log->es.push_back({'s', pos}); ++pos; return *this; }
   WatchIt operator++(int) { WatchIt o = *this; ++*this; return o; }
   bool operator==(const WatchIt& o) const { return pos == o.pos; }
   bool operator!=(const WatchIt& o) const { return pos != o.pos; }
};
/// Single pass: copies share the position, and stepping takes elements off the source.
struct PassIt {
   typedef std::input_iterator_tag iterator_category; typedef Elem value_type; typedef std::ptrdiff_t difference_type; typedef const Elem* pointer; typedef Elem reference;
   struct Source { const std::vector<Elem>* seq; Log* log; size_t pos; };
   Source* src;
   Elem operator*() const { src->log->es.push_back({'r', src->pos}); return (*src->seq)[src->pos]; }
   PassIt& operator++() { src->log->es.push_back({'s', src->pos}); ++src->pos; return *this; }
   void operator++(int) { ++*this; }
};
template<class It, class T, size_t... I> void spread(It&& it, std::vector<std::unique_ptr<T>>& t, std::index_sequence<I...>) { falcon::distribute(std::forward<It>(it), *t[I]...); }
template<class It, class T, size_t N = 1> void distributeN(It&& it, std::vector<std::unique_ptr<T>>& t) {
   if constexpr(N <= MAXN) { if(t.size() == N) spread(std::forward<It>(it), t, std::make_index_sequence<N>()); else distributeN<It, T, N + 1>(std::forward<It>(it), t); }
}
static std::string list(const std::vector<size_t>& v) { std::string o; for(auto x: v) o += (o.empty() ? "" : ",") + std::to_string(x); return o; }

/// Watched iterators: exactly what is read, stepped over and assigned.
PBT_ARM(watched, 40000, 1000000, true) {
   size_t n = 1 + s.draw(MAXN), start = s.draw(4), extra = s.coin() ? 0 : s.draw(3);
   std::vector<Elem> seq; for(size_t i = 0; i < start + n + extra; ++i) seq.push_back(Elem{(long)(s.draw(90) + 100 * i)});
   seq.shrink_to_fit();
   Log log; std::vector<std::unique_ptr<Target>> t;
   for(size_t i = 0; i < n; ++i) { t.emplace_back(new Target); t[i]->log = &log; t[i]->no = i; }
   int kind = (int)s.draw(6); size_t end = start + n - 1, pos = end;
   static const char* names[] = {"forward variable", "forward temporary", "input variable", "single pass variable", "single pass temporary", "forward, moved from a variable"};
   NOTE(s, names[kind] << " over " << seq.size() << " elements from " << start << " into " << n << " targets");
   switch(kind) {
   case 0: { WatchIt<std::forward_iterator_tag> it(seq, log, start); distributeN(it, t); pos = it.pos; break; }
   case 1: distributeN(WatchIt<std::random_access_iterator_tag>(seq, log, start), t); break;
   case 2: { WatchIt<std::input_iterator_tag> it(seq, log, start); distributeN(it, t); pos = it.pos; break; }
   case 3: { PassIt::Source src{&seq, &log, start}; PassIt it{&src}; distributeN(it, t); pos = src.pos; break; }
   case 4: { PassIt::Source src{&seq, &log, start}; distributeN(PassIt{&src}, t); pos = src.pos; break; }
   default: { WatchIt<std::forward_iterator_tag> it(seq, log, start); distributeN(std::move(it), t); break; }
   }
   for(size_t i = 0; i < n; ++i) REQUIRE(s, t[i]->times == 1 && t[i]->got == seq[start + i].v, "target " << i << " of " << n << " was assigned " << t[i]->times << " times, and is " << t[i]->got << " instead of " << seq[start + i].v);
   std::vector<size_t> reads, steps, assigns;
   for(size_t i = 0; i < n; ++i) { reads.push_back(start + i); assigns.push_back(i); if(i + 1 < n) steps.push_back(start + i); }
   REQUIRE(s, log.of('a') == assigns, "the targets are assigned in order " << list(log.of('a')));
   REQUIRE(s, log.of('r') == reads, "elements " << list(log.of('r')) << " are read to fill " << n << " targets from element " << start);
   REQUIRE(s, log.of('s') == steps, "the iterator steps over elements " << list(log.of('s')) << " to fill " << n << " targets from element " << start);
   REQUIRE(s, pos == end, "the iterator ends up on element " << pos << " instead of " << end);
   if(n > 1) s.nontrivial();
   s.label(names[kind]);
   if(!extra) s.label("last element of the sequence");
}
/// Containers and streams of the standard library; targets of other types than the elements.
template<class T, class V> static void converted(pbt::Src& s, const std::vector<T>& got, const std::vector<V>& from, size_t start, const char* what) {
   for(size_t i = 0; i < got.size(); ++i) { T want; want = from[start + i]; REQUIRE(s, got[i] == want, "target " << i << " of " << got.size() << " taken from " << what << " differs"); }
}
template<class T, class It> static std::vector<T> take(It&& it, size_t n) {
   std::vector<std::unique_ptr<T>> t; for(size_t i = 0; i < n; ++i) t.emplace_back(new T());
   distributeN(std::forward<It>(it), t);
   std::vector<T> o; for(auto& p: t) o.push_back(*p); return o;
}
PBT_ARM(standard, 30000, 700000, true) {
   size_t n = 1 + s.draw(MAXN), start = s.draw(3), extra = s.coin() ? 0 : s.draw(3), total = start + n + extra;
   std::vector<int> v; std::vector<std::string> strs; std::vector<double> ds; std::vector<bool> bits;
   for(size_t i = 0; i < total; ++i) { v.push_back((int)s.draw(100) - 50); strs.push_back(s.text(30, 1)); ds.push_back((double)s.draw(1000) / 8); bits.push_back(s.coin()); }
   v.shrink_to_fit();
   int kind = (int)s.draw(12);
   NOTE(s, "kind " << kind << ": " << n << " targets from " << start << " of " << total);
   auto at = [&](auto it) { std::advance(it, start); return it; };
   auto stays = [&](auto& c, auto& it) { auto w = c.begin(); std::advance(w, start + n - 1); REQUIRE(s, it == w, "the iterator passed as a variable is not on the last element taken"); };
   switch(kind) {
   case 0: { const int* p = v.data() + start; converted(s, take<long>(p, n), v, start, "an array"); REQUIRE(s, p == v.data() + start + n - 1, "the pointer passed as a variable is not on the last element taken"); break; }
   case 1: { std::list<std::string> l(strs.begin(), strs.end()); auto it = at(l.begin()); converted(s, take<std::string>(it, n), strs, start, "a list"); stays(l, it); REQUIRE(s, std::equal(l.begin(), l.end(), strs.begin()), "the list changed"); break; }
   case 2: { std::forward_list<double> l(ds.begin(), ds.end()); auto it = at(l.begin()); converted(s, take<int>(it, n), ds, start, "a forward list"); stays(l, it); break; }
   case 3: { std::deque<int> l(v.begin(), v.end()); auto it = at(l.begin()); converted(s, take<double>(it, n), v, start, "a deque"); stays(l, it); break; }
   case 4: { auto it = at(bits.begin()); converted(s, take<bool>(it, n), bits, start, "bits"); stays(bits, it); break; }
   case 5: { std::set<int> l(v.begin(), v.end()); std::vector<int> u(l.begin(), l.end()); size_t k = std::min(n, u.size()); auto it = l.begin(); auto got = take<int>(it, k); converted(s, got, u, 0, "a set"); REQUIRE(s, *it == u[k - 1], "the iterator is not on the last element taken"); break; }
   case 6: { std::map<int, std::string> l; for(size_t i = 0; i < total; ++i) l[(int)i] = strs[i]; std::vector<std::pair<int, std::string>> u(l.begin(), l.end()); auto it = at(l.cbegin()); converted(s, take<std::pair<int, std::string>>(it, n), u, start, "a map"); break; }
   case 7: { std::vector<int> r(v.rbegin(), v.rend()); auto it = at(v.rbegin()); converted(s, take<long>(it, n), r, start, "a reversed vector"); REQUIRE(s, it - v.rbegin() == (long)(start + n - 1), "the iterator is not on the last element taken"); break; }
   case 8: { // a stream: what wasn't taken stays there
      std::stringstream is; for(int x: v) is << x << ' ';
      std::istream_iterator<int> it(is); for(size_t i = 0; i < start; ++i) ++it;
      converted(s, take<long>(it, n), v, start, "a stream"); REQUIRE(s, *it == v[start + n - 1], "the iterator is not on the last element taken");
      int x; for(size_t i = start + n; i < total; ++i) { is >> x; REQUIRE(s, is && x == v[i], "the stream was read too far"); } break; }
   case 9: { std::vector<std::string> src = strs; auto got = take<std::string>(std::make_move_iterator(src.begin() + (long)start), n); converted(s, got, strs, start, "moved elements"); for(size_t i = start + n; i < total; ++i) REQUIRE(s, src[i] == strs[i], "an element is moved that wasn't taken"); break; }
   case 10: { std::vector<std::unique_ptr<int>> src; for(int x: v) src.emplace_back(new int(x)); std::vector<std::unique_ptr<std::unique_ptr<int>>> t; for(size_t i = 0; i < n; ++i) t.emplace_back(new std::unique_ptr<int>()); auto it = std::make_move_iterator(src.begin() + (long)start); distributeN(it, t);
      for(size_t i = 0; i < total; ++i) REQUIRE(s, (src[i] == nullptr) == (i >= start && i < start + n), "element " << i << " is wrongly moved"); for(size_t i = 0; i < n; ++i) REQUIRE(s, *t[i] && **t[i] == v[start + i], "target " << i << " differs"); break; }
   default: { // the list of elements itself: what is assigned is a copy
      auto it = at(strs.cbegin()); auto got = take<std::string>(it, n); converted(s, got, strs, start, "a vector"); for(auto& g: got) g += "x"; stays(strs, it); break; }
   }
   if(n > 1) s.nontrivial();
   s.label(kind == 8 ? "stream" : "container");
}
/// Targets of different types in one go.
PBT_ARM(mixed, 20000, 400000, true) {
   s.nontrivial();
   std::vector<Elem> seq; for(size_t i = 0; i < 6; ++i) seq.push_back(Elem{(long)s.draw(1000) - 500});
   Log log; long l = -7; Text str; double d = -7; short sh = -7; bool b = false; Target t; t.log = &log;
   WatchIt<std::forward_iterator_tag> it(seq, log, 0);
   auto e = [&](size_t i) { return seq[i].v; };
   size_t n = 0;
   switch(s.draw(7)) {
   case 0: falcon::distribute(it, l, str, d, sh, b, t); n = 6; REQUIRE(s, l == e(0) && str == "#" + std::to_string(e(1)) && d == (double)e(2) && sh == (short)e(3) && b == (e(4) != 0) && t.got == e(5), "mixed targets differ"); break;
   case 1: falcon::distribute(it, str, t); n = 2; REQUIRE(s, str == "#" + std::to_string(e(0)) && t.got == e(1), "mixed targets differ"); break;
   case 2: falcon::distribute(it, std::ignore, l, std::ignore, str); n = 4; REQUIRE(s, l == e(1) && str == "#" + std::to_string(e(3)), "targets between ignored ones differ"); break;
   case 3: falcon::distribute(it, l, l, l); n = 3; REQUIRE(s, l == e(2), "the last assignment to the same target doesn't prevail"); break;
   case 4: { long a[3] = {-1, -1, -1}; falcon::distribute(it, a[2], a[0], a[1]); n = 3; REQUIRE(s, a[2] == e(0) && a[0] == e(1) && a[1] == e(2), "array elements differ"); break; }
   case 5: { std::pair<long, Text> p; falcon::distribute(it, p.second, p.first, std::ignore); n = 3; REQUIRE(s, p.second == "#" + std::to_string(e(0)) && p.first == e(1), "members differ"); break; }
   default: { falcon::distribute(it, l); falcon::distribute(++it, str, d); n = 3; REQUIRE(s, l == e(0) && str == "#" + std::to_string(e(1)) && d == (double)e(2), "a sequence distributed in two calls differs"); break; }
   }
   REQUIRE(s, it.pos == n - 1, "the iterator ends up on element " << it.pos << " instead of " << n - 1);
   REQUIRE(s, log.of('r').size() == n && log.of('r').back() == n - 1, "elements " << list(log.of('r')) << " are read to fill " << n << " targets");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C35"); }
