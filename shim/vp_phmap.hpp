// Stand-in for parallel-hashmap (not installed here): the same observable map/set semantics on std containers.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <iterator>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace phmap
{
namespace vp
{
inline std::size_t mix(std::size_t s, std::size_t v) { return s ^ (v + 0x9e3779b97f4a7c15ull + (s << 12u) + (s >> 4u)); }
template <typename T, typename = void>
struct has_std_hash : std::false_type {};
template <typename T>
struct has_std_hash<T, std::void_t<decltype(std::declval<std::hash<T>&>()(std::declval<const T&>()))>> : std::is_default_constructible<std::hash<T>> {};
template <typename T>
struct hasher
{
    std::size_t operator()(const T& t) const { return std::hash<T>{}(t); }
};
template <typename A, typename B>
struct hasher<std::pair<A, B>>
{
    std::size_t operator()(const std::pair<A, B>& p) const { return mix(hasher<A>{}(p.first), hasher<B>{}(p.second)); }
};
template <typename... Ts>
struct hasher<std::tuple<Ts...>>
{
    std::size_t operator()(const std::tuple<Ts...>& p) const
    {
        std::size_t s = 0;
        std::apply([&s](const auto&... e) { ((s = mix(s, hasher<std::decay_t<decltype(e)>>{}(e))), ...); }, p);
        return s;
    }
};
struct null_lock
{
    void lock() {}
    void unlock() {}
    bool try_lock() { return true; }
};
}  // namespace vp
struct NullMutex : vp::null_lock {};
template <typename T>
struct Hash : vp::hasher<T> {};
template <typename T>
struct EqualTo : std::equal_to<T> {};
namespace priv
{
template <typename T>
using hash_default_hash = vp::hasher<T>;
template <typename T>
using hash_default_eq = std::equal_to<T>;
}  // namespace priv

// Slot storage: erasing leaves the other elements and every iterator in place (as the open-addressing tables of phmap
// do), growing moves all elements (so references obtained before an insertion die, as they do in phmap).
namespace vp
{
struct first_of { template <class P> const auto& operator()(const P& p) const { return p.first; } };
struct self_of { template <class P> const P& operator()(const P& p) const { return p; } };
template <typename K, typename Val, typename KeyOf, typename H, typename E>
class table
{
    std::vector<std::optional<Val>>                 slots{};
    std::unordered_map<K, std::size_t, H, E>        index{};
    template <bool C>
    class iter
    {
        using vec = std::conditional_t<C, const std::vector<std::optional<Val>>, std::vector<std::optional<Val>>>;
        vec*        v{nullptr};
        std::size_t i{0};
        void skip() { while (v && i < v->size() && !(*v)[i].has_value()) ++i; }
        friend class table;
        template <bool> friend class iter;

      public:
        using iterator_category = std::forward_iterator_tag;
        using value_type        = Val;
        using difference_type   = std::ptrdiff_t;
        using reference         = std::conditional_t<C, const Val&, Val&>;
        using pointer           = std::conditional_t<C, const Val*, Val*>;
        iter() = default;
        iter(vec* v_, std::size_t i_) : v{v_}, i{i_} { skip(); }
        template <bool D, typename = std::enable_if_t<C && !D>>
        iter(const iter<D>& o) : v{o.v}, i{o.i} {}
        reference operator*() const { return *(*v)[i]; }
        pointer   operator->() const { return &*(*v)[i]; }
        iter&     operator++() { ++i; skip(); return *this; }
        iter      operator++(int) { auto t = *this; ++*this; return t; }
        template <bool D>
        bool operator==(const iter<D>& o) const { return i == o.i; }
        template <bool D>
        bool operator!=(const iter<D>& o) const { return i != o.i; }
    };

  public:
    using key_type       = K;
    using value_type     = Val;
    using size_type      = std::size_t;
    using iterator       = std::conditional_t<std::is_same_v<KeyOf, self_of>, iter<true>, iter<false>>;
    using const_iterator = iter<true>;
    using hasher         = H;
    using key_equal      = E;

    table() = default;
    explicit table(std::size_t) {}
    table(std::initializer_list<Val> l) { for (const auto& x : l) insert(x); }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    table(It a, It b) { for (; a != b; ++a) insert(*a); }
    table(const table&)     = default;
    table(table&& o) noexcept : slots(std::move(o.slots)), index(std::move(o.index)) { o.clear(); }
    table& operator=(const table& o)
    {
        if (this != &o)
        {
            slots.clear();
            index.clear();
            for (const auto& x : o) insert(x);
        }
        return *this;
    }
    table& operator=(table&& o) noexcept
    {
        slots.swap(o.slots);
        index.swap(o.index);
        if (this != &o) o.clear();
        return *this;
    }
    iterator       begin() { return {&slots, 0}; }
    iterator       end() { return {&slots, slots.size()}; }
    const_iterator begin() const { return {&slots, 0}; }
    const_iterator end() const { return {&slots, slots.size()}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    std::size_t    size() const { return index.size(); }
    bool           empty() const { return index.empty(); }
    void           clear() { slots.clear(); index.clear(); }
    void           reserve(std::size_t n) { slots.reserve(n); }
    void           rehash(std::size_t) {}
    std::size_t    capacity() const { return slots.capacity(); }
    bool           contains(const K& k) const { return index.count(k) != 0; }
    std::size_t    count(const K& k) const { return index.count(k); }
    iterator       find(const K& k) { auto f = index.find(k); return f == index.end() ? end() : iterator{&slots, f->second}; }
    const_iterator find(const K& k) const { auto f = index.find(k); return f == index.end() ? end() : const_iterator{&slots, f->second}; }
    std::pair<iterator, bool> insert(const Val& v) { return put(Val(v)); }
    std::pair<iterator, bool> insert(Val&& v) { return put(std::move(v)); }
    template <typename P, typename = std::enable_if_t<std::is_constructible_v<Val, P&&>>>
    std::pair<iterator, bool> insert(P&& p) { return put(Val(std::forward<P>(p))); }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    void insert(It a, It b) { for (; a != b; ++a) insert(*a); }
    void insert(std::initializer_list<Val> l) { insert(l.begin(), l.end()); }
    template <typename... As>
    std::pair<iterator, bool> emplace(As&&... as) { return put(Val(std::forward<As>(as)...)); }
    std::size_t erase(const K& k)
    {
        auto f = index.find(k);
        if (f == index.end()) return 0;
        const auto i = f->second;
        index.erase(f);
        slots[i].reset();
        return 1;
    }
    iterator erase(iterator it) { index.erase(KeyOf{}(*slots[it.i])); slots[it.i].reset(); return {&slots, it.i}; }
    template <bool C = true, typename = std::enable_if_t<C && !std::is_same_v<iterator, const_iterator>>>
    iterator erase(const_iterator it) { index.erase(KeyOf{}(*slots[it.i])); slots[it.i].reset(); return {&slots, it.i}; }
    iterator erase(const_iterator a, const_iterator b)
    {
        while (a != b) { auto i = a.i; ++a; index.erase(KeyOf{}(*slots[i])); slots[i].reset(); }
        return {&slots, b.i};
    }
    void swap(table& o) { slots.swap(o.slots); index.swap(o.index); }
    template <typename F>
    void for_each(F&& f) const { for (const auto& x : *this) f(x); }

  protected:
    std::pair<iterator, bool> put(Val&& v)
    {
        if (auto f = index.find(KeyOf{}(v)); f != index.end()) return {iterator{&slots, f->second}, false};
        if (slots.size() > 32 && slots.size() > 2 * index.size() && slots.size() == slots.capacity()) compact();
        index.emplace(KeyOf{}(v), slots.size());
        slots.emplace_back(std::move(v));
        return {iterator{&slots, slots.size() - 1}, true};
    }
    void compact()
    {
        std::vector<std::optional<Val>> n{};
        n.reserve(index.size() * 2);
        index.clear();
        for (auto& x : slots)
            if (x)
            {
                index.emplace(KeyOf{}(*x), n.size());
                n.emplace_back(std::move(*x));
            }
        slots = std::move(n);
    }
};
}  // namespace vp

template <typename K, typename V, typename H = vp::hasher<K>, typename E = std::equal_to<K>, typename A = std::allocator<std::pair<const K, V>>>
struct flat_hash_map : vp::table<K, std::pair<const K, V>, vp::first_of, H, E>
{
    using base = vp::table<K, std::pair<const K, V>, vp::first_of, H, E>;
    using base::base;
    using mapped_type = V;
    using iterator    = typename base::iterator;
    flat_hash_map()   = default;
    flat_hash_map(std::initializer_list<std::pair<const K, V>> l) : base(l) {}
    template <typename... As>
    std::pair<iterator, bool> try_emplace(const K& k, As&&... as)
    {
        if (auto it = this->find(k); it != this->end()) return {it, false};
        return this->put(std::pair<const K, V>(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<As>(as)...)));
    }
    V& operator[](const K& k) { return try_emplace(k).first->second; }
    V& at(const K& k)
    {
        auto it = this->find(k);
        if (it == this->end()) throw std::out_of_range("flat_hash_map::at");
        return it->second;
    }
    const V& at(const K& k) const
    {
        auto it = this->find(k);
        if (it == this->end()) throw std::out_of_range("flat_hash_map::at");
        return it->second;
    }
    template <typename VV>
    std::pair<iterator, bool> insert_or_assign(const K& k, VV&& v)
    {
        if (auto it = this->find(k); it != this->end())
        {
            it->second = std::forward<VV>(v);
            return {it, false};
        }
        return try_emplace(k, std::forward<VV>(v));
    }
    template <typename F>
    bool if_contains(const K& k, F&& f) const
    {
        auto it = this->find(k);
        if (it == this->end()) return false;
        f(*it);
        return true;
    }
    bool operator==(const flat_hash_map& o) const
    {
        if (this->size() != o.size()) return false;
        for (const auto& [k, v] : *this) { auto it = o.find(k); if (it == o.end() || !(it->second == v)) return false; }
        return true;
    }
    bool operator!=(const flat_hash_map& o) const { return !(*this == o); }
};
template <typename K, typename H = vp::hasher<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>>
struct flat_hash_set : vp::table<K, K, vp::self_of, H, E>
{
    using base = vp::table<K, K, vp::self_of, H, E>;
    using base::base;
    flat_hash_set() = default;
    flat_hash_set(std::initializer_list<K> l) : base(l) {}
    bool operator==(const flat_hash_set& o) const
    {
        if (this->size() != o.size()) return false;
        for (const auto& k : *this) if (!o.contains(k)) return false;
        return true;
    }
    bool operator!=(const flat_hash_set& o) const { return !(*this == o); }
};
template <typename K, typename V, typename H = vp::hasher<K>, typename E = std::equal_to<K>, typename A = std::allocator<std::pair<const K, V>>>
using node_hash_map = flat_hash_map<K, V, H, E, A>;
template <typename K, typename H = vp::hasher<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>>
using node_hash_set = flat_hash_set<K, H, E, A>;

// without a mutex the parallel maps are ordinary maps
template <typename K, typename V, typename H = vp::hasher<K>, typename E = std::equal_to<K>,
          typename A = std::allocator<std::pair<const K, V>>, std::size_t N = 4, typename Mtx = NullMutex>
struct parallel_flat_hash_map : flat_hash_map<K, V, H, E, A>
{
    using base = flat_hash_map<K, V, H, E, A>;
    using base::base;
    parallel_flat_hash_map() = default;
    template <typename F>
    bool modify_if(const K& k, F&& f)
    {
        auto it = this->find(k);
        if (it == this->end()) return false;
        f(*it);
        return true;
    }
    template <typename F, typename... As>
    bool try_emplace_l(const K& k, F&& f, As&&... as)
    {
        auto [it, ins] = this->try_emplace(k, std::forward<As>(as)...);
        if (!ins) f(*it);
        return ins;
    }
};
// with a mutex type, the accesses phmap documents as internally locked are locked
template <typename K, typename V, typename H, typename E, typename A, std::size_t N>
struct parallel_flat_hash_map<K, V, H, E, A, N, std::mutex>
{
    using base           = flat_hash_map<K, V, H, E>;
    using value_type     = typename base::value_type;
    using key_type       = K;
    using mapped_type    = V;
    using iterator       = typename base::iterator;
    using const_iterator = typename base::const_iterator;
    using size_type      = std::size_t;
    using L              = std::lock_guard<std::mutex>;

    parallel_flat_hash_map() = default;
    parallel_flat_hash_map(std::initializer_list<std::pair<const K, V>> l) : m(l) {}
    parallel_flat_hash_map(const parallel_flat_hash_map& o) : m(o.m) {}
    parallel_flat_hash_map(parallel_flat_hash_map&& o) noexcept : m(std::move(o.m)) {}
    parallel_flat_hash_map& operator=(const parallel_flat_hash_map& o)
    {
        m = o.m;
        return *this;
    }
    parallel_flat_hash_map& operator=(parallel_flat_hash_map&& o) noexcept
    {
        m = std::move(o.m);
        return *this;
    }
    template <typename F>
    bool if_contains(const K& k, F&& f) const
    {
        L    l{mtx};
        auto it = m.find(k);
        if (it == m.end()) return false;
        f(*it);
        return true;
    }
    template <typename F>
    bool modify_if(const K& k, F&& f)
    {
        L    l{mtx};
        auto it = m.find(k);
        if (it == m.end()) return false;
        f(*it);
        return true;
    }
    template <typename F, typename... As>
    bool try_emplace_l(const K& k, F&& f, As&&... as)
    {
        L l{mtx};
        auto [it, ins] = m.try_emplace(k, std::forward<As>(as)...);
        if (!ins) f(*it);
        return ins;
    }
    template <typename... As>
    std::pair<iterator, bool> try_emplace(As&&... as) { L l{mtx}; return m.try_emplace(std::forward<As>(as)...); }
    template <typename... As>
    std::pair<iterator, bool> emplace(As&&... as) { L l{mtx}; return m.emplace(std::forward<As>(as)...); }
    std::pair<iterator, bool> insert(const value_type& v) { L l{mtx}; return m.insert(v); }
    std::pair<iterator, bool> insert(value_type&& v) { L l{mtx}; return m.insert(std::move(v)); }
    template <typename VV>
    std::pair<iterator, bool> insert_or_assign(const K& k, VV&& v) { L l{mtx}; return m.insert_or_assign(k, std::forward<VV>(v)); }
    V&       operator[](const K& k) { L l{mtx}; return m[k]; }
    V&       at(const K& k) { L l{mtx}; return m.at(k); }
    const V& at(const K& k) const { L l{mtx}; return m.at(k); }
    bool     contains(const K& k) const { L l{mtx}; return m.count(k) != 0; }
    std::size_t count(const K& k) const { L l{mtx}; return m.count(k); }
    iterator       find(const K& k) { L l{mtx}; return m.find(k); }
    const_iterator find(const K& k) const { L l{mtx}; return m.find(k); }
    std::size_t size() const { L l{mtx}; return m.size(); }
    bool        empty() const { L l{mtx}; return m.empty(); }
    void        clear() { L l{mtx}; m.clear(); }
    std::size_t erase(const K& k) { L l{mtx}; return m.erase(k); }
    iterator    erase(iterator i) { L l{mtx}; return m.erase(i); }
    void        reserve(std::size_t n) { L l{mtx}; m.reserve(n); }
    iterator       begin() { return m.begin(); }
    iterator       end() { return m.end(); }
    const_iterator begin() const { return m.begin(); }
    const_iterator end() const { return m.end(); }
    const_iterator cbegin() const { return m.cbegin(); }
    const_iterator cend() const { return m.cend(); }
    bool operator==(const parallel_flat_hash_map& o) const { return m == o.m; }

  private:
    mutable std::mutex mtx;
    base               m;
};
template <typename K, typename H = vp::hasher<K>, typename E = std::equal_to<K>, typename A = std::allocator<K>, std::size_t N = 4, typename Mtx = NullMutex>
struct parallel_flat_hash_set : flat_hash_set<K, H, E, A>
{
    using base = flat_hash_set<K, H, E, A>;
    using base::base;
    parallel_flat_hash_set() = default;
};
template <typename K, typename C = std::less<K>, typename A = std::allocator<K>>
struct btree_set : std::set<K, C>
{
    using std::set<K, C>::set;
    btree_set() = default;
};
template <typename K, typename V, typename C = std::less<K>>
struct btree_map : std::map<K, V, C>
{
    using std::map<K, V, C>::map;
    btree_map() = default;
};
}  // namespace phmap
