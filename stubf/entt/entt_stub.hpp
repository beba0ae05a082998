// A small model of the part of EnTT's registry that edyn uses, for analysing the functions written against it:
// pools are plain arrays over a handful of entities. Signals and reflection are declared only.
#ifndef VERIF_ENTT_STUB_HPP
#define VERIF_ENTT_STUB_HPP
#include <cstddef>
#include <new>
#include <cstdint>
#include <functional>
#include <iterator>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <set>
#include <map>
#include <string>
#include <array>
#include <algorithm>
#include <vector>
#include <string_view>
#include <unordered_map>

namespace entt {

using id_type = std::uint32_t;
enum class entity : std::uint32_t {};

struct null_t {
    template<typename E> constexpr operator E() const noexcept { return static_cast<E>(~0u); }
    template<typename E> friend constexpr bool operator==(E, null_t) noexcept;
    template<typename E> friend constexpr bool operator!=(E, null_t) noexcept;
    friend constexpr bool operator==(null_t, entity) noexcept;
    friend constexpr bool operator!=(null_t, entity) noexcept;
};
template<typename E> constexpr bool operator==(E e, null_t n) noexcept { return e == static_cast<E>(n); }
template<typename E> constexpr bool operator!=(E e, null_t n) noexcept { return e != static_cast<E>(n); }
constexpr bool operator==(null_t n, entity e) noexcept { return e == static_cast<entity>(n); }
constexpr bool operator!=(null_t n, entity e) noexcept { return e != static_cast<entity>(n); }
inline constexpr null_t null{};
struct tombstone_t { template<typename E> constexpr operator E() const noexcept { return static_cast<E>(~0u); } };
inline constexpr tombstone_t tombstone{};
constexpr std::uint32_t to_integral(entity e) noexcept { return static_cast<std::uint32_t>(e); }
constexpr std::uint32_t to_entity(entity e) noexcept { return static_cast<std::uint32_t>(e); }
constexpr std::uint32_t to_version(entity e) noexcept { return static_cast<std::uint32_t>(e); }

struct identity {
    template<typename T> constexpr T &&operator()(T &&v) const noexcept { return static_cast<T &&>(v); }
};

struct hashed_string {
    const char *str; id_type hash;
    constexpr hashed_string(): str{nullptr}, hash{0} {}
    constexpr hashed_string(const char *s): str{s}, hash{0} {}
    constexpr hashed_string(const char *s, std::size_t): str{s}, hash{0} {}
    static constexpr id_type value(const char *) { return 0; }
    static constexpr id_type value(const char *, std::size_t) { return 0; }
    constexpr operator id_type() const { return hash; }
    constexpr id_type value() const { return hash; }
};
inline namespace literals {
    constexpr hashed_string operator""_hs(const char *s, std::size_t n) { return hashed_string{s, n}; }
}

struct type_info {
    id_type index() const; id_type hash() const; std::string_view name() const;
    bool operator==(const type_info &) const; bool operator!=(const type_info &) const;
};
template<typename T> const type_info &type_id();
template<typename T> const type_info &type_id(T &&);
template<typename T> struct type_hash { static constexpr id_type value() { return 0; } };
template<typename T> struct type_index { static id_type value(); };

template<typename... Ts> struct type_list { static constexpr auto size = sizeof...(Ts); };
template<typename... Ts>
struct ident_t {
    using value_type = id_type;
    template<typename T> static constexpr value_type value = 0;
};
template<typename... Ts> using ident = ident_t<Ts...>;

template<typename... Ts> struct get_t {};
template<typename... Ts> struct exclude_t {};
template<typename... Ts> inline constexpr exclude_t<Ts...> exclude{};
struct as_ref_t {};
struct as_is_t {};
template<auto> struct connect_arg_t {};
template<auto F> inline constexpr connect_arg_t<F> connect_arg{};

// ---- any
class any {
public:
    any(); any(const any &); any(any &&);
    template<typename T> any(T &&);
    template<typename T, typename... A> explicit any(std::in_place_type_t<T>, A &&...);
    any &operator=(const any &); any &operator=(any &&);
    const type_info &type() const;
    void *data(); const void *data() const;
    explicit operator bool() const;
    any as_ref();
};
template<typename T> T any_cast(const any &);
template<typename T> T any_cast(any &);
template<typename T> const T *any_cast(const any *);
template<typename T> T *any_cast(any *);

// ---- dense_map
template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>>
using dense_map = std::unordered_map<K, V, H, E>;

// ---- signals
class connection {
public:
    explicit operator bool() const; void release();
};
class scoped_connection {
public:
    scoped_connection(); scoped_connection(const connection &); scoped_connection(scoped_connection &&);
    scoped_connection(const scoped_connection &) = delete;
    scoped_connection &operator=(const scoped_connection &) = delete;
    scoped_connection &operator=(scoped_connection &&);
    scoped_connection &operator=(connection);
    ~scoped_connection();
    explicit operator bool() const; void release();
};

template<typename F> class delegate;
template<typename R, typename... A>
class delegate<R(A...)> {
public:
    delegate();
    template<auto F> delegate(connect_arg_t<F>) {}
    template<auto F, typename T> delegate(connect_arg_t<F>, T &&) {}
    delegate(R(*)(const void *, A...), const void * = nullptr);
    template<auto F> void connect() {}
    template<auto F, typename T> void connect(T &&) {}
    void connect(R(*)(const void *, A...), const void * = nullptr);
    void reset();
    R operator()(A...) const;
    explicit operator bool() const;
    bool operator==(const delegate &) const;
    bool operator!=(const delegate &) const;
};

namespace internal_stub {
    template<typename R, typename... A> auto fn_of(R(*)(A...)) -> R(*)(A...);
    template<typename R, typename T, typename... A, typename = std::enable_if_t<true>> auto fn_of(R(*)(T, A...), int) -> R(*)(A...);
}
template<auto F, typename T>
delegate(connect_arg_t<F>, T &&) -> delegate<std::remove_pointer_t<decltype(internal_stub::fn_of(F, 0))>>;
template<typename S> class sigh;
template<typename S> class sink;
template<typename R, typename... A>
class sigh<R(A...)> {
public:
    sigh(); sigh(const sigh &); sigh(sigh &&);
    sigh &operator=(const sigh &); sigh &operator=(sigh &&);
    ~sigh();
    void publish(A...) const;
    std::size_t size() const; bool empty() const;
};
template<typename R, typename... A>
class sink<sigh<R(A...)>> {
public:
    sink(); sink(sigh<R(A...)> &);
    template<auto F, typename... T> connection connect(T &&...);
    template<auto F, typename... T> void disconnect(T &&...);
    void disconnect(const void *); void disconnect();
    bool empty() const;
    explicit operator bool() const;
};
template<typename S> sink(S &) -> sink<S>;

// ---- sparse set / storage: small worlds of MAXE entities, one world at a time
constexpr unsigned MAXE = 8;
enum class deletion_policy : std::uint8_t { swap_and_pop, in_place, swap_only };
class sparse_set {
    entity m_e[MAXE]; unsigned m_n = 0;
public:
    using iterator = const entity *; using const_iterator = iterator;
    using entity_type = entity; using size_type = std::size_t; using value_type = entity;
    sparse_set() {} explicit sparse_set(deletion_policy) {}
    sparse_set(const sparse_set &) = delete; sparse_set(sparse_set &&o) { take(o); }
    sparse_set &operator=(const sparse_set &) = delete; sparse_set &operator=(sparse_set &&o) { take(o); return *this; }
    void take(sparse_set &o) { m_n = o.m_n; for (unsigned i = 0; i < m_n; ++i) m_e[i] = o.m_e[i]; o.m_n = 0; }
    iterator begin() const { return m_e; } iterator end() const { return m_e + m_n; } iterator cbegin() const { return m_e; } iterator cend() const { return m_e + m_n; }
    bool contains(entity e) const { for (unsigned i = 0; i < m_n; ++i) if (m_e[i] == e) return true; return false; }
    iterator find(entity e) const { for (unsigned i = 0; i < m_n; ++i) if (m_e[i] == e) return m_e + i; return end(); }
    bool empty() const { return m_n == 0; } size_type size() const { return m_n; } const entity *data() const { return m_e; }
    entity operator[](size_type i) const { return m_e[i]; }
    iterator push(entity e) { m_e[m_n] = e; return m_e + m_n++; }
    template<typename It> iterator push(It a, It b) { for (; a != b; ++a) push(*a); return m_e; }
    bool remove(entity e) { for (unsigned i = 0; i < m_n; ++i) if (m_e[i] == e) { m_e[i] = m_e[--m_n]; return true; } return false; }
    void erase(entity e) { remove(e); } template<typename It> void erase(It a, It b) { for (; a != b; ++a) remove(*a); }
    template<typename It> size_type remove(It a, It b) { size_type n = 0; for (; a != b; ++a) n += remove(*a); return n; }
    void clear() { m_n = 0; } void reserve(size_type) {} void compact() {}
    void swap(sparse_set &o) { sparse_set t; t.take(o); o.take(*this); take(t); }
    size_type capacity() const { return MAXE; } void shrink_to_fit() {}
    template<typename C> void sort(C); template<typename It> void sort_as(It, It);
    const type_info &type() const;
};
namespace world {
template<typename T> struct pool { bool has[MAXE]; bool listed; alignas(T) unsigned char raw[MAXE][sizeof(T)]; };
template<typename T> inline pool<T> POOL;
inline bool *LISTED[96]; inline unsigned NLISTED; inline bool ALIVE[MAXE]; inline unsigned NCREATED;
template<typename T> inline bool has(entity e) { auto i = unsigned(e); return i < MAXE && POOL<std::remove_const_t<T>>.has[i]; }
// Access to a component that is not there, and adding one that is, are errors of the caller.
inline void must(bool b) { if (!b) __builtin_trap(); }
template<typename T> inline T &at(entity e) { must(has<T>(e)); return *reinterpret_cast<T *>(POOL<std::remove_const_t<T>>.raw[unsigned(e)]); }
template<typename T> inline void drop(entity e) { POOL<std::remove_const_t<T>>.has[unsigned(e)] = false; }
inline void drop_all(entity e) { for (unsigned i = 0; i < NLISTED; ++i) LISTED[i][unsigned(e)] = false; }
template<typename T, typename... A> inline void put(entity e, A &&...a) {
    auto &p = POOL<T>; if (!p.listed) { p.listed = true; LISTED[NLISTED++] = p.has; }
    p.has[unsigned(e)] = true;
    if constexpr(std::is_aggregate_v<T> && sizeof...(A) != 0) { new (p.raw[unsigned(e)]) T{std::forward<A>(a)...}; } else { new (p.raw[unsigned(e)]) T(std::forward<A>(a)...); }
}
}
template<typename T> class storage {
public:
    using value_type = T; using element_type = T;
    bool contains(entity e) const { return world::has<T>(e); }
    T &get(entity e) const { return world::at<T>(e); }
    std::size_t size() const { std::size_t n = 0; for (unsigned i = 0; i < MAXE; ++i) n += contains(entity(i)); return n; }
    bool empty() const { return size() == 0; }
};

// ---- views
namespace internal_stub {
    template<typename T> struct element { using type = T; };
    template<typename T> struct element<storage<T>> { using type = T; };
    template<typename T> struct element<const storage<T>> { using type = const T; };
    template<typename T> struct is_empty_c : std::bool_constant<std::is_empty_v<std::remove_const_t<T>>> {};
    template<typename T> auto ref(entity e) { if constexpr(is_empty_c<T>::value) { return std::tuple<>{}; } else { return std::tuple<T &>(world::at<T>(e)); } }
}
template<typename Get, typename Exclude, typename = void> class basic_view;
template<typename... G, typename... E>
class basic_view<get_t<G...>, exclude_t<E...>, void> {
public:
    template<typename T> using elem = typename internal_stub::element<T>::type;
    struct iterator {
        using value_type = entity; using reference = entity; using pointer = const entity *; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
        unsigned i;
        void skip() { while (i < MAXE && !matches(entity(i))) ++i; }
        entity operator*() const { return entity(i); } iterator &operator++() { ++i; skip(); return *this; } iterator operator++(int) { auto t = *this; ++*this; return t; }
        bool operator==(const iterator &o) const { return i == o.i; } bool operator!=(const iterator &o) const { return i != o.i; }
    };
    struct each_iterator {
        iterator it;
        auto operator*() const { return std::tuple_cat(std::make_tuple(*it), all(*it)); } each_iterator &operator++() { ++it; return *this; }
        bool operator==(const each_iterator &o) const { return it == o.it; } bool operator!=(const each_iterator &o) const { return it != o.it; }
    };
    struct iterable { each_iterator begin() const { return {first()}; } each_iterator end() const { return {{MAXE}}; } };
    static bool matches(entity e) { return (world::has<elem<G>>(e) && ...) && !(world::has<elem<E>>(e) || ...); }
    static auto all(entity e) { return std::tuple_cat(internal_stub::ref<elem<G>>(e)...); }
    static iterator first() { iterator t{0}; t.skip(); return t; }
    basic_view() {} basic_view(G &...) {}
    iterator begin() const { return first(); } iterator end() const { return {MAXE}; }
    entity front() const { return *first(); }
    bool contains(entity e) const { return matches(e); }
    std::size_t size() const { std::size_t n = 0; for (unsigned i = 0; i < MAXE; ++i) n += matches(entity(i)); return n; }
    std::size_t size_hint() const { return size(); } bool empty() const { return size() == 0; }
    explicit operator bool() const { return true; }
    template<typename T, typename... U> decltype(auto) get(entity e) const {
        if constexpr(sizeof...(U) == 0) { return static_cast<T &>(world::at<T>(e)); } else { return std::tuple_cat(internal_stub::ref<T>(e), internal_stub::ref<U>(e)...); }
    }
    auto get(entity e) const { return all(e); }
    auto operator[](entity e) const { return all(e); }
    iterable each() const { return {}; }
    template<typename F> void each(F f) const { for (unsigned i = 0; i < MAXE; ++i) if (matches(entity(i))) call(f, entity(i), all(entity(i))); }
private:
    template<typename F, typename... R> static void call(F &f, entity e, std::tuple<R...> t) {
        if constexpr(std::is_invocable_v<F &, entity, R...>) { std::apply([&](auto &&...r) { f(e, r...); }, t); } else { std::apply([&](auto &&...r) { f(r...); }, t); }
    }
};
template<typename... G, typename... E, typename... OG, typename... OE>
basic_view<get_t<G..., OG...>, exclude_t<E..., OE...>> operator|(const basic_view<get_t<G...>, exclude_t<E...>> &, const basic_view<get_t<OG...>, exclude_t<OE...>> &) { return {}; }

// ---- meta
class meta_any; class meta_type; class meta_data; class meta_handle;
class meta_handle { public: meta_handle(); template<typename T> meta_handle(T &&); meta_any *operator->(); explicit operator bool() const; };
class meta_sequence_container {
public:
    struct iterator {
        using value_type = meta_any; using reference = meta_any; using pointer = meta_any *;
        using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        meta_any operator*() const; iterator &operator++(); iterator operator++(int);
        bool operator==(const iterator &) const; bool operator!=(const iterator &) const; explicit operator bool() const;
    };
    meta_type value_type() const; std::size_t size() const; bool resize(std::size_t); bool clear();
    iterator begin(); iterator end(); iterator insert(iterator, meta_any); iterator erase(iterator);
    meta_any operator[](std::size_t); explicit operator bool() const;
};
class meta_associative_container {
public:
    struct iterator {
        using value_type = std::pair<meta_any, meta_any>; using reference = value_type; using pointer = value_type *;
        using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        std::pair<meta_any, meta_any> operator*() const; iterator &operator++(); iterator operator++(int);
        bool operator==(const iterator &) const; bool operator!=(const iterator &) const; explicit operator bool() const;
    };
    meta_type key_type() const; meta_type mapped_type() const; meta_type value_type() const;
    std::size_t size() const; bool clear(); iterator begin(); iterator end();
    bool insert(meta_any); bool insert(meta_any, meta_any); std::size_t erase(meta_any); iterator find(meta_any);
    explicit operator bool() const;
};
class meta_type {
public:
    meta_type(); explicit operator bool() const; const type_info &info() const; id_type id() const;
    bool operator==(const meta_type &) const; bool operator!=(const meta_type &) const;
    struct data_range {
        struct iterator { std::pair<id_type, meta_data> operator*() const; iterator &operator++(); bool operator!=(const iterator &) const; bool operator==(const iterator &) const; };
        iterator begin() const; iterator end() const;
    };
    data_range data() const; meta_data data(id_type) const;
    bool is_sequence_container() const; bool is_associative_container() const; bool is_class() const;
};
class meta_data {
public:
    meta_type type() const; meta_any get(meta_handle) const; template<typename I, typename T> bool set(I &&, T &&) const;
    bool is_const() const; explicit operator bool() const; meta_type arg(std::size_t) const;
};
class meta_any {
public:
    meta_any(); meta_any(const meta_any &); meta_any(meta_any &&); template<typename T> meta_any(T &&);
    meta_any &operator=(const meta_any &); meta_any &operator=(meta_any &&);
    meta_type type() const; meta_sequence_container as_sequence_container(); meta_associative_container as_associative_container();
    meta_sequence_container as_sequence_container() const; meta_associative_container as_associative_container() const;
    template<typename T> T cast(); template<typename T> T cast() const;
    template<typename T> T *try_cast(); template<typename T> const T *try_cast() const;
    meta_any as_ref(); meta_any as_ref() const; bool assign(const meta_any &); explicit operator bool() const; meta_any *operator->();
    void *data();
};
template<typename T> meta_type resolve() noexcept;
meta_type resolve(const type_info &) noexcept;
meta_type resolve(id_type) noexcept;
template<typename T>
struct meta_factory {
    meta_factory();
    meta_factory &type(id_type);
    template<auto D, typename P = as_is_t> meta_factory &data(id_type);
    template<auto S, auto G, typename P = as_is_t> meta_factory &data(id_type);
    template<auto F, typename P = as_is_t> meta_factory &func(id_type);
};
void meta_reset();

// ---- registry
namespace world {
template<typename T> struct single { bool has; alignas(T) unsigned char raw[sizeof(T)]; };
template<typename T> inline single<T> ONE;
}
class registry_context {
public:
    registry_context() {} template<typename A, typename = std::enable_if_t<std::is_same_v<A, std::allocator<entity>>>> explicit registry_context(const A &) {}
    template<typename T, typename... A> T &emplace(A &&...a) { auto &o = world::ONE<T>; o.has = true; if constexpr(std::is_aggregate_v<T> && sizeof...(A) != 0) new (o.raw) T{std::forward<A>(a)...}; else new (o.raw) T(std::forward<A>(a)...); return get<T>(); }
    template<typename T> T &insert_or_assign(T &&v) { return emplace<T>(std::forward<T>(v)); }
    template<typename T> bool erase(id_type = 0) { auto r = world::ONE<T>.has; world::ONE<T>.has = false; return r; }
    template<typename T> T &get(id_type = 0) { world::must(contains<T>()); return *reinterpret_cast<T *>(world::ONE<std::remove_const_t<T>>.raw); }
    template<typename T> const T &get(id_type = 0) const { world::must(contains<T>()); return *reinterpret_cast<const T *>(world::ONE<std::remove_const_t<T>>.raw); }
    template<typename T> T *find(id_type = 0) { return contains<T>() ? &get<T>() : nullptr; }
    template<typename T> const T *find(id_type = 0) const { return contains<T>() ? &get<T>() : nullptr; }
    template<typename T> bool contains(id_type = 0) const { return world::ONE<std::remove_const_t<T>>.has; }
};
class registry {
    registry_context m_ctx;
public:
    using entity_type = entity; using context = registry_context; using allocator_type = std::allocator<entity>;
    using size_type = std::size_t; using common_type = sparse_set;
    template<typename T> using storage_for_type = entt::storage<T>;
    registry() {} registry(registry &&); registry &operator=(registry &&); ~registry() {}
    registry(const registry &) = delete; registry &operator=(const registry &) = delete;
    registry_context &ctx() { return m_ctx; } const registry_context &ctx() const { return m_ctx; }
    entity create() { auto i = world::NCREATED++; world::ALIVE[i] = true; return entity(i); }
    entity create(entity);
    template<typename It> void create(It a, It b) { for (; a != b; ++a) *a = create(); }
    std::uint32_t destroy(entity e) { world::must(valid(e)); world::ALIVE[unsigned(e)] = false; world::drop_all(e); return 0; }
    template<typename It> void destroy(It a, It b) { for (; a != b; ++a) destroy(*a); }
    bool valid(entity e) const { return unsigned(e) < MAXE && world::ALIVE[unsigned(e)]; }
    template<typename T> static decltype(auto) ref(entity e) { if constexpr(internal_stub::is_empty_c<T>::value) { return; } else { return static_cast<T &>(world::at<T>(e)); } }
    template<typename T, typename... A> decltype(auto) emplace(entity e, A &&...a) { world::must(world::ALIVE[unsigned(e)] && !world::has<T>(e)); world::put<T>(e, std::forward<A>(a)...); return ref<T>(e); }
    template<typename T, typename It> void insert(It a, It b, const T &v = {}) { for (; a != b; ++a) world::put<T>(*a, v); }
    template<typename T, typename... A> decltype(auto) emplace_or_replace(entity e, A &&...a) { world::put<T>(e, std::forward<A>(a)...); return ref<T>(e); }
    template<typename T, typename... F> decltype(auto) patch(entity e, F &&...f) { world::must(world::has<T>(e)); if constexpr(!internal_stub::is_empty_c<T>::value) { (f(world::at<T>(e)), ...); } return ref<T>(e); }
    template<typename T, typename... A> decltype(auto) replace(entity e, A &&...a) { world::must(world::has<T>(e)); world::put<T>(e, std::forward<A>(a)...); return ref<T>(e); }
    template<typename T, typename... O> size_type remove(entity e) { size_type n = world::has<T>(e) + (size_type(world::has<O>(e)) + ... + 0); world::drop<T>(e); (world::drop<O>(e), ...); return n; }
    template<typename T, typename... O, typename It> size_type remove(It a, It b) { size_type n = 0; for (; a != b; ++a) n += remove<T, O...>(*a); return n; }
    template<typename T, typename... O> void erase(entity e) { world::must(all_of<T, O...>(e)); remove<T, O...>(e); }
    template<typename T, typename... O, typename It> void erase(It a, It b) { for (; a != b; ++a) remove<T, O...>(*a); }
    template<typename... T> bool all_of(entity e) const { return (world::has<T>(e) && ...); }
    template<typename... T> bool any_of(entity e) const { return (world::has<T>(e) || ...); }
    template<typename... T> decltype(auto) get([[maybe_unused]] entity e) { if constexpr(sizeof...(T) == 1) { return (static_cast<T &>(world::at<T>(e)), ...); } else { return std::tuple<T &...>(world::at<T>(e)...); } }
    template<typename... T> decltype(auto) get([[maybe_unused]] entity e) const { if constexpr(sizeof...(T) == 1) { return (static_cast<const T &>(world::at<T>(e)), ...); } else { return std::tuple<const T &...>(world::at<T>(e)...); } }
    template<typename T, typename... A> T &get_or_emplace(entity e, A &&...a) { if (!world::has<T>(e)) world::put<T>(e, std::forward<A>(a)...); return world::at<T>(e); }
    template<typename T> T *try_get(entity e) { return world::has<T>(e) ? &world::at<T>(e) : nullptr; }
    template<typename T> const T *try_get(entity e) const { return world::has<T>(e) ? &world::at<T>(e) : nullptr; }
    template<typename T, typename U, typename... V> std::tuple<T *, U *, V *...> try_get(entity e) { return {try_get<T>(e), try_get<U>(e), try_get<V>(e)...}; }
    template<typename... T> void clear() { for (unsigned i = 0; i < MAXE; ++i) (world::drop<T>(entity(i)), ...); }
    template<typename... T> void compact() {}
    bool orphan(entity) const;
    template<typename T> entt::storage<T> &storage(id_type = 0);
    template<typename T> const entt::storage<T> *storage(id_type = 0) const;
    sparse_set *storage(id_type); const sparse_set *storage(id_type) const;
    struct storage_iterable { struct iterator { std::pair<id_type, sparse_set &> operator*() const; iterator &operator++(); bool operator!=(const iterator &) const; }; iterator begin() const; iterator end() const; };
    storage_iterable storage();
    template<typename T, typename... O, typename... E>
    basic_view<get_t<entt::storage<T>, entt::storage<O>...>, exclude_t<entt::storage<E>...>> view(exclude_t<E...> = exclude_t<E...>{}) { return {}; }
    template<typename T, typename... O, typename... E>
    basic_view<get_t<const entt::storage<T>, const entt::storage<O>...>, exclude_t<const entt::storage<E>...>> view(exclude_t<E...> = exclude_t<E...>{}) const { return {}; }
    template<typename T> sink<sigh<void(registry &, entity)>> on_construct(id_type = 0);
    template<typename T> sink<sigh<void(registry &, entity)>> on_update(id_type = 0);
    template<typename T> sink<sigh<void(registry &, entity)>> on_destroy(id_type = 0);
    template<typename T, typename C, typename... X> void sort(C, X &&...);
    template<typename T, typename U> void sort();
    void swap(registry &);
};
using basic_registry = registry;

}
namespace std {
template<> struct hash<entt::entity> { size_t operator()(entt::entity e) const noexcept { return static_cast<size_t>(e); } };
}
#endif
