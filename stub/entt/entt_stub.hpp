// Parse-only declarations of the part of EnTT 3.15's public interface that edyn
// uses. EnTT itself is not available in this sandbox. Nothing here is ever
// executed: the analyses only need names and types to be resolved.
#ifndef VERIF_ENTT_STUB_HPP
#define VERIF_ENTT_STUB_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <set>
#include <map>
#include <string>
#include <array>
#include <algorithm>
#include <vector>
#include <string_view>
#include <unordered_map>

namespace entt {

using id_type = std::uint32_t;
enum class entity : std::uint32_t {};

struct null_t {
    template<typename E> constexpr operator E() const noexcept { return static_cast<E>(~0u); }
    template<typename E> friend constexpr bool operator==(E, null_t) noexcept;
    template<typename E> friend constexpr bool operator!=(E, null_t) noexcept;
    friend constexpr bool operator==(null_t, entity) noexcept;
    friend constexpr bool operator!=(null_t, entity) noexcept;
};
template<typename E> constexpr bool operator==(E e, null_t n) noexcept { return e == static_cast<E>(n); }
template<typename E> constexpr bool operator!=(E e, null_t n) noexcept { return e != static_cast<E>(n); }
constexpr bool operator==(null_t n, entity e) noexcept { return e == static_cast<entity>(n); }
constexpr bool operator!=(null_t n, entity e) noexcept { return e != static_cast<entity>(n); }
inline constexpr null_t null{};
struct tombstone_t { template<typename E> constexpr operator E() const noexcept { return static_cast<E>(~0u); } };
inline constexpr tombstone_t tombstone{};
constexpr std::uint32_t to_integral(entity e) noexcept { return static_cast<std::uint32_t>(e); }
constexpr std::uint32_t to_entity(entity e) noexcept { return static_cast<std::uint32_t>(e); }
constexpr std::uint32_t to_version(entity e) noexcept { return static_cast<std::uint32_t>(e); }

struct identity {
    template<typename T> constexpr T &&operator()(T &&v) const noexcept { return static_cast<T &&>(v); }
};

struct hashed_string {
    const char *str; id_type hash;
    constexpr hashed_string(): str{nullptr}, hash{0} {}
    constexpr hashed_string(const char *s): str{s}, hash{0} {}
    constexpr hashed_string(const char *s, std::size_t): str{s}, hash{0} {}
    static constexpr id_type value(const char *) { return 0; }
    static constexpr id_type value(const char *, std::size_t) { return 0; }
    constexpr operator id_type() const { return hash; }
    constexpr id_type value() const { return hash; }
};
inline namespace literals {
    constexpr hashed_string operator""_hs(const char *s, std::size_t n) { return hashed_string{s, n}; }
}

struct type_info {
    id_type index() const; id_type hash() const; std::string_view name() const;
    bool operator==(const type_info &) const; bool operator!=(const type_info &) const;
};
template<typename T> const type_info &type_id();
template<typename T> const type_info &type_id(T &&);
template<typename T> struct type_hash { static constexpr id_type value() { return 0; } };
template<typename T> struct type_index { static id_type value(); };

template<typename... Ts> struct type_list { static constexpr auto size = sizeof...(Ts); };
template<typename... Ts>
struct ident_t {
    using value_type = id_type;
    template<typename T> static constexpr value_type value = 0;
};
template<typename... Ts> using ident = ident_t<Ts...>;

template<typename... Ts> struct get_t {};
template<typename... Ts> struct exclude_t {};
template<typename... Ts> inline constexpr exclude_t<Ts...> exclude{};
struct as_ref_t {};
struct as_is_t {};
template<auto> struct connect_arg_t {};
template<auto F> inline constexpr connect_arg_t<F> connect_arg{};

// ---- any
class any {
public:
    any(); any(const any &); any(any &&);
    template<typename T> any(T &&);
    template<typename T, typename... A> explicit any(std::in_place_type_t<T>, A &&...);
    any &operator=(const any &); any &operator=(any &&);
    const type_info &type() const;
    void *data(); const void *data() const;
    explicit operator bool() const;
    any as_ref();
};
template<typename T> T any_cast(const any &);
template<typename T> T any_cast(any &);
template<typename T> const T *any_cast(const any *);
template<typename T> T *any_cast(any *);

// ---- dense_map
template<typename K, typename V, typename H = std::hash<K>, typename E = std::equal_to<K>>
using dense_map = std::unordered_map<K, V, H, E>;

// ---- signals
class connection {
public:
    explicit operator bool() const; void release();
};
class scoped_connection {
public:
    scoped_connection(); scoped_connection(const connection &); scoped_connection(scoped_connection &&);
    scoped_connection(const scoped_connection &) = delete;
    scoped_connection &operator=(const scoped_connection &) = delete;
    scoped_connection &operator=(scoped_connection &&);
    scoped_connection &operator=(connection);
    ~scoped_connection();
    explicit operator bool() const; void release();
};

template<typename F> class delegate;
template<typename R, typename... A>
class delegate<R(A...)> {
public:
    delegate();
    template<auto F> delegate(connect_arg_t<F>) {}
    template<auto F, typename T> delegate(connect_arg_t<F>, T &&) {}
    delegate(R(*)(const void *, A...), const void * = nullptr);
    template<auto F> void connect() {}
    template<auto F, typename T> void connect(T &&) {}
    void connect(R(*)(const void *, A...), const void * = nullptr);
    void reset();
    R operator()(A...) const;
    explicit operator bool() const;
    bool operator==(const delegate &) const;
    bool operator!=(const delegate &) const;
};

namespace internal_stub {
    template<typename R, typename... A> auto fn_of(R(*)(A...)) -> R(*)(A...);
    template<typename R, typename T, typename... A, typename = std::enable_if_t<true>> auto fn_of(R(*)(T, A...), int) -> R(*)(A...);
}
template<auto F, typename T>
delegate(connect_arg_t<F>, T &&) -> delegate<std::remove_pointer_t<decltype(internal_stub::fn_of(F, 0))>>;
template<typename S> class sigh;
template<typename S> class sink;
template<typename R, typename... A>
class sigh<R(A...)> {
public:
    sigh(); sigh(const sigh &); sigh(sigh &&);
    sigh &operator=(const sigh &); sigh &operator=(sigh &&);
    ~sigh();
    void publish(A...) const;
    std::size_t size() const; bool empty() const;
};
template<typename R, typename... A>
class sink<sigh<R(A...)>> {
public:
    sink(); sink(sigh<R(A...)> &);
    template<auto F, typename... T> connection connect(T &&...);
    template<auto F, typename... T> void disconnect(T &&...);
    void disconnect(const void *); void disconnect();
    bool empty() const;
    explicit operator bool() const;
};
template<typename S> sink(S &) -> sink<S>;

// ---- sparse set / storage
enum class deletion_policy : std::uint8_t { swap_and_pop, in_place, swap_only };
class basic_sparse_set_iterator {
public:
    using value_type = entity; using difference_type = std::ptrdiff_t;
    using pointer = const entity *; using reference = const entity &;
    using iterator_category = std::random_access_iterator_tag;
    basic_sparse_set_iterator();
    reference operator*() const; pointer operator->() const;
    reference operator[](difference_type) const;
    basic_sparse_set_iterator &operator++(); basic_sparse_set_iterator operator++(int);
    basic_sparse_set_iterator &operator--(); basic_sparse_set_iterator operator--(int);
    basic_sparse_set_iterator &operator+=(difference_type); basic_sparse_set_iterator operator+(difference_type) const;
    basic_sparse_set_iterator &operator-=(difference_type); basic_sparse_set_iterator operator-(difference_type) const;
    difference_type operator-(const basic_sparse_set_iterator &) const;
    bool operator==(const basic_sparse_set_iterator &) const;
    bool operator!=(const basic_sparse_set_iterator &) const;
    bool operator<(const basic_sparse_set_iterator &) const;
    bool operator>(const basic_sparse_set_iterator &) const;
};
class sparse_set {
public:
    using iterator = basic_sparse_set_iterator; using const_iterator = iterator;
    using entity_type = entity; using size_type = std::size_t; using value_type = entity;
    sparse_set(); explicit sparse_set(deletion_policy);
    sparse_set(const sparse_set &) = delete; sparse_set(sparse_set &&);
    sparse_set &operator=(const sparse_set &) = delete; sparse_set &operator=(sparse_set &&);
    virtual ~sparse_set();
    iterator begin() const; iterator end() const; iterator rbegin() const; iterator rend() const;
    iterator cbegin() const; iterator cend() const;
    iterator find(entity) const; bool contains(entity) const; bool empty() const;
    size_type size() const; size_type index(entity) const; const entity *data() const;
    entity operator[](size_type) const; entity at(size_type) const;
    iterator push(entity); template<typename It> iterator push(It, It);
    void erase(entity); template<typename It> void erase(It, It);
    bool remove(entity); template<typename It> size_type remove(It, It);
    void clear(); void reserve(size_type); void compact(); void swap(sparse_set &);
    size_type capacity() const; void shrink_to_fit();
    template<typename C> void sort(C); template<typename It> void sort_as(It, It);
    const type_info &type() const;
};
template<typename T>
class storage_each_proxy {
public:
    struct iterator {
        using value_type = std::tuple<entity, T &>; using reference = value_type; using pointer = value_type *;
        using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        value_type operator*() const; iterator &operator++(); iterator operator++(int);
        bool operator==(const iterator &) const; bool operator!=(const iterator &) const;
    };
    iterator begin() const; iterator end() const;
};
template<typename T>
class storage : public sparse_set {
public:
    using value_type = T; using element_type = T;
    storage(); storage(storage &&); storage &operator=(storage &&);
    struct iterator {
        using value_type = T; using reference = T &; using pointer = T *;
        using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag;
        T &operator*() const; T *operator->() const; iterator &operator++(); iterator operator++(int);
        bool operator==(const iterator &) const; bool operator!=(const iterator &) const;
    };
    iterator begin() const; iterator end() const;
    T &get(entity); const T &get(entity) const;
    std::tuple<T &> get_as_tuple(entity);
    template<typename... A> T &emplace(entity, A &&...);
    template<typename... F> T &patch(entity, F &&...);
    template<typename It> iterator insert(It, It, const T & = {});
    storage_each_proxy<T> each() const;
    void push_or(entity);
    sink<sigh<void(class basic_registry_stub &, entity)>> on_construct();
};

// ---- views
template<typename... T> struct view_value;
namespace internal_stub {
    template<typename T> struct element { using type = T; };
    template<typename T> struct element<storage<T>> { using type = T; };
    template<typename T> struct element<const storage<T>> { using type = const T; };
    template<typename T> struct is_empty_c : std::bool_constant<std::is_empty_v<std::remove_const_t<T>>> {};
    template<typename T> auto ref_tuple() {
        if constexpr(is_empty_c<T>::value) { return std::tuple<>{}; }
        else { return std::tuple<T *>{}; }
    }
    template<typename... T> struct refs;
    template<> struct refs<> { using type = std::tuple<>; };
    template<typename H, typename... T> struct refs<H, T...> {
        using rest = typename refs<T...>::type;
        using type = std::conditional_t<is_empty_c<H>::value, rest,
            decltype(std::tuple_cat(std::declval<std::tuple<H &>>(), std::declval<rest>()))>;
    };
    template<typename Tuple> struct with_entity;
    template<typename... T> struct with_entity<std::tuple<T...>> { using type = std::tuple<entity, T...>; };
}
template<typename Get, typename Exclude, typename = void> class basic_view;
template<typename... G, typename... E>
class basic_view<get_t<G...>, exclude_t<E...>, void> {
public:
    template<typename T> using elem = typename internal_stub::element<T>::type;
    using refs_t = typename internal_stub::refs<elem<G>...>::type;
    using each_t = typename internal_stub::with_entity<refs_t>::type;
    using iterator = basic_sparse_set_iterator;
    struct each_iterator {
        using value_type = each_t; using reference = each_t; using pointer = each_t *;
        using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        value_type operator*() const; each_iterator &operator++(); each_iterator operator++(int);
        bool operator==(const each_iterator &) const; bool operator!=(const each_iterator &) const;
    };
    struct iterable { each_iterator begin() const; each_iterator end() const; };
    basic_view(); basic_view(G &...); 
    iterator begin() const; iterator end() const; iterator rbegin() const; iterator rend() const;
    entity front() const; entity back() const;
    iterator find(entity) const; bool contains(entity) const;
    std::size_t size() const; std::size_t size_hint() const; bool empty() const;
    explicit operator bool() const;
    template<typename T, typename... U> decltype(auto) get(entity) const {
        if constexpr(sizeof...(U) == 0) { return static_cast<T &>(*static_cast<T *>(nullptr)); }
        else { return std::tuple<T &, U &...>(*static_cast<T *>(nullptr), *static_cast<U *>(nullptr)...); }
    }
    template<typename T> sparse_set *storage() const;
    refs_t get(entity) const;
    refs_t operator[](entity) const;
    auto *operator->() const { return static_cast<std::tuple_element_t<0, std::tuple<G...>> *>(nullptr); }
    iterable each() const;
    template<typename F> void each(F f) const {
        using tup = refs_t;
        if constexpr(sizeof...(G) > 0) { each_impl(f, static_cast<tup *>(nullptr)); }
    }
    template<typename T> void use() const;
private:
    template<typename F, typename... R> static void each_impl(F &f, std::tuple<R...> *) {
        if constexpr(std::is_invocable_v<F &, entity, R...>) {
            f(entity{}, *static_cast<std::remove_reference_t<R> *>(nullptr)...);
        } else {
            f(*static_cast<std::remove_reference_t<R> *>(nullptr)...);
        }
    }
};

template<typename... G, typename... E, typename... OG, typename... OE>
basic_view<get_t<G..., OG...>, exclude_t<E..., OE...>> operator|(const basic_view<get_t<G...>, exclude_t<E...>> &, const basic_view<get_t<OG...>, exclude_t<OE...>> &);

// ---- meta
class meta_any; class meta_type; class meta_data; class meta_handle;
class meta_handle { public: meta_handle(); template<typename T> meta_handle(T &&); meta_any *operator->(); explicit operator bool() const; };
class meta_sequence_container {
public:
    struct iterator {
        using value_type = meta_any; using reference = meta_any; using pointer = meta_any *;
        using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        meta_any operator*() const; iterator &operator++(); iterator operator++(int);
        bool operator==(const iterator &) const; bool operator!=(const iterator &) const; explicit operator bool() const;
    };
    meta_type value_type() const; std::size_t size() const; bool resize(std::size_t); bool clear();
    iterator begin(); iterator end(); iterator insert(iterator, meta_any); iterator erase(iterator);
    meta_any operator[](std::size_t); explicit operator bool() const;
};
class meta_associative_container {
public:
    struct iterator {
        using value_type = std::pair<meta_any, meta_any>; using reference = value_type; using pointer = value_type *;
        using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        std::pair<meta_any, meta_any> operator*() const; iterator &operator++(); iterator operator++(int);
        bool operator==(const iterator &) const; bool operator!=(const iterator &) const; explicit operator bool() const;
    };
    meta_type key_type() const; meta_type mapped_type() const; meta_type value_type() const;
    std::size_t size() const; bool clear(); iterator begin(); iterator end();
    bool insert(meta_any); bool insert(meta_any, meta_any); std::size_t erase(meta_any); iterator find(meta_any);
    explicit operator bool() const;
};
class meta_type {
public:
    meta_type(); explicit operator bool() const; const type_info &info() const; id_type id() const;
    bool operator==(const meta_type &) const; bool operator!=(const meta_type &) const;
    struct data_range {
        struct iterator { std::pair<id_type, meta_data> operator*() const; iterator &operator++(); bool operator!=(const iterator &) const; bool operator==(const iterator &) const; };
        iterator begin() const; iterator end() const;
    };
    data_range data() const; meta_data data(id_type) const;
    bool is_sequence_container() const; bool is_associative_container() const; bool is_class() const;
};
class meta_data {
public:
    meta_type type() const; meta_any get(meta_handle) const; template<typename I, typename T> bool set(I &&, T &&) const;
    bool is_const() const; explicit operator bool() const; meta_type arg(std::size_t) const;
};
class meta_any {
public:
    meta_any(); meta_any(const meta_any &); meta_any(meta_any &&); template<typename T> meta_any(T &&);
    meta_any &operator=(const meta_any &); meta_any &operator=(meta_any &&);
    meta_type type() const; meta_sequence_container as_sequence_container(); meta_associative_container as_associative_container();
    meta_sequence_container as_sequence_container() const; meta_associative_container as_associative_container() const;
    template<typename T> T cast(); template<typename T> T cast() const;
    template<typename T> T *try_cast(); template<typename T> const T *try_cast() const;
    meta_any as_ref(); meta_any as_ref() const; bool assign(const meta_any &); explicit operator bool() const; meta_any *operator->();
    void *data();
};
template<typename T> meta_type resolve() noexcept;
meta_type resolve(const type_info &) noexcept;
meta_type resolve(id_type) noexcept;
template<typename T>
struct meta_factory {
    meta_factory();
    meta_factory &type(id_type);
    template<auto D, typename P = as_is_t> meta_factory &data(id_type);
    template<auto S, auto G, typename P = as_is_t> meta_factory &data(id_type);
    template<auto F, typename P = as_is_t> meta_factory &func(id_type);
};
void meta_reset();

// ---- registry
template<typename T> inline constexpr bool stub_is_empty_v = std::is_empty_v<std::remove_const_t<T>>;
class registry_context {
public:
    registry_context(); explicit registry_context(const std::allocator<entity> &);
    template<typename T, typename... A> T &emplace(A &&...);
    template<typename T, typename... A> T &emplace_as(id_type, A &&...);
    template<typename T> T &insert_or_assign(T &&);
    template<typename T> bool erase(id_type = 0);
    template<typename T> T &get(id_type = 0); template<typename T> const T &get(id_type = 0) const;
    template<typename T> T *find(id_type = 0); template<typename T> const T *find(id_type = 0) const;
    template<typename T> bool contains(id_type = 0) const;
};
class registry {
public:
    using entity_type = entity; using context = registry_context; using allocator_type = std::allocator<entity>;
    using size_type = std::size_t; using common_type = sparse_set;
    template<typename T> using storage_for_type = storage<T>;
    registry(); registry(registry &&); registry &operator=(registry &&); ~registry();
    registry(const registry &) = delete; registry &operator=(const registry &) = delete;
    registry_context &ctx(); const registry_context &ctx() const;
    entity create(); entity create(entity); template<typename It> void create(It, It);
    std::uint32_t destroy(entity); template<typename It> void destroy(It, It);
    bool valid(entity) const; std::uint32_t current(entity) const;
    template<typename T, typename... A> decltype(auto) emplace(entity, A &&...a) {
        if constexpr(stub_is_empty_v<T>) { return; } else {
            if constexpr(std::is_aggregate_v<T>) { (void)sizeof(T{std::declval<A>()...}); } 
            return static_cast<T &>(*static_cast<T *>(nullptr)); }
    }
    template<typename T, typename It> void insert(It, It, const T & = {});
    template<typename T, typename... A> decltype(auto) emplace_or_replace(entity, A &&...) {
        if constexpr(stub_is_empty_v<T>) { return; } else { return static_cast<T &>(*static_cast<T *>(nullptr)); }
    }
    template<typename T, typename... F> decltype(auto) patch(entity e, F &&...f) {
        if constexpr(stub_is_empty_v<T>) { return; } else { (f(*static_cast<T *>(nullptr)), ...); return static_cast<T &>(*static_cast<T *>(nullptr)); }
    }
    template<typename T, typename... A> decltype(auto) replace(entity, A &&...) {
        if constexpr(stub_is_empty_v<T>) { return; } else { return static_cast<T &>(*static_cast<T *>(nullptr)); }
    }
    template<typename T, typename... O> size_type remove(entity);
    template<typename T, typename... O, typename It> size_type remove(It, It);
    template<typename T, typename... O> void erase(entity);
    template<typename T, typename... O, typename It> void erase(It, It);
    template<typename... T> bool all_of(entity) const;
    template<typename... T> bool any_of(entity) const;
    template<typename... T> decltype(auto) get([[maybe_unused]] entity) {
        if constexpr(sizeof...(T) == 1) { return (static_cast<T &>(*static_cast<T *>(nullptr)), ...); }
        else { return std::tuple<T &...>(*static_cast<T *>(nullptr)...); }
    }
    template<typename... T> decltype(auto) get([[maybe_unused]] entity) const {
        if constexpr(sizeof...(T) == 1) { return (static_cast<const T &>(*static_cast<T *>(nullptr)), ...); }
        else { return std::tuple<const T &...>(*static_cast<T *>(nullptr)...); }
    }
    template<typename T, typename... A> T &get_or_emplace(entity, A &&...);
    template<typename T> T *try_get(entity);
    template<typename T> const T *try_get(entity) const;
    template<typename T, typename U, typename... V> std::tuple<T *, U *, V *...> try_get(entity);
    template<typename... T> void clear();
    template<typename... T> void compact();
    bool orphan(entity) const;
    template<typename T> entt::storage<T> &storage(id_type = 0);
    template<typename T> const entt::storage<T> *storage(id_type = 0) const;
    sparse_set *storage(id_type); const sparse_set *storage(id_type) const;
    struct storage_iterable { struct iterator { std::pair<id_type, sparse_set &> operator*() const; iterator &operator++(); bool operator!=(const iterator &) const; }; iterator begin() const; iterator end() const; };
    storage_iterable storage();
    template<typename T, typename... O, typename... E>
    basic_view<get_t<entt::storage<T>, entt::storage<O>...>, exclude_t<entt::storage<E>...>> view(exclude_t<E...> = exclude_t<E...>{});
    template<typename T, typename... O, typename... E>
    basic_view<get_t<const entt::storage<T>, const entt::storage<O>...>, exclude_t<const entt::storage<E>...>> view(exclude_t<E...> = exclude_t<E...>{}) const;
    template<typename T> sink<sigh<void(registry &, entity)>> on_construct(id_type = 0);
    template<typename T> sink<sigh<void(registry &, entity)>> on_update(id_type = 0);
    template<typename T> sink<sigh<void(registry &, entity)>> on_destroy(id_type = 0);
    template<typename T, typename C, typename... X> void sort(C, X &&...);
    template<typename T, typename U> void sort();
    void swap(registry &);
};
using basic_registry = registry;

}
namespace std {
template<> struct hash<entt::entity> { size_t operator()(entt::entity e) const noexcept { return static_cast<size_t>(e); } };
}
#endif
