// Minimal stand-in for the parts of camp that LvArray uses (camp itself is not available in this
// sandbox). Semantics follow camp's documentation; nothing here takes part in deciding a property.
#pragma once
#include <cstddef>
#include <algorithm>
#include <type_traits>
#include <tuple>
#include <utility>

namespace camp
{
using idx_t = std::ptrdiff_t;

template< typename T, T... VALUES > struct int_seq { using type = int_seq; };
template< idx_t... VALUES > using idx_seq = int_seq< idx_t, VALUES... >;

namespace detail
{
template< typename SEQ > struct from_std;
template< std::size_t... IS > struct from_std< std::index_sequence< IS... > > { using type = idx_seq< idx_t( IS )... >; };

template< idx_t N, typename SEQ > struct seq_at_impl;
template< idx_t N, typename T, T HEAD, T... TAIL >
struct seq_at_impl< N, int_seq< T, HEAD, TAIL... > > : seq_at_impl< N - 1, int_seq< T, TAIL... > > {};
template< typename T, T HEAD, T... TAIL >
struct seq_at_impl< 0, int_seq< T, HEAD, TAIL... > > { static constexpr T value = HEAD; };
}

template< idx_t N > using make_idx_seq_t = typename detail::from_std< std::make_index_sequence< std::size_t( N ) > >::type;
template< idx_t N, typename SEQ > struct seq_at : detail::seq_at_impl< N, SEQ > {};

namespace concepts { namespace metalib {
template< bool... > struct bool_list {};
template< bool... BS > using all_of = std::is_same< bool_list< true, BS... >, bool_list< BS..., true > >;
template< typename... TS > using all_of_t = all_of< TS::value... >;
} }

template< typename... TS > using tuple = std::tuple< TS... >;
template< typename... TS > constexpr auto make_tuple( TS && ... ts ) { return std::make_tuple( std::forward< TS >( ts )... ); }
template< idx_t I, typename TUPLE > constexpr decltype(auto) get( TUPLE && t ) { return std::get< I >( std::forward< TUPLE >( t ) ); }
}
