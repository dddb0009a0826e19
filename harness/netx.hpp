// Shared pieces of the network drivers: JSON helpers, views, simulation.
#pragma once
#include "views/depth_view.hpp"
#include "views/topo_view.hpp"
#include "algorithms/simulation.hpp"
#include "utils/cost_functions.hpp"
#include <kitty/kitty.hpp>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace iFPGA_NAMESPACE;
static void put( std::string& s, std::string const& x ) { if ( !s.empty() ) s += ","; s += x; }
template<class T> static std::string arr( std::vector<T> const& v ) { std::string r; for ( auto const& x : v ) put( r, std::to_string( x ) ); return "[" + r + "]"; }
static std::string arr( std::vector<std::string> const& v ) { std::string r; for ( auto const& x : v ) put( r, x ); return "[" + r + "]"; }
// bits 0..n-1, repeated up to at least 16, as 16-bit words
template<class Fn> static std::string words( uint64_t n, Fn&& bit, bool repeat = true ) {
  std::vector<uint32_t> w( n > 16 ? n / 16 : 1, 0 );
  for ( uint64_t b = 0; b < ( n > 16 || !repeat ? n : 16 ); ++b ) if ( bit( b % n ) ) w[b / 16] |= 1u << ( b % 16 );
  return arr( w );
}
template<class TT> static std::string ttwords( TT const& t, bool repeat = true ) { return words( t.num_bits(), [&]( uint64_t b ) { return kitty::get_bit( t, b ); }, repeat ); }
template<class Ntk> static std::string nums( Ntk const& n, std::vector<typename Ntk::node> const& v ) { std::vector<uint64_t> r; for ( auto x : v ) r.push_back( x ); return arr( r ); }

// node costs: every node 1, every node 0, or 1 to 3
template<class Ntk> struct a_cost {
  uint32_t mode = 0;
  uint32_t operator()( Ntk const& ntk, typename Ntk::node const& n ) const {
    return mode == 0 ? unit_cost<Ntk>{}( ntk, n ) : mode == 1 ? zero_cost<Ntk>{}( ntk, n ) : 1 + n % 3;
  }
};
template<class Ntk> struct views {
  using view = depth_view<Ntk, a_cost<Ntk>>;
  std::unique_ptr<view> v;
  std::unique_ptr<topo_view<Ntk>> t;
  template<class V> void make( Ntk const& n, V const& a ) {
    if ( a.size() < 2 ) { v = std::make_unique<view>( n ); return; }
    depth_view_params ps; ps.count_complements = a[0]; a_cost<Ntk> c; c.mode = a[1];
    v = std::make_unique<view>( n, c, ps );
  }
  // levels as shown by the held view
  std::string show( Ntk const& n ) const {
    std::vector<uint64_t> cis, ris; n.foreach_ci( [&]( auto x ) { cis.push_back( x ); } ); n.foreach_ri( [&]( auto const& f ) { ris.push_back( n.get_node( f ) ); } );
    std::string c = "\"cis\":" + arr( cis ) + ",\"ris\":" + arr( ris ) + ",";
    if ( !v ) return c + "\"on\":0,\"lev\":[],\"depth\":0";
    std::vector<uint32_t> l;
    v->resize_levels();
    for ( uint64_t i = 0; i < n.size(); ++i ) l.push_back( v->level( i ) );
    return c + "\"on\":1,\"lev\":" + arr( l ) + ",\"depth\":" + std::to_string( v->depth() );
  }
};
template<class T> static std::string topo_dump( T const& t, uint64_t total ) {
  using N = typename T::node;
  std::vector<N> o, g; std::vector<uint64_t> idx, back, pis; uint32_t pos = 0, npis = 0;
  t.foreach_node( [&]( auto n ) { o.push_back( n ); } );
  t.foreach_gate( [&]( auto n ) { g.push_back( n ); } );
  t.foreach_po( [&]( auto ) { ++pos; } );
  for ( auto n : o ) idx.push_back( t.node_to_index( n ) );
  for ( uint32_t i = 0; i < t.size(); ++i ) back.push_back( t.index_to_node( i ) );
  return "\"order\":" + nums( t, o ) + ",\"tgates\":" + nums( t, g ) + ",\"idx\":" + arr( idx ) + ",\"back\":" + arr( back ) + ",\"tsize\":" + std::to_string( t.size() )
    + ",\"tngates\":" + std::to_string( t.num_gates() ) + ",\"tpos\":" + std::to_string( pos ) + ",\"tnpos\":" + std::to_string( t.num_pos() );
}
// output functions by several simulators; every entry is one vector of words per output
template<class Ntk> static std::string sims( Ntk const& n ) {
  uint32_t np = n.num_pis(); std::vector<std::string> all;
  {
    default_simulator<kitty::dynamic_truth_table> sim( np ); std::vector<std::string> r;
    for ( auto const& t : simulate<kitty::dynamic_truth_table>( n, sim ) ) r.push_back( ttwords( t ) );
    all.push_back( arr( r ) );
  }
  if ( np <= 6 ) {
    std::vector<std::string> r; std::vector<std::string> bits( n.num_pos() );
    std::vector<std::vector<bool>> vals( n.num_pos() );
    for ( uint32_t a = 0; a < ( 1u << np ); ++a ) {
      std::vector<bool> as( np ); for ( uint32_t i = 0; i < np; ++i ) as[i] = a >> i & 1;
      default_simulator<bool> sim( as ); auto o = simulate<bool>( n, sim );
      for ( uint32_t i = 0; i < o.size(); ++i ) vals[i].push_back( o[i] );
    }
    for ( auto& v : vals ) r.push_back( words( v.size(), [&]( uint64_t b ) { return bool( v[b] ); } ) );
    all.push_back( arr( r ) );
    std::vector<std::string> q; std::vector<std::vector<bool>> vw( n.num_pos() );
    for ( uint32_t a = 0; a < ( 1u << np ); ++a ) {
      input_word_simulator sim( a ); auto o = simulate<bool>( n, sim );
      for ( uint32_t i = 0; i < o.size(); ++i ) vw[i].push_back( o[i] );
    }
    for ( auto& v : vw ) q.push_back( words( v.size(), [&]( uint64_t b ) { return bool( v[b] ); } ) );
    all.push_back( arr( q ) );
    default_simulator<kitty::static_truth_table<6>> s6; std::vector<std::string> s;
    for ( auto const& t : simulate<kitty::static_truth_table<6>>( n, s6 ) ) s.push_back( words( 1u << np, [&]( uint64_t b ) { return kitty::get_bit( t, b ); } ) );
    all.push_back( arr( s ) );
  }
  return "\"sims\":" + arr( all );
}
