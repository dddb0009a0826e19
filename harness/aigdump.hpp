// An aig_network, its construction calls and how it is shown.
#pragma once
#include "network/aig_network.hpp"
#include "algorithms/cleanup.hpp"
#include "netx.hpp"
#include <list>
using A = aig_network; using S = A::signal; using N = A::node;
static S sig( A const& a, uint64_t l ) { return S( l >> 1, l & 1 ); }
static uint64_t lit( A const& a, S s ) { return 2 * a.node_to_index( a.get_node( s ) ) + ( a.is_complemented( s ) ? 1 : 0 ); }
static std::string dump( A const& a ) {
  std::string fi; std::vector<int> dead, refs, phase; std::vector<uint64_t> pis, outs, gates, nodes;
  for ( uint64_t n = 0; n < a.size(); ++n ) {
    std::string f;
    if ( !a.is_constant( n ) && !a.is_ci( n ) ) a.foreach_fanin( n, [&]( auto const& s ) { put( f, std::to_string( lit( a, s ) ) ); } );
    put( fi, "[" + f + "]" );
    dead.push_back( a.is_dead( n ) ); refs.push_back( a.fanout_size( n ) ); phase.push_back( a.phase( n ) );
  }
  a.foreach_pi( [&]( auto n ) { pis.push_back( n ); } );
  a.foreach_po( [&]( auto const& s ) { outs.push_back( lit( a, s ) ); } );
  a.foreach_gate( [&]( auto n ) { gates.push_back( n ); } );
  a.foreach_node( [&]( auto n ) { nodes.push_back( n ); } );
  std::ostringstream o;
  o << "{\"fi\":[" << fi << "],\"dead\":" << arr( dead ) << ",\"refs\":" << arr( refs ) << ",\"phase\":" << arr( phase ) << ",\"pis\":" << arr( pis )
    << ",\"outs\":" << arr( outs ) << ",\"gates\":" << arr( gates ) << ",\"nodes\":" << arr( nodes ) << ",\"ngates\":" << a.num_gates()
    << ",\"npis\":" << a.num_pis() << ",\"npos\":" << a.num_pos() << ",\"size\":" << a.size() << "}";
  return o.str();
}
struct Log { std::string add, mod, del; };
static void watch( A& a, Log& g ) {
  a.events().on_add.push_back( [&g]( N const& n ) { put( g.add, std::to_string( n ) ); } );
  a.events().on_modified.push_back( [&g]( N const& n, std::vector<S> const& c ) {
    std::string f; for ( auto const& s : c ) put( f, std::to_string( 2 * s.index + s.complement ) );
    put( g.mod, "[" + std::to_string( n ) + ",[" + f + "]]" ); } );
  a.events().on_delete.push_back( [&g]( N const& n ) { put( g.del, std::to_string( n ) ); } );
}
// construction calls; false: not one of them
static bool build_op( A* x_, A const& a, std::string const& op, std::vector<uint64_t> const& v, std::vector<S> const& s, int64_t& res ) {
  if ( op == "pi" ) res = lit( a, x_->create_pi() );
  else if ( op == "const" ) res = lit( a, x_->get_constant( v[0] ) );
  else if ( op == "buf" ) res = lit( a, x_->create_buf( s[0] ) );
  else if ( op == "not" ) res = lit( a, x_->create_not( s[0] ) );
  else if ( op == "and" ) res = lit( a, x_->create_and( s[0], s[1] ) );
  else if ( op == "nand" ) res = lit( a, x_->create_nand( s[0], s[1] ) );
  else if ( op == "or" ) res = lit( a, x_->create_or( s[0], s[1] ) );
  else if ( op == "nor" ) res = lit( a, x_->create_nor( s[0], s[1] ) );
  else if ( op == "lt" ) res = lit( a, x_->create_lt( s[0], s[1] ) );
  else if ( op == "le" ) res = lit( a, x_->create_le( s[0], s[1] ) );
  else if ( op == "xor" ) res = lit( a, x_->create_xor( s[0], s[1] ) );
  else if ( op == "xnor" ) res = lit( a, x_->create_xnor( s[0], s[1] ) );
  else if ( op == "ite" ) res = lit( a, x_->create_ite( s[0], s[1], s[2] ) );
  else if ( op == "maj" ) res = lit( a, x_->create_maj( s[0], s[1], s[2] ) );
  else if ( op == "xor3" ) res = lit( a, x_->create_xor3( s[0], s[1], s[2] ) );
  else if ( op == "nary_and" ) res = lit( a, x_->create_nary_and( s ) );
  else if ( op == "nary_or" ) res = lit( a, x_->create_nary_or( s ) );
  else if ( op == "nary_xor" ) res = lit( a, x_->create_nary_xor( s ) );
  else return false;
  return true;
}
