#pragma once
#include "network/klut_network.hpp"
static std::string klut_dump( klut_network const& k ) {
  std::vector<std::string> fi, tt; std::vector<uint64_t> refs, pis, outs, gates, nodes;
  for ( uint64_t n = 0; n < k.size(); ++n ) {
    std::vector<uint64_t> f;
    if ( !k.is_constant( n ) && !k.is_ci( n ) ) { k.foreach_fanin( n, [&]( auto const& s ) { f.push_back( k.get_node( s ) ); } ); tt.push_back( ttwords( k.node_function( n ), false ) ); }
    else tt.push_back( "[]" );
    fi.push_back( arr( f ) ); refs.push_back( k.fanout_size( n ) );
  }
  k.foreach_pi( [&]( auto n ) { pis.push_back( n ); } );
  k.foreach_po( [&]( auto const& s ) { outs.push_back( k.get_node( s ) ); } );
  k.foreach_gate( [&]( auto n ) { gates.push_back( n ); } );
  k.foreach_node( [&]( auto n ) { nodes.push_back( n ); } );
  return "{\"fi\":" + arr( fi ) + ",\"tt\":" + arr( tt ) + ",\"refs\":" + arr( refs ) + ",\"pis\":" + arr( pis ) + ",\"outs\":" + arr( outs ) + ",\"gates\":" + arr( gates )
    + ",\"nodes\":" + arr( nodes ) + ",\"ngates\":" + std::to_string( k.num_gates() ) + ",\"npis\":" + std::to_string( k.num_pis() ) + ",\"npos\":" + std::to_string( k.num_pos() )
    + ",\"size\":" + std::to_string( k.size() ) + ",\"stat\":" + arr( k.get_detailed_lut_statics( 10 ) ) + "}";
}
