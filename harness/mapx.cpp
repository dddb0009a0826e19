// Mapping views, the LUT mapper, conversions of mapped networks, their checkers.
#include "aigdump.hpp"
#include "klutdump.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
#include "algorithms/debugger.hpp"
#include "algorithms/choice_miter.hpp"
#include "algorithms/choice_computation.hpp"
#include "views/mapping_view.hpp"
#include <unistd.h>
#include <fcntl.h>
using V = mapping_view<aig_with_choice, true, false>;
static std::shared_ptr<A> build( std::istringstream& is ) {   // "op args;...", argument 2*r+c is result r
  auto a = std::make_shared<A>(); std::string part; std::vector<S> q{ a->get_constant( false ) };
  while ( std::getline( is, part, ';' ) ) {
    std::istringstream p( part ); std::string o; if ( !( p >> o ) ) continue; std::vector<uint64_t> v; uint64_t x; while ( p >> x ) v.push_back( x );
    std::vector<S> s; for ( auto y : v ) s.push_back( y & 1 ? !q[y >> 1] : q[y >> 1] ); int64_t res = -1;
    if ( o == "po" ) a->create_po( s[0] ); else if ( build_op( a.get(), *a, o, v, s, res ) ) q.push_back( sig( *a, res ) ); else std::exit( 3 );
  }
  return a;
}
static std::string show( V const& v ) {
  std::vector<int> root; std::vector<std::string> lv, fn;
  for ( uint64_t n = 0; n < v.size(); ++n ) {
    std::vector<uint64_t> l; root.push_back( v.is_cell_root( n ) );
    if ( root.back() ) v.foreach_cell_fanin( n, [&]( auto x ) { l.push_back( x ); } );
    auto t = v.cell_function( n ); lv.push_back( arr( l ) ); fn.push_back( "[" + std::to_string( t.num_vars() ) + "," + ttwords( t, false ) + "]" );
  }
  return "{\"root\":" + arr( root ) + ",\"lv\":" + arr( lv ) + ",\"fn\":" + arr( fn ) + ",\"num\":" + std::to_string( v.num_cells() ) + ",\"has\":" + ( v.has_mapping() ? "1" : "0" ) + "}";
}
int main() {
  int keep = dup( 1 ), null = open( "/dev/null", O_WRONLY ); dup2( null, 1 );      // the checkers print
  if ( auto* p = std::getenv( "MAPX_DIR" ) ) if ( chdir( p ) ) return 2;           // ... and leave drawings of what they reject
  std::unique_ptr<aig_with_choice> w; std::vector<std::shared_ptr<A>> nets; std::vector<V> vs; std::string line, net;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op, r; is >> op; int64_t res = 0; uint32_t v = 0;
    if ( op == "net" ) { nets.push_back( build( is ) ); if ( write( keep, "{}\n", 3 ) != 3 ) return 2; continue; }
    if ( op == "begin" ) {   // how: 0 = the last network alone, 1 = choices computed from all of them
      int how; is >> how; vs.clear();
      if ( how == 0 ) w = std::make_unique<aig_with_choice>( *nets.back() );
      else { choice_miter m; for ( auto& x : nets ) m.add_aig( std::make_shared<A>( cleanup_dangling( *x ) ) ); choice_params ps; choice_computation cc( ps, m.merge_aigs_to_miter() ); w = std::make_unique<aig_with_choice>( cc.compute_choice() ); }
      nets.clear(); net = dump( *w ); r = "\"post\":" + net;
    } else {
      is >> v; V* x = v && v <= vs.size() ? &vs[v - 1] : nullptr; if ( !x && op != "new" ) return 3;
      if ( op == "new" ) { vs.emplace_back( *w ); }
      else if ( op == "copy" ) { V y = *x; vs.push_back( y ); }
      else if ( op == "add" ) { uint64_t n, k, y; is >> n >> k; std::vector<uint64_t> l; while ( k-- && is >> y ) l.push_back( y ); if ( n % 2 ) { std::list<uint64_t> q( l.begin(), l.end() ); x->add_to_mapping( n, q.begin(), q.end() ); } else x->add_to_mapping( n, l.begin(), l.end() ); r = "\"n\":" + std::to_string( n ) + ",\"l\":" + arr( l ); }
      else if ( op == "setf" ) { uint64_t n, k; std::string h; is >> n >> k >> h; kitty::dynamic_truth_table t( k ); kitty::create_from_hex_string( t, h ); x->set_cell_function( n, t ); r = "\"n\":" + std::to_string( n ) + ",\"k\":" + std::to_string( k ) + ",\"tt\":" + ttwords( t, false ); }
      else if ( op == "rem" ) { uint64_t n; is >> n; x->remove_from_mapping( n ); r = "\"n\":" + std::to_string( n ); }
      else if ( op == "clear" ) x->clear_mapping();
      else if ( op == "map" ) {
        uint32_t k, p, c; is >> k >> p >> c; klut_mapping_params ps; ps.cut_enumeration_ps.cut_size = k; ps.cut_enumeration_ps.cut_limit = p;
        auto q = klut_mapping<V, true>( *x, ps ); r = "\"k\":" + std::to_string( k ) + ",\"choices\":" + std::to_string( c ) + ",\"area\":" + std::to_string( int64_t( q.area ) ) + ",\"delay\":" + std::to_string( int64_t( q.delay ) );
      } else if ( op == "klut" ) {
        int how; is >> how; klut_network k;
        if ( how == 0 ) { auto o = network_to_klut<klut_network>( *x ); res = o.has_value(); if ( o ) k = *o; }
        else if ( how == 1 ) { auto o = choice_to_klut<klut_network>( *x ); res = o.has_value(); if ( o ) k = *o; }
        else if ( how == 2 ) res = network_to_klut( k, *x );
        else res = choice_to_klut( k, *x );
        r = "\"how\":" + std::to_string( how ) + ( res ? ",\"post\":" + klut_dump( k ) : "" );
      } else if ( op == "aig" ) { auto a = convert_mapped_graph_to_aig( *x ); r = "\"post\":" + dump( a ); }
      else if ( op == "check" ) { int how; is >> how; res = how == 0 ? debug_mapped_aig_by_origin( *x ) : how == 1 ? debug_mapped_aig_by_origin_parallel( *x ) : debug_mapped_aig_by_converted_miter( *x ); r = "\"how\":" + std::to_string( how ); }
      else return 3;
      std::string q; for ( auto const& y : vs ) put( q, show( y ) );
      put( r, "\"net\":" + std::to_string( dump( *w ) == net ) + ",\"views\":[" + q + "]" );
    }
    std::string o = "{\"op\":\"" + op + "\",\"v\":" + std::to_string( v ) + ",\"res\":" + std::to_string( res ) + "," + r + "}\n";
    for ( size_t i = 0; i < o.size(); ) { auto k = write( keep, o.data() + i, o.size() - i ); if ( k <= 0 ) return 2; i += k; }
  }
}
