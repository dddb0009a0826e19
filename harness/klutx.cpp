// Executes calls on a klut_network, one per input line, and shows the network after each one as JSON.
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
#include "algorithms/cleanup.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
#include "netx.hpp"
#include "klutdump.hpp"
using K = klut_network;
static std::string aig_net( aig_network const& a ) {
  std::vector<std::string> fi; std::vector<uint64_t> dead, pis, outs;
  for ( uint64_t n = 0; n < a.size(); ++n ) {
    std::vector<uint64_t> f; if ( !a.is_constant( n ) && !a.is_ci( n ) ) a.foreach_fanin( n, [&]( auto const& s ) { f.push_back( 2 * a.get_node( s ) + ( a.is_complemented( s ) ? 1 : 0 ) ); } );
    fi.push_back( arr( f ) ); dead.push_back( a.is_dead( n ) );
  }
  a.foreach_pi( [&]( auto n ) { pis.push_back( n ); } );
  a.foreach_po( [&]( auto const& s ) { outs.push_back( 2 * a.get_node( s ) + ( a.is_complemented( s ) ? 1 : 0 ) ); } );
  return "{\"fi\":" + arr( fi ) + ",\"dead\":" + arr( dead ) + ",\"pis\":" + arr( pis ) + ",\"outs\":" + arr( outs ) + "}";
}
struct Log { std::string add, mod, del; };
static void watch( K& a, Log& g ) {
  a.events().on_add.push_back( [&g]( auto const& n ) { put( g.add, std::to_string( n ) ); } );
  a.events().on_modified.push_back( [&g]( auto const& n, auto const& c ) { std::vector<uint64_t> f( c.begin(), c.end() ); put( g.mod, "[" + std::to_string( n ) + "," + arr( f ) + "]" ); } );
  a.events().on_delete.push_back( [&g]( auto const& n ) { put( g.del, std::to_string( n ) ); } );
}
int main() {
  auto a = std::make_unique<K>(); views<K> vw; Log g; watch( *a, g );
  std::string line;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op; is >> op; std::vector<uint64_t> s; std::string w; std::string hex;
    while ( is >> w ) { if ( w[0] == 'x' ) hex = w.substr( 1 ); else s.push_back( std::stoull( w ) ); }
    K* x = vw.v ? static_cast<K*>( vw.v.get() ) : a.get(); g = Log(); int64_t res = -1; std::string post, more;
    if ( op == "new" ) { vw.v.reset(); vw.t.reset(); a = std::make_unique<K>(); watch( *a, g ); }
    else if ( op == "pi" ) res = x->create_pi();
    else if ( op == "po" ) res = vw.v ? vw.v->create_po( s[0] ) : a->create_po( s[0] );
    else if ( op == "const" ) res = x->get_constant( s[0] );
    else if ( op == "buf" ) res = x->create_buf( s[0] );
    else if ( op == "not" ) res = x->create_not( s[0] );
    else if ( op == "and" ) res = x->create_and( s[0], s[1] );
    else if ( op == "or" ) res = x->create_or( s[0], s[1] );
    else if ( op == "lt" ) res = x->create_lt( s[0], s[1] );
    else if ( op == "le" ) res = x->create_le( s[0], s[1] );
    else if ( op == "xor" ) res = x->create_xor( s[0], s[1] );
    else if ( op == "maj" ) res = x->create_maj( s[0], s[1], s[2] );
    else if ( op == "ite" ) res = x->create_ite( s[0], s[1], s[2] );
    else if ( op == "xor3" ) res = x->create_xor3( s[0], s[1], s[2] );
    else if ( op == "nary_and" ) res = x->create_nary_and( s );
    else if ( op == "nary_or" ) res = x->create_nary_or( s );
    else if ( op == "nary_xor" ) res = x->create_nary_xor( s );
    else if ( op == "node" ) { kitty::dynamic_truth_table t( s.size() ); kitty::create_from_hex_string( t, hex ); res = x->create_node( s, t ); }
    else if ( op == "clone" ) { std::vector<uint64_t> c( s.begin() + 1, s.end() ); K other = *a; res = x->clone_node( other, s[0], c ); }
    else if ( op == "subst" ) x->substitute_node( s[0], s[1] );
    else if ( op == "cleanup" ) { K b = cleanup_dangling( *a, s.size() > 0 && s[0], s.size() > 1 && s[1] ); post = klut_dump( b ); }
    else if ( op == "cleanluts" ) { K b = cleanup_luts( *a ); post = klut_dump( b ); }
    else if ( op == "toaig" ) more = ",\"aig\":" + aig_net( convert_klut_to_aig( *a ) );
    else if ( op == "sim" ) more = "," + sims( *a ) + ",\"psims\":[]";
    else if ( op == "view" ) vw.make( *a, s );
    else if ( op == "vcopy" ) { auto c = std::make_unique<views<K>::view>( *vw.v ); vw.v = std::move( c ); }
    else if ( op == "vupdate" ) vw.v->update_levels();
    else if ( op == "vdrop" ) vw.v.reset();
    else if ( op == "tkeep" ) { vw.t = s.empty() ? std::make_unique<topo_view<K>>( *a ) : std::make_unique<topo_view<K>>( *a, s[0] ); more = "," + topo_dump( *vw.t, a->size() ); }
    else if ( op == "tupdate" ) { vw.t->update_topo(); more = "," + topo_dump( *vw.t, a->size() ); }
    else if ( op == "ro" ) { auto f = x->create_ro(); res = a->get_node( f ); }
    else if ( op == "ri" ) res = x->create_ri( s[0], 0 );
    else if ( op == "topo" ) { if ( s.empty() ) { topo_view<K> t( *a ); more = "," + topo_dump( t, a->size() ); } else { topo_view<K> t( *a, s[0] ); more = "," + topo_dump( t, a->size() ); } }
    else { std::cerr << "unknown call\n"; return 3; }
    if ( post.empty() ) post = klut_dump( *a );
    std::cout << "{\"op\":\"" << op << "\",\"res\":" << res << ",\"add\":[" << g.add << "],\"mod\":[" << g.mod << "],\"del\":[" << g.del << "],\"post\":" << post << more << "," << vw.show( *a ) << "}" << std::endl;
  }
}
