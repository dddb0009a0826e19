// Executes calls on an aig_network, one per input line, and shows the network after each one as JSON.
#include "aigdump.hpp"
#include "klutdump.hpp"
// every second value from the partial simulator: patterns added one by one, simulated incrementally
static std::string partial_sims( A const& a ) {
  uint32_t np = a.num_pis(); if ( np > 5 || np == 0 || a.num_pos() == 0 ) return "\"psims\":[]";
  std::vector<kitty::partial_truth_table> pats( np ); partial_simulator sim( np, 0 );
  unordered_node_map<kitty::partial_truth_table, A> m( a );
  for ( uint32_t x = 0; x < ( 1u << np ); ++x ) {
    std::vector<bool> p; for ( uint32_t i = 0; i < np; ++i ) p.push_back( x >> i & 1 );
    sim.add_pattern( p );
    if ( x == 0 ) simulate_nodes( a, m, sim, true ); else simulate_nodes( a, m, sim, false );
  }
  std::vector<std::string> r;
  a.foreach_po( [&]( auto const& f ) {
    auto t = m[a.get_node( f )]; bool c = a.is_complemented( f );
    r.push_back( words( 1u << np, [&]( uint64_t b ) { return bool( kitty::get_bit( t, b ) ) != c; } ) ); } );
  return "\"psims\":" + arr( r );
}
int main() {
  auto a = std::make_unique<A>(); views<A> vw; Log g; watch( *a, g );
  std::string line;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op; is >> op; std::vector<uint64_t> v; uint64_t x; while ( is >> x ) v.push_back( x );
    A* x_ = vw.v ? static_cast<A*>( vw.v.get() ) : a.get(); g = Log(); int64_t res = -1; std::vector<S> s; for ( auto y : v ) s.push_back( sig( *a, y ) );
    std::string post, more;
    if ( op == "new" ) { vw.v.reset(); vw.t.reset(); a = std::make_unique<A>(); watch( *a, g ); }
    else if ( op == "po" ) res = vw.v ? vw.v->create_po( s[0] ) : a->create_po( s[0] );
    else if ( build_op( x_, *a, op, v, s, res ) ) {}
    else if ( op == "find" ) res = a->find_and( s[0], s[1] );
    else if ( op == "subst" ) { a->substitute_node( s[0].index, s[1] ); }
    else if ( op == "substs" ) {
      std::list<std::pair<N, S>> l; for ( size_t i = 0; i + 1 < s.size(); i += 2 ) l.emplace_back( N( s[i].index ), s[i + 1] );
      a->substitute_nodes( l );
    }
    else if ( op == "cleanup" ) { A b = cleanup_dangling( *a, v.size() > 0 && v[0], v.size() > 1 && v[1] ); post = dump( b ); std::vector<int> r; for ( uint64_t n = 0; n < a->size(); ++n ) r.push_back( a->fanout_size( n ) ); more = ",\"srefs\":" + arr( r ); }
    else if ( op == "toklut" ) { klut_network b = cleanup_dangling<A, klut_network>( *a ); more = ",\"klut\":" + klut_dump( b ); }
    else if ( op == "sim" ) more = "," + sims( *a ) + "," + partial_sims( *a );
    else if ( op == "view" ) vw.make( *a, v );
    else if ( op == "vcopy" ) { auto c = std::make_unique<views<A>::view>( *vw.v ); vw.v = std::move( c ); }
    else if ( op == "vupdate" ) vw.v->update_levels();
    else if ( op == "vdrop" ) vw.v.reset();
    else if ( op == "tkeep" ) { vw.t = s.empty() ? std::make_unique<topo_view<A>>( *a ) : std::make_unique<topo_view<A>>( *a, s[0] ); more = "," + topo_dump( *vw.t, a->size() ); }
    else if ( op == "tupdate" ) { vw.t->update_topo(); more = "," + topo_dump( *vw.t, a->size() ); }
    else if ( op == "ro" ) { auto f = x_->create_ro(); res = a->get_node( f ); }
    else if ( op == "ri" ) res = x_->create_ri( s[0], 0 );
    else if ( op == "topo" ) { if ( s.empty() ) { topo_view<A> t( *a ); more = "," + topo_dump( t, a->size() ); } else { topo_view<A> t( *a, s[0] ); more = "," + topo_dump( t, a->size() ); } }
    else { std::cerr << "unknown call\n"; return 3; }
    if ( post.empty() ) post = dump( *a );
    std::cout << "{\"op\":\"" << op << "\",\"res\":" << res << ",\"add\":[" << g.add << "],\"mod\":[" << g.mod << "],\"del\":[" << g.del << "],\"post\":" << post << more << "," << vw.show( *a ) << "}" << std::endl;
  }
}
