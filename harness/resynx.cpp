// Resynthesis: SOP factoring, the 4-input NPN library, SOP balancing.
#include "aigdump.hpp"
#include "optimization/detail/sop_refactoring.hpp"
#include "optimization/detail/node_rewriting.hpp"
#include "optimization/balancing.hpp"
#include "optimization/balancing/sop_balancing.hpp"
using TT = kitty::dynamic_truth_table;
int main() {
  auto a = std::make_unique<A>(); std::unique_ptr<node_rewriting<A>> lib; std::unique_ptr<sop_rebalancing<A>> reb = std::make_unique<sop_rebalancing<A>>(); std::string line;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op; is >> op; std::string r;
    if ( op == "net" ) {   // as in equivx: "op args;...", argument 2*r+c is result r
      a = std::make_unique<A>(); std::string part; std::vector<S> q{ a->get_constant( false ) };
      while ( std::getline( is, part, ';' ) ) {
        std::istringstream p( part ); std::string o; if ( !( p >> o ) ) continue; std::vector<uint64_t> v; uint64_t x; while ( p >> x ) v.push_back( x );
        std::vector<S> s; for ( auto y : v ) s.push_back( y & 1 ? !q[y >> 1] : q[y >> 1] ); int64_t res = -1;
        if ( o == "po" ) a->create_po( s[0] ); else if ( build_op( a.get(), *a, o, v, s, res ) ) q.push_back( sig( *a, res ) ); else std::exit( 3 );
      }
    } else if ( op == "balance" ) {
      uint32_t k, p, c, m; is >> k >> p >> c >> m; balancing_params ps; ps.cut_enumeration_ps.cut_size = k; ps.cut_enumeration_ps.cut_limit = p; ps.only_on_critical_path = c; ps.cut_enumeration_ps.minimize_truth_table = m;
      A b = balancing<A>( *a, *reb, ps ); r = ",\"out\":" + dump( b );
    } else {
      uint32_t n, x, y; std::string h; is >> n >> h >> x >> y; TT t( n ); kitty::create_from_hex_string( t, h );
      std::vector<S> l; std::vector<uint32_t> lev; uint64_t v; while ( l.size() < n && is >> v ) l.push_back( sig( *a, v ) ); while ( is >> v ) lev.push_back( v );
      std::vector<std::string> got; auto one = [&]( S s, uint32_t lv, uint32_t c ) { got.push_back( arr( std::vector<uint64_t>{ lit( *a, s ), lv, c } ) ); };
      std::vector<uint64_t> ls; for ( auto s : l ) ls.push_back( lit( *a, s ) );
      if ( op == "fact" ) sop_factoring<A>()( *a, t, l.begin(), l.end(), [&]( S const& s ) { one( s, 0, 0 ); return true; } );
      else if ( op == "npn" ) { if ( !lib ) lib = std::make_unique<node_rewriting<A>>(); ( *lib )( *a, t, l.begin(), l.end(), [&]( S const& s ) { one( s, 0, 0 ); return x == 0 || got.size() < x; } ); }
      else if ( op == "reb" ) {
        std::vector<arrival_time_pair<A>> in; for ( uint32_t i = 0; i < n; ++i ) in.push_back( { l[i], lev[i] } );
        ( *reb )( *a, t, in, x, y, [&]( arrival_time_pair<A> const& c, uint32_t cost ) { one( c.f, c.level, cost ); } );
      } else std::exit( 3 );
      r = ",\"n\":" + std::to_string( n ) + ",\"tt\":" + ttwords( t ) + ",\"x\":" + std::to_string( x ) + ",\"y\":" + std::to_string( y ) + ",\"leaves\":" + arr( ls ) + ",\"lev\":" + arr( lev ) + ",\"got\":" + arr( got );
    }
    std::cout << "{\"op\":\"" << op << "\",\"res\":0,\"post\":" << dump( *a ) << r << "}" << std::endl;
  }
}
